//! C22: heap and stack.

use super::kem::{C09Case, C09};
use crate::engine::*;
use crate::ffi::{Feed, Meter, Res};
use crate::gen::*;
use proptest::prelude::*;
use refmodel::Params;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C22Case {
    /// an operation, performed twice
    Op(C09Case),
    /// key generation or encapsulation whose request of that number fails with that error after so many bytes
    Fault { enc: bool, request: u8, code: i32, fill: u16 },
    /// one long request
    Long { st: St, len: u32 },
    /// so many different operations, one after the other
    Row { seed: u64, n: u32 },
}
pub struct C22;

const STACK: u64 = 128 << 10;
const HEAP: i64 = 1 << 20;
/// what may stay allocated after many operations
const KEPT: i64 = 64 << 10;

fn bounds(what: &str, m: &Meter) -> Result<(), String> {
    if m.stack > STACK {
        return Err(format!("{what}: {} bytes of stack", m.stack));
    }
    if m.peak > HEAP {
        return Err(format!("{what}: {} bytes of heap at a time", m.peak));
    }
    Ok(())
}

impl Prop for C22 {
    type Case = C22Case;
    const ID: &'static str = "C22";
    const RULE: &'static str = "a case is an operation with its complete input (as C09), a key generation or encapsulation whose RNG fails, a generator request of up to 8 MB, or a row of up to 3000 different operations. The shim's allocator counts what the operating thread allocates, and the stack below the operation is marked beforehand. Stack and heap in use stay below the limits; an operation that is repeated leaves no additional heap memory allocated; a row of operations leaves at most 64 KiB. Every case is non-trivial.";
    fn strategy(&self, p: &Params, v: usize) -> BoxedStrategy<C22Case> {
        prop_oneof![
            12 => C09.strategy(p, v).prop_map(C22Case::Op),
            2 => (any::<bool>(), 0u8..2, prop_oneof![1i32..1000, 1000i32..1260], 0u16..5000)
                .prop_map(|(enc, request, code, fill)| C22Case::Fault { enc, request, code, fill }),
            1 => (st(), 0u32..300_000).prop_map(|(st, len)| C22Case::Long { st, len }),
        ]
        .boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 4_000,
            Tier::Thorough => 60_000,
        }
    }
    fn pinned(&self, t: Tier, _p: &Params) -> Vec<C22Case> {
        let n = if t == Tier::Quick { 3_000 } else { 20_000 };
        let mut v: Vec<C22Case> = (0..8).map(|seed| C22Case::Row { seed, n }).collect();
        for len in [1 << 20, (1 << 21) + 1, 8 << 20] {
            v.push(C22Case::Long { st: St::Seed(Fill::Rand(7)), len });
        }
        v
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["what an operation does on threads of its own is not counted".into()]
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C22Case) -> Result<Obs, String> {
        let libs = [env.lib(v, false), env.lib(v, true)];
        let start = || libs.iter().for_each(|l| drop(l.meter(true)));
        let stop = || libs.map(|l| l.meter(false));
        let result = match c {
            C22Case::Op(o) => {
                let mut r = Ok(());
                for _ in 0..2 {
                    start();
                    r = C09.run(env, p, v, o).map(|_| ());
                }
                let m = stop();
                if r.is_err() {
                    // C09 answers for this
                    return Ok(Obs::trivial("operation did not succeed"));
                }
                for m in &m {
                    bounds("operation", m)?;
                    if m.kept != 0 {
                        return Err(format!("{} bytes stay allocated after the repetition of an operation", m.kept));
                    }
                }
                "operation"
            }
            C22Case::Fault { enc, request, code, fill } => {
                let mut r = Sm(hash_of((enc, request, code, fill)));
                let b = r.bytes(p.sample_bytes() + 32);
                let pk = r.bytes(p.pk);
                for l in libs {
                    for _ in 0..2 {
                        l.meter(true);
                        let mut feed = Feed::new(&b);
                        feed.faults.push((*request as usize, *code, *fill as usize));
                        let x = if *enc {
                            l.enc_into(&mut feed, &pk, &mut vec![0; p.ct], &mut [0; 32])
                        } else {
                            l.keypair_into(&mut feed, &mut vec![0; p.pk], &mut vec![0; p.sk])
                        };
                        if let Res::Panic(_) = x {
                            l.meter(false);
                            return Ok(Obs::trivial("operation did not succeed"));
                        }
                    }
                    let m = l.meter(false);
                    bounds("operation with a failing RNG", &m)?;
                    if m.kept != 0 {
                        return Err(format!("{} bytes stay allocated after an operation whose RNG failed", m.kept));
                    }
                }
                "failing RNG"
            }
            C22Case::Long { st, len } => {
                for l in libs {
                    let mut b = vec![0; *len as usize];
                    let mut a = l.aes();
                    a.set(&st.model());
                    l.meter(true);
                    let r = a.random(&mut b);
                    let m = l.meter(false);
                    if r != Res::Ok {
                        return Ok(Obs::trivial("operation did not succeed"));
                    }
                    bounds(&format!("request of {len} bytes"), &m)?;
                }
                "long request"
            }
            C22Case::Row { seed, n } => {
                let l = libs[*seed as usize % 2];
                let mut r = Sm(env.seed ^ seed.wrapping_mul(0x9e37_79b9_7f4a_7c15));
                l.meter(true);
                let mut kp = l.keypair(&r.bytes(p.sample_bytes() + 32))?;
                for i in 0..*n {
                    let b = r.bytes(p.sample_bytes() + 32);
                    let x = match i % 8 {
                        0 if i % 64 == 0 => l.keypair(&b).map(|k| kp = k),
                        0..=2 => l.enc(&kp.pk, &b).and_then(|(ct, _)| l.dec(&ct, &kp.sk)).map(|_| ()),
                        3 => l.enc(&r.bytes(p.pk), &b).map(|_| ()),
                        4 => l.dec(&r.bytes(p.ct), &kp.sk).map(|_| ()),
                        5 => {
                            let mut feed = Feed::new(&b);
                            feed.faults.push((0, 1 + i as i32, i as usize % 400));
                            l.enc_into(&mut feed, &kp.pk, &mut vec![0; p.ct], &mut [0; 32]);
                            Ok(())
                        }
                        6 => {
                            let mut feed = Feed::new(&b);
                            feed.faults.push((0, 1000 + i as i32 % 260, i as usize % 400));
                            l.keypair_into(&mut feed, &mut vec![0; p.pk], &mut vec![0; p.sk]);
                            Ok(())
                        }
                        _ => {
                            let mut a = l.aes();
                            a.init(&r.bytes(48).try_into().unwrap());
                            a.random(&mut vec![0; i as usize % 700]);
                            Ok(())
                        }
                    };
                    if x.is_err() {
                        l.meter(false);
                        return Ok(Obs::trivial("operation did not succeed"));
                    }
                }
                let m = l.meter(false);
                bounds("row of operations", &m)?;
                if m.kept > KEPT {
                    return Err(format!("{} bytes stay allocated after {} different operations", m.kept, m.operations));
                }
                "row of operations"
            }
        };
        Ok(Obs::ok(vec![result]))
    }
}
