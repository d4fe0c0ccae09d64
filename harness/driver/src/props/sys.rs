//! C23: nothing but the arguments.

use super::kem::{C09Case, C09};
use super::reject::{C05Case, C05};
use crate::engine::*;
use crate::ffi::{Feed, Res};
use crate::gen::*;
use proptest::prelude::*;
use refmodel::Params;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C23Case {
    /// an operation
    Op(C09Case),
    /// decapsulation of valid and invalid ciphertexts
    Dec(C05Case),
    /// key generation or encapsulation whose request of that number fails with that error after so many bytes
    Fault { enc: bool, request: u8, code: i32, fill: u16 },
    /// making, copying, comparing, printing and dropping generators
    Object(St, St),
    /// one long request
    Long { st: St, len: u32 },
}
pub struct C23;

impl Prop for C23 {
    type Case = C23Case;
    const ID: &'static str = "C23";
    const RULE: &'static str = "a case is an operation with its complete input (as C09), a decapsulation of a valid or invalid ciphertext (as C05), a key generation or encapsulation whose RNG fails, the making, copying, comparing, printing and dropping of generators, or a long request. All calls of functions of the C library that reach the system (files, streams, processes, threads, clock, environment, random numbers, sockets) made by the operating thread while the operation runs are counted; standard output is flushed before the count is taken. There must be none. Non-trivial: at least one operation was executed.";
    fn strategy(&self, p: &Params, v: usize) -> BoxedStrategy<C23Case> {
        prop_oneof![
            8 => C09.strategy(p, v).prop_map(C23Case::Op),
            4 => C05.strategy(p, v).prop_map(C23Case::Dec),
            2 => (any::<bool>(), 0u8..2, prop_oneof![1i32..1000, 1000i32..1260], 0u16..5000)
                .prop_map(|(enc, request, code, fill)| C23Case::Fault { enc, request, code, fill }),
            1 => (st(), st()).prop_map(|(a, b)| C23Case::Object(a, b)),
            1 => (st(), 0u32..300_000).prop_map(|(st, len)| C23Case::Long { st, len }),
        ]
        .boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 5_000,
            Tier::Thorough => 80_000,
        }
    }
    fn pinned(&self, t: Tier, p: &Params) -> Vec<C23Case> {
        let mut v: Vec<C23Case> = C09.pinned(t, p).into_iter().map(C23Case::Op).collect();
        for enc in [false, true] {
            for request in 0..2 {
                for code in (1..4).chain(1000..1260) {
                    v.push(C23Case::Fault { enc, request, code, fill: 16 * (code % 40) as u16 });
                }
            }
        }
        for len in [1 << 20, (1 << 21) + 1, 8 << 20] {
            v.push(C23Case::Long { st: St::Seed(Fill::Rand(7)), len });
        }
        v
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the system is reached through the C library, as the standard library does".into()]
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C23Case) -> Result<Obs, String> {
        let libs = [env.lib(v, false), env.lib(v, true)];
        for l in libs {
            l.sys(true);
            l.sys_try();
            assert_eq!(l.sys(false).0.calls, 1, "a reading of the clock goes unnoticed");
            l.sys(true);
        }
        let (done, label) = match c {
            C23Case::Op(o) => (C09.run(env, p, v, o).is_ok(), "operation"),
            C23Case::Dec(o) => (C05.run(env, p, v, o).is_ok(), "decapsulation"),
            C23Case::Fault { enc, request, code, fill } => {
                let mut r = Sm(hash_of((enc, request, code, fill)));
                let b = r.bytes(p.sample_bytes() + 32);
                let pk = r.bytes(p.pk);
                let mut ok = true;
                for l in libs {
                    let mut feed = Feed::new(&b);
                    feed.faults.push((*request as usize, *code, *fill as usize));
                    let x = if *enc {
                        l.enc_into(&mut feed, &pk, &mut vec![0; p.ct], &mut [0; 32])
                    } else {
                        l.keypair_into(&mut feed, &mut vec![0; p.pk], &mut vec![0; p.sk])
                    };
                    ok &= !matches!(x, Res::Panic(_));
                }
                (ok, "failing RNG")
            }
            C23Case::Object(x, y) => {
                for l in libs {
                    let (mut a, mut b) = (l.aes(), l.aes_default());
                    a.set(&x.model());
                    b.set(&y.model());
                    let mut d = a.dup();
                    d.compare(&b);
                    d.dup_from(&b);
                    d.compare(&b);
                    for how in 0..4 {
                        d.text(how);
                    }
                }
                (true, "objects")
            }
            C23Case::Long { st, len } => {
                let mut ok = true;
                for l in libs {
                    let mut a = l.aes();
                    a.set(&st.model());
                    ok &= a.random(&mut vec![0; *len as usize]) == Res::Ok;
                }
                (ok, "long request")
            }
        };
        let seen = libs.map(|l| l.sys(false));
        if !done {
            // others answer for this
            return Ok(Obs::trivial("operation did not succeed"));
        }
        for (s, name) in &seen {
            if s.calls != 0 {
                return Err(format!("{label}: {} calls on the system, the first: {name}", s.calls));
            }
        }
        if seen.iter().all(|s| s.0.operations == 0) {
            return Ok(Obs::trivial("nothing executed"));
        }
        Ok(Obs::ok(vec![label]))
    }
}
