//! C18, C20: other platforms, memory checkers.

use crate::engine::*;
use crate::ffi::Lib;
use crate::gen::*;
use crate::props::kem::{public_key, secret_key, C09Case, Src, C09};
use crate::remote::{ask, ask_vg, miri, Kind, Op, ASAN_EXIT};
use proptest::prelude::*;
use refmodel::Params;
use serde::{Deserialize, Serialize};

impl C09Case {
    /// The operation with its inputs worked out (by the plain build).
    pub fn op(&self, p: &Params, lib: &Lib) -> Result<(Op, &'static str), String> {
        Ok(match self {
            C09Case::Keypair(Src::Feed(k)) => (Op::Keypair(k.bytes(p)), "key generation"),
            C09Case::Keypair(Src::Aes(st)) => (Op::KeypairAes(st.model()), "key generation, built-in generator"),
            C09Case::KeypairRaw(f) => (Op::Keypair(f.bytes(p.sample_bytes() + 32)), "key generation, raw bytes"),
            C09Case::Enc(k, Src::Feed(m)) => (Op::Enc(public_key(p, lib, k)?, m.bytes(p)), "encapsulation"),
            C09Case::Enc(k, Src::Aes(st)) => {
                (Op::EncAes(public_key(p, lib, k)?, st.model()), "encapsulation, built-in generator")
            }
            C09Case::EncRaw(a, b) => (Op::Enc(a.bytes(p.pk), b.bytes(p.sample_bytes())), "encapsulation, raw bytes"),
            C09Case::Dec(k, s, ct) => {
                let kp = lib.keypair(&k.bytes(p))?;
                let ct = ct.bytes(p, lib, &kp.pk)?;
                let sk = secret_key(p, &kp.sk, s, &ct);
                (Op::Dec(ct, sk), "decapsulation")
            }
            C09Case::DecRaw(a, b) => (Op::Dec(a.bytes(p.ct), b.bytes(p.sk)), "decapsulation, raw bytes"),
            C09Case::Random(st, seed, lens) => {
                let seed = seed.as_ref().map(|f| f.bytes(48).try_into().unwrap());
                (Op::Random(st.model(), seed, lens.clone()), "generator")
            }
        })
    }
}

/// "err <message>" and "err" are the same answer
fn kind_of(a: &str) -> &str {
    if a.starts_with("err") {
        "err"
    } else {
        a
    }
}
fn show(a: &str) -> &str {
    match a {
        "panic" | "err" => a,
        _ => "another result",
    }
}

// ---- C18 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C18Case {
    /// wasm32: 32 bits, little-endian
    Narrow(C09Case),
    /// s390x: 64 bits, big-endian
    Big(C09Case),
}
pub struct C18;

impl Prop for C18 {
    type Case = C18Case;
    const ID: &'static str = "C18";
    const RULE: &'static str = "a case is one operation with its complete input (as C09), run by the build for this machine and by a build for wasm32 (32-bit, executed by node) or, for the fixed cases, for s390x (64-bit big-endian, interpreted by Miri); all outputs are compared byte by byte. Every case is non-trivial.";
    fn strategy(&self, p: &Params, v: usize) -> BoxedStrategy<C18Case> {
        C09.strategy(p, v).prop_map(C18Case::Narrow).boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 2_000,
            Tier::Thorough => 40_000,
        }
    }
    fn pinned(&self, t: Tier, p: &Params) -> Vec<C18Case> {
        // key generation takes minutes in the interpreter
        let thorough = t == Tier::Thorough;
        let mut runner = fixed_runner(p);
        let mut some = |s: BoxedStrategy<Key>| sample(&mut runner, s);
        let mut all = vec![];
        if thorough || p.n == 509 || p.hrss {
            all.push(C09Case::Keypair(Src::Feed(some(plain_key(p)))));
        }
        let k = some(plain_key(p));
        let rounds = if thorough { 6 } else { 1 };
        for i in 0..rounds {
            let m = sample(&mut runner, msg(p));
            all.push(C09Case::Enc(Pk::Key(k.clone()), Src::Feed(m)));
            let ct = sample(&mut runner, crate::props::reject::ct(p));
            let sk = sample(&mut runner, crate::props::kem::sk_strategy());
            all.push(C09Case::Dec(k.clone(), sk, ct));
            let st = sample(&mut runner, st());
            all.push(C09Case::Random(st, Some(Fill::Rand(i)), vec![0, 1, 16, 61, 300]));
        }
        // an honest ciphertext, so that the whole of decapsulation counts
        let m = sample(&mut runner, msg(p));
        all.push(C09Case::Dec(k, crate::props::kem::Sk::Honest, crate::props::reject::Ct::Honest(m)));
        all.into_iter().map(C18Case::Big).collect()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "node and Miri execute wasm32 and s390x code as those platforms do".into(),
            "big-endian: fixed cases only (the interpreter is some 20000 times slower)".into(),
        ]
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C18Case) -> Result<Obs, String> {
        let lib = env.lib(v, false);
        let (C18Case::Narrow(x) | C18Case::Big(x)) = c;
        let Ok((op, label)) = x.op(p, lib) else {
            return Ok(Obs::trivial("preparation failed"));
        };
        let native = op.native(lib);
        let (there, place) = match c {
            C18Case::Narrow(_) => match ask(env, v, Kind::Wasm, &op.line()) {
                Ok(a) => (a, "wasm32 (32-bit)"),
                Err(d) => panic!("node ended: {}", d.status),
            },
            C18Case::Big(_) => match miri(env, v, &op.line()) {
                Some(a) => (a, "s390x (big-endian)"),
                None => return Ok(Obs::trivial("s390x: not finished in time")),
            },
        };
        if kind_of(&native) != kind_of(&there) {
            return Err(format!("{label}: {place} gives {}", show(kind_of(&there))));
        }
        Ok(Obs::ok(vec![label, place]))
    }
}

fn fixed_runner(p: &Params) -> proptest::test_runner::TestRunner {
    use proptest::test_runner::*;
    let cfg = Config { failure_persistence: None, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &refmodel::sha3_256(p.name.as_bytes())))
}
fn sample<T: std::fmt::Debug>(r: &mut proptest::test_runner::TestRunner, s: BoxedStrategy<T>) -> T {
    use proptest::strategy::ValueTree;
    s.new_tree(r).expect("generator").current()
}

// ---- C20 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C20Case {
    what: C09Case,
    /// also under valgrind
    deep: bool,
    /// alignment of the buffers
    #[serde(default)]
    at: u8,
}
pub struct C20;

impl Prop for C20 {
    type Case = C20Case;
    const ID: &'static str = "C20";
    const RULE: &'static str = "a case is one operation with its complete input (as C09), run in a build with AddressSanitizer, in exactly sized heap buffers, half of them not aligned; 1 in 12 also under valgrind, with heap-allocated output buffers that are undefined before the operation. Every case is non-trivial.";
    fn strategy(&self, p: &Params, v: usize) -> BoxedStrategy<C20Case> {
        (C09.strategy(p, v), prop_oneof![11 => Just(false), 1 => Just(true)], prop_oneof![1 => Just(0u8), 1 => 0u8..16])
            .prop_map(|(what, deep, at)| C20Case { what, deep, at })
            .boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 4_000,
            Tier::Thorough => 60_000,
        }
    }
    fn shard(&self) -> usize {
        32
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["AddressSanitizer and valgrind report the accesses they claim to report; an access that strays into another live object of the same allocation is not seen".into()]
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C20Case) -> Result<Obs, String> {
        let Ok((op, label)) = c.what.op(p, env.lib(v, false)) else {
            return Ok(Obs::trivial("preparation failed"));
        };
        let line = if c.at == 0 { op.line() } else { format!("@{} {}", c.at, op.line()) };
        let mut labels = vec![label];
        if c.at != 0 {
            labels.push("buffers not aligned");
        }
        match ask(env, v, Kind::Asan, &line) {
            Ok(_) => {}
            Err(d) if d.status.code() == Some(ASAN_EXIT) => {
                let what = d.stderr.lines().find(|l| l.contains("ERROR: AddressSanitizer")).unwrap_or("?");
                let what = what.split_once("AddressSanitizer: ").map(|x| x.1).unwrap_or(what);
                let what = what.split(" on ").next().unwrap_or("?");
                return Err(format!("{label}: AddressSanitizer reports {what}"));
            }
            Err(d) => {
                use std::os::unix::process::ExitStatusExt;
                // SIGSEGV, SIGBUS, SIGILL, SIGABRT: the operation destroyed the process
                match d.status.signal() {
                    Some(s @ (4 | 6 | 7 | 11)) => return Err(format!("{label}: the process was killed by signal {s}")),
                    _ => panic!("worker ended: {}: {}", d.status, d.stderr),
                }
            }
        }
        if c.deep {
            match ask_vg(env, v, Kind::Fresh, &line) {
                Ok((0, a)) if a == "err undefined output" => {
                    return Err(format!("{label}: part of the output is left undefined"))
                }
                Ok((0, _)) => labels.push("valgrind"),
                Ok((n, _)) => return Err(format!("{label}: valgrind reports {n} invalid or uninitialised accesses")),
                Err(d) => {
                    use std::os::unix::process::ExitStatusExt;
                    match d.status.signal() {
                        Some(s @ (4 | 6 | 7 | 11)) => {
                            return Err(format!("{label}: the process was killed by signal {s} (under valgrind)"))
                        }
                        _ => panic!("valgrind ended: {}", d.status),
                    }
                }
            }
        }
        Ok(Obs::ok(labels))
    }
}
