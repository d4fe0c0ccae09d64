//! C14: the executed edges and the addresses of loads and stores are the same for all secrets.

use crate::engine::*;
use crate::ffi::{Feed, Lib, Res, Trace};
use crate::gen::*;
use crate::props::kem::{secret_key, sk_strategy, Sk};
use crate::props::reject::{ct as ct_strategy, Ct};
use crate::remote::{ask_vg, Kind, Op};
use proptest::prelude::*;
use refmodel::{Drbg, Params};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Mutex;

/// Seen in the optimised build only: the compiler's doing, not a property of the code as written.
const OPT: &str = "difference only in the optimised build";
pub const LEVELS: [&str; 3] = ["traced0", "traced1", "traced3"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    Keypair(Key),
    KeypairRaw(Fill),
    Enc(Msg),
    EncRaw(Fill),
    Dec(Key, Sk, Ct),
    DecRaw(Fill, Fill),
    /// generator: state, optional reseed, request length from a small set
    Aes(St, bool, u8),
    AesKeypair(St),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C14Case {
    what: What,
    /// index into LEVELS; with undefined secrets under valgrind: 3: the optimised, 4: the unoptimised build
    level: u8,
}

#[derive(Clone)]
enum Job {
    Keypair(Vec<u8>),
    Enc(Vec<u8>),
    Dec(Vec<u8>, Vec<u8>),
    Aes(Drbg, Option<[u8; 48]>, usize),
    AesKeypair(Drbg),
}

/// Runs jobs of one library on one thread, always from the same stack frame and in the same
/// buffers, so that addresses can only depend on the code under test.
struct Worker {
    tx: Sender<Job>,
    rx: Receiver<(Trace, Res)>,
    base: HashMap<String, Trace>,
}

fn serve(lib: Lib, p: Params, rx: Receiver<Job>, tx: Sender<(Trace, Res)>) {
    let (mut pk, mut sk) = (vec![0u8; p.pk], vec![0u8; p.sk]);
    let (mut ct, mut ss) = (vec![0u8; p.ct], vec![0u8; 32]);
    let mut out = vec![0u8; 4096];
    let mut data = vec![0u8; 2 * p.sample_bytes() + 64];
    let (mut dsk, mut dct) = (vec![0u8; p.sk], vec![0u8; p.ct]);
    let epk = p.pack_q(&qvec(&p, &QPat::Rand(4711)));
    let mut aes = lib.aes();
    let mut kind: u8;
    let mut len = 0usize;
    let mut seed: Option<[u8; 48]> = None;
    while let Ok(job) = rx.recv() {
        match job {
            Job::Keypair(b) => {
                data[..b.len()].copy_from_slice(&b);
                kind = 0;
            }
            Job::Enc(b) => {
                data[..b.len()].copy_from_slice(&b);
                kind = 1;
            }
            Job::Dec(c, s) => {
                dct.copy_from_slice(&c);
                dsk.copy_from_slice(&s);
                kind = 2;
            }
            Job::Aes(d, s, n) => {
                aes.set(&d);
                seed = s;
                len = n;
                kind = 3;
            }
            Job::AesKeypair(d) => {
                aes.set(&d);
                kind = 4;
            }
        }
        let mut feed = Feed::new(&data);
        let r;
        lib.trace_on();
        match kind {
            0 => r = lib.keypair_into(&mut feed, &mut pk, &mut sk),
            1 => r = lib.enc_into(&mut feed, &epk, &mut ct, &mut ss),
            2 => r = lib.dec_into(&dct, &dsk, &mut ss),
            3 => {
                if let Some(s) = &seed {
                    aes.init(s);
                }
                r = aes.random(&mut out[..len]);
            }
            _ => r = aes.keypair(&mut pk, &mut sk),
        }
        let t = lib.trace_off();
        if tx.send((t, r)).is_err() {
            break;
        }
    }
}

impl Worker {
    fn go(&self, j: Job) -> Result<Trace, String> {
        self.tx.send(j).map_err(|_| "trace worker is gone")?;
        let (t, r) = self.rx.recv().map_err(|_| "trace worker is gone")?;
        if r != Res::Ok {
            return Err(format!("operation did not succeed: {r:?}"));
        }
        Ok(t)
    }
}

pub struct C14 {
    workers: Vec<[Mutex<Worker>; 3]>,
}

impl C14 {
    pub fn new(libs: Vec<[Lib; 3]>) -> C14 {
        let workers = libs
            .into_iter()
            .enumerate()
            .map(|(v, ls)| {
                ls.map(|lib| {
                    let (tx, jrx) = channel();
                    let (rtx, rx) = channel();
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn(move || serve(lib, refmodel::ALL[v], jrx, rtx))
                        .unwrap();
                    Mutex::new(Worker { tx, rx, base: HashMap::new() })
                })
            })
            .collect();
        C14 { workers }
    }
}

const LENS: [usize; 5] = [0, 16, 48, 61, 1024];

impl Prop for C14 {
    type Case = C14Case;
    const ID: &'static str = "C14";
    const RULE: &'static str = "a case is one operation with secret inputs (RNG bytes, secret keys incl. malformed ones, honest and crafted ciphertexts, generator states) executed in a build instrumented by LLVM SanitizerCoverage at opt-level 0, 1 or 3 (-C codegen-units=1); the hash and number of executed edges, load addresses and store addresses must equal those of a reference run of the same operation. 2 in 14 cases instead run the uninstrumented release or opt-level 0 build under valgrind with all secret inputs marked undefined: no branch or address of the machine code may depend on them, whatever their values. A difference in an optimised build counts if the same inputs show one at opt-level 0 too; otherwise it is only listed. Every case whose operation completes is non-trivial.";
    fn strategy(&self, p: &Params, _v: usize) -> BoxedStrategy<C14Case> {
        let what = prop_oneof![
            3 => key(p).prop_map(What::Keypair),
            1 => fill().prop_map(What::KeypairRaw),
            6 => msg(p).prop_map(What::Enc),
            1 => fill().prop_map(What::EncRaw),
            10 => (plain_key(p), sk_strategy(), ct_strategy(p)).prop_map(|(a, b, c)| What::Dec(a, b, c)),
            1 => (fill(), fill()).prop_map(|(a, b)| What::DecRaw(a, b)),
            2 => (st(), any::<bool>(), 0u8..5).prop_map(|(a, b, c)| What::Aes(a, b, c)),
            1 => st().prop_map(What::AesKeypair),
        ];
        (what, prop_oneof![1 => Just(0u8), 3 => Just(1u8), 8 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8)])
            .prop_map(|(what, level)| C14Case { what, level })
            .boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 1_200,
            Tier::Thorough => 20_000,
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "SanitizerCoverage reports every edge and every load/store of the instrumented crates (ntrust_native and the shim); the aes and tiny-keccak crates and variable-latency instructions are outside the trace".into(),
            "64-bit trace hashes do not collide".into(),
            "valgrind's definedness tracking (the valgrind cases include aes and tiny-keccak)".into(),
        ]
    }
    fn shard(&self) -> usize {
        16
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C14Case) -> Result<Obs, String> {
        // inputs are prepared with the plain build
        let lib = env.lib(v, false);
        let n = p.sample_bytes();
        let prep = |k: &Key, s: &Sk, ct: &Ct| -> Result<(Vec<u8>, Vec<u8>), String> {
            let kp = lib.keypair(&k.bytes(p))?;
            let ct = ct.bytes(p, lib, &kp.pk)?;
            let sk = secret_key(p, &kp.sk, s, &ct);
            Ok((ct, sk))
        };
        let (name, label, job): (String, _, Job) = match &c.what {
            What::Keypair(k) => ("keypair".into(), "key generation", Job::Keypair(k.bytes(p))),
            What::KeypairRaw(f) => ("keypair".into(), "key generation", Job::Keypair(f.bytes(n + 32))),
            What::Enc(m) => ("enc".into(), "encapsulation", Job::Enc(m.bytes(p))),
            What::EncRaw(f) => ("enc".into(), "encapsulation", Job::Enc(f.bytes(n))),
            What::Dec(k, s, ct) => {
                let (a, b) = prep(k, s, ct)?;
                ("dec".into(), "decapsulation", Job::Dec(a, b))
            }
            What::DecRaw(a, b) => ("dec".into(), "decapsulation", Job::Dec(a.bytes(p.ct), b.bytes(p.sk))),
            What::Aes(st, reseed, l) => {
                let len = LENS[*l as usize % 5];
                let d = st.model();
                let seed = if *reseed { Some(Sm(d.counter as u64 ^ d.key[0] as u64).bytes(48).try_into().unwrap()) } else { None };
                (format!("aes {len} {reseed}"), "generator", Job::Aes(d, seed, len))
            }
            What::AesKeypair(st) => {
                ("aes keypair".into(), "key generation, built-in generator", Job::AesKeypair(st.model()))
            }
        };
        if c.level >= 3 {
            let op = match job {
                Job::Keypair(b) => Op::Keypair(b),
                Job::Enc(b) => Op::Enc(p.pack_q(&qvec(p, &QPat::Rand(4711))), b),
                Job::Dec(ct, sk) => Op::Dec(ct, sk),
                Job::Aes(d, s, n) => Op::Random(d, s, vec![n as u32]),
                Job::AesKeypair(d) => Op::KeypairAes(d),
            };
            let ask = |k| match ask_vg(env, v, k, &op.line()) {
                Ok((_, a)) if !a.starts_with("ok") => None,
                Ok((n, _)) => Some(n),
                Err(d) => panic!("valgrind ended: {}", d.status),
            };
            let seen = match ask(if c.level == 3 { Kind::Taint } else { Kind::Taint0 }) {
                None => return Ok(Obs::trivial("operation failed")),
                Some(0) => {
                    let l = ["undefined secrets", "undefined secrets, opt-level 0"][c.level as usize - 3];
                    return Ok(Obs::ok(vec![label, l]));
                }
                Some(n) => n,
            };
            if c.level == 3 && ask(Kind::Taint0) == Some(0) {
                return Ok(Obs::ok(vec![label, OPT]));
            }
            return Err(format!("{name} (valgrind): {seen} branches or addresses depend on the secret input"));
        }
        // the reference input of the same operation
        let reference = || -> Result<Job, String> {
            Ok(match &c.what {
                What::Keypair(_) | What::KeypairRaw(_) => Job::Keypair(Sm(1).bytes(n + 32)),
                What::Enc(_) | What::EncRaw(_) => Job::Enc(Sm(2).bytes(n)),
                What::Dec(..) | What::DecRaw(..) => {
                    let kp = lib.keypair(&Sm(3).bytes(n + 32))?;
                    let (ct, _) = lib.enc(&kp.pk, &Sm(4).bytes(n))?;
                    Job::Dec(ct, kp.sk)
                }
                What::Aes(_, reseed, l) => {
                    let mut d = Drbg::new();
                    d.init(&[9; 48]);
                    Job::Aes(d, if *reseed { Some([3; 48]) } else { None }, LENS[*l as usize % 5])
                }
                What::AesKeypair(_) => {
                    let mut d = Drbg::new();
                    d.init(&[8; 48]);
                    Job::AesKeypair(d)
                }
            })
        };
        let level = c.level as usize;
        // how the trace differs from that of the reference, if it does
        let differs = |level: usize, job: &Job| -> Result<Option<String>, String> {
            let mut w = match self.workers[v][level].lock() {
                Ok(w) => w,
                Err(e) => e.into_inner(),
            };
            let base = match w.base.get(&name) {
                Some(t) => *t,
                None => {
                    // twice: the first run may touch lazily initialised things
                    w.go(reference()?)?;
                    let t = w.go(reference()?)?;
                    let expect_events = !name.starts_with("aes") || name == "aes keypair";
                    if expect_events && t.count.iter().any(|n| *n < 1000) {
                        panic!("instrumentation is not effective: {t:?}");
                    }
                    w.base.insert(name.clone(), t);
                    t
                }
            };
            let t = w.go(job.clone())?;
            if t == base {
                return Ok(None);
            }
            // must reproduce, against a fresh reference run
            let b2 = w.go(reference()?)?;
            let t2 = w.go(job.clone())?;
            if b2 != base || t2 != t {
                panic!("unstable trace for {name}: {base:?} {b2:?} {t:?} {t2:?}");
            }
            let mut d = vec![];
            for (i, s) in ["executed edges", "load addresses", "store addresses"].iter().enumerate() {
                if t.hash[i] != base.hash[i] || t.count[i] != base.count[i] {
                    d.push(format!("{s} ({} events, reference {})", t.count[i], base.count[i]));
                }
            }
            Ok(Some(format!("{name} ({}): {} depend on the secret input", LEVELS[level], d.join(", "))))
        };
        match differs(level, &job) {
            Err(_) => return Ok(Obs::trivial("operation failed")),
            Ok(None) => {}
            Ok(Some(_)) if level > 0 && differs(0, &job)?.is_none() => return Ok(Obs::ok(vec![label, OPT])),
            Ok(Some(e)) => return Err(e),
        }
        Ok(Obs::ok(vec![label, ["opt-level 0", "opt-level 1", "opt-level 3"][level]]))
    }
}
