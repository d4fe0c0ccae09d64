//! Operations executed by worker processes: on other platforms and under memory checkers.

use crate::engine::{Env, Tier};
use crate::ffi::{Lib, Res};
use crate::gen::hex;
use refmodel::Drbg;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, ExitStatus, Stdio};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

/// One operation with its complete input (see harness/worker).
#[derive(Clone)]
pub enum Op {
    Keypair(Vec<u8>),
    KeypairAes(Drbg),
    Enc(Vec<u8>, Vec<u8>),
    EncAes(Vec<u8>, Drbg),
    Dec(Vec<u8>, Vec<u8>),
    Random(Drbg, Option<[u8; 48]>, Vec<u32>),
}

fn state(d: &Drbg) -> Vec<u8> {
    [&d.key[..], &d.v[..], &d.counter.to_be_bytes()[..]].concat()
}

impl Op {
    pub fn line(&self) -> String {
        match self {
            Op::Keypair(b) => format!("K {}", hex(b)),
            Op::KeypairAes(d) => format!("k {}", hex(&state(d))),
            Op::Enc(pk, b) => format!("E {} {}", hex(pk), hex(b)),
            Op::EncAes(pk, d) => format!("e {} {}", hex(pk), hex(&state(d))),
            Op::Dec(ct, sk) => format!("D {} {}", hex(ct), hex(sk)),
            Op::Random(d, seed, lens) => {
                let l: Vec<String> = lens.iter().map(|x| x.to_string()).collect();
                let s = seed.map(|s| hex(&s)).unwrap_or("-".into());
                format!("R {} {s} {}", hex(&state(d)), l.join(","))
            }
        }
    }

    /// The answer of the build for this machine, in the form the workers give it.
    pub fn native(&self, lib: &Lib) -> String {
        let i = &lib.info;
        let (mut pk, mut sk) = (vec![0; i.pk], vec![0; i.sk]);
        let (mut ct, mut ss) = (vec![0; i.ct], vec![0; i.ss]);
        let mut out = vec![];
        let r = match self {
            Op::Keypair(b) => {
                let r = lib.keypair_into(&mut crate::ffi::Feed::new(b), &mut pk, &mut sk);
                out.extend([pk, sk].concat());
                r
            }
            Op::KeypairAes(d) => {
                let mut a = lib.aes();
                a.set(d);
                let r = a.keypair(&mut pk, &mut sk);
                out.extend([pk, sk, state(&a.get())].concat());
                r
            }
            Op::Enc(k, b) => {
                let r = lib.enc_into(&mut crate::ffi::Feed::new(b), k, &mut ct, &mut ss);
                out.extend([ct, ss].concat());
                r
            }
            Op::EncAes(k, d) => {
                let mut a = lib.aes();
                a.set(d);
                let r = a.enc(k, &mut ct, &mut ss);
                out.extend([ct, ss, state(&a.get())].concat());
                r
            }
            Op::Dec(c, s) => {
                let r = lib.dec_into(c, s, &mut ss);
                out.extend(ss);
                r
            }
            Op::Random(d, seed, lens) => {
                let mut a = lib.aes();
                a.set(d);
                let mut r = Res::Ok;
                if let Some(s) = seed {
                    r = a.init(s);
                }
                for n in lens {
                    if r == Res::Ok {
                        let mut b = vec![0; *n as usize];
                        r = a.random(&mut b);
                        out.extend(b);
                    }
                }
                out.extend(state(&a.get()));
                r
            }
        };
        match r {
            Res::Ok => format!("ok {}", hex(&out)),
            Res::Panic(_) => "panic".into(),
            _ => "err".into(),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    /// wasm32, executed by node
    Wasm,
    /// AddressSanitizer build
    Asan,
    /// valgrind, output buffers undefined before the operation
    Fresh,
    /// valgrind, secret inputs undefined
    Taint,
    /// the same, unoptimised build
    Taint0,
}

struct Remote {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}

/// The worker ended instead of answering.
pub struct Died {
    pub status: ExitStatus,
    pub stderr: String,
}

pub const ASAN_EXIT: i32 = 77;

fn command(env: &Env, v: usize, k: Kind) -> Command {
    let out = env.verif.join("target/out");
    let name = refmodel::ALL[v].name;
    match k {
        Kind::Wasm => {
            let mut c = Command::new("node");
            c.arg(env.verif.join("harness/worker/wasm.js")).arg(out.join(format!("{name}.wasm")));
            c
        }
        Kind::Asan => {
            let mut c = Command::new(out.join(format!("worker-{name}-asan")));
            c.env("ASAN_OPTIONS", format!("exitcode={ASAN_EXIT}:detect_leaks=0:detect_stack_use_after_return=1:symbolize=0"));
            c
        }
        Kind::Fresh | Kind::Taint | Kind::Taint0 => {
            let mut c = Command::new("valgrind");
            c.args(["-q", "--error-limit=no", "--expensive-definedness-checks=yes", "--log-file=/dev/null"]);
            c.arg(out.join(format!("worker{}-{name}", if k == Kind::Taint0 { "0" } else { "" })));
            c.arg(if k == Kind::Fresh { "fresh" } else { "taint" });
            c
        }
    }
}

/// Idle workers.
static POOL: Mutex<Option<HashMap<(usize, Kind), Vec<Remote>>>> = Mutex::new(None);

pub fn ask(env: &Env, v: usize, k: Kind, line: &str) -> Result<String, Died> {
    let idle = POOL.lock().unwrap().get_or_insert_with(HashMap::new).entry((v, k)).or_default().pop();
    let mut r = idle.unwrap_or_else(|| {
        let mut child = command(env, v, k)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(if k == Kind::Asan { Stdio::piped() } else { Stdio::inherit() })
            .spawn()
            .unwrap_or_else(|e| panic!("worker {k:?}: {e}"));
        let tx = child.stdin.take().unwrap();
        let rx = BufReader::new(child.stdout.take().unwrap());
        Remote { child, tx, rx }
    });
    let mut a = String::new();
    let sent = r.tx.write_all(format!("{line}\n").as_bytes()).and_then(|_| r.tx.flush());
    if sent.is_ok() {
        let _ = r.rx.read_line(&mut a);
    }
    if !a.ends_with('\n') {
        let mut stderr = String::new();
        if let Some(mut e) = r.child.stderr.take() {
            let _ = e.read_to_string(&mut stderr);
        }
        let status = r.child.wait().expect("worker");
        return Err(Died { status, stderr });
    }
    let a = a.trim_end().to_string();
    assert_ne!(a, "what?", "worker did not understand {}", &line[..line.len().min(80)]);
    POOL.lock().unwrap().as_mut().unwrap().get_mut(&(v, k)).unwrap().push(r);
    Ok(a)
}

/// Valgrind workers answer "<errors> <answer>".
pub fn ask_vg(env: &Env, v: usize, k: Kind, line: &str) -> Result<(usize, String), Died> {
    let a = ask(env, v, k, line)?;
    let (n, rest) = a.split_once(' ').expect("error count");
    Ok((n.parse().expect("error count"), rest.to_string()))
}

/// One operation on s390x (big-endian), in Miri: slow, a process each. None: there is not enough time for it.
pub fn miri(env: &Env, v: usize, line: &str) -> Option<String> {
    static END: OnceLock<Instant> = OnceLock::new();
    let all = if env.tier == Tier::Quick { 560 } else { 6000 };
    let end = END.get_or_init(|| Instant::now() + Duration::from_secs(all));
    let left = end.saturating_duration_since(Instant::now()).as_secs();
    if left == 0 {
        return None;
    }
    let mut child = Command::new("timeout")
        .args(["-k", "5", &left.to_string(), "bash"])
        .arg(env.verif.join("harness/worker/miri.sh"))
        .arg(refmodel::ALL[v].name)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("miri");
    child.stdin.take().unwrap().write_all(format!("{line}\n").as_bytes()).expect("miri");
    let o = child.wait_with_output().expect("miri");
    if matches!(o.status.code(), Some(124 | 137)) {
        return None;
    }
    let a = String::from_utf8_lossy(&o.stdout).trim_end().to_string();
    if !o.status.success() || a.is_empty() {
        panic!("miri: {}", String::from_utf8_lossy(&o.stderr));
    }
    Some(a)
}
