//! Executes single operations given as lines of text, so that the same operation can be run
//! on other platforms (wasm32 in node, s390x in Miri) and under memory checkers.
//!
//!   K <bytes>              key generation with these RNG bytes     -> pk sk
//!   k <state>              key generation with the generator       -> pk sk state
//!   E <pk> <bytes>         encapsulation with these RNG bytes      -> ct ss
//!   e <pk> <state>         encapsulation with the generator        -> ct ss state
//!   D <ct> <sk>            decapsulation                           -> ss
//!   R <state> <seed|-> <lengths>   generator requests              -> bytes, state
//!
//! A line may begin with @<n>: the buffers then start n bytes (and 3n+1, 5n+2, modulo 16) into
//! their allocation; they always extend to its very end.
//!
//! Bytes are in hex; a state is key, counter block and call counter (big-endian), 52 bytes.
//! Answers: "ok <hex>" or "err".

use ntrust_native::*;
use std::error::Error;

pub mod vg;

/// Which memory checker requests accompany an operation.
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// none
    Plain,
    /// output buffers start undefined and must be defined afterwards
    Fresh,
    /// secret inputs are undefined while the operation runs
    Taint,
}

struct Feed {
    data: Vec<u8>,
    pos: usize,
}
impl RNGState for Feed {
    fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn Error>> {
        for b in x.iter_mut() {
            *b = match self.data.get(self.pos) {
                Some(d) => *d,
                None => (self.pos as u8).wrapping_mul(101) ^ (self.pos >> 8) as u8,
            };
            self.pos += 1;
        }
        Ok(())
    }
    fn randombytes_init(&mut self, _: [u8; 48]) {}
}

/// A caller's buffer.
struct Buf<const N: usize>(Box<[u8]>);
impl<const N: usize> Buf<N> {
    fn new(at: usize) -> Buf<N> {
        Buf(vec![0; N + at % 16].into_boxed_slice())
    }
    fn of(b: Vec<u8>, at: usize) -> Option<Buf<N>> {
        let mut r = Buf::new(at);
        if b.len() != N {
            return None;
        }
        r.copy_from_slice(&b);
        Some(r)
    }
}
impl<const N: usize> std::ops::Deref for Buf<N> {
    type Target = [u8; N];
    fn deref(&self) -> &[u8; N] {
        self.0[self.0.len() - N..].try_into().unwrap()
    }
}
impl<const N: usize> std::ops::DerefMut for Buf<N> {
    fn deref_mut(&mut self) -> &mut [u8; N] {
        let start = self.0.len() - N;
        (&mut self.0[start..]).try_into().unwrap()
    }
}

fn unhex(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    let d = |c: u8| (c as char).to_digit(16).map(|x| x as u8);
    b.chunks(2).map(|c| Some(d(c[0])? << 4 | d(c[1])?)).collect()
}
fn hex(v: &[u8]) -> String {
    let t = b"0123456789abcdef";
    let mut s = String::with_capacity(2 * v.len());
    for x in v {
        s.push(t[(x >> 4) as usize] as char);
        s.push(t[(x & 15) as usize] as char);
    }
    s
}
fn state(b: &[u8]) -> Option<AesState> {
    let mut a = AesState::new();
    a.key.copy_from_slice(b.get(..32)?);
    a.v.copy_from_slice(b.get(32..48)?);
    a.reseed_counter = i32::from_be_bytes(b.get(48..52)?.try_into().ok()?);
    Some(a)
}
fn put(a: &AesState, out: &mut Vec<u8>) {
    out.extend(a.key);
    out.extend(a.v);
    out.extend(a.reseed_counter.to_be_bytes());
}

/// None: the line is not understood. Some(Err(..)): the operation failed.
pub fn exec(line: &str, mode: Mode) -> Option<Result<String, String>> {
    let mut w: Vec<&str> = line.split_whitespace().collect();
    let mut at = [0; 3];
    if let Some(n) = w.first()?.strip_prefix('@') {
        let n: usize = n.parse().ok()?;
        at = [n, 3 * n + 1, 5 * n + 2];
        w.remove(0);
    }
    let secret = |b: &[u8]| {
        if mode == Mode::Taint {
            vg::undefined(b)
        }
    };
    let fresh = |b: &mut [u8]| {
        if mode == Mode::Fresh {
            vg::undefined(b)
        }
    };
    let mut holes = false;
    let mut done = |b: &[u8]| {
        if mode == Mode::Fresh && vg::first_undefined(b) != 0 {
            holes = true;
        }
        if mode != Mode::Plain {
            vg::defined(b)
        }
    };
    let mut out = vec![];
    let r: Result<(), Box<dyn Error>> = match (*w.first()?, w.len()) {
        ("K", 2) => {
            let data = unhex(w[1])?;
            let mut pk = Buf::<CRYPTO_PUBLICKEYBYTES>::new(at[0]);
            let mut sk = Buf::<CRYPTO_SECRETKEYBYTES>::new(at[1]);
            fresh(&mut pk[..]);
            fresh(&mut sk[..]);
            secret(&data);
            let r = crypto_kem_keypair(&mut pk, &mut sk, &mut Feed { data, pos: 0 });
            done(&pk[..]);
            done(&sk[..]);
            out.extend(pk.iter().chain(sk.iter()));
            r
        }
        ("k", 2) => {
            let mut a = Box::new(state(&unhex(w[1])?)?);
            let mut pk = Buf::<CRYPTO_PUBLICKEYBYTES>::new(at[0]);
            let mut sk = Buf::<CRYPTO_SECRETKEYBYTES>::new(at[1]);
            fresh(&mut pk[..]);
            fresh(&mut sk[..]);
            secret(&a.key);
            secret(&a.v);
            let r = crypto_kem_keypair(&mut pk, &mut sk, &mut *a);
            done(&pk[..]);
            done(&sk[..]);
            done(&a.key);
            done(&a.v);
            out.extend(pk.iter().chain(sk.iter()));
            put(&a, &mut out);
            r
        }
        ("E", 3) => {
            let pk = Buf::<CRYPTO_PUBLICKEYBYTES>::of(unhex(w[1])?, at[0])?;
            let data = unhex(w[2])?;
            let mut ct = Buf::<CRYPTO_CIPHERTEXTBYTES>::new(at[1]);
            let mut ss = Buf::<CRYPTO_BYTES>::new(at[2]);
            fresh(&mut ct[..]);
            fresh(&mut ss[..]);
            secret(&data);
            let r = crypto_kem_enc(&mut ct, &mut ss, &pk, &mut Feed { data, pos: 0 });
            done(&ct[..]);
            done(&ss[..]);
            out.extend(ct.iter().chain(ss.iter()));
            r
        }
        ("e", 3) => {
            let pk = Buf::<CRYPTO_PUBLICKEYBYTES>::of(unhex(w[1])?, at[0])?;
            let mut a = Box::new(state(&unhex(w[2])?)?);
            let mut ct = Buf::<CRYPTO_CIPHERTEXTBYTES>::new(at[1]);
            let mut ss = Buf::<CRYPTO_BYTES>::new(at[2]);
            fresh(&mut ct[..]);
            fresh(&mut ss[..]);
            secret(&a.key);
            secret(&a.v);
            let r = crypto_kem_enc(&mut ct, &mut ss, &pk, &mut *a);
            done(&ct[..]);
            done(&ss[..]);
            done(&a.key);
            done(&a.v);
            out.extend(ct.iter().chain(ss.iter()));
            put(&a, &mut out);
            r
        }
        ("D", 3) => {
            let ct = Buf::<CRYPTO_CIPHERTEXTBYTES>::of(unhex(w[1])?, at[0])?;
            let sk = Buf::<CRYPTO_SECRETKEYBYTES>::of(unhex(w[2])?, at[1])?;
            let mut ss = Buf::<CRYPTO_BYTES>::new(at[2]);
            fresh(&mut ss[..]);
            secret(&sk[..]);
            let r = crypto_kem_dec(&mut ss, &ct, &sk);
            done(&ss[..]);
            out.extend(ss.iter());
            r
        }
        ("R", 4) => {
            let mut a = Box::new(state(&unhex(w[1])?)?);
            secret(&a.key);
            secret(&a.v);
            if w[2] != "-" {
                let seed = <[u8; 48]>::try_from(unhex(w[2])?).ok()?;
                secret(&seed);
                a.randombytes_init(seed);
            }
            let mut r = Ok(());
            for n in w[3].split(',') {
                let mut b = vec![0u8; n.parse().ok()?].into_boxed_slice();
                fresh(&mut b);
                r = a.randombytes(&mut b);
                done(&b);
                out.extend(b.iter());
                if r.is_err() {
                    break;
                }
            }
            done(&a.key);
            done(&a.v);
            put(&a, &mut out);
            r
        }
        _ => return None,
    };
    if holes {
        return Some(Err("undefined output".into()));
    }
    Some(match r {
        Ok(()) => Ok(hex(&out)),
        Err(e) => Err(e.to_string()),
    })
}

pub fn answer(line: &str, mode: Mode) -> String {
    match exec(line, mode) {
        None => "what?".into(),
        Some(Ok(s)) => format!("ok {s}"),
        Some(Err(s)) => format!("err {s}"),
    }
}

// ---- wasm ---------------------------------------------------------------------------------

#[cfg(target_arch = "wasm32")]
mod wasm {
    use std::cell::RefCell;
    thread_local! { static IO: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) }; }

    #[no_mangle]
    pub extern "C" fn request(len: usize) -> *mut u8 {
        IO.with(|b| {
            *b.borrow_mut() = vec![0; len];
            b.borrow_mut().as_mut_ptr()
        })
    }
    #[no_mangle]
    pub extern "C" fn run() -> usize {
        let line = IO.with(|b| String::from_utf8_lossy(&b.borrow()).into_owned());
        let a = super::answer(&line, super::Mode::Plain);
        IO.with(|b| {
            *b.borrow_mut() = a.into_bytes();
            b.borrow().len()
        })
    }
    #[no_mangle]
    pub extern "C" fn response() -> *const u8 {
        IO.with(|b| b.borrow().as_ptr())
    }
}
