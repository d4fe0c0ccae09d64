//! C ABI around the *public* API of ntrust-native, so that one driver process can
//! load every variant in every build profile next to each other.
//!
//! Return codes: 0 = Ok, 1 = Err carrying the RNG's own error (code in `*err`),
//! 2 = some other Err, 3 = panic (message via `shim_last_panic`).

use ntrust_native::{crypto_kem_dec, crypto_kem_enc, crypto_kem_keypair, AesState, RNGState};
use ntrust_native::{
    CRYPTO_ALGNAME, CRYPTO_BYTES, CRYPTO_CIPHERTEXTBYTES, CRYPTO_PUBLICKEYBYTES,
    CRYPTO_SECRETKEYBYTES,
};
use std::cell::RefCell;
use std::error::Error;
use std::ffi::c_void;
use std::fmt;
use std::io::{self, ErrorKind};
use std::panic::{catch_unwind, AssertUnwindSafe};

mod meter;
mod sys;

#[cfg(feature = "ct")]
#[global_allocator]
static A: cttrace::TraceAlloc = cttrace::TraceAlloc;
#[cfg(not(feature = "ct"))]
#[global_allocator]
static A: meter::CountAlloc = meter::CountAlloc;

pub type RngCb = extern "C" fn(ctx: *mut c_void, buf: *mut u8, len: usize) -> i32;

#[derive(Debug)]
struct CbErr(i32);
impl Error for CbErr {}
impl fmt::Display for CbErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "injected RNG failure {}", self.0)
    }
}

/// An error without any text.
#[derive(Debug)]
struct Quiet;
impl Error for Quiet {}
impl fmt::Display for Quiet {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
/// An error with a cause.
#[derive(Debug)]
struct Caused(CbErr);
impl Error for Caused {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        Some(&self.0)
    }
}
impl fmt::Display for Caused {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "RNG failure with a cause")
    }
}

const KINDS: [ErrorKind; 20] = [
    ErrorKind::Interrupted,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
    ErrorKind::TimedOut,
    ErrorKind::Other,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::WriteZero,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::ConnectionRefused,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::AlreadyExists,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
];
const TEXT: &str = "injected text ";

/// Error values: most codes are a type of our own, those from 1000 on are of common types.
fn make(code: i32) -> Box<dyn Error> {
    let k = |base: i32| KINDS[(code - base) as usize % KINDS.len()];
    match code {
        1000..=1019 => Box::new(io::Error::from(k(1000))),
        1020..=1039 => Box::new(io::Error::new(k(1020), CbErr(code))),
        1040..=1139 => Box::new(io::Error::from_raw_os_error(code - 1039)),
        1200 => Box::new(fmt::Error),
        1201 => Box::new(<[u8; 4]>::try_from(&[0u8; 3][..]).unwrap_err()),
        1202 => Box::new(std::str::from_utf8(&[0xff]).unwrap_err()),
        1203 => Box::new("x".parse::<i32>().unwrap_err()),
        1204 => Box::new(u8::try_from(256i32).unwrap_err()),
        1205 => Box::new(Quiet),
        1206..=1249 => Box::new(Caused(CbErr(code))),
        1250..=1299 => format!("{TEXT}{code}").into(),
        _ => Box::new(CbErr(code)),
    }
}
/// The code of an error that `make` has made.
fn code_of(e: &(dyn Error + 'static)) -> Option<i32> {
    if let Some(c) = e.downcast_ref::<CbErr>() {
        return Some(c.0);
    }
    if let Some(c) = e.downcast_ref::<Caused>() {
        return Some(c.0 .0);
    }
    if let Some(i) = e.downcast_ref::<io::Error>() {
        if let Some(n) = i.raw_os_error() {
            return Some(1039 + n);
        }
        let k = KINDS.iter().position(|k| *k == i.kind())? as i32;
        return match i.get_ref() {
            None => Some(1000 + k),
            Some(c) => c.downcast_ref::<CbErr>().map(|c| c.0).filter(|c| *c == 1020 + k),
        };
    }
    let plain = [
        e.is::<fmt::Error>(),
        e.is::<std::array::TryFromSliceError>(),
        e.is::<std::str::Utf8Error>(),
        e.is::<std::num::ParseIntError>(),
        e.is::<std::num::TryFromIntError>(),
        e.is::<Quiet>(),
    ];
    if let Some(n) = plain.iter().position(|x| *x) {
        return Some(1200 + n as i32);
    }
    e.to_string().strip_prefix(TEXT)?.parse().ok()
}

struct CbRng {
    cb: RngCb,
    ctx: *mut c_void,
}
impl RNGState for CbRng {
    fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn Error>> {
        match (self.cb)(self.ctx, x.as_mut_ptr(), x.len()) {
            0 => Ok(()),
            e => Err(make(e)),
        }
    }
    fn randombytes_init(&mut self, mut e: [u8; 48]) {
        // reported to the driver as a request of the impossible length usize::MAX
        (self.cb)(self.ctx, e.as_mut_ptr(), usize::MAX);
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

#[no_mangle]
pub extern "C" fn shim_setup() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string().replace('\n', " ");
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = msg);
    }));
}

#[no_mangle]
pub unsafe extern "C" fn shim_last_panic(buf: *mut u8, cap: usize) -> usize {
    LAST_PANIC.with(|p| {
        let p = p.borrow();
        let n = p.len().min(cap);
        std::ptr::copy_nonoverlapping(p.as_ptr(), buf, n);
        n
    })
}

#[repr(C)]
pub struct Info {
    pk: usize,
    sk: usize,
    ct: usize,
    ss: usize,
    name: *const u8,
    name_len: usize,
    checked: u32,
}

#[no_mangle]
pub unsafe extern "C" fn shim_info(out: *mut Info) {
    *out = Info {
        pk: CRYPTO_PUBLICKEYBYTES,
        sk: CRYPTO_SECRETKEYBYTES,
        ct: CRYPTO_CIPHERTEXTBYTES,
        ss: CRYPTO_BYTES,
        name: CRYPTO_ALGNAME.as_ptr(),
        name_len: CRYPTO_ALGNAME.len(),
        checked: cfg!(debug_assertions) as u32,
    };
}

fn guard(err: *mut i32, f: impl FnOnce() -> Result<(), Box<dyn Error>>) -> i32 {
    meter::around(|| sys::during(|| attempt(err, f)))
}
fn attempt(err: *mut i32, f: impl FnOnce() -> Result<(), Box<dyn Error>>) -> i32 {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => 0,
        Ok(Err(e)) => match code_of(&*e) {
            Some(c) => {
                if !err.is_null() {
                    unsafe { *err = c };
                }
                1
            }
            None => 2,
        },
        Err(_) => 3,
    }
}

#[no_mangle]
pub unsafe extern "C" fn shim_keypair(
    pk: *mut u8,
    sk: *mut u8,
    cb: RngCb,
    ctx: *mut c_void,
    err: *mut i32,
) -> i32 {
    let pk = &mut *(pk as *mut [u8; CRYPTO_PUBLICKEYBYTES]);
    let sk = &mut *(sk as *mut [u8; CRYPTO_SECRETKEYBYTES]);
    guard(err, || crypto_kem_keypair(pk, sk, &mut CbRng { cb, ctx }))
}

#[no_mangle]
pub unsafe extern "C" fn shim_enc(
    ct: *mut u8,
    ss: *mut u8,
    pk: *const u8,
    cb: RngCb,
    ctx: *mut c_void,
    err: *mut i32,
) -> i32 {
    let ct = &mut *(ct as *mut [u8; CRYPTO_CIPHERTEXTBYTES]);
    let ss = &mut *(ss as *mut [u8; CRYPTO_BYTES]);
    let pk = &*(pk as *const [u8; CRYPTO_PUBLICKEYBYTES]);
    guard(err, || crypto_kem_enc(ct, ss, pk, &mut CbRng { cb, ctx }))
}

#[no_mangle]
pub unsafe extern "C" fn shim_dec(ss: *mut u8, ct: *const u8, sk: *const u8) -> i32 {
    let ss = &mut *(ss as *mut [u8; CRYPTO_BYTES]);
    let ct = &*(ct as *const [u8; CRYPTO_CIPHERTEXTBYTES]);
    let sk = &*(sk as *const [u8; CRYPTO_SECRETKEYBYTES]);
    guard(std::ptr::null_mut(), || crypto_kem_dec(ss, ct, sk))
}

// ---- AesState -------------------------------------------------------------

#[no_mangle]
pub extern "C" fn shim_aes_new(default: u32) -> *mut AesState {
    Box::into_raw(Box::new(sys::during(|| if default == 1 { AesState::default() } else { AesState::new() })))
}
#[no_mangle]
pub unsafe extern "C" fn shim_aes_clone(s: *const AesState) -> *mut AesState {
    Box::into_raw(Box::new(sys::during(|| (*s).clone())))
}
#[no_mangle]
pub unsafe extern "C" fn shim_aes_free(s: *mut AesState) {
    sys::during(|| drop(Box::from_raw(s)));
}
#[no_mangle]
pub unsafe extern "C" fn shim_aes_clone_from(a: *mut AesState, b: *const AesState) {
    sys::during(|| (*a).clone_from(&*b))
}
/// bit 0: equal, bit 1: not equal
#[no_mangle]
#[allow(clippy::nonminimal_bool)]
pub unsafe extern "C" fn shim_aes_eq(a: *const AesState, b: *const AesState) -> u32 {
    sys::during(|| (*a == *b) as u32 | ((*a != *b) as u32) << 1)
}
/// how: 0 Display, 1 Debug, 2 alternate Debug. Returns the length of the text.
#[no_mangle]
pub unsafe extern "C" fn shim_aes_text(s: *const AesState, how: u32, buf: *mut u8, cap: usize) -> usize {
    let t = sys::during(|| match how {
        0 => format!("{}", *s),
        1 => format!("{:?}", *s),
        2 => format!("{:#?}", *s),
        _ => format!("{:#}", *s),
    });
    std::ptr::copy_nonoverlapping(t.as_ptr(), buf, t.len().min(cap));
    t.len()
}
/// Takes only so many bytes.
struct Narrow<'a>(&'a mut String, usize);
impl fmt::Write for Narrow<'_> {
    fn write_str(&mut self, t: &str) -> fmt::Result {
        if self.0.len() + t.len() > self.1 {
            return Err(fmt::Error);
        }
        self.0.push_str(t);
        Ok(())
    }
}
/// As `shim_aes_text`, to a stream that fails rather than take more than `room` bytes. Returns whether the error
/// was reported.
#[no_mangle]
pub unsafe extern "C" fn shim_aes_text_fails(s: *const AesState, how: u32, room: usize) -> u32 {
    use fmt::Write;
    let mut t = String::new();
    let mut w = Narrow(&mut t, room);
    let r = match how {
        0 => write!(w, "{}", *s),
        1 => write!(w, "{:?}", *s),
        2 => write!(w, "{:#?}", *s),
        _ => write!(w, "{:#}", *s),
    };
    r.is_err() as u32
}
#[no_mangle]
pub unsafe extern "C" fn shim_aes_get(s: *const AesState, key: *mut u8, v: *mut u8, ctr: *mut i32) {
    std::ptr::copy_nonoverlapping((*s).key.as_ptr(), key, 32);
    std::ptr::copy_nonoverlapping((*s).v.as_ptr(), v, 16);
    *ctr = (*s).reseed_counter;
}
#[no_mangle]
pub unsafe extern "C" fn shim_aes_set(s: *mut AesState, key: *const u8, v: *const u8, ctr: i32) {
    let s = &mut *s;
    s.key.copy_from_slice(std::slice::from_raw_parts(key, 32));
    s.v.copy_from_slice(std::slice::from_raw_parts(v, 16));
    s.reseed_counter = ctr;
}
#[no_mangle]
pub unsafe extern "C" fn shim_aes_init(s: *mut AesState, seed: *const u8) -> i32 {
    let s = &mut *s;
    let e = *(seed as *const [u8; 48]);
    guard(std::ptr::null_mut(), || {
        s.randombytes_init(e);
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn shim_aes_random(s: *mut AesState, buf: *mut u8, len: usize) -> i32 {
    let s = &mut *s;
    let x = std::slice::from_raw_parts_mut(buf, len);
    guard(std::ptr::null_mut(), || s.randombytes(x))
}
#[no_mangle]
pub unsafe extern "C" fn shim_aes_keypair(s: *mut AesState, pk: *mut u8, sk: *mut u8) -> i32 {
    let pk = &mut *(pk as *mut [u8; CRYPTO_PUBLICKEYBYTES]);
    let sk = &mut *(sk as *mut [u8; CRYPTO_SECRETKEYBYTES]);
    guard(std::ptr::null_mut(), || crypto_kem_keypair(pk, sk, &mut *s))
}
#[no_mangle]
pub unsafe extern "C" fn shim_aes_enc(
    s: *mut AesState,
    ct: *mut u8,
    ss: *mut u8,
    pk: *const u8,
) -> i32 {
    let ct = &mut *(ct as *mut [u8; CRYPTO_CIPHERTEXTBYTES]);
    let ss = &mut *(ss as *mut [u8; CRYPTO_BYTES]);
    let pk = &*(pk as *const [u8; CRYPTO_PUBLICKEYBYTES]);
    guard(std::ptr::null_mut(), || crypto_kem_enc(ct, ss, pk, &mut *s))
}

// ---- resources (C22) --------------------------------------------------------

/// Results since the last call from this thread; further operations are measured if `on` is 1.
#[no_mangle]
pub unsafe extern "C" fn shim_meter(on: u32, out: *mut meter::Meter) {
    *out = meter::switch(on == 1);
}

// ---- use of the system (C23) --------------------------------------------------

/// As `shim_meter`. Returns 0 if nothing is counted in this build.
#[no_mangle]
pub unsafe extern "C" fn shim_sys(on: u32, out: *mut sys::Sys) -> u32 {
    *out = sys::switch(on == 1);
    cfg!(sys) as u32
}
#[no_mangle]
pub unsafe extern "C" fn shim_sys_name(i: u64, len: *mut usize) -> *const u8 {
    let n = sys::name(i);
    *len = n.len();
    n.as_ptr()
}
/// Reads a clock, as an operation.
#[no_mangle]
pub extern "C" fn shim_sys_try() {
    sys::during(|| std::hint::black_box(std::time::Instant::now()));
}

// ---- tracing (C14) ----------------------------------------------------------

#[cfg(feature = "ct")]
#[no_mangle]
pub extern "C" fn shim_trace_start() {
    cttrace::start();
}
#[cfg(feature = "ct")]
#[no_mangle]
pub unsafe extern "C" fn shim_trace_stop(out: *mut cttrace::Trace) {
    *out = cttrace::stop();
}
