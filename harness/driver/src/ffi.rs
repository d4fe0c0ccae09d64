//! Loading and calling the shims (C ABI around the public API of the code under test).

use refmodel::Params;
use std::ffi::{c_char, c_int, c_void, CStr, CString};

extern "C" {
    fn dlopen(file: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}

type RngCb = extern "C" fn(*mut c_void, *mut u8, usize) -> i32;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Ok,
    RngErr(i32),
    OtherErr,
    Panic(String),
}

#[repr(C)]
pub struct RawInfo {
    pk: usize,
    sk: usize,
    ct: usize,
    ss: usize,
    name: *const u8,
    name_len: usize,
    checked: u32,
}

#[derive(Clone, Debug)]
pub struct Info {
    pub pk: usize,
    pub sk: usize,
    pub ct: usize,
    pub ss: usize,
    pub name: String,
    pub checked: bool,
}

#[repr(C)]
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Trace {
    pub hash: [u64; 3],
    pub count: [u64; 3],
}

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Meter {
    pub kept: i64,
    pub peak: i64,
    pub stack: u64,
    pub operations: u64,
}

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Sys {
    pub operations: u64,
    pub calls: u64,
    pub first: u64,
}

/// What the code under test sees as its RNG.  Serves `data` as a byte stream and
/// records the requests; can fail chosen requests.
pub struct Feed<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub requests: Vec<usize>,
    /// request index -> (error code, bytes filled before failing)
    pub faults: Vec<(usize, i32, usize)>,
    pub reinit: usize,
    pub overrun: usize,
    /// called at every request, before it is served
    pub inside: Option<&'a mut dyn FnMut()>,
}

impl<'a> Feed<'a> {
    pub fn new(data: &'a [u8]) -> Feed<'a> {
        Feed { data, pos: 0, requests: Vec::with_capacity(8), faults: vec![], reinit: 0, overrun: 0, inside: None }
    }
}

extern "C" fn feed_cb(ctx: *mut c_void, buf: *mut u8, len: usize) -> i32 {
    let f = unsafe { &mut *(ctx as *mut Feed) };
    if len == usize::MAX {
        f.reinit += 1;
        return 0;
    }
    let idx = f.requests.len();
    f.requests.push(len);
    if let Some(g) = &mut f.inside {
        g();
    }
    let out = unsafe { std::slice::from_raw_parts_mut(buf, len) };
    if let Some(&(_, code, fill)) = f.faults.iter().find(|x| x.0 == idx) {
        for (i, b) in out.iter_mut().take(fill).enumerate() {
            *b = (i as u8).wrapping_mul(37) ^ 0x5a;
        }
        return code;
    }
    for b in out.iter_mut() {
        if f.pos < f.data.len() {
            *b = f.data[f.pos];
        } else {
            // more randomness than prepared: continue deterministically, and note it
            *b = (f.pos as u8).wrapping_mul(101) ^ (f.pos >> 8) as u8;
            f.overrun += 1;
        }
        f.pos += 1;
    }
    0
}

#[allow(clippy::type_complexity)]
pub struct Lib {
    pub path: String,
    pub info: Info,
    keypair: unsafe extern "C" fn(*mut u8, *mut u8, RngCb, *mut c_void, *mut i32) -> i32,
    enc: unsafe extern "C" fn(*mut u8, *mut u8, *const u8, RngCb, *mut c_void, *mut i32) -> i32,
    dec: unsafe extern "C" fn(*mut u8, *const u8, *const u8) -> i32,
    last_panic: unsafe extern "C" fn(*mut u8, usize) -> usize,
    aes_new: extern "C" fn(u32) -> *mut c_void,
    aes_clone: unsafe extern "C" fn(*const c_void) -> *mut c_void,
    aes_free: unsafe extern "C" fn(*mut c_void),
    aes_clone_from: unsafe extern "C" fn(*mut c_void, *const c_void),
    aes_eq: unsafe extern "C" fn(*const c_void, *const c_void) -> u32,
    aes_text: unsafe extern "C" fn(*const c_void, u32, *mut u8, usize) -> usize,
    aes_text_fails: unsafe extern "C" fn(*const c_void, u32, usize) -> u32,
    aes_get: unsafe extern "C" fn(*const c_void, *mut u8, *mut u8, *mut i32),
    aes_set: unsafe extern "C" fn(*mut c_void, *const u8, *const u8, i32),
    aes_init: unsafe extern "C" fn(*mut c_void, *const u8) -> i32,
    aes_random: unsafe extern "C" fn(*mut c_void, *mut u8, usize) -> i32,
    aes_keypair: unsafe extern "C" fn(*mut c_void, *mut u8, *mut u8) -> i32,
    aes_enc: unsafe extern "C" fn(*mut c_void, *mut u8, *mut u8, *const u8) -> i32,
    meter: unsafe extern "C" fn(u32, *mut Meter),
    sys: unsafe extern "C" fn(u32, *mut Sys) -> u32,
    sys_name: unsafe extern "C" fn(u64, *mut usize) -> *const u8,
    sys_try: extern "C" fn(),
    trace_start: Option<extern "C" fn()>,
    trace_stop: Option<unsafe extern "C" fn(*mut Trace)>,
}

pub struct KeyPair {
    pub pk: Vec<u8>,
    pub sk: Vec<u8>,
}

impl Lib {
    pub fn open(path: &str) -> Result<Lib, String> {
        unsafe {
            let c = CString::new(path).unwrap();
            let h = dlopen(c.as_ptr(), 2); // RTLD_NOW
            if h.is_null() {
                return Err(format!("dlopen {path}: {}", CStr::from_ptr(dlerror()).to_string_lossy()));
            }
            let opt = |n: &str| -> *mut c_void {
                let c = CString::new(n).unwrap();
                dlsym(h, c.as_ptr())
            };
            let sym = |n: &str| -> Result<*mut c_void, String> {
                let p = opt(n);
                if p.is_null() {
                    Err(format!("{path}: no symbol {n}"))
                } else {
                    Ok(p)
                }
            };
            let setup: extern "C" fn() = std::mem::transmute(sym("shim_setup")?);
            setup();
            let info: unsafe extern "C" fn(*mut RawInfo) = std::mem::transmute(sym("shim_info")?);
            let mut raw: RawInfo = std::mem::zeroed();
            info(&mut raw);
            let name = String::from_utf8_lossy(std::slice::from_raw_parts(raw.name, raw.name_len)).into_owned();
            let ts = opt("shim_trace_start");
            let te = opt("shim_trace_stop");
            Ok(Lib {
                path: path.to_string(),
                info: Info { pk: raw.pk, sk: raw.sk, ct: raw.ct, ss: raw.ss, name, checked: raw.checked != 0 },
                keypair: std::mem::transmute(sym("shim_keypair")?),
                enc: std::mem::transmute(sym("shim_enc")?),
                dec: std::mem::transmute(sym("shim_dec")?),
                last_panic: std::mem::transmute(sym("shim_last_panic")?),
                aes_new: std::mem::transmute(sym("shim_aes_new")?),
                aes_clone: std::mem::transmute(sym("shim_aes_clone")?),
                aes_free: std::mem::transmute(sym("shim_aes_free")?),
                aes_clone_from: std::mem::transmute(sym("shim_aes_clone_from")?),
                aes_eq: std::mem::transmute(sym("shim_aes_eq")?),
                aes_text: std::mem::transmute(sym("shim_aes_text")?),
                aes_text_fails: std::mem::transmute(sym("shim_aes_text_fails")?),
                aes_get: std::mem::transmute(sym("shim_aes_get")?),
                aes_set: std::mem::transmute(sym("shim_aes_set")?),
                aes_init: std::mem::transmute(sym("shim_aes_init")?),
                aes_random: std::mem::transmute(sym("shim_aes_random")?),
                aes_keypair: std::mem::transmute(sym("shim_aes_keypair")?),
                aes_enc: std::mem::transmute(sym("shim_aes_enc")?),
                meter: std::mem::transmute(sym("shim_meter")?),
                sys: std::mem::transmute(sym("shim_sys")?),
                sys_name: std::mem::transmute(sym("shim_sys_name")?),
                sys_try: std::mem::transmute(sym("shim_sys_try")?),
                trace_start: if ts.is_null() { None } else { Some(std::mem::transmute(ts)) },
                trace_stop: if te.is_null() { None } else { Some(std::mem::transmute(te)) },
            })
        }
    }

    fn res(&self, rc: i32, err: i32) -> Res {
        match rc {
            0 => Res::Ok,
            1 => Res::RngErr(err),
            2 => Res::OtherErr,
            _ => {
                let mut b = vec![0u8; 600];
                let n = unsafe { (self.last_panic)(b.as_mut_ptr(), b.len()) };
                Res::Panic(String::from_utf8_lossy(&b[..n]).into_owned())
            }
        }
    }

    pub fn keypair_into(&self, feed: &mut Feed, pk: &mut [u8], sk: &mut [u8]) -> Res {
        assert!(pk.len() == self.info.pk && sk.len() == self.info.sk);
        let mut err = 0;
        let rc = unsafe {
            (self.keypair)(pk.as_mut_ptr(), sk.as_mut_ptr(), feed_cb, feed as *mut Feed as *mut c_void, &mut err)
        };
        self.res(rc, err)
    }
    pub fn enc_into(&self, feed: &mut Feed, pk: &[u8], ct: &mut [u8], ss: &mut [u8]) -> Res {
        assert!(pk.len() == self.info.pk && ct.len() == self.info.ct && ss.len() == self.info.ss);
        let mut err = 0;
        let rc = unsafe {
            (self.enc)(ct.as_mut_ptr(), ss.as_mut_ptr(), pk.as_ptr(), feed_cb, feed as *mut Feed as *mut c_void, &mut err)
        };
        self.res(rc, err)
    }
    pub fn dec_into(&self, ct: &[u8], sk: &[u8], ss: &mut [u8]) -> Res {
        assert!(sk.len() == self.info.sk && ct.len() == self.info.ct && ss.len() == self.info.ss);
        let rc = unsafe { (self.dec)(ss.as_mut_ptr(), ct.as_ptr(), sk.as_ptr()) };
        self.res(rc, 0)
    }

    // the same with buffers at certain distances from a multiple of 16
    pub fn keypair_at(&self, at: Option<usize>, feed: &mut Feed, pk: &mut [u8], sk: &mut [u8]) -> Res {
        let Some(at) = at else { return self.keypair_into(feed, pk, sk) };
        let (mut a, mut b) = (Shifted::new(pk, at), Shifted::new(sk, 3 * at + 1));
        let r = self.keypair_into(feed, a.get(), b.get());
        pk.copy_from_slice(a.get());
        sk.copy_from_slice(b.get());
        r
    }
    pub fn enc_at(&self, at: Option<usize>, feed: &mut Feed, pk: &[u8], ct: &mut [u8], ss: &mut [u8]) -> Res {
        let Some(at) = at else { return self.enc_into(feed, pk, ct, ss) };
        let (mut a, mut b, mut c) = (Shifted::new(pk, at), Shifted::new(ct, 3 * at + 1), Shifted::new(ss, 5 * at + 2));
        let r = self.enc_into(feed, a.get(), b.get(), c.get());
        ct.copy_from_slice(b.get());
        ss.copy_from_slice(c.get());
        r
    }
    pub fn dec_at(&self, at: Option<usize>, ct: &[u8], sk: &[u8], ss: &mut [u8]) -> Res {
        let Some(at) = at else { return self.dec_into(ct, sk, ss) };
        let (mut a, mut b, mut c) = (Shifted::new(ct, at), Shifted::new(sk, 3 * at + 1), Shifted::new(ss, 5 * at + 2));
        let r = self.dec_into(a.get(), b.get(), c.get());
        ss.copy_from_slice(c.get());
        r
    }

    // convenience forms: anything but success is an error message; where the buffers lie depends on the inputs
    pub fn keypair(&self, bytes: &[u8]) -> Result<KeyPair, String> {
        let mut pk = vec![0; self.info.pk];
        let mut sk = vec![0; self.info.sk];
        match self.keypair_at(Some(place(bytes)), &mut Feed::new(bytes), &mut pk, &mut sk) {
            Res::Ok => Ok(KeyPair { pk, sk }),
            r => Err(format!("key generation did not succeed: {r:?}")),
        }
    }
    pub fn enc(&self, pk: &[u8], bytes: &[u8]) -> Result<(Vec<u8>, [u8; 32]), String> {
        let mut ct = vec![0; self.info.ct];
        let mut ss = [0; 32];
        match self.enc_at(Some(place(pk) ^ place(bytes)), &mut Feed::new(bytes), pk, &mut ct, &mut ss) {
            Res::Ok => Ok((ct, ss)),
            r => Err(format!("encapsulation did not succeed: {r:?}")),
        }
    }
    pub fn dec(&self, ct: &[u8], sk: &[u8]) -> Result<[u8; 32], String> {
        let mut ss = [0; 32];
        match self.dec_at(Some(place(ct) ^ place(sk)), ct, sk, &mut ss) {
            Res::Ok => Ok(ss),
            r => Err(format!("decapsulation did not succeed: {r:?}")),
        }
    }

    pub fn aes(&self) -> Aes<'_> {
        Aes { lib: self, h: (self.aes_new)(0) }
    }
    pub fn aes_default(&self) -> Aes<'_> {
        Aes { lib: self, h: (self.aes_new)(1) }
    }
    /// What this thread's operations have used since the last call; whether to measure from now on.
    pub fn meter(&self, on: bool) -> Meter {
        let mut m = Meter::default();
        unsafe { (self.meter)(on as u32, &mut m) };
        m
    }
    /// How often this thread's operations have called on the system since the last call, and the first
    /// function they used; whether to count from now on.
    pub fn sys(&self, on: bool) -> (Sys, String) {
        let mut s = Sys::default();
        unsafe {
            assert_eq!((self.sys)(on as u32, &mut s), 1, "calls are not counted");
            let mut n = 0;
            let p = (self.sys_name)(s.first, &mut n);
            (s, String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned())
        }
    }
    /// An operation that reads the clock.
    pub fn sys_try(&self) {
        (self.sys_try)()
    }
    pub fn trace_on(&self) {
        (self.trace_start.unwrap())()
    }
    pub fn trace_off(&self) -> Trace {
        let mut t = Trace::default();
        unsafe { (self.trace_stop.unwrap())(&mut t) };
        t
    }

    pub fn matches(&self, p: &Params) -> bool {
        self.info.name == p.name
            && self.info.pk == p.pk
            && self.info.sk == p.sk
            && self.info.ct == p.ct
            && self.info.ss == 32
    }
}

fn place(b: &[u8]) -> usize {
    b.iter().take(20).fold(b.len(), |a, x| a.wrapping_mul(31).wrapping_add(*x as usize)) % 16
}

/// A copy at an address of the form 16 k + at.
struct Shifted {
    v: Vec<u8>,
    start: usize,
    len: usize,
}
impl Shifted {
    fn new(b: &[u8], at: usize) -> Shifted {
        let mut v = vec![0; b.len() + 16];
        let start = at.wrapping_sub(v.as_ptr() as usize) % 16;
        v[start..start + b.len()].copy_from_slice(b);
        Shifted { v, start, len: b.len() }
    }
    fn get(&mut self) -> &mut [u8] {
        &mut self.v[self.start..self.start + self.len]
    }
}

/// A generator object of the code under test.
pub struct Aes<'a> {
    lib: &'a Lib,
    h: *mut c_void,
}

impl<'a> Aes<'a> {
    pub fn dup(&self) -> Aes<'a> {
        Aes { lib: self.lib, h: unsafe { (self.lib.aes_clone)(self.h) } }
    }
    pub fn dup_from(&mut self, o: &Aes) {
        unsafe { (self.lib.aes_clone_from)(self.h, o.h) }
    }
    /// the answers of == and !=
    pub fn compare(&self, o: &Aes) -> (bool, bool) {
        let r = unsafe { (self.lib.aes_eq)(self.h, o.h) };
        (r & 1 != 0, r & 2 != 0)
    }
    pub fn same(&self, o: &Aes) -> bool {
        self.compare(o) == (true, false)
    }
    /// Display, Debug or alternate Debug
    pub fn text(&self, how: u32) -> String {
        let mut b = vec![0; 1 << 14];
        let n = unsafe { (self.lib.aes_text)(self.h, how, b.as_mut_ptr(), b.len()) };
        assert!(n <= b.len(), "text of {n} bytes");
        String::from_utf8_lossy(&b[..n]).into_owned()
    }
    /// whether printing to a stream with room for so many bytes reports an error
    pub fn text_fails(&self, how: u32, room: usize) -> bool {
        unsafe { (self.lib.aes_text_fails)(self.h, how, room) != 0 }
    }
    pub fn get(&self) -> refmodel::Drbg {
        let mut d = refmodel::Drbg::new();
        unsafe { (self.lib.aes_get)(self.h, d.key.as_mut_ptr(), d.v.as_mut_ptr(), &mut d.counter) };
        d
    }
    pub fn set(&mut self, d: &refmodel::Drbg) {
        unsafe { (self.lib.aes_set)(self.h, d.key.as_ptr(), d.v.as_ptr(), d.counter) }
    }
    pub fn init(&mut self, seed: &[u8; 48]) -> Res {
        let rc = unsafe { (self.lib.aes_init)(self.h, seed.as_ptr()) };
        self.lib.res(rc, 0)
    }
    pub fn random(&mut self, out: &mut [u8]) -> Res {
        let rc = unsafe { (self.lib.aes_random)(self.h, out.as_mut_ptr(), out.len()) };
        self.lib.res(rc, 0)
    }
    pub fn keypair(&mut self, pk: &mut [u8], sk: &mut [u8]) -> Res {
        assert!(pk.len() == self.lib.info.pk && sk.len() == self.lib.info.sk);
        let rc = unsafe { (self.lib.aes_keypair)(self.h, pk.as_mut_ptr(), sk.as_mut_ptr()) };
        self.lib.res(rc, 0)
    }
    pub fn enc(&mut self, pk: &[u8], ct: &mut [u8], ss: &mut [u8]) -> Res {
        assert!(pk.len() == self.lib.info.pk && ct.len() == self.lib.info.ct && ss.len() == 32);
        let rc = unsafe { (self.lib.aes_enc)(self.h, ct.as_mut_ptr(), ss.as_mut_ptr(), pk.as_ptr()) };
        self.lib.res(rc, 0)
    }
}

impl Drop for Aes<'_> {
    fn drop(&mut self) {
        unsafe { (self.lib.aes_free)(self.h) }
    }
}
