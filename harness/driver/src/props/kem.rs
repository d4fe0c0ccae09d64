//! C01-C04, C07, C09: functional correctness of the three operations.

use crate::engine::*;
use crate::ffi::{Feed, Lib, Res};
use crate::gen::*;
use crate::props::reject::{ct as ct_strategy, Ct};
use proptest::prelude::*;
use refmodel::Params;
use serde::{Deserialize, Serialize};

/// Where the operation's randomness comes from.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Src<T> {
    Feed(T),
    /// the built-in generator in this state
    Aes(St),
}

pub fn src<T: std::fmt::Debug + 'static>(s: BoxedStrategy<T>) -> BoxedStrategy<Src<T>>
where
    T: Clone,
{
    prop_oneof![
        9 => s.prop_map(Src::Feed),
        1 => st().prop_map(Src::Aes),
    ]
    .boxed()
}

pub fn public_key(p: &Params, lib: &Lib, k: &Pk) -> Result<Vec<u8>, String> {
    Ok(match k {
        Pk::Key(k) => lib.keypair(&k.bytes(p))?.pk,
        Pk::Poly(q, pad) => {
            let mut b = p.pack_q(&qvec(p, q));
            set_pad(p, &mut b, *pad);
            b
        }
        Pk::Raw(f) => f.bytes(p.pk),
    })
}

// ---- C01 ------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum How {
    Seed(Msg),
    Aligned { k: Pos, sr: bool, sm: bool, seed: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C01Case {
    Feed { key: Key, how: How, checked: bool },
    Aes { st: St, checked: bool },
}
pub struct C01;
impl Prop for C01 {
    type Case = C01Case;
    const ID: &'static str = "C01";
    const RULE: &'static str = "a case is the RNG bytes of a key generation (random, sparse, periodic, constant, edited ternary patterns; for HPS sorted/equal/0-1/extreme word patterns) and of an encapsulation to that key (same patterns, or chosen from f and g so that one coefficient of r*G+Lift(m)*f is extreme), or a generator state; run in one of the two build profiles. Non-trivial: f and g non-zero and all three operations completed.";
    fn strategy(&self, p: &Params, _v: usize) -> BoxedStrategy<C01Case> {
        let how = prop_oneof![
            1 => msg(p).prop_map(How::Seed),
            1 => (pos(), any::<bool>(), any::<bool>(), any::<u64>())
                .prop_map(|(k, sr, sm, seed)| How::Aligned { k, sr, sm, seed }),
        ];
        prop_oneof![
            9 => (key(p), how, any::<bool>()).prop_map(|(key, how, checked)| C01Case::Feed { key, how, checked }),
            1 => (st(), any::<bool>()).prop_map(|(st, checked)| C01Case::Aes { st, checked }),
        ]
        .boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 12_000,
            Tier::Thorough => 150_000,
        }
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C01Case) -> Result<Obs, String> {
        match c {
            C01Case::Feed { key, how, checked } => {
                let lib = env.lib(v, *checked);
                if !key.usable(p) {
                    return Ok(Obs::trivial("zero secret"));
                }
                let kp = lib.keypair(&key.bytes(p))?;
                let mut labels = vec![];
                let rb = match how {
                    How::Seed(m) => {
                        labels.push("patterned message");
                        m.bytes(p)
                    }
                    How::Aligned { k, sr, sm, seed } => {
                        let (f, g) = p.sample_fg(&key.seed(p));
                        let rb = aligned(p, &f, &g, k.of(p.n), *sr, *sm, *seed);
                        if seed % 4 == 0 {
                            let (r, m) = p.sample_rm(&rb);
                            let x = noise(p, &f, &g, &r, &m);
                            // HPS: at most 4*(q/8-2) = q/2-8; HRSS: at most about 4n
                            if !p.hrss && x >= p.q() / 2 - 12 {
                                labels.push("noise within 12 of q/2");
                            }
                            if p.hrss && x > 3 * p.n as i32 {
                                labels.push("noise above 3n (HRSS)");
                            }
                        }
                        labels.push("aligned message");
                        rb
                    }
                };
                let (ct, k1) = lib.enc(&kp.pk, &rb)?;
                let k2 = lib.dec(&ct, &kp.sk)?;
                diff("shared key of the receiver (expected: the sender's)", &k2, &k1)?;
                Ok(Obs::ok(labels))
            }
            C01Case::Aes { st, checked } => {
                let lib = env.lib(v, *checked);
                let mut a = lib.aes();
                a.set(&st.model());
                let (mut pk, mut sk) = (vec![0; p.pk], vec![0; p.sk]);
                let (mut ct, mut k1) = (vec![0; p.ct], [0; 32]);
                match a.keypair(&mut pk, &mut sk) {
                    Res::Ok => {}
                    r => return Err(format!("key generation with AesState: {r:?}")),
                }
                match a.enc(&pk, &mut ct, &mut k1) {
                    Res::Ok => {}
                    r => return Err(format!("encapsulation with AesState: {r:?}")),
                }
                let k2 = lib.dec(&ct, &sk)?;
                diff("shared key of the receiver (expected: the sender's)", &k2, &k1)?;
                Ok(Obs::ok(vec!["built-in generator"]))
            }
        }
    }
}

// ---- C02 ------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C02Case {
    src: Src<Key>,
    checked: bool,
}
pub struct C02;
impl Prop for C02 {
    type Case = C02Case;
    const ID: &'static str = "C02";
    const RULE: &'static str = "a case is the RNG bytes (or generator state) of one key generation and a build profile; public key, secret key, RNG request lengths (and final generator state) are compared with the reference model. Non-trivial: sampled f and g non-zero, so that the model's inverses exist.";
    fn strategy(&self, p: &Params, _v: usize) -> BoxedStrategy<C02Case> {
        (src(key(p)), any::<bool>()).prop_map(|(src, checked)| C02Case { src, checked }).boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 5_000,
            Tier::Thorough => 80_000,
        }
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C02Case) -> Result<Obs, String> {
        let lib = env.lib(v, c.checked);
        let (mut pk, mut sk) = (vec![0; p.pk], vec![0; p.sk]);
        match &c.src {
            Src::Feed(key) => {
                if !key.usable(p) {
                    return Ok(Obs::trivial("zero secret"));
                }
                let bytes = key.bytes(p);
                let mut feed = Feed::new(&bytes);
                match lib.keypair_into(&mut feed, &mut pk, &mut sk) {
                    Res::Ok => {}
                    r => return Err(format!("key generation: {r:?}")),
                }
                if feed.requests != [p.sample_bytes(), 32] || feed.reinit != 0 {
                    return Err(format!("RNG requests {:?} (re-seedings: {})", feed.requests, feed.reinit));
                }
                let (epk, esk) = p.keypair(&key.seed(p), &key.prf_bytes()).ok_or("model: not invertible")?;
                diff("public key", &pk, &epk)?;
                diff("secret key", &sk, &esk)?;
                Ok(Obs::ok(vec![if c.checked { "fed bytes, checked build" } else { "fed bytes, plain build" }]))
            }
            Src::Aes(st) => {
                let mut d = st.model();
                let mut a = lib.aes();
                a.set(&d);
                match a.keypair(&mut pk, &mut sk) {
                    Res::Ok => {}
                    r => return Err(format!("key generation with AesState: {r:?}")),
                }
                let mut s = vec![0; p.sample_bytes()];
                d.random(&mut s);
                let mut prf = [0; 32];
                d.random(&mut prf);
                let (epk, esk) = match p.keypair(&s, &prf) {
                    None => return Ok(Obs::trivial("zero secret")),
                    Some(x) => x,
                };
                diff("public key", &pk, &epk)?;
                diff("secret key", &sk, &esk)?;
                if a.get() != d {
                    return Err("generator state after key generation differs".into());
                }
                Ok(Obs::ok(vec!["built-in generator"]))
            }
        }
    }
}

// ---- C03 ------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C03Case {
    pk: Pk,
    src: Src<Msg>,
    checked: bool,
}
pub struct C03;
impl Prop for C03 {
    type Case = C03Case;
    const ID: &'static str = "C03";
    const RULE: &'static str = "a case is a public key (generated, arbitrary polynomial by pattern with arbitrary unused bits, or raw bytes), the RNG bytes (or generator state) of one encapsulation, and a build profile; ciphertext, shared key and RNG request lengths are compared with the reference model. Fixed cases with r = 1 bring every value to every position of the public key and of the ciphertext. Every such case is non-trivial.";
    fn strategy(&self, p: &Params, _v: usize) -> BoxedStrategy<C03Case> {
        (pk(p), src(msg(p)), any::<bool>())
            .prop_map(|(pk, src, checked)| C03Case { pk, src, checked })
            .boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 12_000,
            Tier::Thorough => 150_000,
        }
    }
    fn pinned(&self, _t: Tier, p: &Params) -> Vec<C03Case> {
        // every value in every position of the public key and of the ciphertext: r = 1
        let one = Iid { pat: Trits::Const(0), edits: vec![(Pos::Start(0), 1)], rep: Rep::Low };
        (0..p.q() as u16)
            .map(|from| C03Case {
                pk: Pk::Poly(QPat::Ramp { from, step: 2 * from + 5 }, 0),
                src: Src::Feed(Msg { r: one.clone(), m: some_half(p, 1) }),
                checked: from % 2 == 1,
            })
            .collect()
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C03Case) -> Result<Obs, String> {
        let lib = env.lib(v, c.checked);
        let pk = public_key(p, lib, &c.pk)?;
        let (mut ct, mut ss) = (vec![0; p.ct], [0; 32]);
        let mut labels = vec![match c.pk {
            Pk::Key(_) => "generated public key",
            Pk::Poly(..) => "patterned public key",
            Pk::Raw(_) => "raw public key",
        }];
        match &c.src {
            Src::Feed(m) => {
                let bytes = m.bytes(p);
                let mut feed = Feed::new(&bytes);
                match lib.enc_into(&mut feed, &pk, &mut ct, &mut ss) {
                    Res::Ok => {}
                    r => return Err(format!("encapsulation: {r:?}")),
                }
                if feed.requests != [p.sample_bytes()] || feed.reinit != 0 {
                    return Err(format!("RNG requests {:?} (re-seedings: {})", feed.requests, feed.reinit));
                }
                let (ect, ess) = p.enc(&pk, &bytes);
                diff("ciphertext", &ct, &ect)?;
                diff("shared key", &ss, &ess)?;
            }
            Src::Aes(st) => {
                labels.push("built-in generator");
                let mut d = st.model();
                let mut a = lib.aes();
                a.set(&d);
                match a.enc(&pk, &mut ct, &mut ss) {
                    Res::Ok => {}
                    r => return Err(format!("encapsulation with AesState: {r:?}")),
                }
                let mut s = vec![0; p.sample_bytes()];
                d.random(&mut s);
                let (ect, ess) = p.enc(&pk, &s);
                diff("ciphertext", &ct, &ect)?;
                diff("shared key", &ss, &ess)?;
                if a.get() != d {
                    return Err("generator state after encapsulation differs".into());
                }
            }
        }
        Ok(Obs::ok(labels))
    }
}

// ---- C04 ------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sk {
    Honest,
    /// bytes of the honest key overwritten
    Edited(Vec<(Pos, u8)>),
    /// ternary parts and inverse replaced by patterns
    Parts { f: Trits, fp: Trits, hq: QPat, pad: u8 },
    Raw(Fill),
    /// canonical digits replaced by byte values 243..255
    BigTrits { seed: u64, k: u16 },
    /// inverses replaced such that the given ciphertext decrypts to a chosen pair (r, m)
    Forged(Target),
}
/// What a ciphertext shall decrypt to: m with weight/2 + plus coefficients 1 and weight/2 + minus
/// coefficients -1 (HRSS: any), a ternary r, and coefficients of r overwritten.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Target {
    plus: i16,
    minus: i16,
    seed: u64,
    r: Trits,
    bad: Vec<(Pos, Coef)>,
    pad: u8,
    /// bytes of f replaced before
    f: Option<Fill>,
}
/// A coefficient modulo q: +-(2^k + d), or any value
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Coef {
    Near { k: u8, d: i8, neg: bool },
    Any(u16),
}
impl Coef {
    fn of(&self, p: &Params) -> i32 {
        let x = match self {
            Coef::Near { k, d, neg } => (1 - 2 * *neg as i32) * ((1 << (*k as u32 % 13)) + *d as i32),
            Coef::Any(x) => *x as i32,
        };
        x.rem_euclid(p.q())
    }
}
fn target() -> BoxedStrategy<Target> {
    let w = || {
        prop_oneof![
            12 => Just(0i16),
            2 => -3i16..4,
            2 => (3u32..9, -1i16..2, any::<bool>()).prop_map(|(k, d, neg)| (1 - 2 * neg as i16) * ((1 << k) + d)),
            1 => -300i16..600,
        ]
    };
    let weights = prop_oneof![
        3 => (w(), w()),
        // equal halves, or the right total
        1 => w().prop_map(|x| (x, x)),
        1 => w().prop_map(|x| (x, -x)),
    ];
    let coef = prop_oneof![
        5 => (0u8..13, -3i8..4, any::<bool>()).prop_map(|(k, d, neg)| Coef::Near { k, d, neg }),
        1 => any::<u16>().prop_map(Coef::Any),
    ];
    let bad = prop_oneof![
        2 => Just(vec![]),
        4 => proptest::collection::vec((pos(), coef.clone()), 1..2),
        2 => proptest::collection::vec((pos(), coef), 2..9),
    ];
    let f = prop_oneof![7 => Just(None), 1 => fill().prop_map(Some)];
    (weights, any::<u64>(), trits(), bad, prop_oneof![9 => Just(0u8), 1 => any::<u8>()], f)
        .prop_map(|((plus, minus), seed, r, bad, pad, f)| Target { plus, minus, seed, r, bad, pad, f })
        .boxed()
}
/// false: some polynomial is not invertible, key left as it is
fn forge(p: &Params, sk: &mut [u8], ct: &[u8], t: &Target) -> bool {
    let n = p.n;
    let mut rnd = Sm(t.seed);
    let mut m = vec![0i32; n];
    if p.hrss {
        m[..n - 1].iter_mut().for_each(|x| *x = rnd.below(3) as i32);
    } else {
        let half = p.weight() as i32 / 2;
        let a = (half + t.plus as i32).clamp(0, n as i32 - 1) as usize;
        let b = (half + t.minus as i32).clamp(0, (n - 1 - a) as i32) as usize;
        m[..a].fill(1);
        m[a..a + b].fill(2);
        rnd.shuffle(&mut m[..n - 1]);
    }
    let mut r: Vec<i32> = expand_trits(&t.r, n - 1).iter().map(|d| (*d as i32 + 1) % 3 - 1).chain([0]).collect();
    for (at, x) in &t.bad {
        r[at.of(n - 1)] = x.of(p);
    }
    let k = p.trit_bytes();
    if let Some(f) = &t.f {
        sk[..k].copy_from_slice(&f.bytes(k));
    }
    let c = p.unpack_sum0(ct);
    let e = p.mod_3_phi(&p.centre_q(&p.mul(&c, &p.parse_sk(sk).f)));
    let b: Vec<i32> = c.iter().zip(&p.lift(&m)).map(|(x, y)| x - y).collect();
    let (Some(ei), Some(bi)) = (p.inv_3(&e), p.inv_q(&p.mod_q(&b))) else { return false };
    let fp = p.mod_3_phi(&p.mul(&ei, &m));
    let hq = p.mod_q_phi(&p.mul(&bi, &p.mod_q(&r)));
    sk[k..2 * k].copy_from_slice(&p.pack_3(&fp));
    let mut h = p.pack_q(&hq);
    set_pad(p, &mut h, t.pad);
    sk[2 * k..2 * k + p.pk].copy_from_slice(&h);
    true
}
/// Some g or m.
pub fn some_half(p: &Params, x: u64) -> Half {
    if p.hrss {
        Half::U(Iid { pat: Trits::Rand(x), edits: vec![], rep: Rep::Rand(x) })
    } else {
        Half::F(Ft { pat: FtPat::Rand(x), edits: vec![] })
    }
}
pub fn some_key(p: &Params, x: u64) -> Key {
    Key {
        f: Iid { pat: Trits::Rand(x), edits: vec![], rep: Rep::Rand(x) },
        g: some_half(p, x + 1),
        prf: Fill::Rand(x + 2),
    }
}

/// Number of ciphertexts that bring every value to every position (see `sweep`).
pub fn sweeps(p: &Params) -> usize {
    if p.hrss {
        return p.q() as usize;
    }
    let (n, w) = (p.n - 1, p.weight() / 2);
    let longest = p.q() as usize / 3 + 1;
    longest.div_ceil(w.min(n - 2 * w)) * n
}
/// With f = 1/f = 1 and an inverse public key 0, any c whose residues modulo 3 are a valid message m decrypts to
/// (0, m). Returns such a c (packed) and the message.
fn sweep(p: &Params, pass: usize) -> (Vec<u8>, Vec<i32>) {
    let (n, q) = (p.n, p.q());
    let centre = |x: i32| if x >= q / 2 { x - q } else { x };
    let mut c = vec![0i32; n];
    let top = |c: &[i32]| (-c[..n - 1].iter().map(|x| *x as i64).sum::<i64>()).rem_euclid(q as i64) as i32;
    if p.hrss {
        for i in 0..n - 1 {
            c[i] = ((pass + 5 * i) % q as usize) as i32;
        }
    } else {
        let w = p.weight() / 2;
        let class: Vec<Vec<i32>> =
            (0..3).map(|k| (0..q).filter(|x| centre(*x).rem_euclid(3) == k).collect()).collect();
        let mut of = vec![0; n];
        for i in 0..n - 1 {
            let slot = (i + pass) * 7 % (n - 1);
            let (k, base, size) = match slot {
                s if s < w => (1, 0, w),
                s if s < 2 * w => (2, w, w),
                _ => (0, 2 * w, n - 1 - 2 * w),
            };
            of[i] = k;
            c[i] = class[k][(pass / (n - 1) * size + slot - base) % class[k].len()];
        }
        // the implied last coefficient shall be 0 modulo 3
        let mut rnd = Sm(pass as u64);
        while centre(top(&c)).rem_euclid(3) != 0 {
            for d in 0..5 {
                let i = (pass + d) % (n - 1);
                c[i] = class[of[i]][rnd.below(class[of[i]].len())];
            }
        }
    }
    let t = centre(top(&c));
    let m = (0..n).map(|i| if i == n - 1 { 0 } else { (centre(c[i]) - t).rem_euclid(3) }).collect();
    (p.pack_q(&c), m)
}
pub fn check_sweep(p: &Params, lib: &Lib, pass: usize, model: bool) -> Result<(), String> {
    let (ct, m) = sweep(p, pass);
    let mut sk = vec![0; p.sk];
    let k = p.trit_bytes();
    sk[0] = 1;
    sk[k] = 1;
    sk[p.prf_at()..].copy_from_slice(&Fill::Rand(pass as u64).bytes(32));
    let want = refmodel::sha3_256(&[vec![0; k], p.pack_3(&m)].concat());
    if model {
        assert_eq!(p.dec(&sk, &ct), (want, true), "harness: sweep {pass}");
    }
    diff("shared key (f = 1, r = 0)", &lib.dec(&ct, &sk)?, &want)
}
/// The key pair with the public key multiplied by x^i: f stays the same.
fn rotated(p: &Params, kp: &crate::ffi::KeyPair, i: usize) -> (Vec<u8>, Vec<u8>) {
    let n = p.n;
    let h = p.unpack_sum0(&kp.pk);
    let at = 2 * p.trit_bytes();
    let hq = p.unpack_q(&kp.sk[at..at + p.pk]);
    let turned: Vec<i32> = (0..n).map(|j| h[(j + n - i) % n]).collect();
    let inverse: Vec<i32> = (0..n).map(|j| hq[(j + i) % n]).collect();
    let mut sk = kp.sk.clone();
    sk[at..at + p.pk].copy_from_slice(&p.pack_q(&p.mod_q_phi(&inverse)));
    (p.pack_q(&turned), sk)
}
/// `len` rotations of a key pair; a message for each.
pub fn check_rotations(p: &Params, lib: &Lib, key: &Key, msg: &Msg, from: usize, len: usize) -> Result<Vec<u64>, String> {
    let kp = lib.keypair(&key.bytes(p))?;
    let bytes = msg.bytes(p);
    let mut seen = vec![];
    for i in from..(from + len).min(p.n) {
        let (pk, sk) = rotated(p, &kp, i);
        let (ct, k) = lib.enc(&pk, &bytes)?;
        let got = lib.dec(&ct, &sk)?;
        // whose fault is it?
        if got != k && got != p.dec(&sk, &ct).0 {
            diff(&format!("shared key (public key and its inverse rotated by {i})"), &got, &k)?;
        }
        seen.push(hash_of(&sk));
    }
    Ok(seen)
}
pub const ROTATIONS: usize = 64;
/// (number of the key, first rotation): enough for all values in all positions, nearly
pub fn rotations(p: &Params) -> Vec<(u64, usize)> {
    let keys = (5 * p.q() as usize).div_ceil(p.n) as u64;
    (0..keys).flat_map(|k| (0..p.n).step_by(ROTATIONS).map(move |i| (4 * k, i))).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C04Case {
    One { key: Key, sk: Sk, ct: Ct, checked: bool },
    /// a ciphertext with f = 1 and r = 0
    Sweep { pass: usize, checked: bool },
    /// rotations of a generated key
    Rotations { key: Key, msg: Msg, from: usize, checked: bool },
}
pub fn secret_key(p: &Params, honest: &[u8], s: &Sk, ct: &[u8]) -> Vec<u8> {
    let mut sk = honest.to_vec();
    let t = p.trit_bytes();
    match s {
        Sk::Honest => {}
        Sk::Edited(e) => {
            for (q, b) in e {
                sk[q.of(p.sk)] = *b;
            }
        }
        Sk::Parts { f, fp, hq, pad } => {
            let z = |x: &Trits| -> Vec<i32> { expand_trits(x, p.n - 1).iter().map(|d| *d as i32).chain([0]).collect() };
            sk[..t].copy_from_slice(&p.pack_3(&z(f)));
            sk[t..2 * t].copy_from_slice(&p.pack_3(&z(fp)));
            let mut h = p.pack_q(&qvec(p, hq));
            set_pad(p, &mut h, *pad);
            sk[2 * t..2 * t + p.pk].copy_from_slice(&h);
        }
        Sk::Raw(f) => sk = f.bytes(p.sk),
        Sk::BigTrits { seed, k } => {
            let mut r = Sm(*seed);
            for _ in 0..*k {
                sk[r.below(2 * t)] = 243 + r.below(13) as u8;
            }
        }
        Sk::Forged(t) => {
            forge(p, &mut sk, ct, t);
        }
    }
    sk
}
pub fn sk_strategy() -> BoxedStrategy<Sk> {
    prop_oneof![
        4 => Just(Sk::Honest),
        2 => proptest::collection::vec((pos(), any::<u8>()), 1..5).prop_map(Sk::Edited),
        2 => (trits(), trits(), qpat(), any::<u8>()).prop_map(|(f, fp, hq, pad)| Sk::Parts { f, fp, hq, pad }),
        1 => fill().prop_map(Sk::Raw),
        1 => (any::<u64>(), 1u16..40).prop_map(|(seed, k)| Sk::BigTrits { seed, k }),
        4 => target().prop_map(Sk::Forged),
    ]
    .boxed()
}
pub struct C04;
impl Prop for C04 {
    type Case = C04Case;
    const ID: &'static str = "C04";
    const RULE: &'static str = "a case is a secret key (generated, generated with bytes overwritten, ternary/inverse parts replaced by patterns, out-of-range digit bytes, raw bytes, inverses solved such that the ciphertext decrypts to a chosen pair (r, m) inside or just outside the space) and a ciphertext (honest, with r or m just outside the space, bit flips, unused bits, foreign key, raw) and a build profile; the returned key is compared with the reference decapsulation. Fixed cases bring every value to every position of a ciphertext that is accepted (f = 1, inverse public key 0), and rotate the public key and its inverse of generated keys. Every such case is non-trivial; the classes say whether the model accepted.";
    fn strategy(&self, p: &Params, _v: usize) -> BoxedStrategy<C04Case> {
        (prop_oneof![3 => plain_key(p), 1 => balanced_key(p)], sk_strategy(), ct_strategy(p), any::<bool>())
            .prop_map(|(key, sk, ct, checked)| C04Case::One { key, sk, ct, checked })
            .boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 8_000,
            Tier::Thorough => 100_000,
        }
    }
    fn pinned(&self, _t: Tier, p: &Params) -> Vec<C04Case> {
        let mut all: Vec<_> = (0..sweeps(p)).map(|pass| C04Case::Sweep { pass, checked: pass % 8 == 7 }).collect();
        all.extend(rotations(p).into_iter().map(|(k, from)| C04Case::Rotations {
            key: some_key(p, k),
            msg: Msg { r: some_key(p, k + 3).f, m: some_half(p, k + 3) },
            from,
            checked: false,
        }));
        all
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C04Case) -> Result<Obs, String> {
        let (key, s, ct, checked) = match c {
            C04Case::One { key, sk, ct, checked } => (key, sk, ct, checked),
            C04Case::Sweep { pass, checked } => {
                check_sweep(p, env.lib(v, *checked), *pass, pass % 64 == 0)?;
                return Ok(Obs::ok(vec!["all values in all positions of the ciphertext"]));
            }
            C04Case::Rotations { key, msg, from, checked } => {
                let inner = check_rotations(p, env.lib(v, *checked), key, msg, *from, ROTATIONS)?;
                let labels = vec!["rotations of a generated key"];
                return Ok(Obs { nontrivial: true, labels, evals: inner.len() as u64, inner });
            }
        };
        let lib = env.lib(v, *checked);
        if !key.usable(p) {
            return Ok(Obs::trivial("zero secret"));
        }
        let kp = lib.keypair(&key.bytes(p))?;
        let ct = ct.bytes(p, lib, &kp.pk)?;
        let sk = secret_key(p, &kp.sk, s, &ct);
        let k = lib.dec(&ct, &sk)?;
        let (e, ok) = p.dec(&sk, &ct);
        diff(if ok { "shared key (model accepts)" } else { "shared key (model rejects)" }, &k, &e)?;
        Ok(Obs::ok(vec![
            match s {
                Sk::Honest => "secret key: generated",
                Sk::Edited(_) => "secret key: bytes overwritten",
                Sk::Parts { .. } => "secret key: patterned parts",
                Sk::Raw(_) => "secret key: raw",
                Sk::BigTrits { .. } => "secret key: digit bytes above 242",
                Sk::Forged(_) if ok => "secret key: forged for a valid pair",
                Sk::Forged(_) => "secret key: forged for an invalid pair",
            },
            if ok { "model accepts" } else { "model rejects" },
        ]))
    }
}

// ---- C07 ------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C07Case {
    key: Key,
    checked: bool,
}
pub struct C07;
impl Prop for C07 {
    type Case = C07Case;
    const ID: &'static str = "C07";
    const RULE: &'static str = "a case is the RNG bytes of one key generation and a build profile; the polynomials decoded from the keys are multiplied out and the key equations checked (no inverse is computed by the oracle). Non-trivial: f and g non-zero.";
    fn strategy(&self, p: &Params, _v: usize) -> BoxedStrategy<C07Case> {
        (key(p), any::<bool>()).prop_map(|(key, checked)| C07Case { key, checked }).boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 12_000,
            Tier::Thorough => 150_000,
        }
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C07Case) -> Result<Obs, String> {
        let lib = env.lib(v, c.checked);
        if !c.key.usable(p) {
            return Ok(Obs::trivial("zero secret"));
        }
        let kp = lib.keypair(&c.key.bytes(p))?;
        let k = p.parse_sk(&kp.sk);
        let n = p.n;
        let is_one = |a: &[i32]| a[0] == 1 && a[1..].iter().all(|x| *x == 0);
        if k.f.iter().all(|x| *x == 0) {
            return Err("f is zero although the RNG bytes are not".into());
        }
        if !is_one(&p.mod_3_phi(&p.mul(&k.f, &k.fp))) {
            return Err("f * fp is not 1 modulo (3, Phi_n)".into());
        }
        let h = p.unpack_sum0(&kp.pk);
        if !is_one(&p.mod_q_phi(&p.mul(&h, &k.hq))) {
            return Err("h * hq is not 1 modulo (q, Phi_n)".into());
        }
        // the coefficients of h sum to zero: the decoded last coefficient must be the one
        // that f*h = G, exactly modulo x^n - 1, requires
        let fh = p.centre_q(&p.mod_q(&p.mul(&k.f, &h)));
        if fh.iter().map(|x| *x as i64).sum::<i64>().rem_euclid(p.q() as i64) != 0 {
            return Err("f*h does not vanish at 1".into());
        }
        // f*h = G modulo (q, Phi_n) with G = 3g or 3(x-1)g
        let gq = p.mod_q_phi(&fh);
        // divide by 3 modulo q
        let q = p.q() as i64;
        let third = if q % 3 == 1 { (2 * q + 1) / 3 } else { (q + 1) / 3 };
        let mut g: Vec<i32> = gq.iter().map(|x| (*x as i64 * third).rem_euclid(q) as i32).collect();
        if p.hrss {
            g = divide_x_minus_1(p, &g)?;
        }
        let g = p.centre_q(&g);
        if g.iter().any(|x| x.abs() > 1) {
            return Err("f*h/3 is not a ternary polynomial".into());
        }
        let (ones, minus) = (g.iter().filter(|x| **x == 1).count(), g.iter().filter(|x| **x == -1).count());
        if !p.hrss && (ones != p.weight() / 2 || minus != p.weight() / 2) {
            return Err(format!("g has {ones} ones and {minus} minus ones"));
        }
        if p.hrss {
            let corr = |a: &[i32]| (0..n - 1).map(|i| a[i] * a[i + 1]).sum::<i32>();
            if corr(&g) < 0 || corr(&k.f) < 0 {
                return Err("f or g has negative correlation with its shift".into());
            }
        }
        diff("rejection secret", &k.prf, &c.key.prf_bytes())?;
        Ok(Obs::ok(vec![if c.checked { "checked build" } else { "plain build" }]))
    }
}

/// Given e in 0..q with e = (x-1) g mod (q, Phi_n), find g in 0..q.
pub fn divide_x_minus_1(p: &Params, e: &[i32]) -> Result<Vec<i32>, String> {
    // (x-1) g mod Phi: e_0 = -g_0 - t, e_i = g_(i-1) - g_i - t, with t = g_(n-2).
    // Summing up, g_i = -(e_0 + .. + e_i) - (i+1) t; for i = n-2: n t = -sum(e).
    let (n, q) = (p.n, p.q() as i64);
    let s: i64 = e[..n - 1].iter().map(|x| *x as i64).sum();
    let mut ninv = 1i64;
    for _ in 0..5 {
        ninv = (ninv * (2 - n as i64 * ninv)).rem_euclid(q);
    }
    let t = (-s * ninv).rem_euclid(q);
    let mut g = vec![0i32; n];
    let mut acc = 0i64;
    for i in 0..n - 1 {
        acc += e[i] as i64;
        g[i] = (-acc - (i as i64 + 1) * t).rem_euclid(q) as i32;
    }
    if g[n - 2] as i64 != t {
        return Err("division by x-1 inconsistent".into());
    }
    Ok(g)
}

// ---- C09 ------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C09Case {
    Keypair(Src<Key>),
    /// RNG bytes with no structure at all
    KeypairRaw(Fill),
    Enc(Pk, Src<Msg>),
    EncRaw(Fill, Fill),
    Dec(Key, Sk, Ct),
    DecRaw(Fill, Fill),
    /// state, reseed first?, request lengths
    Random(St, Option<Fill>, Vec<u32>),
}
pub struct C09;

fn both<T: PartialEq>(what: &str, f: impl Fn(bool) -> Result<T, String>) -> Result<T, String> {
    let a = f(false).map_err(|e| format!("{what}, plain build: {e}"))?;
    let b = f(true).map_err(|e| format!("{what}, checked build: {e}"))?;
    if a != b {
        return Err(format!("{what}: the two build profiles produce different results"));
    }
    Ok(a)
}

impl Prop for C09 {
    type Case = C09Case;
    const ID: &'static str = "C09";
    const RULE: &'static str = "a case is one operation with its complete input: key generation (patterned, degenerate all-zero, or raw RNG bytes, or a generator state), encapsulation (patterned or raw public key and bytes), decapsulation (as C04, or raw), or generator requests from an arbitrary state; it is run in the plain and in the overflow-checked build and both results compared. Every case is non-trivial.";
    fn strategy(&self, p: &Params, _v: usize) -> BoxedStrategy<C09Case> {
        let len = prop_oneof![
            75 => 0u32..70,
            24 => 70u32..3000,
            1 => prop_oneof![Just(1u32 << 16), 65_000u32..67_000, Just(100_000)],
        ];
        prop_oneof![
            8 => src(key(p)).prop_map(C09Case::Keypair),
            3 => fill().prop_map(C09Case::KeypairRaw),
            3 => (pk(p), src(msg(p))).prop_map(|(a, b)| C09Case::Enc(a, b)),
            1 => (fill(), fill()).prop_map(|(a, b)| C09Case::EncRaw(a, b)),
            3 => (plain_key(p), sk_strategy(), ct_strategy(p)).prop_map(|(a, b, c)| C09Case::Dec(a, b, c)),
            1 => (fill(), fill()).prop_map(|(a, b)| C09Case::DecRaw(a, b)),
            3 => (st(), proptest::option::of(fill()), proptest::collection::vec(len, 1..5))
                .prop_map(|(a, b, c)| C09Case::Random(a, b, c)),
        ]
        .boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 20_000,
            Tier::Thorough => 200_000,
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the two profiles are release and release with overflow checks and debug assertions".into()]
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C09Case) -> Result<Obs, String> {
        let gen = |chk: bool, b: &[u8]| env.lib(v, chk).keypair(b).map(|k| (k.pk, k.sk));
        let l = match c {
            C09Case::Keypair(Src::Feed(k)) => {
                both("key generation", |chk| gen(chk, &k.bytes(p)))?;
                if k.usable(p) {
                    "key generation"
                } else {
                    "key generation, zero secret"
                }
            }
            C09Case::Keypair(Src::Aes(st)) => {
                both("key generation with AesState", |chk| {
                    let mut a = env.lib(v, chk).aes();
                    a.set(&st.model());
                    let (mut pk, mut sk) = (vec![0; p.pk], vec![0; p.sk]);
                    match a.keypair(&mut pk, &mut sk) {
                        Res::Ok => Ok((pk, sk, a.get())),
                        r => Err(format!("{r:?}")),
                    }
                })?;
                "key generation, built-in generator"
            }
            C09Case::KeypairRaw(f) => {
                both("key generation", |chk| gen(chk, &f.bytes(p.sample_bytes() + 32)))?;
                "key generation, raw bytes"
            }
            C09Case::Enc(k, Src::Feed(m)) => {
                let pk = public_key(p, env.lib(v, false), k)?;
                both("encapsulation", |chk| env.lib(v, chk).enc(&pk, &m.bytes(p)))?;
                "encapsulation"
            }
            C09Case::Enc(k, Src::Aes(st)) => {
                let pk = public_key(p, env.lib(v, false), k)?;
                both("encapsulation with AesState", |chk| {
                    let mut a = env.lib(v, chk).aes();
                    a.set(&st.model());
                    let (mut ct, mut ss) = (vec![0; p.ct], [0; 32]);
                    match a.enc(&pk, &mut ct, &mut ss) {
                        Res::Ok => Ok((ct, ss, a.get())),
                        r => Err(format!("{r:?}")),
                    }
                })?;
                "encapsulation, built-in generator"
            }
            C09Case::EncRaw(a, b) => {
                both("encapsulation", |chk| env.lib(v, chk).enc(&a.bytes(p.pk), &b.bytes(p.sample_bytes())))?;
                "encapsulation, raw bytes"
            }
            C09Case::Dec(k, s, ct) => {
                let kp = env.lib(v, false).keypair(&k.bytes(p))?;
                let ct = ct.bytes(p, env.lib(v, false), &kp.pk)?;
                let sk = secret_key(p, &kp.sk, s, &ct);
                both("decapsulation", |chk| env.lib(v, chk).dec(&ct, &sk))?;
                "decapsulation"
            }
            C09Case::DecRaw(a, b) => {
                both("decapsulation", |chk| env.lib(v, chk).dec(&a.bytes(p.ct), &b.bytes(p.sk)))?;
                "decapsulation, raw bytes"
            }
            C09Case::Random(st, seed, lens) => {
                both("generator", |chk| {
                    let mut a = env.lib(v, chk).aes();
                    a.set(&st.model());
                    if let Some(f) = seed {
                        match a.init(&f.bytes(48).try_into().unwrap()) {
                            Res::Ok => {}
                            r => return Err(format!("reseed: {r:?}")),
                        }
                    }
                    let mut all = vec![];
                    for n in lens {
                        let mut b = vec![0; *n as usize];
                        match a.random(&mut b) {
                            Res::Ok => all.push(b),
                            r => return Err(format!("request of {n} bytes: {r:?}")),
                        }
                    }
                    Ok((all, a.get()))
                })?;
                "generator"
            }
        };
        Ok(Obs::ok(vec![l]))
    }
}
