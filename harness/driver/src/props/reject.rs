//! C05, C06 and the ciphertext recipes.

use crate::engine::*;
use crate::ffi::Lib;
use crate::gen::*;
use proptest::prelude::*;
use refmodel::Params;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ct {
    Honest(Msg),
    /// honest, unused bits set
    Pad(Msg, u8),
    /// honest, bits flipped
    Flip(Msg, Vec<Pos>),
    /// values added to coefficients of the ciphertext polynomial
    Add(Msg, Vec<(Pos, i16)>),
    /// r with coefficients changed by small or special amounts
    R(Msg, Vec<(Pos, i16)>),
    /// r with many coefficients changed: the number of bad ones, equal bad ones and cancelling ones vary
    RMany { m: Msg, k: u16, d: i16, signs: bool, seed: u64 },
    /// r with one coefficient of exactly this value
    ROne(Msg, u16, i16),
    /// m replaced: digits of an honest m overwritten (weights off)
    MEdit(Msg, Vec<(Pos, u8)>),
    /// m with given surplus of +1 and of -1, at random places.  `phi`: a multiple of Phi_n is
    /// added so that the coefficients sum to zero nevertheless; if f(1) = 0 the receiver then
    /// recovers exactly this (r, m), and only the weight check can reject it
    MWeight { r: Iid, plus: i16, minus: i16, seed: u64, phi: bool },
    /// any ternary m
    MFree { r: Iid, m: Trits },
    /// non-ternary message: values added to Lift(m)
    Lift(Msg, Vec<(Pos, i16)>),
    /// encapsulation to another key
    Other(Box<Key>, Msg),
    /// the public key itself, sent back
    PublicKey,
    Raw(Fill),
    /// polynomial by pattern, with unused bits
    Poly(QPat, u8),
    /// any of these with unused bits set: two conditions fail at once
    Padded(Box<Ct>, u8),
}

fn small() -> BoxedStrategy<i16> {
    prop_oneof![
        4 => Just(1i16),
        4 => Just(-1i16),
        4 => Just(2i16),
        4 => Just(-2i16),
        2 => Just(3i16),
        2 => Just(-3i16),
        1 => Just(4i16),
        1 => Just(-4i16),
        1 => Just(-5i16),
        1 => Just(-6i16),
        1 => Just(5i16),
        2 => (0u32..13).prop_map(|k| 1i16 << k),
        2 => (0u32..13).prop_map(|k| -(1i16 << k)),
        2 => (0u32..13).prop_map(|k| (1i16 << k).wrapping_add(1)),
        2 => (0u32..13).prop_map(|k| (1i16 << k).wrapping_sub(1)),
        2 => any::<i16>(),
    ]
    .boxed()
}

pub fn ct(p: &Params) -> BoxedStrategy<Ct> {
    let c = whole(p);
    prop_oneof![
        19 => c.clone(),
        1 => (c, 1u8..16).prop_map(|(c, b)| Ct::Padded(Box::new(c), b)),
    ]
    .boxed()
}
fn whole(p: &Params) -> BoxedStrategy<Ct> {
    let edits = || {
        prop_oneof![
            3 => proptest::collection::vec((pos(), small()), 1..2),
            1 => proptest::collection::vec((pos(), small()), 2..5),
        ]
    };
    let near = || {
        prop_oneof![
            6 => -2i16..3,
            2 => -40i16..40,
            1 => proptest::sample::select(vec![-256i16, -128, -127, -64, 64, 128, 254, 255, 256, 257]),
        ]
    };
    let count = || {
        prop_oneof![
            2 => 2u16..6,
            1 => proptest::sample::select(vec![16u16, 64, 127, 128, 255, 256, 257, 512, u16::MAX]),
            1 => 2u16..800,
        ]
    };
    prop_oneof![
        4 => msg(p).prop_map(Ct::Honest),
        2 => (msg(p), 1u8..16).prop_map(|(m, b)| Ct::Pad(m, b)),
        2 => (msg(p), proptest::collection::vec(pos(), 1..4)).prop_map(|(m, b)| Ct::Flip(m, b)),
        2 => (msg(p), edits()).prop_map(|(m, e)| Ct::Add(m, e)),
        6 => (msg(p), edits()).prop_map(|(m, e)| Ct::R(m, e)),
        2 => (msg(p), count(), small(), any::<bool>(), any::<u64>())
            .prop_map(|(m, k, d, signs, seed)| Ct::RMany { m, k, d, signs, seed }),
        4 => (msg(p), proptest::collection::vec((pos(), 0u8..3), 1..4)).prop_map(|(m, e)| Ct::MEdit(m, e)),
        4 => (iid(), near(), near(), any::<u64>(), any::<bool>())
            .prop_map(|(r, plus, minus, seed, phi)| Ct::MWeight { r, plus, minus, seed, phi }),
        // balanced, total weight off
        2 => (iid(), near(), any::<u64>())
            .prop_map(|(r, d, seed)| Ct::MWeight { r, plus: d, minus: d, seed, phi: false }),
        // total weight right, unbalanced
        2 => (iid(), near(), any::<u64>())
            .prop_map(|(r, d, seed)| Ct::MWeight { r, plus: d, minus: -d, seed, phi: true }),
        2 => (iid(), trits()).prop_map(|(r, m)| Ct::MFree { r, m }),
        2 => (msg(p), edits()).prop_map(|(m, e)| Ct::Lift(m, e)),
        1 => (plain_key(p), msg(p)).prop_map(|(k, m)| Ct::Other(Box::new(k), m)),
        1 => Just(Ct::PublicKey),
        1 => fill().prop_map(Ct::Raw),
        1 => (qpat(), any::<u8>()).prop_map(|(q, b)| Ct::Poly(q, b)),
    ]
    .boxed()
}

impl Ct {
    pub fn label(&self) -> &'static str {
        match self {
            Ct::Honest(_) => "ct: honest",
            Ct::Pad(..) => "ct: unused bits set",
            Ct::Flip(..) => "ct: bits flipped",
            Ct::Add(..) => "ct: coefficients shifted",
            Ct::R(..) => "ct: r edited",
            Ct::RMany { .. } => "ct: r edited in many places",
            Ct::ROne(..) => "ct: one coefficient of r replaced",
            Ct::MEdit(..) => "ct: m edited",
            Ct::MWeight { .. } => "ct: m of other weight",
            Ct::MFree { .. } => "ct: m arbitrary ternary",
            Ct::Lift(..) => "ct: non-ternary message",
            Ct::Other(..) => "ct: for another key",
            Ct::PublicKey => "ct: the public key",
            Ct::Raw(_) => "ct: raw bytes",
            Ct::Poly(..) => "ct: patterned polynomial",
            Ct::Padded(..) => "ct: unused bits set on top",
        }
    }
    pub fn bytes(&self, p: &Params, lib: &Lib, pk: &[u8]) -> Result<Vec<u8>, String> {
        let n = p.n;
        let rm = |m: &Msg| p.sample_rm(&m.bytes(p));
        Ok(match self {
            Ct::Honest(m) => lib.enc(pk, &m.bytes(p))?.0,
            Ct::Pad(m, b) => {
                let mut c = lib.enc(pk, &m.bytes(p))?.0;
                set_pad(p, &mut c, *b);
                c
            }
            Ct::Flip(m, f) => {
                let mut c = lib.enc(pk, &m.bytes(p))?.0;
                for q in f {
                    let b = q.of(8 * p.ct);
                    c[b / 8] ^= 1 << (b % 8);
                }
                c
            }
            Ct::Add(m, e) => {
                let (r, m) = rm(m);
                let mut c = p.unpack_q(&p.encrypt(pk, &r, &m));
                for (q, d) in e {
                    let i = q.of(n - 1);
                    c[i] = (c[i] + *d as i32).rem_euclid(p.q());
                }
                p.pack_q(&c)
            }
            Ct::R(m, e) => {
                let (mut r, m) = rm(m);
                for (q, d) in e {
                    let i = q.of(n - 1);
                    r[i] += *d as i32;
                }
                p.encrypt(pk, &r, &m)
            }
            Ct::RMany { m, k, d, signs, seed } => {
                let (mut r, m) = rm(m);
                let mut at: Vec<usize> = (0..n - 1).collect();
                let mut s = Sm(*seed);
                s.shuffle(&mut at);
                // every other one of the opposite sign; or all to the same value
                for (j, i) in at.iter().take(*k as usize).enumerate() {
                    r[*i] = match (signs, j % 2) {
                        (true, 1) => -(1 + *d as i32),
                        _ => 1 + *d as i32,
                    };
                }
                p.encrypt(pk, &r, &m)
            }
            Ct::ROne(m, i, x) => {
                let (mut r, m) = rm(m);
                r[*i as usize % (n - 1)] = *x as i32;
                p.encrypt(pk, &r, &m)
            }
            Ct::MEdit(m, e) => {
                let (r, mut m) = rm(m);
                for (q, d) in e {
                    m[q.of(n - 1)] = (*d as i32 + 1) % 3 - 1;
                }
                p.encrypt(pk, &r, &m)
            }
            Ct::MWeight { r, plus, minus, seed, phi } => {
                let r = p.sample_iid(&r.bytes(p));
                let w = p.weight() as i32 / 2;
                let a = (w + *plus as i32).clamp(0, n as i32 - 1) as usize;
                let b = ((w + *minus as i32).max(0) as usize).min(n - 1 - a);
                let mut m: Vec<i32> = vec![0; n - 1];
                m[..a].fill(1);
                m[a..a + b].fill(-1);
                Sm(*seed).shuffle(&mut m);
                m.push(0);
                if *phi && !p.hrss {
                    with_m_phi(p, pk, &r, &m)
                } else {
                    p.encrypt(pk, &r, &m)
                }
            }
            Ct::MFree { r, m } => {
                let r = p.sample_iid(&r.bytes(p));
                let mut m: Vec<i32> = expand_trits(m, n - 1).iter().map(|x| (*x as i32 + 1) % 3 - 1).collect();
                m.push(0);
                p.encrypt(pk, &r, &m)
            }
            Ct::Lift(m, e) => {
                let (r, m) = rm(m);
                let mut l = p.lift(&m);
                for (q, d) in e {
                    let i = q.of(n);
                    l[i] += *d as i32;
                }
                p.encrypt_h(&p.unpack_sum0(pk), &r, &l)
            }
            Ct::Other(k, m) => {
                let kp = lib.keypair(&k.bytes(p))?;
                lib.enc(&kp.pk, &m.bytes(p))?.0
            }
            Ct::PublicKey => pk.to_vec(),
            Ct::Padded(c, b) => {
                let mut c = c.bytes(p, lib, pk)?;
                set_pad(p, &mut c, *b);
                c
            }
            Ct::Raw(f) => f.bytes(p.ct),
            Ct::Poly(q, b) => {
                let mut c = p.pack_q(&qvec(p, q));
                set_pad(p, &mut c, *b);
                c
            }
        })
    }
}

/// r*h + m + kappa*Phi_n with kappa chosen so that the coefficients sum to zero modulo q
fn with_m_phi(p: &Params, pk: &[u8], r: &[i32], m: &[i32]) -> Vec<u8> {
    let q = p.q() as i64;
    let mut ninv = 1i64;
    for _ in 0..5 {
        ninv = (ninv * (2 - p.n as i64 * ninv)).rem_euclid(q);
    }
    let s: i64 = m.iter().map(|x| *x as i64).sum();
    let kappa = (-s * ninv).rem_euclid(q) as i32;
    let l: Vec<i32> = m.iter().map(|x| x + kappa).collect();
    p.encrypt_h(&p.unpack_sum0(pk), r, &l)
}

// ---- C05 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C05Case {
    key: Key,
    ct: Ct,
    prf2: Fill,
    checked: bool,
}
pub struct C05;
impl Prop for C05 {
    type Case = C05Case;
    const ID: &'static str = "C05";
    const RULE: &'static str = "a case is a generated key pair, a ciphertext made from it by one of 16 recipes (honest; every coefficient of r set to 2, -2, 3 in turn and one to -128..128; r edited by +-1, +-2, powers of two, in one or in many places; m of wrong weight or edited; non-ternary message; unused bits; bit flips; coefficient shifts; foreign key; public key; raw; unused bits set on top of any), a second rejection secret and a build profile. Oracle: decrypt with the model and re-encrypt - the ciphertext is legitimate iff that reproduces it bit for bit from an (r, m) in the space. Non-trivial: f and g non-zero; the classes count accepted and rejected cases.";
    fn strategy(&self, p: &Params, _v: usize) -> BoxedStrategy<C05Case> {
        (prop_oneof![3 => plain_key(p), 1 => balanced_key(p)], ct(p), fill(), any::<bool>())
            .prop_map(|(key, ct, prf2, checked)| C05Case { key, ct, prf2, checked })
            .boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 6_000,
            Tier::Thorough => 80_000,
        }
    }
    fn pinned(&self, tier: Tier, p: &Params) -> Vec<C05Case> {
        let rnd = |x: u64| Iid { pat: Trits::Rand(x), edits: vec![], rep: Rep::Rand(x) };
        let half = |x: u64| {
            if p.hrss {
                Half::U(rnd(x))
            } else {
                Half::F(Ft { pat: FtPat::Rand(x), edits: vec![] })
            }
        };
        let case = |s: u64, i: usize, x: i16| C05Case {
            key: Key { f: rnd(10 * s + 1), g: half(10 * s + 2), prf: Fill::Rand(s) },
            ct: Ct::ROne(Msg { r: rnd(10 * s + 3), m: half(10 * s + 4) }, i as u16, x),
            prf2: Fill::Rand(s + 1),
            checked: s % 2 == 1,
        };
        let mut v = vec![];
        // every coefficient of r just outside the three values, and inside them
        for i in 0..p.n - 1 {
            for x in [2, -2, 3, (i % 3) as i16 - 1] {
                v.push(case(i as u64, i, x));
            }
        }
        // one coefficient of r takes every value for which the message is still recovered
        let k = if tier == Tier::Quick { 2 } else { 16 };
        for s in 0..k {
            for x in -128..=128 {
                v.push(case(s, 97 * s as usize, x));
            }
        }
        v
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C05Case) -> Result<Obs, String> {
        let lib = env.lib(v, c.checked);
        if !c.key.usable(p) {
            return Ok(Obs::trivial("zero secret"));
        }
        let kp = lib.keypair(&c.key.bytes(p))?;
        let ct = c.ct.bytes(p, lib, &kp.pk)?;
        let open = p.opens_to(&kp.pk, &kp.sk, &ct);
        let mut sk2 = kp.sk.clone();
        let prf2 = c.prf2.bytes(32);
        sk2[p.prf_at()..].copy_from_slice(&prf2);
        for (sk, prf) in [(&kp.sk, &kp.sk[p.prf_at()..]), (&sk2, &prf2[..])] {
            let k = lib.dec(&ct, sk)?;
            match &open {
                Some((r, m)) => diff("key of a legitimate ciphertext", &k, &p.key_of(r, m))?,
                None => diff("key of an illegitimate ciphertext", &k, &p.reject(prf, &ct))?,
            }
        }
        Ok(Obs::ok(vec![c.ct.label(), if open.is_some() { "legitimate" } else { "illegitimate" }]))
    }
}

// ---- C06 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Family {
    /// every single-bit flip of the ciphertext in a window of bits
    Bits { from: Pos, len: u16 },
    /// random sets of flips
    Sets { seed: u64, k: u16 },
    /// all values of one byte
    Byte(Pos),
    /// one coefficient takes all (up to 512) values
    Coeff { at: Pos, seed: u64 },
    /// two-bit flips around a position
    Pairs { at: Pos },
    /// rejection secrets that differ in every single bit, for one invalid ciphertext
    Secrets,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C06Case {
    key: Key,
    base: Ct,
    family: Family,
    checked: bool,
}
pub struct C06;
impl Prop for C06 {
    type Case = C06Case;
    const ID: &'static str = "C06";
    const RULE: &'static str = "a case is a key pair, a base ciphertext (honest or crafted) and a family around it: all single-bit flips of a window, all values of one byte (unused bits included), all values of a coefficient, two-bit flips, random flip sets, or all single-bit changes of the rejection secret. Every member is decapsulated; evaluations count decapsulations, distinct_nontrivial the distinct (key, ciphertext) strings. All keys within a family must differ.";
    fn strategy(&self, p: &Params, _v: usize) -> BoxedStrategy<C06Case> {
        let fam = prop_oneof![
            3 => (pos(), 32u16..200).prop_map(|(from, len)| Family::Bits { from, len }),
            2 => (any::<u64>(), 16u16..64).prop_map(|(seed, k)| Family::Sets { seed, k }),
            2 => pos().prop_map(Family::Byte),
            1 => (pos(), any::<u64>()).prop_map(|(at, seed)| Family::Coeff { at, seed }),
            1 => pos().prop_map(|at| Family::Pairs { at }),
            2 => Just(Family::Secrets),
        ];
        let base = prop_oneof![3 => msg(p).prop_map(Ct::Honest), 1 => ct(p)];
        (plain_key(p), base, fam, any::<bool>())
            .prop_map(|(key, base, family, checked)| C06Case { key, base, family, checked })
            .boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 480,
            Tier::Thorough => 8_000,
        }
    }
    fn shard(&self) -> usize {
        8
    }
    fn pinned(&self, tier: Tier, p: &Params) -> Vec<C06Case> {
        // every single-bit flip of one honest ciphertext, in windows
        let n = if tier == Tier::Quick { 1 } else { 8 };
        let mut v = vec![];
        for s in 0..n {
            let rnd = |x: u64| Iid { pat: Trits::Rand(x), edits: vec![], rep: Rep::Rand(x) };
            let half = |x: u64| {
                if p.hrss {
                    Half::U(rnd(x))
                } else {
                    Half::F(Ft { pat: FtPat::Rand(x), edits: vec![] })
                }
            };
            let key = Key { f: rnd(10 * s + 1), g: half(10 * s + 2), prf: Fill::Rand(s) };
            let base = Ct::Honest(Msg { r: rnd(10 * s + 3), m: half(10 * s + 4) });
            v.push(C06Case { key: key.clone(), base, family: Family::Bits { from: Pos::Start(0), len: u16::MAX }, checked: false });
        }
        v
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["no SHA3-256 collisions among the explored strings".into()]
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C06Case) -> Result<Obs, String> {
        let lib = env.lib(v, c.checked);
        if !c.key.usable(p) {
            return Ok(Obs::trivial("zero secret"));
        }
        let kp = lib.keypair(&c.key.bytes(p))?;
        let ct = c.base.bytes(p, lib, &kp.pk)?;
        let nbits = 8 * p.ct;
        let mut cts: Vec<Vec<u8>> = vec![ct.clone()];
        let flip = |set: &[usize]| {
            let mut x = ct.clone();
            for b in set {
                x[b / 8] ^= 1 << (b % 8);
            }
            x
        };
        let label = match &c.family {
            Family::Bits { from, len } => {
                let f = from.of(nbits);
                for i in 0..(*len as usize).min(nbits) {
                    cts.push(flip(&[(f + i) % nbits]));
                }
                "family: single-bit flips"
            }
            Family::Sets { seed, k } => {
                let mut r = Sm(*seed);
                for _ in 0..*k {
                    let m = 1 + r.below(12);
                    let s: Vec<usize> = (0..m).map(|_| r.below(nbits)).collect();
                    cts.push(flip(&s));
                }
                "family: random flip sets"
            }
            Family::Byte(q) => {
                let i = q.of(p.ct);
                for b in 0..=255u8 {
                    let mut x = ct.clone();
                    x[i] = b;
                    cts.push(x);
                }
                "family: all values of one byte"
            }
            Family::Coeff { at, seed } => {
                let i = at.of(p.n - 1);
                let mut r = Sm(*seed);
                let base = p.unpack_q(&ct);
                for d in 0..256 {
                    let mut x = base.clone();
                    x[i] = if d < 16 { d - 8 } else { r.below(p.q() as usize) as i32 };
                    cts.push(p.pack_q(&x));
                }
                "family: values of one coefficient"
            }
            Family::Pairs { at } => {
                let f = at.of(nbits);
                for i in 0..14 {
                    for j in 0..i {
                        cts.push(flip(&[(f + i) % nbits, (f + j) % nbits]));
                    }
                }
                "family: two-bit flips"
            }
            Family::Secrets => {
                // every rejection secret at Hamming distance 1
                let mut bad = ct.clone();
                if p.opens_to(&kp.pk, &kp.sk, &bad).is_some() {
                    bad[0] ^= 1;
                    if p.opens_to(&kp.pk, &kp.sk, &bad).is_some() {
                        return Ok(Obs::trivial("neighbour legitimate"));
                    }
                }
                let mut seen: HashMap<[u8; 32], usize> = HashMap::new();
                let mut inner = vec![];
                for b in 0..=256usize {
                    let mut sk = kp.sk.clone();
                    if b < 256 {
                        sk[p.prf_at() + b / 8] ^= 1 << (b % 8);
                    }
                    let k = lib.dec(&bad, &sk)?;
                    if let Some(o) = seen.insert(k, b) {
                        return Err(format!(
                            "one invalid ciphertext gives the same key under rejection secrets differing in bits {o} and {b}"
                        ));
                    }
                    inner.push(hash_of((&sk, &bad)));
                }
                return Ok(Obs { nontrivial: true, labels: vec!["family: rejection secrets"], evals: 257, inner });
            }
        };
        let mut seen: HashMap<[u8; 32], usize> = HashMap::new();
        let mut inner = vec![];
        let mut evals = 0;
        for (i, x) in cts.iter().enumerate() {
            let k = lib.dec(x, &kp.sk)?;
            evals += 1;
            inner.push(hash_of((&kp.sk, x)));
            if let Some(o) = seen.insert(k, i) {
                if cts[o] != *x {
                    let at: Vec<usize> = (0..p.ct).filter(|j| cts[o][*j] != x[*j]).collect();
                    return Err(format!("two ciphertexts that differ in bytes {at:?} give the same key"));
                }
            }
        }
        inner.sort();
        inner.dedup();
        Ok(Obs { nontrivial: true, labels: vec![label, c.base.label()], evals, inner })
    }
}
