//! Input recipes.  A recipe is small and serialisable, says *what shape* the input
//! has, and expands deterministically into bytes for a given variant.

use proptest::prelude::*;
use refmodel::ntru::Z;
use refmodel::Params;
use serde::{Deserialize, Serialize};

/// SplitMix64, for everything a recipe derives from a recorded seed.
#[derive(Clone)]
pub struct Sm(pub u64);
impl Sm {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let x = self.next().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// A position in an array, biased to both ends.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Pos {
    Start(u8),
    End(u8),
    At(u16),
}
impl Pos {
    pub fn of(self, len: usize) -> usize {
        match self {
            Pos::Start(k) => k as usize % len,
            Pos::End(k) => len - 1 - (k as usize % len),
            Pos::At(x) => (x as usize * len) >> 16,
        }
    }
}
pub fn pos() -> BoxedStrategy<Pos> {
    prop_oneof![
        2 => (0u8..9).prop_map(Pos::Start),
        2 => (0u8..9).prop_map(Pos::End),
        4 => any::<u16>().prop_map(Pos::At),
    ]
    .boxed()
}

// ---- ternary vectors and the bytes that sample to them -------------------------------

/// A vector of digits 0,1,2 (2 stands for -1).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Trits {
    Rand(u64),
    Biased { seed: u64, zero: u8, one: u8 },
    Const(u8),
    Sparse { seed: u64, k: u16 },
    Periodic(Vec<u8>),
    Blocks { seed: u64, len: u16 },
    /// k ones and k minus ones: vanishes at x = 1
    Balanced { seed: u64, k: u16 },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Rep {
    Low,
    High,
    Rand(u64),
}

/// Bytes for a uniform ternary polynomial.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Iid {
    pub pat: Trits,
    pub edits: Vec<(Pos, u8)>,
    pub rep: Rep,
}

pub fn expand_trits(pat: &Trits, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    match pat {
        Trits::Rand(s) => {
            let mut r = Sm(*s);
            for x in v.iter_mut() {
                *x = r.below(3) as u8;
            }
        }
        Trits::Biased { seed, zero, one } => {
            let mut r = Sm(*seed);
            for x in v.iter_mut() {
                let (a, b) = (r.below(256), r.below(256));
                *x = if a < *zero as usize { 0 } else if b < *one as usize { 1 } else { 2 };
            }
        }
        Trits::Const(t) => v.fill(t % 3),
        Trits::Sparse { seed, k } => {
            let mut r = Sm(*seed);
            for _ in 0..*k {
                let p = r.below(len);
                v[p] = 1 + r.below(2) as u8;
            }
        }
        Trits::Periodic(p) => {
            for (i, x) in v.iter_mut().enumerate() {
                *x = if p.is_empty() { 0 } else { p[i % p.len()] % 3 };
            }
        }
        Trits::Blocks { seed, len: l } => {
            let mut r = Sm(*seed);
            for c in v.chunks_mut((*l as usize).max(1)) {
                let t = r.below(3) as u8;
                c.fill(t);
            }
        }
        Trits::Balanced { seed, k } => {
            let k = (*k as usize).min(len / 2);
            v[..k].fill(1);
            v[k..2 * k].fill(2);
            Sm(*seed).shuffle(&mut v);
        }
    }
    v
}

pub fn trits_to_bytes(t: &[u8], rep: Rep) -> Vec<u8> {
    let mut r = Sm(match rep {
        Rep::Rand(s) => s,
        _ => 0,
    });
    t.iter()
        .map(|&d| match rep {
            Rep::Low => d,
            Rep::High => [255, 253, 254][d as usize],
            Rep::Rand(_) => {
                let hi = if d == 0 { 86 } else { 85 };
                (r.below(hi) * 3) as u8 + d
            }
        })
        .collect()
}

impl Iid {
    pub fn trits(&self, len: usize) -> Vec<u8> {
        let mut v = expand_trits(&self.pat, len);
        for (p, t) in &self.edits {
            v[p.of(len)] = t % 3;
        }
        v
    }
    pub fn bytes(&self, p: &Params) -> Vec<u8> {
        trits_to_bytes(&self.trits(p.n - 1), self.rep)
    }
}

pub fn trits() -> BoxedStrategy<Trits> {
    prop_oneof![
        10 => any::<u64>().prop_map(Trits::Rand),
        3 => (any::<u64>(), any::<u8>(), any::<u8>())
            .prop_map(|(seed, zero, one)| Trits::Biased { seed, zero, one }),
        1 => (0u8..3).prop_map(Trits::Const),
        2 => (any::<u64>(), 1u16..12).prop_map(|(seed, k)| Trits::Sparse { seed, k }),
        2 => proptest::collection::vec(0u8..3, 1..7).prop_map(Trits::Periodic),
        2 => (any::<u64>(), 1u16..400).prop_map(|(seed, len)| Trits::Blocks { seed, len }),
        1 => (any::<u64>(), 1u16..400).prop_map(|(seed, k)| Trits::Balanced { seed, k }),
    ]
    .boxed()
}

pub fn iid() -> BoxedStrategy<Iid> {
    (
        trits(),
        prop_oneof![
            3 => Just(vec![]),
            2 => proptest::collection::vec((pos(), 0u8..3), 1..4),
        ],
        prop_oneof![Just(Rep::Low), Just(Rep::High), any::<u64>().prop_map(Rep::Rand)],
    )
        .prop_map(|(pat, edits, rep)| Iid { pat, edits, rep })
        .boxed()
}

// ---- words of a fixed-weight seed ---------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FtPat {
    Rand(u64),
    /// all words equal: order decided by the tags alone
    Equal(u32),
    Ascending,
    Descending,
    /// words drawn from k values only (k = 2: the 0-1 principle of sorting networks)
    Few { seed: u64, k: u8 },
    /// ascending with a threshold: 0..0 1..1 rotated, 0-1 inputs
    Threshold { at: Pos, rot: Pos, lo: u32, hi: u32 },
    /// powers of two, extremes and neighbours of the sign change
    Extreme(u64),
    /// a permutation of distinct words spread over the whole range
    Perm(u64),
    /// words that put the digits of this pattern (weight corrected) at their positions
    Arrange(Trits, u64),
    /// ascending then descending
    Bitonic(Pos),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ft {
    pub pat: FtPat,
    pub edits: Vec<(Pos, u32)>,
}

/// the word with rank `i` of `n` in ascending signed order
fn ranked(i: usize, n: usize) -> u32 {
    let step = (1u64 << 30) / n as u64;
    // signed order starts at the word 2^29
    (((1u64 << 29) + i as u64 * step) & ((1 << 30) - 1)) as u32
}

/// Words that make the sampler produce exactly `target` (digits; must have the right weights).
pub fn words_for(p: &Params, target: &[u8]) -> Vec<u32> {
    let n = p.n - 1;
    let w = p.weight();
    let mut of: [Vec<usize>; 3] = [vec![], vec![], vec![]];
    for (i, t) in target.iter().enumerate() {
        of[*t as usize].push(i);
    }
    assert!(of[1].len() == w / 2 && of[2].len() == w / 2);
    let [z, o, m] = of;
    o.into_iter().chain(m).chain(z).map(|pos| ranked(pos, n)).collect()
}

/// Change digits until the weights are right, touching random positions.
pub fn fix_weights(p: &Params, t: &mut [u8], seed: u64) {
    let w = p.weight() / 2;
    let mut r = Sm(seed);
    let mut idx: Vec<usize> = (0..t.len()).collect();
    r.shuffle(&mut idx);
    let mut cnt = [0usize; 3];
    for x in t.iter() {
        cnt[*x as usize] += 1;
    }
    let want = [t.len() - 2 * w, w, w];
    for i in idx {
        let d = t[i] as usize;
        if cnt[d] > want[d] {
            let e = (0..3).find(|e| cnt[*e] < want[*e]).unwrap();
            cnt[d] -= 1;
            cnt[e] += 1;
            t[i] = e as u8;
        }
    }
}

impl Ft {
    pub fn words(&self, p: &Params) -> Vec<u32> {
        let n = p.n - 1;
        let mask = (1u32 << 30) - 1;
        let mut v: Vec<u32> = match &self.pat {
            FtPat::Rand(s) => {
                let mut r = Sm(*s);
                (0..n).map(|_| r.next() as u32 & mask).collect()
            }
            FtPat::Equal(w) => vec![w & mask; n],
            FtPat::Ascending => (0..n).map(|i| ranked(i, n)).collect(),
            FtPat::Descending => (0..n).map(|i| ranked(n - 1 - i, n)).collect(),
            FtPat::Few { seed, k } => {
                let mut r = Sm(*seed);
                let vals: Vec<u32> = (0..(*k).max(1)).map(|_| r.next() as u32 & mask).collect();
                (0..n).map(|_| vals[r.below(vals.len())]).collect()
            }
            FtPat::Threshold { at, rot, lo, hi } => {
                let (a, b) = (at.of(n), rot.of(n));
                (0..n).map(|i| if (i + b) % n < a { *lo } else { *hi } & mask).collect()
            }
            FtPat::Extreme(s) => {
                let mut r = Sm(*s);
                let t = [0, 1, mask, mask - 1, 1 << 29, (1 << 29) - 1, (1 << 29) + 1, (1 << 29) - 2];
                (0..n)
                    .map(|_| if r.below(3) == 0 { 1 << r.below(30) } else { t[r.below(t.len())] })
                    .collect()
            }
            FtPat::Perm(s) => {
                let mut v: Vec<u32> = (0..n).map(|i| ranked(i, n)).collect();
                Sm(*s).shuffle(&mut v);
                v
            }
            FtPat::Arrange(t, s) => {
                let mut d = expand_trits(t, n);
                fix_weights(p, &mut d, *s);
                words_for(p, &d)
            }
            FtPat::Bitonic(x) => {
                let k = x.of(n).max(1);
                (0..n)
                    .map(|i| if i < k { ranked(i * (n - 1) / k, n) } else { ranked(n - 1 - (i - k) * (n - 1) / (n - k), n) })
                    .collect()
            }
        };
        for (q, w) in &self.edits {
            v[q.of(n)] = w & mask;
        }
        v
    }
    pub fn bytes(&self, p: &Params) -> Vec<u8> {
        p.ft_seed(&self.words(p))
    }
}

fn word() -> BoxedStrategy<u32> {
    prop_oneof![
        any::<u32>().prop_map(|x| x & 0x3fff_ffff),
        Just(0u32),
        Just(0x3fff_ffff),
        Just(0x2000_0000),
        Just(0x1fff_ffff),
    ]
    .boxed()
}

pub fn ft() -> BoxedStrategy<Ft> {
    (
        prop_oneof![
            8 => any::<u64>().prop_map(FtPat::Rand),
            1 => word().prop_map(FtPat::Equal),
            1 => Just(FtPat::Ascending),
            1 => Just(FtPat::Descending),
            3 => (any::<u64>(), 1u8..6).prop_map(|(seed, k)| FtPat::Few { seed, k }),
            2 => (pos(), pos(), word(), word())
                .prop_map(|(at, rot, lo, hi)| FtPat::Threshold { at, rot, lo, hi }),
            2 => any::<u64>().prop_map(FtPat::Extreme),
            2 => any::<u64>().prop_map(FtPat::Perm),
            3 => (trits(), any::<u64>()).prop_map(|(t, s)| FtPat::Arrange(t, s)),
            1 => pos().prop_map(FtPat::Bitonic),
        ],
        prop_oneof![
            3 => Just(vec![]),
            1 => proptest::collection::vec((pos(), word()), 1..4),
        ],
    )
        .prop_map(|(pat, edits)| Ft { pat, edits })
        .boxed()
}

/// Either half of the randomness that is uniform for HRSS and fixed-weight for HPS.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Half {
    U(Iid),
    F(Ft),
}
impl Half {
    pub fn bytes(&self, p: &Params) -> Vec<u8> {
        match self {
            Half::U(x) => x.bytes(p),
            Half::F(x) => x.bytes(p),
        }
    }
}
pub fn half(p: &Params) -> BoxedStrategy<Half> {
    if p.hrss {
        iid().prop_map(Half::U).boxed()
    } else {
        ft().prop_map(Half::F).boxed()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fill {
    Const(u8),
    Rand(u64),
}
impl Fill {
    pub fn bytes(&self, n: usize) -> Vec<u8> {
        match self {
            Fill::Const(b) => vec![*b; n],
            Fill::Rand(s) => Sm(*s).bytes(n),
        }
    }
}
pub fn fill() -> BoxedStrategy<Fill> {
    prop_oneof![
        1 => prop_oneof![Just(0u8), Just(255), any::<u8>()].prop_map(Fill::Const),
        4 => any::<u64>().prop_map(Fill::Rand),
    ]
    .boxed()
}

/// Randomness of key generation: f, g, rejection secret.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Key {
    pub f: Iid,
    pub g: Half,
    pub prf: Fill,
}
impl Key {
    pub fn seed(&self, p: &Params) -> Vec<u8> {
        let mut b = self.f.bytes(p);
        b.extend(self.g.bytes(p));
        assert_eq!(b.len(), p.sample_bytes());
        b
    }
    pub fn prf_bytes(&self) -> [u8; 32] {
        self.prf.bytes(32).try_into().unwrap()
    }
    pub fn bytes(&self, p: &Params) -> Vec<u8> {
        let mut b = self.seed(p);
        b.extend(self.prf_bytes());
        b
    }
    /// f and g non-zero (then both are invertible, since Phi_n is irreducible mod 2 and mod 3)
    pub fn usable(&self, p: &Params) -> bool {
        let (f, g) = p.sample_fg(&self.seed(p));
        f.iter().any(|x| *x != 0) && g.iter().any(|x| *x != 0)
    }
}
pub fn key(p: &Params) -> BoxedStrategy<Key> {
    (iid(), half(p), fill()).prop_map(|(f, g, prf)| Key { f, g, prf }).boxed()
}
/// mostly plain random keys, where the key is only the setting of the case
pub fn plain_key(p: &Params) -> BoxedStrategy<Key> {
    let hrss = p.hrss;
    let random = (any::<u64>(), any::<u64>(), fill()).prop_map(move |(a, b, prf)| {
        let f = Iid { pat: Trits::Rand(a), edits: vec![], rep: Rep::Rand(a) };
        let g = if hrss {
            Half::U(Iid { pat: Trits::Rand(b), edits: vec![], rep: Rep::Rand(b) })
        } else {
            Half::F(Ft { pat: FtPat::Rand(b), edits: vec![] })
        };
        Key { f, g, prf }
    });
    prop_oneof![3 => random, 1 => key(p)].boxed()
}

/// keys whose f vanishes at 1 (HPS): such keys decrypt unbalanced messages correctly
pub fn balanced_key(p: &Params) -> BoxedStrategy<Key> {
    let f = (any::<u64>(), 100u16..200).prop_map(|(seed, k)| Iid {
        pat: Trits::Balanced { seed, k },
        edits: vec![],
        rep: Rep::Rand(seed),
    });
    (f, half(p), fill()).prop_map(|(f, g, prf)| Key { f, g, prf }).boxed()
}

/// Randomness of encapsulation: r, m.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Msg {
    pub r: Iid,
    pub m: Half,
}
impl Msg {
    pub fn bytes(&self, p: &Params) -> Vec<u8> {
        let mut b = self.r.bytes(p);
        b.extend(self.m.bytes(p));
        assert_eq!(b.len(), p.sample_bytes());
        b
    }
}
pub fn msg(p: &Params) -> BoxedStrategy<Msg> {
    (iid(), half(p)).prop_map(|(r, m)| Msg { r, m }).boxed()
}

/// Randomness for encapsulation that drives coefficient `k` of the decryption noise
/// (r*G + Lift(m)*f) to its extreme for the given secret polynomials.
pub fn aligned(p: &Params, f: &[i32], g: &[i32], k: usize, sr: bool, sm: bool, seed: u64) -> Vec<u8> {
    let n = p.n;
    let mut rnd = Sm(seed);
    let gg = p.big_g(g);
    let sg = |neg: bool, x: i32| if neg { -x.signum() } else { x.signum() };
    let dig = |x: i32| x.rem_euclid(3) as u8;
    let mut r: Vec<u8> = (0..n - 1)
        .map(|i| match sg(sr, gg[(k + n - i) % n]) {
            0 => rnd.below(3) as u8,
            s => dig(s),
        })
        .collect();
    let m: Vec<u8> = if p.hrss {
        // Lift(m) = (x-1) b: choose b against (x-1) f, then m = (x-1) b mod (3, Phi)
        let xf: Vec<i32> = (0..n).map(|i| f[(i + n - 1) % n] - f[i]).collect();
        let mut b: Vec<i32> = (0..n - 1)
            .map(|i| match sg(sm, xf[(k + n - i) % n]) {
                0 => rnd.below(3) as i32 - 1,
                s => s,
            })
            .collect();
        b.push(0);
        let l: Vec<i32> = (0..n).map(|i| b[(i + n - 1) % n] - b[i]).collect();
        p.mod_3_phi(&l)[..n - 1].iter().map(|x| *x as u8).collect()
    } else {
        let w = p.weight() / 2;
        let mut want: [Vec<usize>; 3] = [vec![], vec![], vec![]];
        for i in 0..n - 1 {
            want[dig(sg(sm, f[(k + n - i) % n])) as usize].push(i);
        }
        let mut m = vec![0u8; n - 1];
        let mut used = [0usize; 3];
        for d in [1usize, 2] {
            rnd.shuffle(&mut want[d]);
            for &i in want[d].iter().take(w) {
                m[i] = d as u8;
                used[d] += 1;
            }
        }
        // not enough partners: use positions where f is zero, then the others
        let mut rest: Vec<usize> = want[0].clone();
        rnd.shuffle(&mut rest);
        rest.extend(want[1].iter().skip(w).chain(want[2].iter().skip(w)));
        for i in rest {
            for d in [1usize, 2] {
                if used[d] < w && m[i] == 0 {
                    m[i] = d as u8;
                    used[d] += 1;
                }
            }
        }
        m
    };
    if seed % 8 == 7 {
        let i = rnd.below(n - 1);
        r[i] = rnd.below(3) as u8;
    }
    let mut out = trits_to_bytes(&r, Rep::Rand(seed));
    if p.hrss {
        out.extend(trits_to_bytes(&m, Rep::Rand(!seed)));
    } else {
        out.extend(p.ft_seed(&words_for(p, &m)));
    }
    out
}

/// largest |coefficient| of r*G + Lift(m)*f
pub fn noise(p: &Params, f: &[i32], g: &[i32], r: &[i32], m: &[i32]) -> i32 {
    let a = p.mul(r, &p.big_g(g));
    let b = p.mul(&p.lift(m), f);
    a.iter().zip(&b).map(|(x, y)| (x + y).abs()).max().unwrap()
}

// ---- polynomials mod q (public keys) --------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum QPat {
    Rand(u64),
    Const(u16),
    One { at: Pos, v: u16 },
    Ramp { from: u16, step: u16 },
    Alt(u16, u16),
    /// small values around 0
    Small(u64),
    /// single bits
    Bits(u64),
    /// values around the multiples of q/4
    Edge(u64),
    Sparse { seed: u64, k: u16 },
}

pub fn qvec(p: &Params, pat: &QPat) -> Z {
    let n = p.n - 1;
    let q = p.q();
    let mut v: Z = match pat {
        QPat::Rand(s) => {
            let mut r = Sm(*s);
            (0..n).map(|_| r.below(q as usize) as i32).collect()
        }
        QPat::Const(c) => vec![*c as i32 % q; n],
        QPat::One { at, v } => {
            let mut z = vec![0; n];
            z[at.of(n)] = *v as i32 % q;
            z
        }
        QPat::Ramp { from, step } => (0..n as i32).map(|i| (*from as i32 + i * *step as i32).rem_euclid(q)).collect(),
        QPat::Alt(a, b) => (0..n).map(|i| if i % 2 == 0 { *a as i32 % q } else { *b as i32 % q }).collect(),
        QPat::Small(s) => {
            let mut r = Sm(*s);
            (0..n).map(|_| (r.below(5) as i32 - 2).rem_euclid(q)).collect()
        }
        QPat::Bits(s) => {
            let mut r = Sm(*s);
            (0..n).map(|_| 1 << r.below(p.logq)).collect()
        }
        QPat::Edge(s) => {
            let mut r = Sm(*s);
            (0..n).map(|_| (r.below(4) as i32 * (q / 4) + r.below(5) as i32 - 2).rem_euclid(q)).collect()
        }
        QPat::Sparse { seed, k } => {
            let mut r = Sm(*seed);
            let mut z = vec![0; n];
            for _ in 0..*k {
                z[r.below(n)] = r.below(q as usize) as i32;
            }
            z
        }
    };
    v.push(0);
    v
}

pub fn qpat() -> BoxedStrategy<QPat> {
    let val = || {
        prop_oneof![
            any::<u16>(),
            Just(0u16),
            Just(1),
            Just(0xffff),
            Just(0x5555),
            Just(0xaaaa),
            (0u32..13).prop_map(|b| 1u16 << b),
        ]
    };
    prop_oneof![
        5 => any::<u64>().prop_map(QPat::Rand),
        1 => val().prop_map(QPat::Const),
        2 => (pos(), val()).prop_map(|(at, v)| QPat::One { at, v }),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(from, step)| QPat::Ramp { from, step }),
        1 => (val(), val()).prop_map(|(a, b)| QPat::Alt(a, b)),
        1 => any::<u64>().prop_map(QPat::Small),
        1 => any::<u64>().prop_map(QPat::Bits),
        1 => any::<u64>().prop_map(QPat::Edge),
        1 => (any::<u64>(), 1u16..9).prop_map(|(seed, k)| QPat::Sparse { seed, k }),
    ]
    .boxed()
}

/// bits outside the encoded coefficients
pub fn set_pad(p: &Params, b: &mut [u8], pad: u8) {
    if p.pad_bits() > 0 {
        let last = b.len() - 1;
        b[last] |= pad << (8 - p.pad_bits());
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pk {
    Key(Key),
    Poly(QPat, u8),
    Raw(Fill),
}
pub fn pk(p: &Params) -> BoxedStrategy<Pk> {
    prop_oneof![
        4 => plain_key(p).prop_map(Pk::Key),
        5 => (qpat(), prop_oneof![2 => Just(0u8), 1 => any::<u8>()]).prop_map(|(q, b)| Pk::Poly(q, b)),
        1 => fill().prop_map(Pk::Raw),
    ]
    .boxed()
}

// ---- AES generator states -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum St {
    /// reseeded from a fresh generator
    Seed(Fill),
    /// fields set directly: key, counter block (high bytes random, low bytes ff minus d), counter
    Raw { key: Fill, v: Fill, ff: u8, minus: u8, counter: i32 },
}
impl St {
    pub fn model(&self) -> refmodel::Drbg {
        let mut d = refmodel::Drbg::new();
        match self {
            St::Seed(f) => d.init(&f.bytes(48).try_into().unwrap()),
            St::Raw { key, v, ff, minus, counter } => {
                d.key = key.bytes(32).try_into().unwrap();
                let mut x = v.bytes(16);
                let k = (*ff).min(16) as usize;
                for b in &mut x[16 - k..] {
                    *b = 255;
                }
                let y = u128::from_be_bytes(x.try_into().unwrap()).wrapping_sub(*minus as u128);
                d.v = y.to_be_bytes();
                d.counter = *counter;
            }
        }
        d
    }
}
pub fn st() -> BoxedStrategy<St> {
    let counter = prop_oneof![
        3 => 0i32..5,
        2 => any::<i32>(),
        // around powers of two
        3 => (2u32..31, -1i32..2, any::<bool>()).prop_map(|(k, d, neg)| if neg { -((1 << k) + d) } else { (1 << k) + d }),
        1 => Just(i32::MAX),
        1 => Just(i32::MAX - 1),
        1 => Just(i32::MIN),
        1 => Just(-1),
    ];
    prop_oneof![
        1 => fill().prop_map(St::Seed),
        2 => (fill(), fill(), 0u8..17, 0u8..8, counter)
            .prop_map(|(key, v, ff, minus, counter)| St::Raw { key, v, ff, minus, counter }),
    ]
    .boxed()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// "equal" or where two byte strings differ
pub fn diff(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    if got.len() != want.len() {
        return Err(format!("{what}: length {} instead of {}", got.len(), want.len()));
    }
    let n = got.iter().zip(want).filter(|(a, b)| a != b).count();
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap();
    let e = (i + 8).min(got.len());
    Err(format!(
        "{what}: {n} of {} bytes differ, first at offset {i}: got {} expected {}",
        got.len(),
        hex(&got[i..e]),
        hex(&want[i..e])
    ))
}
