//! C11, C12, C21: the built-in generator.

use crate::engine::*;
use crate::ffi::Res;
use crate::gen::*;
use proptest::prelude::*;
use refmodel::{Drbg, Params};
use serde::{Deserialize, Serialize};

fn same_state(what: &str, got: &Drbg, want: &Drbg) -> Result<(), String> {
    diff(&format!("{what}: key"), &got.key, &want.key)?;
    diff(&format!("{what}: counter block"), &got.v, &want.v)?;
    if got.counter != want.counter {
        return Err(format!("{what}: call counter {} instead of {}", got.counter, want.counter));
    }
    Ok(())
}

fn len() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => 0u32..100,
        2 => (0u32..40).prop_map(|k| 16 * k),
        2 => (1u32..40, prop_oneof![Just(-1i32), Just(1)]).prop_map(|(k, d)| (16 * k as i32 + d) as u32),
        2 => 100u32..5_000,
        1 => 5_000u32..40_000,
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Init(Fill),
    Random(u32),
    /// so many requests of that length
    Many(u32, u32),
    /// requests of all lengths from .. to .. in these steps
    Ramp(u32, u32, u32),
    /// every value in this byte of the seed (0..48), key (48..80) or counter block (80..96), a request each
    Values(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C11Case {
    st: St,
    ops: Vec<Op>,
    dirty: u8,
    checked: bool,
}
pub struct C11;
impl Prop for C11 {
    type Case = C11Case;
    const ID: &'static str = "C11";
    const RULE: &'static str = "a case is a generator state (reseeded, or set directly with the low 0..16 counter bytes at ff..ff minus 0..7, call counter at boundaries) and a sequence of reseed/request operations (lengths 0, partial blocks, multiples of 16, up to 40000 bytes; pinned: every length to 3000, every 16th to 20000, up to 17 MB; every call counter to 400000 and around powers of 2 and 10; every value of every byte of seed, key and counter block) in one variant and profile; after every operation bytes and state are compared with the model. evaluations = operations. Non-trivial: at least one request of non-zero length.";
    fn strategy(&self, _p: &Params, _v: usize) -> BoxedStrategy<C11Case> {
        let op = prop_oneof![1 => fill().prop_map(Op::Init), 6 => len().prop_map(Op::Random)];
        (st(), proptest::collection::vec(op, 1..9), any::<u8>(), any::<bool>())
            .prop_map(|(st, ops, dirty, checked)| C11Case { st, ops, dirty, checked })
            .boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 4_000,
            Tier::Thorough => 60_000,
        }
    }
    fn pinned(&self, t: Tier, _p: &Params) -> Vec<C11Case> {
        let mut v = vec![];
        // carries at every byte position, in both profiles, with every small offset
        for checked in [false, true] {
            for ff in 0..=16u8 {
                for minus in 0..6u8 {
                    v.push(C11Case {
                        st: St::Raw { key: Fill::Rand(7), v: Fill::Rand(ff as u64), ff, minus, counter: 3 },
                        ops: vec![Op::Random(40), Op::Random(16)],
                        dirty: 0xaa,
                        checked,
                    });
                }
            }
            // call counters around the powers of 2 and of 10
            let near = (0..31).map(|k| 1i32 << k).chain((1..10).map(|k| 10i32.pow(k)));
            for counter in near.flat_map(|c| [c, c.wrapping_neg()]) {
                v.push(C11Case {
                    st: St::Raw { key: Fill::Rand(3), v: Fill::Rand(4), ff: 0, minus: 0, counter: counter.wrapping_sub(20) },
                    ops: vec![Op::Many(40, 5)],
                    dirty: 2,
                    checked,
                });
            }
            for counter in [i32::MAX, i32::MAX - 1, i32::MIN, -1, 0] {
                v.push(C11Case {
                    st: St::Raw { key: Fill::Const(0), v: Fill::Const(0), ff: 0, minus: 0, counter },
                    ops: vec![Op::Random(1), Op::Random(0), Op::Random(5), Op::Init(Fill::Const(1))],
                    dirty: 1,
                    checked,
                });
            }
        }
        // call counters and lengths one by one; values of every byte of seed and state
        let n = if t == Tier::Quick { 400_000 } else { 2_000_000 };
        for i in 0..16 {
            let st = St::Raw { key: Fill::Rand(5), v: Fill::Rand(i), ff: 0, minus: 0, counter: i as i32 * (n / 16) as i32 };
            v.push(C11Case { st, ops: vec![Op::Many(n / 16 + 1, 1)], dirty: 3, checked: i % 2 == 0 });
        }
        for i in 0..8 {
            let st = St::Seed(Fill::Rand(i as u64));
            v.push(C11Case { st: st.clone(), ops: vec![Op::Ramp(300 + i, 3_000, 8)], dirty: 4, checked: i % 2 == 0 });
            v.push(C11Case { st, ops: vec![Op::Ramp(3_000 + 16 * i, 20_000, 128)], dirty: 5, checked: i % 2 == 1 });
        }
        for i in 0..96 {
            v.push(C11Case { st: St::Seed(Fill::Rand(i as u64)), ops: vec![Op::Values(i)], dirty: 6, checked: i % 2 == 0 });
        }
        // every length 0..=300
        for n in 0..=300 {
            v.push(C11Case { st: St::Seed(Fill::Rand(n as u64)), ops: vec![Op::Random(n), Op::Random(17)], dirty: 0x55, checked: n % 2 == 0 });
        }
        // long requests: block counts past 2^8, 2^12, 2^16, 2^20
        let long: &[u32] = if t == Tier::Quick {
            &[4096, 4097, 65535, 65536, 65537, 1_048_576, 1_048_593, 16_777_216 + 33]
        } else {
            &[4096, 4097, 65535, 65536, 65537, 1_048_576, 1_048_593, 16_777_216 + 33, 270_000_001]
        };
        for n in long {
            v.push(C11Case { st: St::Seed(Fill::Rand(99)), ops: vec![Op::Random(*n), Op::Random(33)], dirty: 0, checked: false });
        }
        v
    }
    fn run(&self, env: &Env, _p: &Params, v: usize, c: &C11Case) -> Result<Obs, String> {
        let lib = env.lib(v, c.checked);
        let mut d = c.st.model();
        let mut a = lib.aes();
        match &c.st {
            St::Seed(f) => match a.init(&f.bytes(48).try_into().unwrap()) {
                Res::Ok => {}
                r => return Err(format!("reseed: {r:?}")),
            },
            _ => a.set(&d),
        }
        same_state("initial state", &a.get(), &d)?;
        let mut labels = vec![];
        let mut evals = 1;
        let mut wraps = false;
        let mut nonzero = false;
        // with a state to set or a seed to use before the operation
        let mut ops: Vec<(usize, Op, Option<Result<Drbg, [u8; 48]>>)> = vec![];
        for (i, op) in c.ops.iter().enumerate() {
            match op {
                Op::Many(n, len) => ops.extend((0..*n).map(|_| (i, Op::Random(*len), None))),
                Op::Ramp(from, to, step) => {
                    ops.extend((*from..*to).step_by(*step.max(&1) as usize).map(|n| (i, Op::Random(n), None)))
                }
                Op::Values(at) => {
                    for x in 0..=255u8 {
                        let mut s = Sm(*at as u64).bytes(96);
                        s[*at as usize % 96] = x;
                        let mut d = Drbg::new();
                        d.key.copy_from_slice(&s[48..80]);
                        d.v.copy_from_slice(&s[80..96]);
                        let before = if *at < 48 { Err(s[..48].try_into().unwrap()) } else { Ok(d) };
                        ops.push((i, Op::Random(33), Some(before)));
                    }
                }
                op => ops.push((i, op.clone(), None)),
            }
        }
        for (i, op, before) in &ops {
            evals += 1;
            match before {
                Some(Ok(s)) => {
                    a.set(s);
                    d = s.clone();
                }
                Some(Err(s)) => {
                    match a.init(s) {
                        Res::Ok => {}
                        r => return Err(format!("operation {i}, reseed: {r:?}")),
                    }
                    d.init(s);
                    same_state(&format!("operation {i}, reseeded"), &a.get(), &d)?;
                }
                None => {}
            }
            match op {
                Op::Init(f) => {
                    let s: [u8; 48] = f.bytes(48).try_into().unwrap();
                    match a.init(&s) {
                        Res::Ok => {}
                        r => return Err(format!("operation {i}, reseed: {r:?}")),
                    }
                    d.init(&s);
                }
                Op::Random(n) => {
                    nonzero |= *n > 0;
                    let lo = u32::from_be_bytes(d.v[12..].try_into().unwrap());
                    wraps |= lo.checked_add(n.div_ceil(16) + 3).is_none();
                    let mut got = vec![c.dirty; *n as usize];
                    let mut want = vec![0; *n as usize];
                    match a.random(&mut got) {
                        Res::Ok => {}
                        r => return Err(format!("operation {i}, {n} bytes: {r:?}")),
                    }
                    d.random(&mut want);
                    diff(&format!("operation {i}, {n} bytes"), &got, &want)?;
                }
                _ => unreachable!(),
            }
            same_state(&format!("after operation {i}"), &a.get(), &d)?;
        }
        if wraps {
            labels.push("counter carries over 32 bits");
        }
        labels.push(match c.st {
            St::Seed(_) => "seeded",
            _ => "state set directly",
        });
        Ok(Obs { nontrivial: nonzero, labels, evals, inner: vec![] })
    }
}

// ---- C12 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op12 {
    New(bool),
    Init(u8, Fill),
    Random(u8, u16),
    Clone(u8),
    /// clone into an existing generator
    CloneFrom(u8, u8),
    Drop(u8),
    Set(u8, St),
    /// copy one field of another generator (0 key, 1 v, 2 counter, 3 one byte of the key, 4 one byte of v)
    Copy(u8, u8, u8, u8),
    /// change the state a little
    Edit(u8, Edit),
    /// use for a key generation / encapsulation
    Keypair(u8),
    Enc(u8),
}
/// Small changes; positions in key || v.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Bit(u16),
    Swap(u8, u8),
    /// one byte up, another down
    UpDown(u8, u8),
    /// the same bits in two bytes
    Both(u8, u8, u8),
    SwapHalves,
    Reverse,
    /// the counter block changes places with half of the key
    SwapV(bool),
    CounterBit(u8),
    CounterNeg,
}
impl Edit {
    fn apply(&self, d: &mut Drbg) {
        let mut s = [&d.key[..], &d.v[..]].concat();
        let n = s.len();
        let at = |x: &u8| *x as usize % n;
        match self {
            Edit::Bit(b) => s[*b as usize / 8 % n] ^= 1 << (b % 8),
            Edit::Swap(x, y) => s.swap(at(x), at(y)),
            Edit::UpDown(x, y) => {
                s[at(x)] = s[at(x)].wrapping_add(1);
                s[at(y)] = s[at(y)].wrapping_sub(1);
            }
            Edit::Both(x, y, m) => {
                s[at(x)] ^= m;
                s[at(y)] ^= m;
            }
            Edit::SwapHalves => s[..32].rotate_left(16),
            Edit::Reverse => s[..32].reverse(),
            Edit::SwapV(hi) => {
                let (k, v) = s.split_at_mut(32);
                k[16 * *hi as usize..][..16].swap_with_slice(v);
            }
            Edit::CounterBit(b) => d.counter ^= 1 << (b % 32),
            Edit::CounterNeg => d.counter = d.counter.wrapping_neg(),
        }
        d.key.copy_from_slice(&s[..32]);
        d.v.copy_from_slice(&s[32..]);
    }
}
fn edit() -> BoxedStrategy<Edit> {
    let b = || 0u8..48;
    prop_oneof![
        3 => (0u16..384).prop_map(Edit::Bit),
        2 => (b(), b()).prop_map(|(x, y)| Edit::Swap(x, y)),
        1 => (b(), b()).prop_map(|(x, y)| Edit::UpDown(x, y)),
        1 => (b(), b(), any::<u8>()).prop_map(|(x, y, m)| Edit::Both(x, y, m)),
        1 => Just(Edit::SwapHalves),
        1 => Just(Edit::Reverse),
        1 => any::<bool>().prop_map(Edit::SwapV),
        1 => (0u8..32).prop_map(Edit::CounterBit),
        1 => Just(Edit::CounterNeg),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C12Case {
    ops: Vec<Op12>,
    checked: bool,
}
pub struct C12;
impl Prop for C12 {
    type Case = C12Case;
    const ID: &'static str = "C12";
    const RULE: &'static str = "a case is a history of up to 24 operations (new, reseed, request, clone, clone into an existing generator, drop, set state, copy single fields, exchange or change single bits and bytes, use for key generation or encapsulation) over up to six generators; after every operation the state of every generator and all pairwise equalities are compared with what the same operation does to a fresh generator in the same state. evaluations = operations. Non-trivial: history contains a clone or a reseed of a used generator.";
    fn strategy(&self, _p: &Params, _v: usize) -> BoxedStrategy<C12Case> {
        let i = || 0u8..6;
        // few distinct seeds, so that generators meet again
        let seed = || prop_oneof![2 => (0u8..3).prop_map(Fill::Const), 1 => any::<u64>().prop_map(Fill::Rand)];
        let op = prop_oneof![
            2 => any::<bool>().prop_map(Op12::New),
            4 => (i(), seed()).prop_map(|(a, b)| Op12::Init(a, b)),
            6 => (i(), prop_oneof![Just(0u16), Just(16), Just(48), 0u16..200]).prop_map(|(a, b)| Op12::Random(a, b)),
            4 => i().prop_map(Op12::Clone),
            2 => (i(), i()).prop_map(|(a, b)| Op12::CloneFrom(a, b)),
            1 => i().prop_map(Op12::Drop),
            2 => (i(), st()).prop_map(|(a, b)| Op12::Set(a, b)),
            3 => (i(), i(), 0u8..5, any::<u8>()).prop_map(|(a, b, c, d)| Op12::Copy(a, b, c, d)),
            3 => (i(), edit()).prop_map(|(a, b)| Op12::Edit(a, b)),
            1 => i().prop_map(Op12::Keypair),
            1 => i().prop_map(Op12::Enc),
        ];
        (proptest::collection::vec(op, 3..24), any::<bool>()).prop_map(|(ops, checked)| C12Case { ops, checked }).boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 6_000,
            Tier::Thorough => 80_000,
        }
    }
    fn pinned(&self, _t: Tier, _p: &Params) -> Vec<C12Case> {
        // two generators that differ in exactly one bit of their state are unequal
        let mut v = vec![];
        for f in [3u8, 4] {
            for b in 0..(if f == 3 { 32u8 } else { 16 }) {
                v.push(C12Case {
                    ops: vec![
                        Op12::New(false),
                        Op12::Init(0, Fill::Const(1)),
                        Op12::New(false),
                        Op12::Init(1, Fill::Const(2)),
                        Op12::Clone(0),
                        Op12::Copy(2, 1, f, b),
                    ],
                    checked: false,
                });
            }
        }
        let edits = (0..384)
            .map(Edit::Bit)
            .chain((0..32).map(Edit::CounterBit))
            .chain((0..47).flat_map(|x| [1, 2, 4, 8, 16].map(|d| Edit::Swap(x, x + d))))
            .chain((0..47).map(|x| Edit::UpDown(x, x + 1)))
            .chain([Edit::SwapHalves, Edit::Reverse, Edit::SwapV(false), Edit::SwapV(true), Edit::CounterNeg]);
        for e in edits {
            v.push(C12Case {
                ops: vec![Op12::New(false), Op12::Init(0, Fill::Rand(5)), Op12::Clone(0), Op12::Edit(2, e)],
                checked: false,
            });
        }
        // call counters around powers of two: different from the others, and reseeding from there
        for k in 1..31 {
            for d in [-1, 0, 1] {
                let set = |counter| St::Raw { key: Fill::Const(3), v: Fill::Const(4), ff: 0, minus: 0, counter };
                v.push(C12Case {
                    ops: vec![
                        Op12::New(false),
                        Op12::Set(0, set((1 << k) + d)),
                        Op12::Clone(0),
                        Op12::Set(1, set(d)),
                        Op12::Copy(2, 1, 2, 0),
                        Op12::Init(0, Fill::Const(1)),
                    ],
                    checked: d == 0,
                });
            }
        }
        v
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the expected effect of an operation is taken from a fresh generator of the code under test put into the same state (conformance itself is C11)".into()]
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C12Case) -> Result<Obs, String> {
        let lib = env.lib(v, c.checked);
        let mut gens = vec![(lib.aes(), Drbg::new())];
        let mut labels = vec![];
        let mut interesting = false;
        let mut equal_pairs = 0;
        for (i, op) in c.ops.iter().enumerate() {
            let k = gens.len();
            let at = |x: u8| x as usize % k;
            let need = |r: Res| match r {
                Res::Ok => Ok(()),
                r => Err(format!("operation {i} ({op:?}): {r:?}")),
            };
            // a fresh generator in the recorded state of generator x
            let shadow = |d: &Drbg| {
                let mut s = lib.aes();
                s.set(d);
                s
            };
            match op {
                Op12::New(d) => {
                    if k < 6 {
                        gens.push((if *d { lib.aes_default() } else { lib.aes() }, Drbg::new()));
                    }
                }
                Op12::Init(x, f) => {
                    let s: [u8; 48] = f.bytes(48).try_into().unwrap();
                    let g = &mut gens[at(*x)];
                    interesting |= g.1.counter != 0;
                    need(g.0.init(&s))?;
                    // the same state as a fresh generator seeded with the same seed
                    let mut fresh = lib.aes();
                    need(fresh.init(&s))?;
                    if !fresh.same(&g.0) {
                        return Err(format!("operation {i}: reseeded generator differs from a fresh one with the same seed"));
                    }
                    g.1 = fresh.get();
                }
                Op12::Random(x, n) => {
                    let g = &mut gens[at(*x)];
                    let mut got = vec![0x5a; *n as usize];
                    let mut want = vec![0; *n as usize];
                    need(g.0.random(&mut got))?;
                    let mut s = shadow(&g.1);
                    need(s.random(&mut want))?;
                    g.1 = s.get();
                    diff(&format!("operation {i} ({op:?})"), &got, &want)?;
                }
                Op12::Clone(x) => {
                    if k < 6 {
                        let n = (gens[at(*x)].0.dup(), gens[at(*x)].1.clone());
                        if !n.0.same(&gens[at(*x)].0) {
                            return Err(format!("operation {i}: clone compares unequal"));
                        }
                        gens.push(n);
                        interesting = true;
                    }
                }
                Op12::CloneFrom(x, y) if at(*x) != at(*y) => {
                    let o = gens.remove(at(*y));
                    let x = at(*x) - (at(*x) > at(*y)) as usize;
                    gens[x].0.dup_from(&o.0);
                    gens[x].1 = o.1.clone();
                    gens.insert(at(*y), o);
                    interesting = true;
                }
                Op12::CloneFrom(..) => {}
                Op12::Drop(x) => {
                    if k > 1 {
                        gens.remove(at(*x));
                    }
                }
                Op12::Set(x, s) => {
                    let g = &mut gens[at(*x)];
                    g.1 = s.model();
                    g.0.set(&g.1);
                }
                Op12::Edit(x, e) => {
                    let g = &mut gens[at(*x)];
                    e.apply(&mut g.1);
                    g.0.set(&g.1);
                }
                Op12::Copy(x, y, f, b) => {
                    let o = gens[at(*y)].1.clone();
                    let g = &mut gens[at(*x)];
                    match f {
                        0 => g.1.key = o.key,
                        1 => g.1.v = o.v,
                        2 => g.1.counter = o.counter,
                        3 => g.1.key[*b as usize % 32] = o.key[*b as usize % 32],
                        _ => g.1.v[*b as usize % 16] = o.v[*b as usize % 16],
                    }
                    g.0.set(&g.1);
                }
                Op12::Keypair(x) => {
                    let g = &mut gens[at(*x)];
                    let mut s = shadow(&g.1);
                    let mut o = [vec![0u8; p.pk], vec![0; p.sk], vec![1; p.pk], vec![1; p.sk]];
                    let [a, b, c, d] = &mut o;
                    need(g.0.keypair(a, b))?;
                    need(s.keypair(c, d))?;
                    g.1 = s.get();
                    diff(&format!("operation {i}: public key"), &o[0], &o[2])?;
                    diff(&format!("operation {i}: secret key"), &o[1], &o[3])?;
                }
                Op12::Enc(x) => {
                    let g = &mut gens[at(*x)];
                    let mut s = shadow(&g.1);
                    let pk = p.pack_q(&qvec(p, &QPat::Rand(5)));
                    let mut o = [vec![0u8; p.ct], vec![0; 32], vec![1; p.ct], vec![1; 32]];
                    let [a, b, c, d] = &mut o;
                    need(g.0.enc(&pk, a, b))?;
                    need(s.enc(&pk, c, d))?;
                    g.1 = s.get();
                    diff(&format!("operation {i}: ciphertext"), &o[0], &o[2])?;
                    diff(&format!("operation {i}: shared key"), &o[1], &o[3])?;
                }
            }
            for (j, g) in gens.iter().enumerate() {
                same_state(&format!("after operation {i} ({op:?}), generator {j}"), &g.0.get(), &g.1)?;
                for (l, h) in gens.iter().enumerate() {
                    let eq = g.1 == h.1;
                    if g.0.compare(&h.0) != (eq, !eq) {
                        return Err(format!(
                            "after operation {i}: generators {j} and {l} compare {} but their states are {}",
                            if eq { "unequal" } else { "equal" },
                            if eq { "equal" } else { "different" }
                        ));
                    }
                    if eq && l < j {
                        equal_pairs += 1;
                    }
                }
            }
        }
        if equal_pairs > 0 {
            labels.push("has equal generators");
        }
        labels.push(if interesting { "clones or reseeds" } else { "plain" });
        Ok(Obs { nontrivial: interesting, labels, evals: c.ops.len() as u64, inner: vec![] })
    }
}

// ---- C21 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C21Case {
    st: St,
    /// bytes of key and counter block overwritten
    edits: Vec<(Pos, u8)>,
    how: u8,
    checked: bool,
    /// printed to streams that fail after every number of bytes
    #[serde(default)]
    every: bool,
}
pub struct C21;

const HOW: [&str; 4] = ["Display", "Debug", "alternate Debug", "alternate Display"];

/// The numbers that follow each of the three field names.
fn read_back(text: &str) -> Result<Drbg, String> {
    let field = |name: &str, next: &[&str]| -> Result<Vec<i64>, String> {
        let at = |w: &str| {
            text.match_indices(w)
                .map(|x| x.0)
                .find(|i| !text[..*i].ends_with(|c: char| c.is_alphanumeric() || c == '_')
                    && !text[i + w.len()..].starts_with(|c: char| c.is_alphanumeric() || c == '_'))
        };
        let i = at(name).ok_or(format!("no {name} in the text"))? + name.len();
        let end = next.iter().filter_map(|n| at(n)).filter(|e| *e > i).min().unwrap_or(text.len());
        text[i..end]
            .split(|c: char| !c.is_ascii_digit() && c != '-')
            .filter(|w| !w.is_empty())
            .map(|w| w.parse().map_err(|_| format!("{w} is not a number")))
            .collect()
    };
    let names = ["key", "v", "reseed_counter"];
    let bytes = |f: Vec<i64>| -> Option<Vec<u8>> { f.iter().map(|x| u8::try_from(*x).ok()).collect() };
    let mut d = Drbg::new();
    let (k, v, c) = (field("key", &names)?, field("v", &names)?, field("reseed_counter", &names)?);
    d.key = bytes(k).and_then(|b| b.try_into().ok()).ok_or("the key is not 32 bytes")?;
    d.v = bytes(v).and_then(|b| b.try_into().ok()).ok_or("the counter block is not 16 bytes")?;
    d.counter = match c[..] {
        [x] => i32::try_from(x).map_err(|_| "call counter out of range")?,
        _ => return Err("the call counter is not one number".into()),
    };
    Ok(d)
}

impl Prop for C21 {
    type Case = C21Case;
    const ID: &'static str = "C21";
    const RULE: &'static str = "a case is a generator state (as C11, with single bytes overwritten) printed with Display or Debug, plain or alternate, in one variant and profile; the numbers after the names key, v and reseed_counter must be the state, which must be unchanged by printing; printing to a stream that fails before the text is complete must report an error, and only then. Pinned: every value of every byte, call counters around powers of 2 and 10, streams that fail after every number of bytes. Every case is non-trivial.";
    fn strategy(&self, _p: &Params, _v: usize) -> BoxedStrategy<C21Case> {
        let edit = (pos(), prop_oneof![Just(0u8), Just(1), Just(9), Just(10), Just(99), Just(100), Just(127), Just(128), Just(255), any::<u8>()]);
        (st(), proptest::collection::vec(edit, 0..4), 0u8..4, any::<bool>())
            .prop_map(|(st, edits, how, checked)| C21Case { st, edits, how, checked, every: false })
            .boxed()
    }
    fn pinned(&self, _t: Tier, _p: &Params) -> Vec<C21Case> {
        let mut v = vec![];
        let raw = |s: u64, counter: i32| St::Raw { key: Fill::Rand(s), v: Fill::Rand(s + 1), ff: 0, minus: 0, counter };
        for how in 0..4 {
            for s in 0..8u64 {
                v.push(C21Case { st: raw(s, [7, -1000][s as usize % 2]), edits: vec![], how, checked: s % 2 == 0, every: true });
            }
            // every value of every byte
            for i in 0..48u8 {
                for b in 0..=255u8 {
                    let st = raw(i as u64, b as i32 * 1009);
                    v.push(C21Case { st, edits: vec![(Pos::Start(i), b)], how, checked: b % 2 == 0, every: false });
                }
            }
            let near = (0..31).map(|k| 1i32 << k).chain((1..10).map(|k| 10i32.pow(k)));
            for c in near.flat_map(|c| [c, c - 1, c + 1, -c, 1 - c]).chain([i32::MIN, i32::MAX]) {
                v.push(C21Case { st: raw(1, c), edits: vec![], how, checked: false, every: false });
            }
        }
        v
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 20_000,
            Tier::Thorough => 200_000,
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["fields are printed as decimal numbers after their names".into()]
    }
    fn run(&self, env: &Env, _p: &Params, v: usize, c: &C21Case) -> Result<Obs, String> {
        let mut d = c.st.model();
        for (q, b) in &c.edits {
            match q.of(48) {
                i @ 0..=31 => d.key[i] = *b,
                i => d.v[i - 32] = *b,
            }
        }
        let how = c.how as usize % 4;
        let mut a = env.lib(v, c.checked).aes();
        a.set(&d);
        let t = a.text(how as u32);
        let got = read_back(&t).map_err(|e| format!("{}: {e}", HOW[how]))?;
        same_state(HOW[how], &got, &d)?;
        same_state("after printing", &a.get(), &d)?;
        if a.text(how as u32) != t {
            return Err("printing twice gives different texts".into());
        }
        let n = t.len();
        let rooms = if c.every { (0..n + 2).collect() } else { vec![0, hash_of(&t) as usize % n, n - 1, n] };
        for room in rooms {
            if a.text_fails(how as u32, room) != (room < n) {
                return Err(format!("{}: {n} bytes written to a stream that takes {room}, error not reported as it is", HOW[how]));
            }
        }
        same_state("after printing with an error", &a.get(), &d)?;
        Ok(Obs::ok(vec![HOW[how]]))
    }
}
