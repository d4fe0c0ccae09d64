//! C10, C13: histories, buffers, threads, RNG failures.

use crate::engine::*;
use crate::ffi::{Feed, Lib, Res};
use crate::gen::*;
use crate::oneshot::{agrees, agrees_with, One};
use crate::props::reject::{ct as ct_strategy, Ct};
use proptest::prelude::*;
use refmodel::Params;
use serde::{Deserialize, Serialize};

fn key_range() -> std::ops::Range<u8> {
    0..4
}

/// One operation of a history.  Indices refer to the pool of keys / ciphertexts made so far
/// (modulo its size), so any subsequence of a history is a history.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Keypair { key: Key, dirty: u8 },
    /// the same bytes as an earlier key generation except for the rejection secret or for g
    Related { of: u8, prf: Option<Fill>, g: Option<Half>, dirty: u8 },
    Enc { key: u8, msg: Msg, dirty: u8 },
    /// encapsulate again exactly as before, to the same or to another key
    EncAgain { key: u8, of: u8, dirty: u8 },
    Dec { key: u8, ct: u8, dirty: u8 },
    DecCrafted { key: u8, ct: Ct, dirty: u8 },
    /// encapsulate to a public key that differs from a generated one in one byte
    EncNear { key: u8, of: u8, at: Pos, xor: u8, dirty: u8 },
    /// decapsulate with one byte of the secret key (or of the ciphertext) changed
    DecNear { key: u8, ct: u8, in_ct: bool, at: Pos, xor: u8, dirty: u8 },
    /// failing operation in between (RNG error after some bytes)
    Fail { enc: bool, key: u8, at: u8, fill: u16 },
    /// the built-in generator used in between
    Aes { seed: Fill, len: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C10Case {
    ops: Vec<Op>,
    checked: bool,
    /// additionally run the history concurrently in this many threads
    threads: u8,
    /// run it again while every RNG request performs these operations itself (seed; bit 0 key generation, 1
    /// encapsulation, 2 decapsulation)
    #[serde(default)]
    nested: Option<(u64, u8)>,
    /// instead: this many rounds of the same operations in eight threads
    #[serde(default)]
    storm: u32,
    /// instead: this many different operations per thread, in eight threads, in two orders
    #[serde(default)]
    crowd: u32,
}
pub struct C10;

fn op(p: &Params) -> BoxedStrategy<Op> {
    let k = key_range;
    prop_oneof![
        3 => (plain_key(p), any::<u8>()).prop_map(|(key, dirty)| Op::Keypair { key, dirty }),
        2 => (k(), proptest::option::of(fill()), proptest::option::of(half(p)), any::<u8>())
            .prop_map(|(of, prf, g, dirty)| Op::Related { of, prf, g, dirty }),
        5 => (k(), msg(p), any::<u8>()).prop_map(|(key, msg, dirty)| Op::Enc { key, msg, dirty }),
        2 => (k(), k(), any::<u8>()).prop_map(|(key, of, dirty)| Op::EncAgain { key, of, dirty }),
        6 => (k(), 0u8..8, any::<u8>()).prop_map(|(key, ct, dirty)| Op::Dec { key, ct, dirty }),
        3 => (k(), ct_strategy(p), any::<u8>()).prop_map(|(key, ct, dirty)| Op::DecCrafted { key, ct, dirty }),
        2 => (k(), k(), pos(), 1u8.., any::<u8>()).prop_map(|(key, of, at, xor, dirty)| Op::EncNear { key, of, at, xor, dirty }),
        3 => (k(), 0u8..8, proptest::bool::weighted(0.3), pos(), 1u8.., any::<u8>())
            .prop_map(|(key, ct, in_ct, at, xor, dirty)| Op::DecNear { key, ct, in_ct, at, xor, dirty }),
        1 => (any::<bool>(), k(), 0u8..2, any::<u16>()).prop_map(|(enc, key, at, fill)| Op::Fail { enc, key, at, fill }),
        1 => (fill(), 0u16..300).prop_map(|(seed, len)| Op::Aes { seed, len }),
    ]
    .boxed()
}

fn near(b: &[u8], at: &Pos, xor: u8) -> Vec<u8> {
    let mut b = b.to_vec();
    let i = at.of(b.len());
    let n = b.len();
    // some changes leave sums, xors or the multiset of bytes as they are
    match xor % 8 {
        0 => match (1..n).map(|d| (i + d) % n).find(|j| b[*j] != b[i]) {
            Some(j) => b.swap(i, j),
            None => b[i] ^= 1,
        },
        1 => {
            b[i] = b[i].wrapping_add(1);
            b[(i + 1) % n] = b[(i + 1) % n].wrapping_sub(1);
        }
        2 => {
            b[i] ^= xor;
            b[(i + 8) % n] ^= xor;
        }
        _ => b[i] ^= xor,
    }
    b
}
fn near_dec(c: &[u8], s: &[u8], in_ct: bool, at: &Pos, xor: u8) -> (Vec<u8>, Vec<u8>) {
    if in_ct {
        (near(c, at, xor), s.to_vec())
    } else {
        (c.to_vec(), near(s, at, xor))
    }
}

/// Executes the history; returns the outputs of all operations.  `dirty` overrides the initial
/// buffer contents.
fn execute(env: &Env, p: &Params, v: usize, checked: bool, ops: &[Op], force_dirty: Option<u8>, within: Option<&Inner>) -> Result<Vec<Vec<u8>>, String> {
    let lib = env.lib(v, checked);
    let mut keys: Vec<(Key, Vec<u8>, Vec<u8>)> = vec![];
    let mut encs: Vec<(Msg, Vec<u8>)> = vec![];
    let mut out: Vec<Vec<u8>> = vec![];
    // copies, to see that inputs are not written to
    let (mut made, mut sent): (Vec<(Vec<u8>, Vec<u8>)>, Vec<Vec<u8>>) = (vec![], vec![]);
    let trouble = std::cell::RefCell::new(None);
    // buffers live through the whole history, like those of a long-running caller
    let (mut pk, mut sk) = (vec![0u8; p.pk], vec![0u8; p.sk]);
    let (mut ct, mut ss) = (vec![0u8; p.ct], vec![0u8; 32]);
    for (i, o) in ops.iter().enumerate() {
        let bad = |r: Res| format!("operation {i}: {r:?}");
        // freshly filled buffers also lie elsewhere
        let place = force_dirty.map(|d| 7 * i + (d as usize & 1) * 5 + 3);
        let gen = |key: Key, dirty: u8, pk: &mut Vec<u8>, sk: &mut Vec<u8>| -> Result<(Key, Vec<u8>, Vec<u8>), String> {
            // dirty values 0..127: leave the previous contents in place
            if let Some(d) = force_dirty.or(if dirty >= 128 { Some(dirty) } else { None }) {
                pk.fill(d);
                sk.fill(d);
            }
            let bytes = key.bytes(p);
            let mut ask = || within.iter().for_each(|x| x.again(lib, x.which, &trouble));
            match lib.keypair_at(place, &mut Feed { inside: Some(&mut ask), ..Feed::new(&bytes) }, pk, sk) {
                Res::Ok => Ok((key, pk.clone(), sk.clone())),
                r => Err(bad(r)),
            }
        };
        match o {
            Op::Keypair { key, dirty } => {
                let k = gen(key.clone(), *dirty, &mut pk, &mut sk)?;
                out.push([&k.1[..], &k.2[..]].concat());
                keys.push(k);
            }
            Op::Related { of, prf, g, dirty } if !keys.is_empty() => {
                let mut key = keys[*of as usize % keys.len()].0.clone();
                if let Some(x) = prf {
                    key.prf = x.clone();
                }
                if let Some(x) = g {
                    key.g = x.clone();
                }
                let k = gen(key, *dirty, &mut pk, &mut sk)?;
                out.push([&k.1[..], &k.2[..]].concat());
                keys.push(k);
            }
            Op::Enc { key, msg, dirty } if !keys.is_empty() => {
                let k = &keys[*key as usize % keys.len()];
                if let Some(d) = force_dirty.or(if *dirty >= 128 { Some(*dirty) } else { None }) {
                    ct.fill(d);
                    ss.fill(d);
                }
                let bytes = msg.bytes(p);
                let mut ask = || within.iter().for_each(|x| x.again(lib, x.which, &trouble));
                match lib.enc_at(place, &mut Feed { inside: Some(&mut ask), ..Feed::new(&bytes) }, &k.1, &mut ct, &mut ss) {
                    Res::Ok => {}
                    r => return Err(bad(r)),
                }
                out.push([&ct[..], &ss[..]].concat());
                encs.push((msg.clone(), ct.clone()));
            }
            Op::EncAgain { key, of, dirty } if !keys.is_empty() && !encs.is_empty() => {
                let k = &keys[*key as usize % keys.len()];
                let msg = encs[*of as usize % encs.len()].0.clone();
                if let Some(d) = force_dirty.or(if *dirty >= 128 { Some(*dirty) } else { None }) {
                    ct.fill(d);
                    ss.fill(d);
                }
                let bytes = msg.bytes(p);
                let mut ask = || within.iter().for_each(|x| x.again(lib, x.which, &trouble));
                match lib.enc_at(place, &mut Feed { inside: Some(&mut ask), ..Feed::new(&bytes) }, &k.1, &mut ct, &mut ss) {
                    Res::Ok => {}
                    r => return Err(bad(r)),
                }
                out.push([&ct[..], &ss[..]].concat());
                encs.push((msg, ct.clone()));
            }
            Op::Dec { key, ct: c, dirty } if !keys.is_empty() && !encs.is_empty() => {
                let k = &keys[*key as usize % keys.len()];
                let c = &encs[*c as usize % encs.len()].1;
                if let Some(d) = force_dirty.or(if *dirty >= 128 { Some(*dirty) } else { None }) {
                    ss.fill(d);
                }
                match lib.dec_at(place, c, &k.2, &mut ss) {
                    Res::Ok => {}
                    r => return Err(bad(r)),
                }
                out.push(ss.clone());
            }
            Op::DecCrafted { key, ct: c, dirty } if !keys.is_empty() => {
                let k = &keys[*key as usize % keys.len()];
                let c = c.bytes(p, lib, &k.1)?;
                if let Some(d) = force_dirty.or(if *dirty >= 128 { Some(*dirty) } else { None }) {
                    ss.fill(d);
                }
                match lib.dec_at(place, &c, &k.2, &mut ss) {
                    Res::Ok => {}
                    r => return Err(bad(r)),
                }
                out.push(ss.clone());
            }
            Op::EncNear { key, of, at, xor, dirty } if !keys.is_empty() && !encs.is_empty() => {
                let npk = near(&keys[*key as usize % keys.len()].1, at, *xor);
                let msg = encs[*of as usize % encs.len()].0.clone();
                if let Some(d) = force_dirty.or(if *dirty >= 128 { Some(*dirty) } else { None }) {
                    ct.fill(d);
                    ss.fill(d);
                }
                let bytes = msg.bytes(p);
                let mut ask = || within.iter().for_each(|x| x.again(lib, x.which, &trouble));
                match lib.enc_at(place, &mut Feed { inside: Some(&mut ask), ..Feed::new(&bytes) }, &npk, &mut ct, &mut ss) {
                    Res::Ok => {}
                    r => return Err(bad(r)),
                }
                out.push([&ct[..], &ss[..]].concat());
            }
            Op::DecNear { key, ct: c, in_ct, at, xor, dirty } if !keys.is_empty() && !encs.is_empty() => {
                let (c, s) = near_dec(&encs[*c as usize % encs.len()].1, &keys[*key as usize % keys.len()].2, *in_ct, at, *xor);
                if let Some(d) = force_dirty.or(if *dirty >= 128 { Some(*dirty) } else { None }) {
                    ss.fill(d);
                }
                match lib.dec_at(place, &c, &s, &mut ss) {
                    Res::Ok => {}
                    r => return Err(bad(r)),
                }
                out.push(ss.clone());
            }
            Op::Fail { enc, key, at, fill } => {
                let mut feed = Feed::new(&[]);
                let fill = *fill as usize % p.sample_bytes();
                if *enc && !keys.is_empty() {
                    let k = &keys[*key as usize % keys.len()];
                    feed.faults.push((0, 5, fill));
                    let r = lib.enc_at(place, &mut feed, &k.1, &mut ct, &mut ss);
                    if let Res::Panic(_) = r {
                        return Err(bad(r));
                    }
                } else {
                    feed.faults.push((*at as usize, 5, fill));
                    let r = lib.keypair_at(place, &mut feed, &mut pk, &mut sk);
                    if let Res::Panic(_) = r {
                        return Err(bad(r));
                    }
                }
                out.push(vec![]);
            }
            Op::Aes { seed, len } => {
                let mut a = lib.aes();
                a.init(&seed.bytes(48).try_into().unwrap());
                let mut b = vec![0; *len as usize];
                match a.random(&mut b) {
                    Res::Ok => {}
                    r => return Err(bad(r)),
                }
                out.push(b);
            }
            _ => out.push(vec![]),
        }
        made.extend(keys[made.len()..].iter().map(|k| (k.1.clone(), k.2.clone())));
        sent.extend(encs[sent.len()..].iter().map(|e| e.1.clone()));
        let same = |(k, m): (&(Key, Vec<u8>, Vec<u8>), &(Vec<u8>, Vec<u8>))| k.1 == m.0 && k.2 == m.1;
        if !keys.iter().zip(&made).all(same) || !encs.iter().zip(&sent).all(|(e, s)| e.1 == *s) {
            return Err(format!("operation {i} has written to its input"));
        }
    }
    match trouble.into_inner() {
        Some(e) => Err(e),
        None => Ok(out),
    }
}

/// Operations that an RNG performs itself while it is asked for bytes, and their results.
struct Inner {
    key: Vec<u8>,
    msg: Vec<u8>,
    pair: crate::ffi::KeyPair,
    ct: Vec<u8>,
    ss: [u8; 32],
    /// bit 0 key generation, 1 encapsulation, 2 decapsulation
    which: u8,
}
impl Inner {
    fn new(p: &Params, lib: &Lib, seed: u64, which: u8) -> Result<Inner, String> {
        let key = Sm(seed).bytes(p.sample_bytes() + 32);
        let msg = Sm(!seed).bytes(p.sample_bytes());
        let pair = lib.keypair(&key)?;
        let (ct, ss) = lib.enc(&pair.pk, &msg)?;
        Ok(Inner { key, msg, pair, ct, ss, which })
    }
    fn again(&self, lib: &Lib, which: u8, trouble: &std::cell::RefCell<Option<String>>) {
        let run = || -> Result<(), String> {
            if which & 1 != 0 {
                let k = lib.keypair(&self.key)?;
                diff("key pair", &[k.pk, k.sk].concat(), &[&self.pair.pk[..], &self.pair.sk[..]].concat())?;
            }
            if which & 2 != 0 {
                let (c, s) = lib.enc(&self.pair.pk, &self.msg)?;
                diff("ciphertext and key", &[&c[..], &s[..]].concat(), &[&self.ct[..], &self.ss[..]].concat())?;
            }
            if which & 4 != 0 {
                diff("decapsulated key", &lib.dec(&self.ct, &self.pair.sk)?, &self.ss)?;
            }
            Ok(())
        };
        if let Err(e) = run() {
            trouble.borrow_mut().get_or_insert(format!("operation performed by the RNG of another one: {e}"));
        }
    }
}

/// Many threads repeat few operations, all at the same time.
/// Many different operations, in one order in the first library and in the opposite one in the second: whatever is
/// remembered under a short tag (checksum, hash) turns up wrong in one of them.
fn crowd(p: &Params, libs: [&Lib; 2], seed: u64, n: usize) -> Result<u64, String> {
    let mut r = Sm(seed ^ 0xc0de);
    let kp = libs[0].keypair(&r.bytes(p.sample_bytes() + 32))?;
    let (ct, _) = libs[0].enc(&kp.pk, &r.bytes(p.sample_bytes()))?;
    let (kp, ct) = (&kp, &ct);
    let op = move |t: usize, k: usize| {
        let mut r = Sm(hash_of((seed, t, k)));
        let mut b = r.bytes(p.sample_bytes() + 32);
        match k % 4 {
            0 if k % 64 == 0 => One::Keypair(b),
            0 | 1 => {
                b.truncate(p.sample_bytes());
                One::Enc(r.bytes(p.pk), b)
            }
            2 => One::Dec(r.bytes(p.ct), kp.sk.clone()),
            // another f, or another inverse, or another rejection secret
            _ => {
                let mut sk = kp.sk.clone();
                let i = r.below(p.sk - 8);
                r.bytes(8).iter().zip(&mut sk[i..]).for_each(|(x, y)| *y ^= x);
                One::Dec(ct.clone(), sk)
            }
        }
    };
    let out = |lib: &Lib, o: &One| match o {
        One::Keypair(b) => lib.keypair(b).map(|k| [k.pk, k.sk].concat()),
        One::Enc(pk, b) => lib.enc(pk, b).map(|(c, k)| [c, k.to_vec()].concat()),
        One::Dec(ct, sk) => lib.dec(ct, sk).map(|k| k.to_vec()),
        One::Aes(..) => unreachable!(),
    };
    let start = std::sync::Barrier::new(8);
    let results: Vec<Result<(), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8)
            .map(|t| {
                let start = &start;
                s.spawn(move || {
                    start.wait();
                    let first: Vec<_> = (0..n).map(|k| out(libs[0], &op(t, k)).ok().map(hash_of)).collect();
                    start.wait();
                    for k in (0..n).rev() {
                        let o = op(t, k);
                        let b = out(libs[1], &o).ok();
                        if b.clone().map(hash_of) == first[k] {
                            continue;
                        }
                        // once more in fresh processes; what is wrong there too is not this property's business
                        let (Some(b), Some(a)) = (b, first[k]) else { continue };
                        if !agrees(libs[1], &o, &b) {
                            return Err(format!("operation {k} of thread {t}, after many others: differs from the same operation in a fresh process"));
                        }
                        if !agrees_with(libs[0], &o, |x| hash_of(x.to_vec()) == a) {
                            return Err(format!("operation {k} of thread {t}, before and after many others: results differ"));
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    results.into_iter().collect::<Result<Vec<()>, _>>()?;
    Ok(16 * n as u64)
}

fn storm(p: &Params, lib: &Lib, seed: u64, rounds: usize) -> Result<u64, String> {
    let works = (0..8).map(|i| Inner::new(p, lib, seed + i, 7)).collect::<Result<Vec<_>, _>>()?;
    let start = std::sync::Barrier::new(works.len());
    let results: Vec<Result<(), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = works
            .iter()
            .map(|w| {
                let start = &start;
                s.spawn(move || {
                    let one = |which: u8, n: usize| -> Result<(), String> {
                        let trouble = std::cell::RefCell::new(None);
                        start.wait();
                        (0..n).for_each(|_| w.again(lib, which, &trouble));
                        trouble.into_inner().map_or(Ok(()), Err)
                    };
                    let (a, b, c) = (one(4, rounds), one(2, rounds), one(1, rounds / 64));
                    let d = one(7, rounds / 64);
                    a.and(b).and(c).and(d)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for r in results {
        r.map_err(|e| e.replace("operation performed by the RNG of another one", "eight threads at once"))?;
    }
    Ok((8 * (2 * rounds + rounds / 16)) as u64)
}

/// `got` must be the model's value.  If it is not, the operation is repeated in a fresh process:
/// only a result that differs from that one depends on something but its inputs; otherwise the
/// function itself is off, which is the business of C02-C04 and C11.
fn pure(lib: &Lib, what: String, got: &[u8], want: &[u8], one: impl Fn() -> One) -> Result<(), String> {
    match diff(&what, got, want) {
        Ok(()) => Ok(()),
        Err(_) if agrees(lib, &one(), got) => Ok(()),
        Err(e) => Err(e),
    }
}

/// Each operation on its own, computed by the model.
fn expected(env: &Env, p: &Params, v: usize, checked: bool, ops: &[Op], real: &[Vec<u8>]) -> Result<u64, String> {
    let mut keys: Vec<(Key, Vec<u8>, Vec<u8>)> = vec![];
    let mut encs: Vec<(Msg, Vec<u8>)> = vec![];
    let mut n = 0;
    let lib = env.lib(v, checked);
    for (i, o) in ops.iter().enumerate() {
        let got = &real[i];
        let model_key = |key: &Key| -> Vec<u8> {
            match p.keypair(&key.seed(p), &key.prf_bytes()) {
                Some((a, b)) => [a, b].concat(),
                // degenerate randomness: not specified; must still be a function of the bytes
                None => {
                    let k = lib.keypair(&key.bytes(p)).unwrap();
                    [k.pk, k.sk].concat()
                }
            }
        };
        n += 1;
        match o {
            Op::Keypair { key, .. } => {
                pure(lib, format!("operation {i}: key pair"), got, &model_key(key), || One::Keypair(key.bytes(p)))?;
                keys.push((key.clone(), got[..p.pk].to_vec(), got[p.pk..].to_vec()));
            }
            Op::Related { of, prf, g, .. } if !keys.is_empty() => {
                let mut key = keys[*of as usize % keys.len()].0.clone();
                if let Some(x) = prf {
                    key.prf = x.clone();
                }
                if let Some(x) = g {
                    key.g = x.clone();
                }
                pure(lib, format!("operation {i}: related key pair"), got, &model_key(&key), || One::Keypair(key.bytes(p)))?;
                keys.push((key, got[..p.pk].to_vec(), got[p.pk..].to_vec()));
            }
            Op::Enc { key, msg, .. } if !keys.is_empty() => {
                let k = &keys[*key as usize % keys.len()];
                let (c, s) = p.enc(&k.1, &msg.bytes(p));
                let one = || One::Enc(k.1.clone(), msg.bytes(p));
                pure(lib, format!("operation {i}: encapsulation"), got, &[&c[..], &s[..]].concat(), one)?;
                encs.push((msg.clone(), got[..p.ct].to_vec()));
            }
            Op::EncAgain { key, of, .. } if !keys.is_empty() && !encs.is_empty() => {
                let k = &keys[*key as usize % keys.len()];
                let msg = encs[*of as usize % encs.len()].0.clone();
                let (c, s) = p.enc(&k.1, &msg.bytes(p));
                let one = || One::Enc(k.1.clone(), msg.bytes(p));
                pure(lib, format!("operation {i}: repeated encapsulation"), got, &[&c[..], &s[..]].concat(), one)?;
                encs.push((msg, got[..p.ct].to_vec()));
            }
            Op::Dec { key, ct, .. } if !keys.is_empty() && !encs.is_empty() => {
                let k = &keys[*key as usize % keys.len()];
                let c = &encs[*ct as usize % encs.len()].1;
                let one = || One::Dec(c.clone(), k.2.clone());
                pure(lib, format!("operation {i}: decapsulation"), got, &p.dec(&k.2, c).0, one)?;
            }
            Op::DecCrafted { key, ct, .. } if !keys.is_empty() => {
                let k = &keys[*key as usize % keys.len()];
                let c = ct.bytes(p, lib, &k.1)?;
                let one = || One::Dec(c.clone(), k.2.clone());
                pure(lib, format!("operation {i}: decapsulation (crafted)"), got, &p.dec(&k.2, &c).0, one)?;
            }
            Op::EncNear { key, of, at, xor, .. } if !keys.is_empty() && !encs.is_empty() => {
                let npk = near(&keys[*key as usize % keys.len()].1, at, *xor);
                let msg = &encs[*of as usize % encs.len()].0;
                let (c, s) = p.enc(&npk, &msg.bytes(p));
                let one = || One::Enc(npk.clone(), msg.bytes(p));
                pure(lib, format!("operation {i}: encapsulation (altered key)"), got, &[&c[..], &s[..]].concat(), one)?;
            }
            Op::DecNear { key, ct, in_ct, at, xor, .. } if !keys.is_empty() && !encs.is_empty() => {
                let (c, s) = near_dec(&encs[*ct as usize % encs.len()].1, &keys[*key as usize % keys.len()].2, *in_ct, at, *xor);
                let one = || One::Dec(c.clone(), s.clone());
                pure(lib, format!("operation {i}: decapsulation (altered input)"), got, &p.dec(&s, &c).0, one)?;
            }
            Op::Aes { seed, len } => {
                let mut d = refmodel::Drbg::new();
                d.init(&seed.bytes(48).try_into().unwrap());
                let mut b = vec![0; *len as usize];
                d.random(&mut b);
                let one = || One::Aes(seed.bytes(48), *len as usize);
                pure(lib, format!("operation {i}: generator"), got, &b, one)?;
            }
            _ => {}
        }
    }
    Ok(n)
}

impl Prop for C10 {
    type Case = C10Case;
    const ID: &'static str = "C10";
    const RULE: &'static str = "a case is a history of up to 14 operations (key generation incl. keys sharing f with an earlier one, encapsulation, the same encapsulation again to the same or another key, decapsulation of any earlier or crafted ciphertext with any key, encapsulation and decapsulation with one byte of a key or ciphertext altered or two exchanged, failing operations, generator use) in buffers that keep their previous contents or a fill byte; the history is run once, run again in freshly filled (0x00 / 0xff) buffers at other alignments, optionally run concurrently by 2-4 threads, optionally run with an RNG that performs other operations itself while it is asked for bytes, and every single output compared with the model's value for that operation alone (if it differs: with the value a fresh process computes). Pinned: eight threads repeat decapsulations, then encapsulations, then key generations, at the same time, on different inputs; 68000 different operations, in one order in one build and in the opposite one in the other. evaluations = operations executed. Non-trivial: at least three operations that produce output.";
    fn strategy(&self, p: &Params, _v: usize) -> BoxedStrategy<C10Case> {
        let p = *p;
        (
            (plain_key(&p), any::<u8>()),
            proptest::collection::vec(op(&p), 3..14),
            any::<bool>(),
            prop_oneof![3 => Just(1u8), 1 => 2u8..5],
            proptest::option::weighted(0.3, (any::<u64>(), 1u8..8)),
        )
            .prop_map(|((key, dirty), mut ops, checked, threads, nested)| {
                ops.insert(0, Op::Keypair { key, dirty });
                C10Case { ops, checked, threads, nested, storm: 0, crowd: 0 }
            })
            .boxed()
    }
    fn pinned(&self, t: Tier, _p: &Params) -> Vec<C10Case> {
        // together more than 2^16 decapsulations and encapsulations
        let storm = if t == Tier::Quick { 8_500 } else { 40_000 };
        let base = C10Case { ops: vec![], checked: false, threads: 8, nested: Some((5, 7)), storm: 0, crowd: 0 };
        vec![C10Case { storm, ..base.clone() }, C10Case { crowd: storm, ..base }]
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 1_200,
            Tier::Thorough => 16_000,
        }
    }
    fn shard(&self) -> usize {
        16
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C10Case) -> Result<Obs, String> {
        if c.storm > 0 {
            let evals = storm(p, env.lib(v, c.checked), c.nested.map_or(0, |x| x.0), c.storm as usize)?;
            return Ok(Obs { nontrivial: true, labels: vec!["eight threads at once"], evals, inner: vec![] });
        }
        if c.crowd > 0 {
            let evals = crowd(p, [env.lib(v, false), env.lib(v, true)], env.seed, c.crowd as usize)?;
            return Ok(Obs { nontrivial: true, labels: vec!["many different operations in two orders"], evals, inner: vec![] });
        }
        let a = execute(env, p, v, c.checked, &c.ops, None, None)?;
        let mut evals = expected(env, p, v, c.checked, &c.ops, &a)?;
        for d in [0x00u8, 0xff] {
            let b = execute(env, p, v, c.checked, &c.ops, Some(d), None)?;
            evals += b.len() as u64;
            for i in 0..a.len() {
                diff(&format!("operation {i}, run again on buffers filled with {d:#x}"), &b[i], &a[i])?;
            }
        }
        let mut labels = vec!["sequential"];
        if c.threads > 1 {
            labels = vec!["concurrent"];
            let rs: Vec<Result<Vec<Vec<u8>>, String>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..c.threads)
                    .map(|_| s.spawn(|| execute(env, p, v, c.checked, &c.ops, None, None)))
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for r in rs {
                let r = r?;
                evals += r.len() as u64;
                for i in 0..a.len() {
                    diff(&format!("operation {i}, run concurrently"), &r[i], &a[i])?;
                }
            }
        }
        if let Some((seed, which)) = c.nested {
            labels.push("operations inside the RNG");
            let inner = Inner::new(p, env.lib(v, c.checked), seed, which)?;
            let b = execute(env, p, v, c.checked, &c.ops, None, Some(&inner))?;
            evals += b.len() as u64;
            for i in 0..a.len() {
                diff(&format!("operation {i}, with other operations performed by its RNG"), &b[i], &a[i])?;
            }
        }
        let outs = a.iter().filter(|x| !x.is_empty()).count();
        Ok(Obs { nontrivial: outs >= 3, labels, evals, inner: vec![] })
    }
}

// ---- C13 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    enc: bool,
    /// per RNG request of this call: None = succeeds, Some((code, bytes filled)) = fails
    faults: Vec<Option<(i32, u16)>>,
    seed: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C13Case {
    calls: Vec<Call>,
    dirty: u8,
    checked: bool,
}
pub struct C13;

impl Prop for C13 {
    type Case = C13Case;
    const ID: &'static str = "C13";
    const RULE: &'static str = "a case is a sequence of key generations and encapsulations with a failure pattern over their RNG requests (error code, number of bytes written before failing, empty to full). Pinned: every request index of both operations x {nothing, one byte, half, all but one, all} filled x codes, followed by good operations; every request index x every kind of error value (own types with and without text or cause, io errors of 20 kinds, 100 OS errors, errors of core, strings). Checked: the returned error is exactly the injected one, encapsulation buffers untouched, no panic, good operations equal the model. Non-trivial: at least one injected failure.";
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn strategy(&self, _p: &Params, _v: usize) -> BoxedStrategy<C13Case> {
        let code = || prop_oneof![1i32..100, 1000i32..1300, Just(i32::MAX), Just(i32::MIN), Just(-1)];
        let fault = proptest::option::weighted(0.4, (code(), any::<u16>()));
        let call = (any::<bool>(), proptest::collection::vec(fault, 0..4), any::<u64>())
            .prop_map(|(enc, faults, seed)| Call { enc, faults, seed });
        (proptest::collection::vec(call, 1..8), any::<u8>(), any::<bool>())
            .prop_map(|(calls, dirty, checked)| C13Case { calls, dirty, checked })
            .boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 1_500,
            Tier::Thorough => 25_000,
        }
    }
    fn pinned(&self, _t: Tier, p: &Params) -> Vec<C13Case> {
        let mut v = vec![];
        let s = p.sample_bytes() as u16;
        for checked in [false, true] {
            for enc in [false, true] {
                for at in 0..4usize {
                    for fill in [0u16, 1, 31, 32, s / 2, s - 1, s] {
                        for code in [1i32, 7, -1, i32::MIN] {
                            let mut faults = vec![None; at];
                            faults.push(Some((code, fill)));
                            let good = |enc| Call { enc, faults: vec![], seed: 9 };
                            v.push(C13Case {
                                calls: vec![good(false), Call { enc, faults, seed: 5 }, good(enc), good(!enc)],
                                dirty: 0xc3,
                                checked,
                            });
                        }
                    }
                    // every kind of error value
                    for code in 1000..1260 {
                        let mut faults = vec![None; at];
                        faults.push(Some((code, s)));
                        v.push(C13Case { calls: vec![Call { enc, faults, seed: 5 }], dirty: 0xc3, checked });
                    }
                }
            }
        }
        v
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C13Case) -> Result<Obs, String> {
        let lib = env.lib(v, c.checked);
        let mut injected = 0;
        let mut labels = vec![];
        // a public key to encapsulate to
        let mut pk: Vec<u8> = p.pack_q(&qvec(p, &QPat::Rand(77)));
        for (i, call) in c.calls.iter().enumerate() {
            let bytes = Sm(call.seed).bytes(p.sample_bytes() + 32);
            let mut feed = Feed::new(&bytes);
            for (k, f) in call.faults.iter().enumerate() {
                if let Some((code, fill)) = f {
                    feed.faults.push((k, if *code == 0 { 1 } else { *code }, *fill as usize));
                }
            }
            let first = |feed: &Feed| feed.faults.iter().filter(|f| f.0 < feed.requests.len()).map(|f| (f.0, f.1)).min();
            if call.enc {
                let (mut ct, mut ss) = (vec![c.dirty; p.ct], vec![!c.dirty; 32]);
                let r = lib.enc_into(&mut feed, &pk, &mut ct, &mut ss);
                match first(&feed) {
                    Some((k, code)) => {
                        injected += 1;
                        labels.push("encapsulation with failing RNG");
                        if r != Res::RngErr(code) {
                            return Err(format!("call {i}: encapsulation whose RNG request {k} failed with {code}: {r:?}"));
                        }
                        if ct.iter().any(|b| *b != c.dirty) || ss.iter().any(|b| *b != !c.dirty) {
                            return Err(format!("call {i}: failed encapsulation changed an output buffer"));
                        }
                    }
                    None => {
                        labels.push("encapsulation, good");
                        if r != Res::Ok {
                            return Err(format!("call {i}: encapsulation: {r:?}"));
                        }
                        let (ect, ess) = p.enc(&pk, &bytes[..p.sample_bytes()]);
                        let one = || One::Enc(pk.clone(), bytes.clone());
                        pure(lib, format!("call {i}: encapsulation"), &[&ct[..], &ss[..]].concat(), &[&ect[..], &ess[..]].concat(), one)?;
                    }
                }
            } else {
                let (mut npk, mut sk) = (vec![c.dirty; p.pk], vec![c.dirty; p.sk]);
                let r = lib.keypair_into(&mut feed, &mut npk, &mut sk);
                match first(&feed) {
                    Some((k, code)) => {
                        injected += 1;
                        labels.push("key generation with failing RNG");
                        if r != Res::RngErr(code) {
                            return Err(format!("call {i}: key generation whose RNG request {k} failed with {code}: {r:?}"));
                        }
                    }
                    None => {
                        labels.push("key generation, good");
                        if r != Res::Ok {
                            return Err(format!("call {i}: key generation: {r:?}"));
                        }
                        let prf: [u8; 32] = bytes[p.sample_bytes()..].try_into().unwrap();
                        let (epk, esk) = p.keypair(&bytes[..p.sample_bytes()], &prf).ok_or("model: not invertible")?;
                        let one = || One::Keypair(bytes.clone());
                        pure(lib, format!("call {i}: key generation"), &[&npk[..], &sk[..]].concat(), &[epk, esk].concat(), one)?;
                        pk = npk;
                    }
                }
            }
        }
        labels.sort();
        labels.dedup();
        Ok(Obs { nontrivial: injected > 0, labels, evals: c.calls.len() as u64, inner: vec![] })
    }
}
