//! C08, C17: sampling spaces and encodings.

use crate::engine::*;
use crate::gen::*;
use crate::props::kem::*;
use proptest::prelude::*;
use refmodel::Params;
use serde::{Deserialize, Serialize};

// ---- C08 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C08Case {
    Keys { key: Key, checked: bool },
    Msg { msg: Msg, checked: bool },
}
pub struct C08;

fn check_uniform(p: &Params, what: &str, got: &[i32], bytes: &[u8]) -> Result<(), String> {
    for i in 0..p.n - 1 {
        if (got[i] - bytes[i] as i32).rem_euclid(3) != 0 || got[i].abs() > 1 {
            return Err(format!("{what}: coefficient {i} is {} for RNG byte {}", got[i], bytes[i]));
        }
    }
    if got[p.n - 1] != 0 {
        return Err(format!("{what}: top coefficient is not zero"));
    }
    Ok(())
}

/// the digits ordered as the words are
fn check_fixed(p: &Params, what: &str, got: &[i32], bytes: &[u8]) -> Result<(), String> {
    let w = p.weight() / 2;
    let (a, b) = (got.iter().filter(|x| **x == 1).count(), got.iter().filter(|x| **x == -1).count());
    if got.iter().any(|x| x.abs() > 1) || got[p.n - 1] != 0 {
        return Err(format!("{what}: not a ternary polynomial with zero top coefficient"));
    }
    if a != w || b != w {
        return Err(format!("{what}: {a} ones and {b} minus ones instead of {w} each"));
    }
    // arrangement: words as signed numbers, ascending; equal words: 0 before 1 before -1
    let words = p.ft_words(bytes);
    let mut order: Vec<(i64, u8)> = words
        .iter()
        .enumerate()
        .map(|(i, x)| {
            let x = *x as i64;
            let signed = if x >= 1 << 29 { x - (1 << 30) } else { x };
            (signed, if i < w { 1 } else if i < 2 * w { 2 } else { 0 })
        })
        .collect();
    order.sort();
    for i in 0..p.n - 1 {
        let want = [0, 1, -1][order[i].1 as usize];
        if got[i] != want {
            return Err(format!("{what}: position {i} holds {} instead of {want}", got[i]));
        }
    }
    Ok(())
}

fn check_plus(p: &Params, what: &str, got: &[i32], bytes: &[u8]) -> Result<(), String> {
    if got.iter().any(|x| x.abs() > 1) || got[p.n - 1] != 0 {
        return Err(format!("{what}: not a ternary polynomial with zero top coefficient"));
    }
    let corr: i32 = (0..p.n - 1).map(|i| got[i] * got[i + 1]).sum();
    if corr < 0 {
        return Err(format!("{what}: correlation with its shift is {corr}"));
    }
    let t: Vec<i32> = bytes[..p.n - 1].iter().map(|b| [0, 1, -1][(*b % 3) as usize]).collect();
    let c0: i32 = (0..p.n - 2).map(|i| t[i] * t[i + 1]).sum();
    for i in 0..p.n - 1 {
        let want = if c0 < 0 && i % 2 == 0 { -t[i] } else { t[i] };
        if got[i] != want {
            return Err(format!("{what}: coefficient {i} is {} instead of {want} (raw correlation {c0})", got[i]));
        }
    }
    Ok(())
}

impl Prop for C08 {
    type Case = C08Case;
    const ID: &'static str = "C08";
    const RULE: &'static str = "a case is the RNG bytes of a key generation (f read from the secret key, g recovered from f and the public key) or of an encapsulation (m and r recovered from the ciphertexts for the all-zero public key and for h = x-1, same bytes). Recovered polynomials are compared position by position with the bytes mod 3 / with a comparison sort of the words. Non-trivial: key cases with f, g non-zero; all message cases.";
    fn strategy(&self, p: &Params, _v: usize) -> BoxedStrategy<C08Case> {
        prop_oneof![
            1 => (key(p), any::<bool>()).prop_map(|(key, checked)| C08Case::Keys { key, checked }),
            2 => (msg(p), any::<bool>()).prop_map(|(msg, checked)| C08Case::Msg { msg, checked }),
        ]
        .boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 15_000,
            Tier::Thorough => 200_000,
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["ring multiplication by 0 and by x-1 in the code under test (decided on its own by C03/C17) for the recovery of r and m".into()]
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C08Case) -> Result<Obs, String> {
        let n = p.n;
        match c {
            C08Case::Keys { key, checked } => {
                let lib = env.lib(v, *checked);
                if !key.usable(p) {
                    return Ok(Obs::trivial("zero secret"));
                }
                let seed = key.seed(p);
                let kp = lib.keypair(&key.bytes(p))?;
                let f = Params::centre3(&p.unpack_3(&kp.sk[..p.trit_bytes()]));
                let h = p.unpack_sum0(&kp.pk);
                let e = p.mod_q_phi(&p.mul(&f, &h));
                let q = p.q() as i64;
                let third = if q % 3 == 1 { (2 * q + 1) / 3 } else { (q + 1) / 3 };
                let mut g: Vec<i32> = e.iter().map(|x| (*x as i64 * third).rem_euclid(q) as i32).collect();
                let (fb, gb) = seed.split_at(n - 1);
                if p.hrss {
                    g = divide_x_minus_1(p, &g)?;
                    check_plus(p, "f", &f, fb)?;
                    check_plus(p, "g", &p.centre_q(&g), gb)?;
                } else {
                    check_uniform(p, "f", &f, fb)?;
                    check_fixed(p, "g", &p.centre_q(&g), gb)?;
                }
                Ok(Obs::ok(vec!["f and g"]))
            }
            C08Case::Msg { msg, checked } => {
                let lib = env.lib(v, *checked);
                let bytes = msg.bytes(p);
                let zero = vec![0u8; p.pk];
                let (c0, _) = lib.enc(&zero, &bytes)?;
                let mut h = vec![0; n];
                h[0] = -1;
                h[1] = 1;
                let (c1, _) = lib.enc(&p.pack_q(&h), &bytes)?;
                let a0 = p.unpack_sum0(&c0);
                let a1 = p.unpack_sum0(&c1);
                let (rb, mb) = bytes.split_at(n - 1);
                // c1 - c0 = (x-1) r: r_0 = -d_0, r_i = r_(i-1) - d_i
                let d = p.centre_q(&a1.iter().zip(&a0).map(|(x, y)| x - y).collect::<Vec<_>>());
                let mut r = vec![0i32; n];
                r[0] = -d[0];
                for i in 1..n {
                    r[i] = r[i - 1] - d[i];
                }
                check_uniform(p, "r", &r, rb)?;
                let l = p.centre_q(&a0);
                if p.hrss {
                    // Lift(m) = (x-1) b with ternary b, and Lift(m) = m mod (3, Phi)
                    let mut b = vec![0i32; n];
                    b[0] = -l[0];
                    for i in 1..n {
                        b[i] = b[i - 1] - l[i];
                    }
                    if b.iter().any(|x| x.abs() > 1) || b[n - 1] != 0 {
                        return Err("Lift(m)/(x-1) is not ternary".into());
                    }
                    let m = Params::centre3(&p.mod_3_phi(&l));
                    check_uniform(p, "m", &m, mb)?;
                } else {
                    check_fixed(p, "m", &l, mb)?;
                }
                Ok(Obs::ok(vec!["r and m"]))
            }
        }
    }
}

// ---- C17 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C17Case {
    /// keys and a ciphertext are canonical
    Canonical { key: Key, msg: Msg, checked: bool },
    /// public key with arbitrary coefficients; r = +-x^j
    Public { h: QPat, pad: u8, j: Pos, neg: bool, m: Half, checked: bool },
    /// secret key digit/coefficient changed: the honest ciphertext must be treated as the model
    /// does with the changed key; every digit in a window
    Secret { key: Key, msg: Msg, part: u8, from: Pos, len: u16, xor: u16, checked: bool },
    /// ciphertexts with f = 1, r = 0
    Cipher { pass: usize, checked: bool },
    /// rotations of the public key and its inverse
    Rotations { key: Key, msg: Msg, from: usize, checked: bool },
}
pub struct C17;

fn canonical_q(p: &Params, what: &str, b: &[u8]) -> Result<(), String> {
    if p.pack_q(&p.unpack_q(b)) != b {
        return Err(format!("{what}: unused bits set"));
    }
    Ok(())
}

impl Prop for C17 {
    type Case = C17Case;
    const ID: &'static str = "C17";
    const RULE: &'static str = "a case is (a) a key pair and ciphertext whose encodings are decoded and re-encoded, (b) a public key with arbitrary coefficients and unused bits used with r = +-x^j, so that the ciphertext minus the one for the zero key must be the public polynomial rotated, or (c) a window of single-digit / single-coefficient changes, or of rotations of f and its inverse, of a secret key, each decapsulated: accepted or rejected as the model says. Fixed cases bring every value to every position of public keys and of accepted ciphertexts, and, by rotations, nearly every value to every position of inverse public keys. Evaluations count operations compared. Non-trivial: all with f, g non-zero.";
    fn strategy(&self, p: &Params, _v: usize) -> BoxedStrategy<C17Case> {
        prop_oneof![
            4 => (key(p), msg(p), any::<bool>()).prop_map(|(key, msg, checked)| C17Case::Canonical { key, msg, checked }),
            8 => (qpat(), any::<u8>(), pos(), any::<bool>(), half(p), any::<bool>())
                .prop_map(|(h, pad, j, neg, m, checked)| C17Case::Public { h, pad, j, neg, m, checked }),
            1 => (plain_key(p), msg(p), 0u8..4, pos(), 4u16..24, any::<u16>(), any::<bool>())
                .prop_map(|(key, msg, part, from, len, xor, checked)| C17Case::Secret { key, msg, part, from, len, xor, checked }),
        ]
        .boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 10_000,
            Tier::Thorough => 120_000,
        }
    }
    fn pinned(&self, _t: Tier, p: &Params) -> Vec<C17Case> {
        // every digit of f and fp, every coefficient of hq of one key; every coefficient of a
        // public key with every bit; every value in every position of public keys and ciphertexts,
        // (nearly) every value in every position of inverse public keys
        let half = |x: u64| some_half(p, x);
        let key = some_key(p, 1);
        let msg = Msg { r: some_key(p, 4).f, m: half(5) };
        let mut v = vec![];
        for part in 0..4 {
            v.push(C17Case::Secret {
                key: key.clone(),
                msg: msg.clone(),
                part,
                from: Pos::Start(0),
                len: u16::MAX,
                xor: 1,
                checked: false,
            });
        }
        for k in 0..p.logq {
            for c in [1u16 << k, !(1u16 << k)] {
                v.push(C17Case::Public { h: QPat::Const(c), pad: 0xff, j: Pos::Start(1), neg: false, m: half(6), checked: true });
            }
        }
        for from in 0..p.q() as u16 {
            v.push(C17Case::Public {
                h: QPat::Ramp { from, step: 2 * from + 3 },
                pad: from as u8,
                j: Pos::Start(0),
                neg: false,
                m: half(7),
                checked: from % 8 == 0,
            });
        }
        v.extend((0..sweeps(p)).map(|pass| C17Case::Cipher { pass, checked: pass % 8 == 0 }));
        for (k, from) in rotations(p) {
            let msg = Msg { r: some_key(p, k + 7).f, m: half(k + 7) };
            v.push(C17Case::Rotations { key: some_key(p, k + 5), msg, from, checked: false });
        }
        v
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C17Case) -> Result<Obs, String> {
        let n = p.n;
        match c {
            C17Case::Canonical { key, msg, checked } => {
                let lib = env.lib(v, *checked);
                if !key.usable(p) {
                    return Ok(Obs::trivial("zero secret"));
                }
                let kp = lib.keypair(&key.bytes(p))?;
                let (ct, k) = lib.enc(&kp.pk, &msg.bytes(p))?;
                canonical_q(p, "public key", &kp.pk)?;
                canonical_q(p, "ciphertext", &ct)?;
                let t = p.trit_bytes();
                canonical_q(p, "inverse public key in the secret key", &kp.sk[2 * t..2 * t + p.pk])?;
                for (w, b) in [("f", &kp.sk[..t]), ("inverse of f", &kp.sk[t..2 * t])] {
                    if p.pack_3(&p.unpack_3(b)) != b {
                        return Err(format!("{w} in the secret key is not canonically encoded"));
                    }
                }
                // the encoded f is the sampled one
                let (f, _) = p.sample_fg(&key.seed(p));
                diff("encoding of f", &kp.sk[..t], &p.pack_3(&f))?;
                // what was written can be used: the pair still works through decode/encode
                let mut sk = p.pack_3(&p.unpack_3(&kp.sk[..t]));
                sk.extend(p.pack_3(&p.unpack_3(&kp.sk[t..2 * t])));
                sk.extend(p.pack_q(&p.unpack_q(&kp.sk[2 * t..])));
                sk.extend(&kp.sk[p.prf_at()..]);
                diff("re-encoded secret key", &sk, &kp.sk)?;
                diff("shared key obtained with what was written", &lib.dec(&ct, &sk)?, &k)?;
                Ok(Obs { nontrivial: true, labels: vec!["canonical encodings"], evals: 5, inner: vec![] })
            }
            C17Case::Public { h, pad, j, neg, m, checked } => {
                let lib = env.lib(v, *checked);
                let h = qvec(p, h);
                let mut pk = p.pack_q(&h);
                set_pad(p, &mut pk, *pad);
                let j = j.of(n - 1);
                let mut t = vec![0u8; n - 1];
                t[j] = if *neg { 2 } else { 1 };
                let mut bytes = trits_to_bytes(&t, Rep::Low);
                bytes.extend(m.bytes(p));
                let (c, _) = lib.enc(&pk, &bytes)?;
                let (c0, _) = lib.enc(&vec![0u8; p.pk], &bytes)?;
                canonical_q(p, "ciphertext", &c)?;
                let (a, b) = (p.unpack_q(&c), p.unpack_q(&c0));
                let q = p.q();
                let mut full = h.clone();
                full[n - 1] = (-h.iter().map(|x| *x as i64).sum::<i64>()).rem_euclid(q as i64) as i32;
                for i in 0..n - 1 {
                    let src = (i + n - j) % n;
                    let want = if *neg { -full[src] } else { full[src] };
                    let got = (a[i] - b[i]).rem_euclid(q);
                    if got != want.rem_euclid(q) {
                        return Err(format!(
                            "coefficient {src} of the public key ({}) arrives as {got} in position {i} for r = {}x^{j}",
                            full[src],
                            if *neg { "-" } else { "" }
                        ));
                    }
                }
                Ok(Obs { nontrivial: true, labels: vec!["public key coefficients"], evals: 2, inner: vec![] })
            }
            C17Case::Cipher { pass, checked } => {
                check_sweep(p, env.lib(v, *checked), *pass, false)?;
                Ok(Obs::ok(vec!["ciphertext coefficients"]))
            }
            C17Case::Rotations { key, msg, from, checked } => {
                let inner = check_rotations(p, env.lib(v, *checked), key, msg, *from, ROTATIONS)?;
                let labels = vec!["coefficients of h^-1, rotated"];
                Ok(Obs { nontrivial: true, labels, evals: inner.len() as u64, inner })
            }
            C17Case::Secret { key, msg, part, from, len, xor, checked } => {
                let lib = env.lib(v, *checked);
                if !key.usable(p) {
                    return Ok(Obs::trivial("zero secret"));
                }
                let kp = lib.keypair(&key.bytes(p))?;
                let (ct, k) = lib.enc(&kp.pk, &msg.bytes(p))?;
                let t = p.trit_bytes();
                let mut inner = vec![];
                let mut evals = 0;
                let start = from.of(n - 1);
                diff("shared key with the unchanged secret key", &lib.dec(&ct, &kp.sk)?, &k)?;
                for d in 0..(*len as usize).min(n - 1) {
                    let i = (start + d) % (n - 1);
                    let mut sk = kp.sk.clone();
                    match part {
                        0 | 1 => {
                            let o = *part as usize * t;
                            let mut z = p.unpack_3(&sk[o..o + t]);
                            z[i] = (z[i] + 1 + (*xor as i32 & 1)) % 3;
                            sk[o..o + t].copy_from_slice(&p.pack_3(&z));
                        }
                        3 => {
                            // another key for the same public key: +-x^i f, if that is reduced
                            let (f, fp) = (p.unpack_3(&sk[..t]), p.unpack_3(&sk[t..2 * t]));
                            if f[(n - 1 + n - i) % n] != 0 {
                                continue;
                            }
                            let s = 1 + (*xor as i32 & 1);
                            let mut f2 = vec![0; n];
                            let mut g2 = vec![0; n];
                            for j in 0..n {
                                f2[(j + i) % n] = f[j] * s % 3;
                                g2[(j + n - i) % n] = fp[j] * s % 3;
                            }
                            let top = g2[n - 1];
                            for x in g2.iter_mut() {
                                *x = (*x + 3 - top) % 3;
                            }
                            sk[..t].copy_from_slice(&p.pack_3(&f2));
                            sk[t..2 * t].copy_from_slice(&p.pack_3(&g2));
                        }
                        _ => {
                            let o = 2 * t;
                            let mut z = p.unpack_q(&sk[o..o + p.pk]);
                            z[i] ^= 1 << ((*xor as usize + d) % p.logq);
                            sk[o..o + p.pk].copy_from_slice(&p.pack_q(&z));
                        }
                    }
                    let got = lib.dec(&ct, &sk)?;
                    // a digit that is read makes the difference between accepting and rejecting
                    let (_, ok) = p.dec(&sk, &ct);
                    if (got == k) != ok {
                        let what = ["digit of f", "digit of f^-1", "coefficient of h^-1", "f and f^-1 rotated by"][*part as usize & 3];
                        return Err(format!(
                            "secret key, changed {what} {i}: decapsulation {} (model {})",
                            if got == k { "still accepts" } else { "returns another key" },
                            if ok { "accepts" } else { "rejects" }
                        ));
                    }
                    evals += 1;
                    inner.push(hash_of(&sk));
                }
                let l = ["digits of f", "digits of f^-1", "coefficients of h^-1", "equivalent secret keys"][*part as usize & 3];
                Ok(Obs { nontrivial: true, labels: vec![l], evals, inner })
            }
        }
    }
}
