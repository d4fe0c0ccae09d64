//! NTRU-HPS / NTRU-HRSS KEM, round 3.

use crate::gf;
use crate::sha3::sha3_256;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Params {
    pub name: &'static str,
    pub n: usize,
    pub logq: usize,
    pub hrss: bool,
    // published sizes
    pub pk: usize,
    pub sk: usize,
    pub ct: usize,
}

pub const ALL: [Params; 4] = [
    Params { name: "ntruhps2048509", n: 509, logq: 11, hrss: false, pk: 699, sk: 935, ct: 699 },
    Params { name: "ntruhps2048677", n: 677, logq: 11, hrss: false, pk: 930, sk: 1234, ct: 930 },
    Params { name: "ntruhps4096821", n: 821, logq: 12, hrss: false, pk: 1230, sk: 1590, ct: 1230 },
    Params { name: "ntruhrss701", n: 701, logq: 13, hrss: true, pk: 1138, sk: 1450, ct: 1138 },
];

/// Polynomial: n integer coefficients.
pub type Z = Vec<i32>;

pub struct SecretKey {
    pub f: Z,   // {-1,0,1}, n coefficients, last 0
    pub fp: Z,  // {0,1,2}
    pub hq: Z,  // 0..q
    pub prf: [u8; 32],
}

impl Params {
    pub fn q(&self) -> i32 {
        1 << self.logq
    }
    /// number of +1 (and of -1) coefficients of a fixed-weight polynomial, times two
    pub fn weight(&self) -> usize {
        self.q() as usize / 8 - 2
    }
    pub fn iid_bytes(&self) -> usize {
        self.n - 1
    }
    pub fn ft_bytes(&self) -> usize {
        (30 * (self.n - 1)).div_ceil(8)
    }
    /// bytes for (f,g) and for (r,m)
    pub fn sample_bytes(&self) -> usize {
        if self.hrss {
            2 * self.iid_bytes()
        } else {
            self.iid_bytes() + self.ft_bytes()
        }
    }
    pub fn trit_bytes(&self) -> usize {
        (self.n - 1).div_ceil(5)
    }
    pub fn poly_bytes(&self) -> usize {
        (self.logq * (self.n - 1)).div_ceil(8)
    }
    /// number of unused (must be zero) bits in the last byte of a packed polynomial
    pub fn pad_bits(&self) -> usize {
        8 * self.poly_bytes() - self.logq * (self.n - 1)
    }
    /// offset of the rejection secret in the secret key
    pub fn prf_at(&self) -> usize {
        2 * self.trit_bytes() + self.poly_bytes()
    }

    // ---- packing ---------------------------------------------------------------

    pub fn pack_q(&self, a: &[i32]) -> Vec<u8> {
        let mut out = vec![0u8; self.poly_bytes()];
        let mut bit = 0usize;
        for &c in &a[..self.n - 1] {
            let c = (c.rem_euclid(self.q())) as u32;
            for k in 0..self.logq {
                if (c >> k) & 1 == 1 {
                    out[bit / 8] |= 1 << (bit % 8);
                }
                bit += 1;
            }
        }
        out
    }
    /// n-1 coefficients in 0..q plus a zero
    pub fn unpack_q(&self, b: &[u8]) -> Z {
        let mut out = vec![0i32; self.n];
        let mut bit = 0usize;
        for c in out[..self.n - 1].iter_mut() {
            for k in 0..self.logq {
                *c |= (((b[bit / 8] >> (bit % 8)) & 1) as i32) << k;
                bit += 1;
            }
        }
        out
    }
    /// as unpack_q, last coefficient chosen to make the sum zero mod q
    pub fn unpack_sum0(&self, b: &[u8]) -> Z {
        let mut a = self.unpack_q(b);
        let s: i32 = a.iter().sum();
        a[self.n - 1] = (-s).rem_euclid(self.q());
        a
    }
    pub fn pack_3(&self, a: &[i32]) -> Vec<u8> {
        let t: Vec<u32> = a[..self.n - 1].iter().map(|c| c.rem_euclid(3) as u32).collect();
        t.chunks(5)
            .map(|ch| ch.iter().rev().fold(0u32, |acc, d| 3 * acc + d) as u8)
            .collect()
    }
    /// digits {0,1,2}, n coefficients (last 0)
    pub fn unpack_3(&self, b: &[u8]) -> Z {
        let mut out = vec![0i32; self.n];
        for (i, c) in out[..self.n - 1].iter_mut().enumerate() {
            *c = (b[i / 5] as i32 / 3i32.pow((i % 5) as u32)) % 3;
        }
        out
    }
    pub fn centre3(a: &[i32]) -> Z {
        a.iter().map(|c| (c + 1).rem_euclid(3) - 1).collect()
    }

    // ---- ring arithmetic -----------------------------------------------------------

    /// product modulo x^n - 1, coefficients modulo 2^32 (wrapping)
    pub fn mul(&self, a: &[i32], b: &[i32]) -> Z {
        let n = self.n;
        let mut acc = vec![0i32; 2 * n];
        for (i, &x) in a.iter().enumerate() {
            if x == 0 {
                continue;
            }
            for (o, y) in acc[i..i + n].iter_mut().zip(&b[..n]) {
                *o = o.wrapping_add(x.wrapping_mul(*y));
            }
        }
        (0..n).map(|i| acc[i].wrapping_add(acc[i + n])).collect()
    }
    pub fn mod_q(&self, a: &[i32]) -> Z {
        a.iter().map(|c| c.rem_euclid(self.q())).collect()
    }
    /// modulo (q, Phi_n), representatives 0..q, last coefficient 0
    pub fn mod_q_phi(&self, a: &[i32]) -> Z {
        let l = a[self.n - 1];
        a.iter().map(|c| c.wrapping_sub(l).rem_euclid(self.q())).collect()
    }
    /// modulo (3, Phi_n), representatives 0..3, last coefficient 0
    pub fn mod_3_phi(&self, a: &[i32]) -> Z {
        let l = a[self.n - 1].rem_euclid(3);
        a.iter().map(|c| (c.rem_euclid(3) - l).rem_euclid(3)).collect()
    }
    /// representatives in [-q/2, q/2)
    pub fn centre_q(&self, a: &[i32]) -> Z {
        let q = self.q();
        a.iter().map(|c| (c + q / 2).rem_euclid(q) - q / 2).collect()
    }
    pub fn inv_3(&self, a: &[i32]) -> Option<Z> {
        let v: Vec<u8> = a.iter().map(|c| c.rem_euclid(3) as u8).collect();
        let r = gf::inv_mod_phi(&v, self.n, 3)?;
        let mut z: Z = r.iter().map(|x| *x as i32).collect();
        z.resize(self.n, 0);
        Some(z)
    }
    pub fn inv_q(&self, a: &[i32]) -> Option<Z> {
        let v: Vec<u8> = a.iter().map(|c| c.rem_euclid(2) as u8).collect();
        let r = gf::inv_mod_phi(&v, self.n, 2)?;
        let mut x: Z = r.iter().map(|x| *x as i32).collect();
        x.resize(self.n, 0);
        let a = self.mod_q_phi(a);
        // Newton: x <- x (2 - a x); precision 1 -> 2 -> 4 -> 8 -> 16 bits
        for _ in 0..4 {
            let mut e: Z = self.mul(&a, &x).iter().map(|c| c.wrapping_neg()).collect();
            e[0] = e[0].wrapping_add(2);
            let e = self.mod_q_phi(&e);
            x = self.mod_q_phi(&self.mul(&x, &e));
        }
        Some(x)
    }

    // ---- sampling -------------------------------------------------------------------

    pub fn sample_iid(&self, b: &[u8]) -> Z {
        let mut v: Z = b[..self.n - 1].iter().map(|x| *x as i32 % 3).collect();
        v.push(0);
        Self::centre3(&v)
    }
    pub fn sample_iid_plus(&self, b: &[u8]) -> Z {
        let mut v = self.sample_iid(b);
        let s: i32 = (0..self.n - 1).map(|i| v[i] * v[i + 1]).sum();
        if s < 0 {
            for c in v.iter_mut().step_by(2) {
                *c = -*c;
            }
        }
        v
    }
    /// the 30-bit little-endian words of a fixed-type seed
    pub fn ft_words(&self, b: &[u8]) -> Vec<u32> {
        (0..self.n - 1)
            .map(|i| {
                let mut w = 0u32;
                for k in 0..30 {
                    let bit = 30 * i + k;
                    w |= (((b[bit / 8] >> (bit % 8)) & 1) as u32) << k;
                }
                w
            })
            .collect()
    }
    /// inverse of ft_words
    pub fn ft_seed(&self, words: &[u32]) -> Vec<u8> {
        let mut b = vec![0u8; self.ft_bytes()];
        for (i, w) in words.iter().enumerate() {
            for k in 0..30 {
                if (w >> k) & 1 == 1 {
                    let bit = 30 * i + k;
                    b[bit / 8] |= 1 << (bit % 8);
                }
            }
        }
        b
    }
    pub fn sample_fixed_type(&self, b: &[u8]) -> Z {
        let w = self.weight();
        let mut s: Vec<(i32, i32)> = self
            .ft_words(b)
            .iter()
            .enumerate()
            .map(|(i, x)| {
                let tag = if i < w / 2 { 1 } else if i < w { 2 } else { 0 };
                // two's complement order of the word shifted into the top 30 bits
                ((x << 2) as i32, tag)
            })
            .collect();
        s.sort();
        let mut v: Z = s.iter().map(|(_, t)| *t).collect();
        v.push(0);
        Self::centre3(&v)
    }
    pub fn sample_fg(&self, b: &[u8]) -> (Z, Z) {
        let (x, y) = b.split_at(self.iid_bytes());
        if self.hrss {
            (self.sample_iid_plus(x), self.sample_iid_plus(y))
        } else {
            (self.sample_iid(x), self.sample_fixed_type(y))
        }
    }
    pub fn sample_rm(&self, b: &[u8]) -> (Z, Z) {
        let (x, y) = b.split_at(self.iid_bytes());
        if self.hrss {
            (self.sample_iid(x), self.sample_iid(y))
        } else {
            (self.sample_iid(x), self.sample_fixed_type(y))
        }
    }

    // ---- the one-way function ----------------------------------------------------------

    /// 3g, or 3(x-1)g for HRSS, modulo x^n - 1
    pub fn big_g(&self, g: &[i32]) -> Z {
        let n = self.n;
        (0..n)
            .map(|i| {
                if self.hrss {
                    3 * (g[(i + n - 1) % n] - g[i])
                } else {
                    3 * g[i]
                }
            })
            .collect()
    }
    fn inv_x_minus_1(&self) -> &'static Z {
        static C: OnceLock<Vec<(usize, Z)>> = OnceLock::new();
        let all = C.get_or_init(|| {
            ALL.iter()
                .map(|p| {
                    let mut a = vec![0; p.n];
                    a[0] = -1;
                    a[1] = 1;
                    (p.n, p.inv_3(&a).unwrap())
                })
                .collect()
        });
        &all.iter().find(|x| x.0 == self.n).unwrap().1
    }
    /// Lift of a polynomial mod (3, Phi): coefficients are integers
    pub fn lift(&self, m: &[i32]) -> Z {
        let n = self.n;
        if !self.hrss {
            return Self::centre3(m);
        }
        let b = self.mod_3_phi(&self.mul(&Self::centre3(m), self.inv_x_minus_1()));
        let b = Self::centre3(&b);
        (0..n).map(|i| b[(i + n - 1) % n] - b[i]).collect()
    }

    /// None if f or g is not invertible (only the zero polynomial for these n)
    pub fn keypair_from(&self, f: &[i32], g: &[i32], prf: &[u8; 32]) -> Option<(Vec<u8>, Vec<u8>)> {
        let fp = self.inv_3(f)?;
        let gg = self.big_g(g);
        let finv = self.inv_q(f)?;
        let ginv = self.inv_q(&gg)?;
        let h1 = self.mod_q_phi(&self.mul(&gg, &finv));
        let hq = self.mod_q_phi(&self.mul(f, &ginv));
        let h = self.sum_zero_lift(&h1);
        let mut sk = self.pack_3(f);
        sk.extend(self.pack_3(&fp));
        sk.extend(self.pack_q(&hq));
        sk.extend(prf);
        Some((self.pack_q(&h), sk))
    }
    /// the representative modulo x^n-1 of a residue mod Phi_n whose coefficient sum is 0 mod q
    pub fn sum_zero_lift(&self, h1: &[i32]) -> Z {
        let q = self.q() as i64;
        let s: i64 = h1.iter().map(|x| *x as i64).sum::<i64>().rem_euclid(q);
        // c * n = -s mod q
        let mut ninv = 1i64;
        for _ in 0..5 {
            ninv = (ninv * (2 - self.n as i64 * ninv)).rem_euclid(q);
        }
        assert_eq!((ninv * self.n as i64).rem_euclid(q), 1);
        let c = (-s * ninv).rem_euclid(q) as i32;
        h1.iter().map(|x| (x + c).rem_euclid(self.q())).collect()
    }
    pub fn keypair(&self, seed: &[u8], prf: &[u8; 32]) -> Option<(Vec<u8>, Vec<u8>)> {
        let (f, g) = self.sample_fg(seed);
        self.keypair_from(&f, &g, prf)
    }

    /// c = r h + Lift(m), r any integer polynomial, m mod (3, Phi)
    pub fn encrypt(&self, pk: &[u8], r: &[i32], m: &[i32]) -> Vec<u8> {
        let h = self.unpack_sum0(pk);
        self.encrypt_h(&h, r, &self.lift(m))
    }
    pub fn encrypt_h(&self, h: &[i32], r: &[i32], liftm: &[i32]) -> Vec<u8> {
        let mut c = self.mul(r, h);
        for i in 0..self.n {
            c[i] = c[i].wrapping_add(liftm[i]);
        }
        self.pack_q(&c)
    }
    pub fn key_of(&self, r: &[i32], m: &[i32]) -> [u8; 32] {
        let mut rm = self.pack_3(r);
        rm.extend(self.pack_3(m));
        sha3_256(&rm)
    }
    pub fn enc(&self, pk: &[u8], seed: &[u8]) -> (Vec<u8>, [u8; 32]) {
        let (r, m) = self.sample_rm(seed);
        (self.encrypt(pk, &r, &m), self.key_of(&r, &m))
    }

    pub fn parse_sk(&self, sk: &[u8]) -> SecretKey {
        let t = self.trit_bytes();
        SecretKey {
            f: Self::centre3(&self.unpack_3(&sk[..t])),
            fp: self.unpack_3(&sk[t..2 * t]),
            hq: self.unpack_q(&sk[2 * t..2 * t + self.poly_bytes()]),
            prf: sk[self.prf_at()..self.prf_at() + 32].try_into().unwrap(),
        }
    }
    pub fn m_in_space(&self, m: &[i32]) -> bool {
        if self.hrss {
            return true;
        }
        let m = Self::centre3(m);
        let w = self.weight() / 2;
        m.iter().filter(|x| **x == 1).count() == w && m.iter().filter(|x| **x == -1).count() == w
    }
    /// (r mod (q,Phi) in 0..q, m mod (3,Phi) in 0..3)
    pub fn decrypt(&self, sk: &SecretKey, ct: &[u8]) -> (Z, Z) {
        let c = self.unpack_sum0(ct);
        let cf = self.centre_q(&self.mul(&c, &sk.f));
        let cf3 = self.mod_3_phi(&cf);
        let m = self.mod_3_phi(&self.mul(&cf3, &sk.fp));
        let l = self.lift(&m);
        let b: Z = c.iter().zip(&l).map(|(x, y)| x - y).collect();
        let r = self.mod_q_phi(&self.mul(&self.mod_q(&b), &sk.hq));
        (r, m)
    }
    /// Decapsulation as specified, for arbitrary key and ciphertext strings.
    pub fn dec(&self, sk: &[u8], ct: &[u8]) -> ([u8; 32], bool) {
        let k = self.parse_sk(sk);
        let (r, m) = self.decrypt(&k, ct);
        let q = self.q();
        let r_ok = r.iter().all(|c| *c == 0 || *c == 1 || *c == q - 1);
        let pad = self.pad_bits();
        let pad_ok = pad == 0 || (ct[ct.len() - 1] as usize) >> (8 - pad) == 0;
        if r_ok && pad_ok && self.m_in_space(&m) {
            (self.key_of(&self.centre_q(&r), &m), true)
        } else {
            (self.reject(&k.prf, ct), false)
        }
    }
    pub fn reject(&self, prf: &[u8], ct: &[u8]) -> [u8; 32] {
        let mut b = prf.to_vec();
        b.extend(ct);
        sha3_256(&b)
    }
    /// Is `ct` the encapsulation of some (r, m) under `pk`?  Decided by decrypting with a
    /// well-formed secret key and re-encrypting; independent of the checks in `dec`.
    pub fn opens_to(&self, pk: &[u8], sk: &[u8], ct: &[u8]) -> Option<(Z, Z)> {
        let k = self.parse_sk(sk);
        let (r, m) = self.decrypt(&k, ct);
        let r = self.centre_q(&r);
        if r.iter().any(|c| c.abs() > 1) || !self.m_in_space(&m) {
            return None;
        }
        if self.encrypt(pk, &r, &m) == ct {
            Some((r, m))
        } else {
            None
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::Drbg;
    #[test]
    fn roundtrip_and_sizes() {
        for p in ALL {
            assert_eq!(p.poly_bytes(), p.pk);
            assert_eq!(p.poly_bytes(), p.ct);
            assert_eq!(p.prf_at() + 32, p.sk);
            let mut d = Drbg::new();
            d.init(&[7; 48]);
            for _ in 0..5 {
                let mut s = vec![0; p.sample_bytes()];
                d.random(&mut s);
                let mut prf = [0; 32];
                d.random(&mut prf);
                let (pk, sk) = p.keypair(&s, &prf).unwrap();
                d.random(&mut s);
                let (ct, k) = p.enc(&pk, &s);
                let (k2, ok) = p.dec(&sk, &ct);
                assert!(ok);
                assert_eq!(k, k2);
                assert!(p.opens_to(&pk, &sk, &ct).is_some());
                let mut c2 = ct.clone();
                c2[17] ^= 4;
                assert!(!p.dec(&sk, &c2).1);
                assert!(p.opens_to(&pk, &sk, &c2).is_none());
            }
        }
    }
}
