//! AES-256 (FIPS 197) and the NIST KAT generator's AES-256-CTR DRBG.

use std::sync::OnceLock;

fn xtime(a: u8) -> u8 {
    (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 })
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}

fn sbox() -> &'static [u8; 256] {
    static S: OnceLock<[u8; 256]> = OnceLock::new();
    S.get_or_init(|| {
        let mut s = [0u8; 256];
        for (x, out) in s.iter_mut().enumerate() {
            let inv = (0..=255u8).find(|&y| gmul(x as u8, y) == 1).unwrap_or(0);
            let mut r = 0x63u8;
            for k in 0..5 {
                r ^= inv.rotate_left(k);
            }
            *out = r;
        }
        s
    })
}

pub struct Aes256 {
    rk: [[u8; 16]; 15],
}

impl Aes256 {
    pub fn new(key: &[u8; 32]) -> Self {
        let s = sbox();
        let mut w = [[0u8; 4]; 60];
        for i in 0..8 {
            w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
        }
        let mut rcon = 1u8;
        for i in 8..60 {
            let mut t = w[i - 1];
            if i % 8 == 0 {
                t.rotate_left(1);
                for b in &mut t {
                    *b = s[*b as usize];
                }
                t[0] ^= rcon;
                rcon = xtime(rcon);
            } else if i % 8 == 4 {
                for b in &mut t {
                    *b = s[*b as usize];
                }
            }
            for k in 0..4 {
                w[i][k] = w[i - 8][k] ^ t[k];
            }
        }
        let mut rk = [[0u8; 16]; 15];
        for (i, wd) in w.iter().enumerate() {
            rk[i / 4][4 * (i % 4)..4 * (i % 4) + 4].copy_from_slice(wd);
        }
        Aes256 { rk }
    }

    pub fn encrypt(&self, block: &[u8; 16]) -> [u8; 16] {
        let s = sbox();
        let mut st = *block;
        for k in 0..16 {
            st[k] ^= self.rk[0][k];
        }
        for round in 1..15 {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for r in 0..4 {
                    t[4 * c + r] = s[st[4 * ((c + r) % 4) + r] as usize];
                }
            }
            if round < 14 {
                for c in 0..4 {
                    let col = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                    for r in 0..4 {
                        t[4 * c + r] = xtime(col[r])
                            ^ (xtime(col[(r + 1) % 4]) ^ col[(r + 1) % 4])
                            ^ col[(r + 2) % 4]
                            ^ col[(r + 3) % 4];
                    }
                }
            }
            for k in 0..16 {
                st[k] = t[k] ^ self.rk[round][k];
            }
        }
        st
    }
}

/// The DRBG of the NIST PQC known-answer generator.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Drbg {
    pub key: [u8; 32],
    pub v: [u8; 16],
    pub counter: i32,
}

impl Drbg {
    pub fn new() -> Drbg {
        Drbg {
            key: [0; 32],
            v: [0; 16],
            counter: 0,
        }
    }
    fn inc(v: &mut [u8; 16]) {
        for b in v.iter_mut().rev() {
            if *b == 0xff {
                *b = 0;
            } else {
                *b += 1;
                return;
            }
        }
    }
    fn update(&mut self, data: Option<&[u8; 48]>) {
        let aes = Aes256::new(&self.key);
        let mut temp = [0u8; 48];
        for i in 0..3 {
            Self::inc(&mut self.v);
            temp[16 * i..16 * i + 16].copy_from_slice(&aes.encrypt(&self.v));
        }
        if let Some(d) = data {
            for i in 0..48 {
                temp[i] ^= d[i];
            }
        }
        self.key.copy_from_slice(&temp[..32]);
        self.v.copy_from_slice(&temp[32..]);
    }
    pub fn init(&mut self, seed: &[u8; 48]) {
        self.key = [0; 32];
        self.v = [0; 16];
        self.update(Some(seed));
        self.counter = 1;
    }
    pub fn random(&mut self, out: &mut [u8]) {
        let aes = Aes256::new(&self.key);
        let mut i = 0;
        while i < out.len() {
            Self::inc(&mut self.v);
            let b = aes.encrypt(&self.v);
            let n = (out.len() - i).min(16);
            out[i..i + n].copy_from_slice(&b[..n]);
            i += n;
        }
        self.update(None);
        self.counter = self.counter.wrapping_add(1);
    }
}

impl Default for Drbg {
    fn default() -> Self {
        Self::new()
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn fips197() {
        let key: [u8; 32] = core::array::from_fn(|i| i as u8);
        let pt: [u8; 16] = core::array::from_fn(|i| (i * 0x11) as u8);
        let ct = Aes256::new(&key).encrypt(&pt);
        assert_eq!(
            ct,
            [
                0x8e, 0xa2, 0xb7, 0xca, 0x51, 0x67, 0x45, 0xbf, 0xea, 0xfc, 0x49, 0x90, 0x4b, 0x49,
                0x60, 0x89
            ]
        );
    }
    #[test]
    fn nist_kat() {
        let mut d = Drbg::new();
        d.init(&core::array::from_fn(|i| i as u8));
        let mut o = [0u8; 48];
        d.random(&mut o);
        assert_eq!(o[..4], [0x06, 0x15, 0x50, 0x23]);
    }
}
