//! Inverses in GF(2)[x]/Phi_n and GF(3)[x]/Phi_n by the extended Euclidean
//! algorithm (Phi_n = 1 + x + ... + x^(n-1), n prime).

/// Inverse of `a` (coefficients mod p, any length) modulo (p, Phi_n); None if not a unit.
/// Result has n-1 coefficients in 0..p.
pub fn inv_mod_phi(a: &[u8], n: usize, p: u8) -> Option<Vec<u8>> {
    assert!(p == 2 || p == 3);
    // r0 = Phi_n, r1 = a mod Phi_n
    let mut r0 = vec![1u8; n];
    let mut r1 = reduce_phi(a, n, p);
    let mut t0: Vec<u8> = vec![];
    let mut t1: Vec<u8> = vec![1];
    trim(&mut r1);
    while r1.len() > 1 {
        // long division r0 / r1, mirrored on the cofactors
        while r0.len() >= r1.len() {
            let shift = r0.len() - r1.len();
            // q = lead(r0)/lead(r1); in GF(2), GF(3) every unit is its own inverse
            let q = (*r0.last().unwrap() * *r1.last().unwrap()) % p;
            sub_shifted(&mut r0, &r1, shift, q, p);
            sub_shifted(&mut t0, &t1, shift, q, p);
            trim(&mut r0);
        }
        std::mem::swap(&mut r0, &mut r1);
        std::mem::swap(&mut t0, &mut t1);
    }
    if r1.is_empty() {
        return None; // gcd has positive degree (or a = 0)
    }
    // a * t1 = r1 (a non-zero constant)
    let c = r1[0];
    let mut out: Vec<u8> = t1.iter().map(|x| (x * c) % p).collect();
    out = reduce_phi(&out, n, p);
    out.resize(n - 1, 0);
    Some(out)
}

fn trim(v: &mut Vec<u8>) {
    while let Some(0) = v.last() {
        v.pop();
    }
}

fn sub_shifted(a: &mut Vec<u8>, b: &[u8], shift: usize, q: u8, p: u8) {
    if a.len() < b.len() + shift {
        a.resize(b.len() + shift, 0);
    }
    let neg = p - q;
    if p == 2 {
        for (x, y) in a[shift..shift + b.len()].iter_mut().zip(b) {
            *x ^= *y;
        }
    } else {
        for (x, y) in a[shift..shift + b.len()].iter_mut().zip(b) {
            // values < 3: x + neg*y <= 2 + 2*2 = 6
            let s = *x + neg * *y;
            let s = if s >= 3 { s - 3 } else { s };
            *x = if s >= 3 { s - 3 } else { s };
        }
    }
}

/// Reduce modulo (x^n - 1) and then modulo Phi_n: n-1 coefficients, low to high.
pub fn reduce_phi(a: &[u8], n: usize, p: u8) -> Vec<u8> {
    let mut t = vec![0u32; n];
    for (i, x) in a.iter().enumerate() {
        t[i % n] += *x as u32;
    }
    let last = t[n - 1] % p as u32;
    (0..n - 1)
        .map(|i| ((t[i] + (p as u32 - last)) % p as u32) as u8)
        .collect()
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn inverts() {
        for &n in &[5usize, 7, 11, 19, 509] {
            for p in [2u8, 3] {
                let mut s = 12345u64;
                for _ in 0..20 {
                    let a: Vec<u8> = (0..n - 1)
                        .map(|_| {
                            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                            ((s >> 33) % p as u64) as u8
                        })
                        .collect();
                    if let Some(b) = inv_mod_phi(&a, n, p) {
                        let mut prod = vec![0u32; 2 * n];
                        for i in 0..n - 1 {
                            for j in 0..n - 1 {
                                prod[i + j] += a[i] as u32 * b[j] as u32;
                            }
                        }
                        let prod: Vec<u8> = prod.iter().map(|x| (x % p as u32) as u8).collect();
                        let r = reduce_phi(&prod, n, p);
                        assert_eq!(r[0], 1);
                        assert!(r[1..].iter().all(|x| *x == 0));
                    } else {
                        assert!(n < 100);
                    }
                }
            }
        }
    }
}
