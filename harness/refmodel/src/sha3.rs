//! SHA3-256, straight from FIPS 202.

fn keccak_f(a: &mut [[u64; 5]; 5]) {
    // a[x][y]
    let mut lfsr: u8 = 1;
    for _ in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x][y] ^= d;
            }
        }
        // rho and pi
        let (mut x, mut y) = (1usize, 0usize);
        let mut cur = a[x][y];
        for t in 0..24u32 {
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            let next = a[nx][ny];
            a[nx][ny] = cur.rotate_left(((t + 1) * (t + 2) / 2) % 64);
            cur = next;
            x = nx;
            y = ny;
        }
        // chi
        for y in 0..5 {
            let row = [a[0][y], a[1][y], a[2][y], a[3][y], a[4][y]];
            for x in 0..5 {
                a[x][y] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
            }
        }
        // iota
        for j in 0..7 {
            if lfsr & 1 == 1 {
                a[0][0] ^= 1u64 << ((1u32 << j) - 1);
            }
            lfsr = (lfsr << 1) ^ (if lfsr & 0x80 != 0 { 0x71 } else { 0 });
        }
    }
}

pub fn sha3_256(data: &[u8]) -> [u8; 32] {
    const RATE: usize = 136;
    let mut msg = data.to_vec();
    msg.push(0x06);
    while msg.len() % RATE != 0 {
        msg.push(0);
    }
    let last = msg.len() - 1;
    msg[last] |= 0x80;
    let mut a = [[0u64; 5]; 5];
    for block in msg.chunks(RATE) {
        for (i, w) in block.chunks(8).enumerate() {
            a[i % 5][i / 5] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        keccak_f(&mut a);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&a[i % 5][i / 5].to_le_bytes());
    }
    out
}

#[cfg(test)]
mod tests {
    #[test]
    fn vectors() {
        let hex = |b: &[u8]| b.iter().map(|x| format!("{:02x}", x)).collect::<String>();
        assert_eq!(
            hex(&super::sha3_256(b"")),
            "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a"
        );
        assert_eq!(
            hex(&super::sha3_256(b"abc")),
            "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532"
        );
    }
}
