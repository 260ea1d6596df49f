//! AES-128-CBC with PKCS#7 padding, written from FIPS 197 / SP 800-38A as a reference, with nothing in
//! common with the implementation under test.

const KEY: &[u8; 16] = b"sketchwaresecure";

fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut p = 0;
    for _ in 0..8 {
        if b & 1 != 0 {
            p ^= a;
        }
        let hi = a & 0x80;
        a <<= 1;
        if hi != 0 {
            a ^= 0x1b;
        }
        b >>= 1;
    }
    p
}

pub struct Aes {
    sbox: [u8; 256],
    inv: [u8; 256],
    rk: [[u8; 16]; 11],
    mul: [[u8; 256]; 16],
}

impl Aes {
    pub fn new() -> Aes {
        let mut sbox = [0u8; 256];
        let mut inv = [0u8; 256];
        for x in 0..=255u8 {
            // multiplicative inverse by search, then the affine map
            let i = if x == 0 { 0 } else { (1..=255u8).find(|y| gmul(x, *y) == 1).unwrap() };
            let mut r = 0x63u8;
            for k in 0..5 {
                r ^= i.rotate_left(k);
            }
            sbox[x as usize] = r;
            inv[r as usize] = x;
        }
        let mut mul = [[0u8; 256]; 16];
        for k in [1u8, 2, 3, 9, 11, 13, 14] {
            for x in 0..=255u8 {
                mul[k as usize][x as usize] = gmul(k, x);
            }
        }
        let mut w = [[0u8; 4]; 44];
        for i in 0..4 {
            w[i].copy_from_slice(&KEY[4 * i..4 * i + 4]);
        }
        let mut rcon = 1u8;
        for i in 4..44 {
            let mut t = w[i - 1];
            if i % 4 == 0 {
                t = [sbox[t[1] as usize] ^ rcon, sbox[t[2] as usize], sbox[t[3] as usize], sbox[t[0] as usize]];
                rcon = gmul(rcon, 2);
            }
            for j in 0..4 {
                w[i][j] = w[i - 4][j] ^ t[j];
            }
        }
        let mut rk = [[0u8; 16]; 11];
        for r in 0..11 {
            for c in 0..4 {
                rk[r][4 * c..4 * c + 4].copy_from_slice(&w[4 * r + c]);
            }
        }
        Aes { sbox, inv, rk, mul }
    }

    fn enc_block(&self, s: &mut [u8; 16]) {
        let ark = |s: &mut [u8; 16], r: usize| (0..16).for_each(|i| s[i] ^= self.rk[r][i]);
        ark(s, 0);
        for r in 1..11 {
            let mut n = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    n[4 * c + row] = self.sbox[s[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r < 10 {
                let m = |k: u8, x: u8| self.mul[k as usize][x as usize];
                for c in 0..4 {
                    let a = [n[4 * c], n[4 * c + 1], n[4 * c + 2], n[4 * c + 3]];
                    for row in 0..4 {
                        n[4 * c + row] = m(2, a[row]) ^ m(3, a[(row + 1) % 4]) ^ a[(row + 2) % 4] ^ a[(row + 3) % 4];
                    }
                }
            }
            *s = n;
            ark(s, r);
        }
    }

    fn dec_block(&self, s: &mut [u8; 16]) {
        let ark = |s: &mut [u8; 16], r: usize| (0..16).for_each(|i| s[i] ^= self.rk[r][i]);
        for r in (1..11).rev() {
            ark(s, r);
            if r < 10 {
                let m = |k: u8, x: u8| self.mul[k as usize][x as usize];
                for c in 0..4 {
                    let a = [s[4 * c], s[4 * c + 1], s[4 * c + 2], s[4 * c + 3]];
                    for row in 0..4 {
                        s[4 * c + row] = m(14, a[row]) ^ m(11, a[(row + 1) % 4]) ^ m(13, a[(row + 2) % 4]) ^ m(9, a[(row + 3) % 4]);
                    }
                }
            }
            let mut n = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    n[4 * ((c + row) % 4) + row] = self.inv[s[4 * c + row] as usize];
                }
            }
            *s = n;
        }
        ark(s, 0);
    }

    /// CBC over whole blocks, no padding
    pub fn enc_raw(&self, data: &[u8]) -> Vec<u8> {
        let mut iv = *KEY;
        let mut out = Vec::with_capacity(data.len());
        for b in data.chunks_exact(16) {
            for i in 0..16 {
                iv[i] ^= b[i];
            }
            self.enc_block(&mut iv);
            out.extend_from_slice(&iv);
        }
        out
    }

    pub fn encrypt(&self, data: &[u8]) -> Vec<u8> {
        let n = 16 - data.len() % 16;
        let mut p = data.to_vec();
        p.extend(std::iter::repeat(n as u8).take(n));
        self.enc_raw(&p)
    }

    /// the padded plaintext blocks, if the length is a multiple of 16
    pub fn dec_raw(&self, data: &[u8]) -> Option<Vec<u8>> {
        if data.len() % 16 != 0 {
            return None;
        }
        let mut prev = *KEY;
        let mut out = Vec::with_capacity(data.len());
        for b in data.chunks_exact(16) {
            let c: [u8; 16] = b.try_into().unwrap();
            let mut s = c;
            self.dec_block(&mut s);
            for i in 0..16 {
                s[i] ^= prev[i];
            }
            out.extend_from_slice(&s);
            prev = c;
        }
        Some(out)
    }
}

/// what decryption has to say about a ciphertext
pub enum Verdict {
    Plain(Vec<u8>),
    Refused,
    /// not covered by the format (a padding longer than a block)
    Unspecified,
}

impl Aes {
    pub fn decrypt(&self, data: &[u8]) -> Verdict {
        let Some(p) = self.dec_raw(data) else { return Verdict::Refused };
        let Some(&n) = p.last() else { return Verdict::Refused };
        let n = n as usize;
        if n == 0 || n > p.len() {
            return Verdict::Refused;
        }
        if p[p.len() - n..].iter().any(|b| *b as usize != n) {
            return Verdict::Refused;
        }
        if n > 16 {
            return Verdict::Unspecified;
        }
        Verdict::Plain(p[..p.len() - n].to_vec())
    }
}
