//! FIPS 197 AES, and CBC with PKCS#7 padding (SP 800-38A, RFC 5652).

pub const fn gmul(a: u8, b: u8) -> u8 {
    let mut r = 0u8;
    let mut x = a;
    let mut y = b;
    while y != 0 {
        if y & 1 != 0 {
            r ^= x;
        }
        let hi = x & 0x80;
        x <<= 1;
        if hi != 0 {
            x ^= 0x1b;
        }
        y >>= 1;
    }
    r
}

const fn make_sbox() -> [u8; 256] {
    let mut s = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        // multiplicative inverse: i^254
        let x = i as u8;
        let mut inv = 1u8;
        let mut e = 0;
        while e < 254 {
            inv = gmul(inv, x);
            e += 1;
        }
        // affine map
        s[i] = inv
            ^ inv.rotate_left(1)
            ^ inv.rotate_left(2)
            ^ inv.rotate_left(3)
            ^ inv.rotate_left(4)
            ^ 0x63;
        i += 1;
    }
    s
}

const fn invert(s: &[u8; 256]) -> [u8; 256] {
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        t[s[i] as usize] = i as u8;
        i += 1;
    }
    t
}

const fn mul_table(by: u8) -> [u8; 256] {
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        t[i] = gmul(i as u8, by);
        i += 1;
    }
    t
}

pub static SBOX: [u8; 256] = make_sbox();
pub static INV: [u8; 256] = invert(&make_sbox());
static M2: [u8; 256] = mul_table(2);
static M3: [u8; 256] = mul_table(3);
static M9: [u8; 256] = mul_table(9);
static M11: [u8; 256] = mul_table(11);
static M13: [u8; 256] = mul_table(13);
static M14: [u8; 256] = mul_table(14);

pub type Block = [u8; 16];

#[derive(Clone)]
pub struct RefAes {
    pub rk: Vec<Block>,
}

pub fn key_len_ok(n: usize) -> bool {
    n == 16 || n == 24 || n == 32
}

impl RefAes {
    pub fn new(key: &[u8]) -> RefAes {
        assert!(key_len_ok(key.len()));
        let nk = key.len() / 4;
        let rounds = nk + 6;
        let mut w: Vec<[u8; 4]> = key
            .chunks_exact(4)
            .map(|c| [c[0], c[1], c[2], c[3]])
            .collect();
        let mut rcon = 1u8;
        while w.len() < 4 * (rounds + 1) {
            let i = w.len();
            let mut t = w[i - 1];
            if i % nk == 0 {
                t.rotate_left(1);
                for b in t.iter_mut() {
                    *b = SBOX[*b as usize];
                }
                t[0] ^= rcon;
                rcon = gmul(rcon, 2);
            } else if nk == 8 && i % 8 == 4 {
                for b in t.iter_mut() {
                    *b = SBOX[*b as usize];
                }
            }
            for (b, prev) in t.iter_mut().zip(w[i - nk].iter()) {
                *b ^= prev;
            }
            w.push(t);
        }
        let rk = w
            .chunks_exact(4)
            .map(|c| {
                let mut b = [0; 16];
                for (o, i) in b.chunks_exact_mut(4).zip(c) {
                    o.copy_from_slice(i);
                }
                b
            })
            .collect();
        RefAes { rk }
    }

    fn add(s: &mut Block, k: &Block) {
        for (a, b) in s.iter_mut().zip(k.iter()) {
            *a ^= b;
        }
    }

    pub fn enc(&self, b: &Block) -> Block {
        let mut s = *b;
        Self::add(&mut s, &self.rk[0]);
        let last = self.rk.len() - 1;
        for (n, k) in self.rk.iter().enumerate().skip(1) {
            // state byte (row r, column c) is s[4c + r]; ShiftRows moves row r
            // left by r columns
            let mut t = [0u8; 16];
            for c in 0..4 {
                for r in 0..4 {
                    t[4 * c + r] = SBOX[s[4 * ((c + r) % 4) + r] as usize];
                }
            }
            if n == last {
                s = t;
            } else {
                for c in 0..4 {
                    for r in 0..4 {
                        let at = |k: usize| t[4 * c + (r + k) % 4];
                        s[4 * c + r] = M2[at(0) as usize] ^ M3[at(1) as usize] ^ at(2) ^ at(3);
                    }
                }
            }
            Self::add(&mut s, k);
        }
        s
    }

    pub fn dec(&self, b: &Block) -> Block {
        let mut s = *b;
        let last = self.rk.len() - 1;
        for n in (1..=last).rev() {
            Self::add(&mut s, &self.rk[n]);
            if n != last {
                let mut t = [0u8; 16];
                for c in 0..4 {
                    for r in 0..4 {
                        let at = |k: usize| s[4 * c + (r + k) % 4] as usize;
                        t[4 * c + r] = M14[at(0)] ^ M11[at(1)] ^ M13[at(2)] ^ M9[at(3)];
                    }
                }
                s = t;
            }
            let mut t = [0u8; 16];
            for c in 0..4 {
                for r in 0..4 {
                    t[4 * ((c + r) % 4) + r] = INV[s[4 * c + r] as usize];
                }
            }
            s = t;
        }
        Self::add(&mut s, &self.rk[0]);
        s
    }
}

pub fn xor(a: &Block, b: &Block) -> Block {
    let mut o = [0; 16];
    for i in 0..16 {
        o[i] = a[i] ^ b[i];
    }
    o
}

/// CBC over whole blocks without padding; returns the ciphertext.
pub fn cbc_enc_raw(aes: &RefAes, iv: &Block, data: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(data.len());
    let mut prev = *iv;
    for c in data.chunks_exact(16) {
        let mut b = [0; 16];
        b.copy_from_slice(c);
        prev = aes.enc(&xor(&b, &prev));
        out.extend_from_slice(&prev);
    }
    out
}

pub fn pkcs7_pad(data: &[u8]) -> Vec<u8> {
    let mut v = data.to_vec();
    let n = 16 - data.len() % 16;
    v.resize(data.len() + n, n as u8);
    v
}

/// Length of the message in a final block, None if not validly padded.
pub fn pkcs7_len(last: &Block) -> Option<usize> {
    let n = last[15] as usize;
    if n == 0 || n > 16 {
        return None;
    }
    if last[16 - n..].iter().any(|b| *b as usize != n) {
        return None;
    }
    Some(16 - n)
}

pub fn cbc_enc(aes: &RefAes, iv: &Block, data: &[u8]) -> Vec<u8> {
    cbc_enc_raw(aes, iv, &pkcs7_pad(data))
}
