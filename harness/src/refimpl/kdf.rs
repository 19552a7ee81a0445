//! RFC 8018 PBKDF2-HMAC-SHA256, the Salsa20 core and RFC 7914 scrypt.

use super::sha::RefMac;

/// Block number `i` (from 1) of PBKDF2 output.
pub fn pbkdf2_block(prf: &RefMac, salt: &[u8], c: u64, i: u32) -> [u8; 32] {
    let mut m = prf.clone();
    m.update(salt);
    m.update(&i.to_be_bytes());
    let mut u = m.value();
    let mut t = u;
    for _ in 1..c {
        let mut m = prf.clone();
        m.update(&u);
        u = m.value();
        for (a, b) in t.iter_mut().zip(u.iter()) {
            *a ^= b;
        }
    }
    t
}

pub fn pbkdf2(pw: &[u8], salt: &[u8], c: u64, len: usize) -> Vec<u8> {
    let prf = RefMac::new(pw);
    let mut out = Vec::with_capacity(len + 32);
    let mut i = 0u32;
    while out.len() < len {
        i += 1;
        out.extend_from_slice(&pbkdf2_block(&prf, salt, c, i));
    }
    out.truncate(len);
    out
}

/// Salsa20 core on 16 words, `double_rounds` column+row rounds, with the
/// feed-forward addition.
pub fn salsa_words(x: &[u32; 16], double_rounds: u64) -> [u32; 16] {
    let mut z = *x;
    // The matrix is processed in place; a row round is a column round of the
    // transposed matrix.
    fn quarter(z: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
        z[b] ^= z[a].wrapping_add(z[d]).rotate_left(7);
        z[c] ^= z[b].wrapping_add(z[a]).rotate_left(9);
        z[d] ^= z[c].wrapping_add(z[b]).rotate_left(13);
        z[a] ^= z[d].wrapping_add(z[c]).rotate_left(18);
    }
    for _ in 0..double_rounds {
        for col in 0..4 {
            let at = |k: usize| 4 * ((col + k) % 4) + col;
            quarter(&mut z, at(0), at(1), at(2), at(3));
        }
        for row in 0..4 {
            let at = |k: usize| 4 * row + (row + k) % 4;
            quarter(&mut z, at(0), at(1), at(2), at(3));
        }
    }
    for (a, b) in z.iter_mut().zip(x.iter()) {
        *a = a.wrapping_add(*b);
    }
    z
}

pub fn salsa_bytes(input: &[u8], double_rounds: u64) -> Vec<u8> {
    let mut out = Vec::with_capacity(input.len());
    for b in input.chunks_exact(64) {
        let mut x = [0u32; 16];
        for (w, c) in x.iter_mut().zip(b.chunks_exact(4)) {
            *w = u32::from_le_bytes([c[0], c[1], c[2], c[3]]);
        }
        for w in salsa_words(&x, double_rounds).iter() {
            out.extend_from_slice(&w.to_le_bytes());
        }
    }
    out
}

/// scryptBlockMix from `b` into `y`, both 32 * r words.
fn block_mix(b: &[u32], y: &mut [u32], r: usize) {
    let mut x = [0u32; 16];
    x.copy_from_slice(&b[32 * r - 16..]);
    for i in 0..2 * r {
        for (a, w) in x.iter_mut().zip(&b[16 * i..16 * i + 16]) {
            *a ^= w;
        }
        x = salsa_words(&x, 4);
        let at = if i % 2 == 0 { i / 2 } else { r + i / 2 };
        y[16 * at..16 * at + 16].copy_from_slice(&x);
    }
}

fn ro_mix(b: &mut [u32], n: u64, r: usize) {
    let words = 32 * r;
    let mut v = vec![0u32; words * n as usize];
    let mut tmp = vec![0u32; words];
    for i in 0..n as usize {
        v[i * words..(i + 1) * words].copy_from_slice(b);
        block_mix(b, &mut tmp, r);
        b.copy_from_slice(&tmp);
    }
    for _ in 0..n {
        let at = words - 16;
        let j = (u64::from(b[at]) | (u64::from(b[at + 1]) << 32)) & (n - 1);
        let row = &v[j as usize * words..(j as usize + 1) * words];
        for (a, w) in b.iter_mut().zip(row) {
            *a ^= w;
        }
        block_mix(b, &mut tmp, r);
        b.copy_from_slice(&tmp);
    }
}

pub fn scrypt(pw: &[u8], salt: &[u8], n: u64, r: usize, p: usize, len: usize) -> Vec<u8> {
    let raw = pbkdf2(pw, salt, 1, 128 * r * p);
    let mut mixed = Vec::with_capacity(raw.len());
    for lane in raw.chunks_exact(128 * r) {
        let mut words: Vec<u32> = lane
            .chunks_exact(4)
            .map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]))
            .collect();
        ro_mix(&mut words, n, r);
        for w in words {
            mixed.extend_from_slice(&w.to_le_bytes());
        }
    }
    pbkdf2(pw, &mixed, 1, len)
}
