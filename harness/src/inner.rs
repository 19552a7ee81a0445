//! Inputs chosen from within: the intermediate state of a primitive is given a
//! shape that random inputs never produce (equal columns, words of zeros or
//! ones, sums that overflow or vanish), and the reference is run backwards
//! from there to the input that leads to it.

use crate::families::{aes_key, fam, lit, real, Family, Scale};
use crate::program::{Data, Program};
use crate::refimpl::aes::{cbc_enc_raw, gmul, xor, Block, RefAes, INV, SBOX};
use crate::refimpl::sha;
use crate::rng::Rng;

fn word(r: &mut Rng) -> u32 {
    match r.below(12) {
        0 | 1 => 0,
        2 | 3 => 0xffff_ffff,
        4 => 0x8000_0000,
        5 => 0x7fff_ffff,
        6 => 1 << r.below(32),
        7 => !(1 << r.below(32)),
        8 => (r.below(256) as u32) * 0x0101_0101,
        9 => (r.below(65_536) as u32) * 0x0001_0001,
        10 => r.below(256) as u32,
        _ => r.u64() as u32,
    }
}

fn words(r: &mut Rng, w: &mut [u32]) {
    let n = w.len() as u64;
    for x in w.iter_mut() {
        *x = r.u64() as u32;
    }
    match r.below(8) {
        0 => w.iter_mut().for_each(|x| *x = word(r)),
        1 => {
            let c = word(r);
            w.iter_mut().for_each(|x| *x = c);
        }
        2 => {
            let c = word(r);
            w[r.below(n) as usize] = c;
        }
        3 => {
            let (a, b) = (word(r), word(r));
            w.iter_mut().for_each(|x| *x = if r.chance(1, 2) { a } else { b });
        }
        4 => {
            let (a, b) = (r.below(n) as usize, r.below(n) as usize);
            w[a] = w[b];
        }
        5 => {
            let (a, b) = (r.below(n) as usize, r.below(n) as usize);
            w[a] = if r.chance(1, 2) { !w[b] } else { w[b].wrapping_neg() };
        }
        6 => {
            let m = 1 << r.below(4);
            for k in m..w.len() {
                w[k] = w[k - m];
            }
        }
        _ => {
            for _ in 0..1 + r.below(n) {
                let (k, c) = (r.below(n) as usize, word(r));
                w[k] = c;
            }
        }
    }
}

fn byte(r: &mut Rng) -> u8 {
    *r.pick(&[0, 0, 1, 2, 0x80, 0xff, 0x7f, 0x63, 0x52, 0x1b, 0x8d, 0x16, 0xfe])
}

fn state(r: &mut Rng) -> Block {
    let mut s = r.block();
    match r.below(10) {
        0 => {
            let c = if r.chance(1, 2) { byte(r) } else { r.u64() as u8 };
            s = [c; 16];
        }
        1 => s.iter_mut().for_each(|x| *x = byte(r)),
        2 => {
            // one column of equal bytes
            let (c, b) = (r.below(4) as usize, if r.chance(1, 3) { byte(r) } else { r.u64() as u8 });
            s[4 * c..4 * c + 4].iter_mut().for_each(|x| *x = b);
        }
        3 => {
            // every column of equal bytes
            for c in s.chunks_exact_mut(4) {
                c.copy_from_slice(&[c[0]; 4]);
            }
        }
        4 => {
            // every row of equal bytes
            for k in 4..16 {
                s[k] = s[k % 4];
            }
        }
        5 => {
            // columns whose bytes sum to zero
            for c in s.chunks_exact_mut(4) {
                c[r.below(4) as usize] = 0;
                let sum = c.iter().fold(0, |a, b| a ^ b);
                c[r.below(4) as usize] ^= sum;
            }
        }
        6 => {
            let (a, b) = (r.below(16) as usize, r.below(16) as usize);
            s[a] = s[b];
        }
        7 => {
            // two bytes of one column equal, or neighbours
            let c = 4 * r.below(4) as usize;
            let (a, b) = (r.below(4) as usize, r.below(4) as usize);
            s[c + a] = s[c + b];
        }
        8 => {
            for _ in 0..1 + r.below(8) {
                s[r.below(16) as usize] = byte(r);
            }
        }
        _ => {
            let c = r.below(4) as usize;
            s = [0; 16];
            for k in 0..4 {
                s[4 * c + k] = r.u64() as u8;
            }
        }
    }
    s
}

#[derive(Clone, Copy)]
enum Step {
    Key(usize),
    Sub,
    Shift,
    Mix,
}

fn steps(last: usize) -> Vec<Step> {
    let mut v = vec![Step::Key(0)];
    for n in 1..=last {
        v.extend([Step::Sub, Step::Shift]);
        if n != last {
            v.push(Step::Mix);
        }
        v.push(Step::Key(n));
    }
    v
}

fn mix(s: &Block, by: [u8; 4]) -> Block {
    let mut t = [0; 16];
    for k in 0..16 {
        for j in 0..4 {
            t[k] ^= gmul(s[k / 4 * 4 + (k + j) % 4], by[j]);
        }
    }
    t
}

fn step(s: &Block, k: &RefAes, st: Step, forward: bool) -> Block {
    let mut t = *s;
    match (st, forward) {
        (Step::Key(n), _) => t = xor(s, &k.rk[n]),
        (Step::Sub, true) => t.iter_mut().for_each(|x| *x = SBOX[*x as usize]),
        (Step::Sub, false) => t.iter_mut().for_each(|x| *x = INV[*x as usize]),
        (Step::Shift, true) => (0..16).for_each(|p| t[p] = s[(p + 4 * (p % 4)) % 16]),
        (Step::Shift, false) => (0..16).for_each(|p| t[(p + 4 * (p % 4)) % 16] = s[p]),
        (Step::Mix, true) => t = mix(s, [2, 3, 1, 1]),
        (Step::Mix, false) => t = mix(s, [14, 11, 13, 9]),
    }
    t
}

/// The block, and its encryption, for which the state is `s` before step `at`.
fn through(k: &RefAes, s: &Block, at: usize) -> (Block, Block) {
    let all = steps(k.rk.len() - 1);
    let mut clear = *s;
    for st in all[..at].iter().rev() {
        clear = step(&clear, k, *st, false);
    }
    let mut cipher = *s;
    for st in &all[at..] {
        cipher = step(&cipher, k, *st, true);
    }
    (clear, cipher)
}

/// A key whose schedule holds the words `w` at word `at` and after.
fn key_with(w: &[[u8; 4]], at: usize) -> Vec<u8> {
    let nk = w.len();
    let rcon = |n: usize| (1..n).fold(1, |x, _| gmul(x, 2));
    let mut w = w.to_vec();
    for i in (nk..nk + at).rev() {
        // the window is words i-nk+1..=i of the schedule; get word i-nk
        let mut t = w[nk - 2];
        if i % nk == 0 {
            t = [SBOX[t[1] as usize] ^ rcon(i / nk), SBOX[t[2] as usize], SBOX[t[3] as usize], SBOX[t[0] as usize]];
        } else if nk == 8 && i % 8 == 4 {
            t.iter_mut().for_each(|x| *x = SBOX[*x as usize]);
        }
        let last = w.pop().unwrap();
        w.insert(0, [last[0] ^ t[0], last[1] ^ t[1], last[2] ^ t[2], last[3] ^ t[3]]);
    }
    w.concat()
}

pub fn aes(v: &mut Vec<Family>, scale: Scale) {
    fam(v, "aes/inner-state", scale.n(4, 600, 60_000, 900_000), |i, r| {
        let key = real(&aes_key(r, i));
        let k = RefAes::new(&key);
        let n = steps(k.rk.len() - 1).len() as u64;
        let mut p = Program::new();
        let s = (i % 2) as u32;
        p.aes_new(s).aes_init(s, lit(&key));
        for _ in 0..3 {
            let (clear, cipher) = through(&k, &state(r), r.below(n + 1) as usize);
            assert!(k.enc(&clear) == cipher);
            p.aes_enc(s, lit(&clear)).aes_dec(s, lit(&cipher));
        }
        p
    });
}

pub fn keys(v: &mut Vec<Family>, scale: Scale) {
    fam(v, "aes/inner-schedule", scale.n(4, 400, 30_000, 400_000), |i, r| {
        let nk = [4, 6, 8][(i % 3) as usize];
        let total = 4 * (nk + 7);
        let at = r.below(1 + (total - nk) as u64) as usize;
        let mut w = vec![0u32; nk];
        words(r, &mut w);
        let w: Vec<[u8; 4]> = w.iter().map(|x| x.to_be_bytes()).collect();
        let key = key_with(&w, at);
        let k = RefAes::new(&key);
        assert!(k.rk.concat()[4 * at..4 * (at + nk)] == w.concat()[..]);
        let (clear, cipher) = through(&k, &if r.chance(1, 2) { state(r) } else { r.block() }, r.below(20) as usize);
        let mut p = Program::new();
        p.aes_new(0).aes_init(0, lit(&key)).aes_enc(0, lit(&clear)).aes_dec(0, lit(&cipher));
        p
    });
}

fn quarter_back(z: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    z[a] ^= z[d].wrapping_add(z[c]).rotate_left(18);
    z[d] ^= z[c].wrapping_add(z[b]).rotate_left(13);
    z[c] ^= z[b].wrapping_add(z[a]).rotate_left(9);
    z[b] ^= z[a].wrapping_add(z[d]).rotate_left(7);
}

pub fn salsa(v: &mut Vec<Family>, scale: Scale) {
    fam(v, "salsa/inner-state", scale.n(4, 1000, 100_000, 1_500_000), |_, r| {
        let mut bytes = vec![];
        for _ in 0..1 + r.below(2) {
            let mut z = [0u32; 16];
            words(r, &mut z);
            // undo some half rounds, the one before a full round being of rows
            for half in 0..r.below(10) {
                for k in 0..4 {
                    let at = |j: usize| if half % 2 == 0 { 4 * k + (k + j) % 4 } else { 4 * ((k + j) % 4) + k };
                    quarter_back(&mut z, at(0), at(1), at(2), at(3));
                }
            }
            bytes.extend(z.iter().flat_map(|x| x.to_le_bytes()));
        }
        let mut p = Program::new();
        let (n, f) = (r.below(6), r.below(256));
        p.salsa(lit(&bytes), n, f);
        p
    });
}

/// A block that makes working variables take chosen values in the first rounds.
fn steered(h: &[u32; 8], r: &mut Rng) -> Vec<u8> {
    let mut v = *h;
    let mut out = vec![];
    let style = r.below(6);
    let fixed = if r.chance(1, 2) { Some(word(r)) } else { None };
    for t in 0..16 {
        let (a, e) = (v[0], v[4]);
        let rest = v[7]
            .wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25))
            .wrapping_add((e & v[5]) ^ (!e & v[6]))
            .wrapping_add(sha::K[t]);
        let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22)).wrapping_add((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
        let want = fixed.unwrap_or_else(|| word(r));
        let w = match if style == 5 { r.below(5) } else { style } {
            // the new a, the new e, the sum of T1, the schedule word
            0 => want.wrapping_sub(t2).wrapping_sub(rest),
            1 => want.wrapping_sub(rest),
            2 => want.wrapping_sub(v[3]).wrapping_sub(rest),
            3 => want,
            _ => want.wrapping_sub(sha::K[t]),
        };
        let t1 = rest.wrapping_add(w);
        v = [t1.wrapping_add(t2), a, v[1], v[2], v[3].wrapping_add(t1), e, v[5], v[6]];
        out.extend_from_slice(&w.to_be_bytes());
    }
    out
}

/// A block whose message schedule holds words of a given shape from `at` on.
fn scheduled(at: usize, r: &mut Rng) -> Vec<u8> {
    let mut w = [0u32; 16];
    words(r, &mut w);
    for _ in 0..at {
        // w[0..16] are words i..i+16; get word i-1
        let s0 = w[0].rotate_right(7) ^ w[0].rotate_right(18) ^ (w[0] >> 3);
        let s1 = w[13].rotate_right(17) ^ w[13].rotate_right(19) ^ (w[13] >> 10);
        let x = w[15].wrapping_sub(s1).wrapping_sub(w[8]).wrapping_sub(s0);
        w.copy_within(0..15, 1);
        w[0] = x;
    }
    w.iter().flat_map(|x| x.to_be_bytes()).collect()
}

pub fn sha(v: &mut Vec<Family>, scale: Scale) {
    fam(v, "sha/inner-state", scale.n(4, 800, 80_000, 1_200_000), |_, r| {
        let mut h = sha::H0;
        let mut data = vec![];
        for _ in 0..1 + r.below(3) {
            let b = match r.below(5) {
                0 => r.bytes(64),
                1 | 2 => steered(&h, r),
                _ => scheduled(r.below(49) as usize, r),
            };
            sha::compress(&mut h, &b);
            data.extend(b);
        }
        let tail = *r.pick(&[0, 0, 1, 55, 56, 63]);
        data.extend(r.bytes(tail));
        let mut p = Program::new();
        let s = r.below(2) as u32;
        p.sha_new(s).sha_upd(s, lit(&data)).sha_dig(s);
        p
    });
}

/// Messages whose blocks depend on the chain so far: what goes into the block
/// cipher is zero, what it was the last time, the key...
pub fn cbc(v: &mut Vec<Family>, scale: Scale, encrypt: bool) {
    let name = if encrypt { "cbc-enc/inner-state" } else { "cbc-dec/inner-state" };
    fam(v, name, scale.n(4, 400, 30_000, 400_000), move |i, r| {
        let mut key = real(&aes_key(r, i));
        let any = r.block();
        let iv: Block = *r.pick(&[[0; 16], [0xff; 16], [16; 16], any, any, any]);
        if r.chance(1, 8) {
            key[..16].copy_from_slice(&iv);
        }
        let k = RefAes::new(&key);
        let mut prev = iv; // the last ciphertext block
        let mut input = iv; // the last input of the block cipher
        let mut clear: Block = [0; 16];
        let mut text = vec![];
        for _ in 0..1 + r.below(6) {
            clear = match r.below(12) {
                0 => prev,
                1 => xor(&prev, &[0xff; 16]),
                2 => xor(&prev, &input),
                3 => xor(&prev, &k.dec(&prev)), // the ciphertext block repeats
                4 => xor(&prev, &k.dec(&[0; 16])), // it is zero
                5 => xor(&prev, &k.dec(&iv)),
                6 => clear,
                7 => [0; 16],
                8 => [16; 16],
                9 => iv,
                10 => {
                    let mut b = [0; 16];
                    b.copy_from_slice(&key[..16]);
                    xor(&b, &if r.chance(1, 2) { prev } else { [0; 16] })
                }
                _ => xor(&prev, &state(r)),
            };
            input = xor(&clear, &prev);
            prev = k.enc(&input);
            text.extend_from_slice(&clear);
        }
        if r.chance(1, 2) {
            let n = r.below(16);
            text.extend(real(&Data::Gen { kind: 6, seed: *r.pick(&[0, 1, 16, 16 - n, 0xff, 0x80, 0x7f]), len: n }));
        }
        let mut p = Program::new();
        if encrypt {
            p.cip_new(0, lit(&iv)).cip_init(0, lit(&key));
        } else {
            p.dec_new(0, lit(&iv)).dec_init(0, lit(&key));
            text = cbc_enc_raw(&k, &iv, &crate::refimpl::aes::pkcs7_pad(&text));
        }
        let n = text.len();
        let cuts = match r.below(3) {
            0 => vec![n],
            1 => (0..=n).step_by(16).chain([n]).collect(),
            _ => {
                let a = r.usize(0, n);
                vec![a, r.usize(a, n), n]
            }
        };
        let mut at = 0;
        for c in cuts {
            let d = lit(&text[at..c]);
            at = c;
            if encrypt {
                p.cip_write(0, d);
            } else {
                p.dec_write(0, d);
            }
        }
        if encrypt {
            p.cip_flush(0);
        } else {
            p.dec_flush(0);
        }
        p
    });
}
