//! FIPS 180-4 SHA-256 and FIPS 198-1 HMAC.

const fn primes() -> [u64; 64] {
    let mut out = [0u64; 64];
    let mut n = 0;
    let mut c = 2u64;
    while n < 64 {
        let mut d = 2;
        let mut prime = true;
        while d * d <= c {
            if c % d == 0 {
                prime = false;
            }
            d += 1;
        }
        if prime {
            out[n] = c;
            n += 1;
        }
        c += 1;
    }
    out
}

/// floor(frac(p^(1/k)) * 2^32), by bisection on exact integers
const fn frac_root(p: u64, k: u32) -> u32 {
    // find the largest x with x^k <= p * 2^(32k): x = floor(root * 2^32)
    let mut lo: u128 = 0;
    let mut hi: u128 = 1 << 37;
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        let le = if k == 2 {
            // p < 2^9, so p * 2^64 fits
            mid * mid <= (p as u128) << 64
        } else {
            // mid^3 <= p * 2^96 (p < 2^9: 105 bits); mid < 2^37 gives 111 bits
            mid * mid * mid <= (p as u128) << 96
        };
        if le {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    lo as u32
}

const fn make_k() -> [u32; 64] {
    let p = primes();
    let mut k = [0u32; 64];
    let mut i = 0;
    while i < 64 {
        k[i] = frac_root(p[i], 3);
        i += 1;
    }
    k
}

const fn make_h() -> [u32; 8] {
    let p = primes();
    let mut h = [0u32; 8];
    let mut i = 0;
    while i < 8 {
        h[i] = frac_root(p[i], 2);
        i += 1;
    }
    h
}

pub const K: [u32; 64] = make_k();
pub const H0: [u32; 8] = make_h();

pub fn compress(h: &mut [u32; 8], block: &[u8]) {
    let mut w = [0u32; 16];
    for (i, c) in block.chunks_exact(4).enumerate() {
        w[i] = u32::from_be_bytes([c[0], c[1], c[2], c[3]]);
    }
    let mut v = *h;
    for t in 0..64 {
        // Message schedule kept in a 16 word ring.
        let wt = if t < 16 {
            w[t]
        } else {
            let w15 = w[(t + 1) & 15];
            let w2 = w[(t + 14) & 15];
            let s0 = w15.rotate_right(7) ^ w15.rotate_right(18) ^ (w15 >> 3);
            let s1 = w2.rotate_right(17) ^ w2.rotate_right(19) ^ (w2 >> 10);
            let x = w[t & 15]
                .wrapping_add(s0)
                .wrapping_add(w[(t + 9) & 15])
                .wrapping_add(s1);
            w[t & 15] = x;
            x
        };
        let e = v[4];
        let a = v[0];
        let t1 = v[7]
            .wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25))
            .wrapping_add(v[6] ^ (e & (v[5] ^ v[6])))
            .wrapping_add(K[t])
            .wrapping_add(wt);
        let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22))
            .wrapping_add((a & (v[1] | v[2])) | (v[1] & v[2]));
        v = [
            t1.wrapping_add(t2),
            a,
            v[1],
            v[2],
            v[3].wrapping_add(t1),
            e,
            v[5],
            v[6],
        ];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}

#[derive(Clone)]
pub struct RefSha {
    pub h: [u32; 8],
    pub tail: Vec<u8>,
    pub total: u64,
}

impl Default for RefSha {
    fn default() -> Self {
        RefSha {
            h: H0,
            tail: Vec::new(),
            total: 0,
        }
    }
}

impl RefSha {
    pub fn update(&mut self, data: &[u8]) {
        self.total += data.len() as u64;
        let mut rest = data;
        if !self.tail.is_empty() {
            let take = (64 - self.tail.len()).min(rest.len());
            self.tail.extend_from_slice(&rest[..take]);
            rest = &rest[take..];
            if self.tail.len() == 64 {
                compress(&mut self.h, &self.tail);
                self.tail.clear();
            }
        }
        let full = rest.len() / 64 * 64;
        for b in rest[..full].chunks_exact(64) {
            compress(&mut self.h, b);
        }
        self.tail.extend_from_slice(&rest[full..]);
    }

    /// Digest of what was absorbed so far; does not end the stream.
    pub fn value(&self) -> [u8; 32] {
        let mut h = self.h;
        let mut last = self.tail.clone();
        last.push(0x80);
        while last.len() % 64 != 56 {
            last.push(0);
        }
        last.extend_from_slice(&(self.total * 8).to_be_bytes());
        for b in last.chunks_exact(64) {
            compress(&mut h, b);
        }
        let mut out = [0; 32];
        for (o, w) in out.chunks_exact_mut(4).zip(h.iter()) {
            o.copy_from_slice(&w.to_be_bytes());
        }
        out
    }
}

pub fn sha256(data: &[u8]) -> [u8; 32] {
    let mut s = RefSha::default();
    s.update(data);
    s.value()
}

#[derive(Clone)]
pub struct RefMac {
    inner: RefSha,
    outer: RefSha,
}

impl RefMac {
    pub fn new(key: &[u8]) -> RefMac {
        let mut k0 = if key.len() > 64 {
            sha256(key).to_vec()
        } else {
            key.to_vec()
        };
        k0.resize(64, 0);
        let mut inner = RefSha::default();
        inner.update(&k0.iter().map(|b| b ^ 0x36).collect::<Vec<u8>>());
        let mut outer = RefSha::default();
        outer.update(&k0.iter().map(|b| b ^ 0x5c).collect::<Vec<u8>>());
        RefMac { inner, outer }
    }

    pub fn update(&mut self, data: &[u8]) {
        self.inner.update(data);
    }

    pub fn value(&self) -> [u8; 32] {
        let mut o = self.outer.clone();
        o.update(&self.inner.value());
        o.value()
    }

    pub fn total(&self) -> u64 {
        self.inner.total - 64
    }
}

pub fn hmac(key: &[u8], data: &[u8]) -> [u8; 32] {
    let mut m = RefMac::new(key);
    m.update(data);
    m.value()
}
