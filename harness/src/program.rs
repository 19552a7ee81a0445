//! Programs of API calls: the unit that is generated, executed, monitored,
//! written to a replay file and read back.

use crate::rng::{hash64, Rng};

/// Bytes given to a call, described compactly so that a program that feeds
/// gigabytes still fits in one line.
#[derive(Clone, Debug, PartialEq)]
pub enum Data {
    Lit(Vec<u8>),
    Gen { kind: u8, seed: u64, len: u64 },
    /// What slot `slot` has output so far, from `from`, at most `len` bytes
    Out { slot: u32, from: u64, len: u64 },
}

pub const DATA_KINDS: u8 = 14;

impl Data {
    pub fn resolve(&self, outs: &dyn Fn(u32) -> Vec<u8>) -> Vec<u8> {
        match self {
            Data::Lit(v) => v.clone(),
            Data::Gen { kind, seed, len } => generate(*kind, *seed, *len as usize),
            Data::Out { slot, from, len } => {
                let all = outs(*slot);
                let a = (*from as usize).min(all.len());
                let b = a + (*len as usize).min(all.len() - a);
                all[a..b].to_vec()
            }
        }
    }

    pub fn empty() -> Data {
        Data::Lit(vec![])
    }
}

pub fn generate(kind: u8, seed: u64, len: usize) -> Vec<u8> {
    let mut r = Rng::new(seed ^ 0x5eed);
    match kind % DATA_KINDS {
        0 => r.bytes(len),
        1 => vec![0; len],
        2 => vec![0xff; len],
        // printable text
        3 => (0..len).map(|_| 0x20 + r.below(95) as u8).collect(),
        4 => (0..len).map(|i| (i as u8).wrapping_add(seed as u8)).collect(),
        // a single bit
        5 => {
            let mut v = vec![0; len];
            if len > 0 {
                let bit = seed % (8 * len as u64);
                v[(bit / 8) as usize] = 0x80 >> (bit % 8);
            }
            v
        }
        6 => vec![seed as u8; len],
        // looks like SHA-2 padding
        7 => {
            let mut v = vec![0; len];
            if len > 0 {
                v[(seed % len as u64) as usize] = 0x80;
            }
            v
        }
        8 => (0..len)
            .map(|i| if i % 2 == 0 { 0x36 } else { 0x5c })
            .collect(),
        // multi-byte text
        9 => {
            let mut v = Vec::with_capacity(len + 4);
            while v.len() < len {
                let c = char::from_u32(0x80 + r.below(0x4000) as u32).unwrap_or('x');
                let mut b = [0; 4];
                v.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            }
            v.truncate(len);
            v
        }
        // sparse
        10 => (0..len)
            .map(|_| if r.chance(1, 8) { r.u64() as u8 } else { 0 })
            .collect(),
        // embedded and trailing zeros
        11 => {
            let mut v = r.bytes(len);
            let keep = if len == 0 { 0 } else { r.below(len as u64) as usize };
            for b in v[keep..].iter_mut() {
                *b = 0;
            }
            v
        }
        // trailing bytes that look like PKCS#7 padding
        12 => {
            let mut v = r.bytes(len);
            let n = 1 + (seed % 16) as usize;
            for b in v.iter_mut().rev().take(n) {
                *b = n as u8;
            }
            v
        }
        // repeated 16 byte unit
        _ => {
            let unit = r.bytes(16);
            (0..len).map(|i| unit[i % 16]).collect()
        }
    }
}

macro_rules! kinds {
    ($($name:ident = $text:expr),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub enum K { $($name),* }
        impl K {
            pub const ALL: &'static [K] = &[$(K::$name),*];
            pub fn text(self) -> &'static str {
                match self { $(K::$name => $text),* }
            }
            pub fn parse(s: &str) -> Option<K> {
                match s { $($text => Some(K::$name),)* _ => None }
            }
        }
    };
}

kinds! {
    // a0 = 1: through Default
    ShaNew = "sha.new",
    // a0 = how many times; d0
    ShaUpd = "sha.update",
    ShaDig = "sha.digest",
    // d0 = key
    MacNew = "hmac.new",
    MacUpd = "hmac.update",
    MacDig = "hmac.digest",
    // a0 = c, a1 = length, a2 = fill; d0 = password, d1 = salt
    Pbkdf2 = "pbkdf2",
    // a0 = rounds, a1 = fill; d0
    Salsa = "salsa20",
    // a0 = r, a1 = n, a2 = p
    ScrNew = "scrypt.new",
    // a0 = length, a1 = fill; d0 = passphrase, d1 = salt
    ScrDerive = "scrypt.derive",
    AesNew = "aes.new",
    AesInit = "aes.init",
    AesEnc = "aes.encrypt",
    AesDec = "aes.decrypt",
    CipNew = "cipher.new",
    CipInit = "cipher.init",
    CipWrite = "cipher.write",
    CipFlush = "cipher.flush",
    DecNew = "decipher.new",
    DecInit = "decipher.init",
    DecWrite = "decipher.write",
    DecFlush = "decipher.flush",
    Drop = "drop",
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: K,
    pub slot: u32,
    pub a: [u64; 3],
    pub d: Vec<Data>,
    /// A golden answer that replaces the reference model for this call: the
    /// SHA-256 of the output (and its length), from OpenSSL.
    pub golden: Option<[u8; 32]>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Program {
    pub ops: Vec<Op>,
}

impl Program {
    pub fn new() -> Program {
        Program::default()
    }

    fn push(&mut self, k: K, slot: u32, a: [u64; 3], d: Vec<Data>) -> &mut Program {
        self.ops.push(Op {
            k,
            slot,
            a,
            d,
            golden: None,
        });
        self
    }

    pub fn golden(&mut self, hex: &str) -> &mut Program {
        let v = unhex(hex).expect("golden hex");
        let mut h = [0; 32];
        h.copy_from_slice(&v);
        self.ops.last_mut().unwrap().golden = Some(h);
        self
    }

    pub fn sha_new(&mut self, s: u32) -> &mut Program {
        self.push(K::ShaNew, s, [u64::from(s % 2), 0, 0], vec![])
    }
    pub fn sha_upd(&mut self, s: u32, d: Data) -> &mut Program {
        self.push(K::ShaUpd, s, [1, 0, 0], vec![d])
    }
    pub fn sha_rep(&mut self, s: u32, times: u64, d: Data) -> &mut Program {
        self.push(K::ShaUpd, s, [times, 0, 0], vec![d])
    }
    pub fn sha_dig(&mut self, s: u32) -> &mut Program {
        self.push(K::ShaDig, s, [0; 3], vec![])
    }
    pub fn mac_new(&mut self, s: u32, key: Data) -> &mut Program {
        self.push(K::MacNew, s, [0; 3], vec![key])
    }
    pub fn mac_upd(&mut self, s: u32, d: Data) -> &mut Program {
        self.push(K::MacUpd, s, [1, 0, 0], vec![d])
    }
    pub fn mac_rep(&mut self, s: u32, times: u64, d: Data) -> &mut Program {
        self.push(K::MacUpd, s, [times, 0, 0], vec![d])
    }
    pub fn mac_dig(&mut self, s: u32) -> &mut Program {
        self.push(K::MacDig, s, [0; 3], vec![])
    }
    pub fn pbkdf2(&mut self, pw: Data, salt: Data, c: u64, len: u64, fill: u64) -> &mut Program {
        self.push(K::Pbkdf2, 0, [c, len, fill], vec![pw, salt])
    }
    pub fn salsa(&mut self, d: Data, rounds: u64, fill: u64) -> &mut Program {
        self.push(K::Salsa, 0, [rounds, fill, 0], vec![d])
    }
    pub fn scr_new(&mut self, s: u32, r: u64, n: u64, p: u64) -> &mut Program {
        self.push(K::ScrNew, s, [r, n, p], vec![])
    }
    pub fn scr_derive(&mut self, s: u32, pw: Data, salt: Data, len: u64, fill: u64) -> &mut Program {
        self.push(K::ScrDerive, s, [len, fill, 0], vec![pw, salt])
    }
    pub fn aes_new(&mut self, s: u32) -> &mut Program {
        self.push(K::AesNew, s, [u64::from(s % 2), 0, 0], vec![])
    }
    pub fn aes_init(&mut self, s: u32, key: Data) -> &mut Program {
        self.push(K::AesInit, s, [0; 3], vec![key])
    }
    pub fn aes_enc(&mut self, s: u32, b: Data) -> &mut Program {
        self.push(K::AesEnc, s, [0; 3], vec![b])
    }
    pub fn aes_dec(&mut self, s: u32, b: Data) -> &mut Program {
        self.push(K::AesDec, s, [0; 3], vec![b])
    }
    pub fn cip_new(&mut self, s: u32, iv: Data) -> &mut Program {
        self.push(K::CipNew, s, [0; 3], vec![iv])
    }
    pub fn cip_init(&mut self, s: u32, key: Data) -> &mut Program {
        self.push(K::CipInit, s, [0; 3], vec![key])
    }
    pub fn cip_write(&mut self, s: u32, d: Data) -> &mut Program {
        self.push(K::CipWrite, s, [0; 3], vec![d])
    }
    pub fn cip_flush(&mut self, s: u32) -> &mut Program {
        self.push(K::CipFlush, s, [0; 3], vec![])
    }
    pub fn dec_new(&mut self, s: u32, iv: Data) -> &mut Program {
        self.push(K::DecNew, s, [0; 3], vec![iv])
    }
    pub fn dec_init(&mut self, s: u32, key: Data) -> &mut Program {
        self.push(K::DecInit, s, [0; 3], vec![key])
    }
    pub fn dec_write(&mut self, s: u32, d: Data) -> &mut Program {
        self.push(K::DecWrite, s, [0; 3], vec![d])
    }
    pub fn dec_flush(&mut self, s: u32) -> &mut Program {
        self.push(K::DecFlush, s, [0; 3], vec![])
    }
    pub fn drop_slot(&mut self, s: u32) -> &mut Program {
        self.push(K::Drop, s, [0; 3], vec![])
    }

    pub fn to_text(&self) -> String {
        let mut t = String::new();
        for op in &self.ops {
            t.push_str(&op.to_text());
            t.push('\n');
        }
        t
    }

    pub fn parse(text: &str) -> Result<Program, String> {
        let mut ops = vec![];
        for line in text.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            ops.push(Op::parse(line)?);
        }
        Ok(Program { ops })
    }
}

pub fn hex(v: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(2 * v.len());
    for b in v {
        s.push(D[(b >> 4) as usize] as char);
        s.push(D[(b & 15) as usize] as char);
    }
    s
}

pub fn unhex(s: &str) -> Result<Vec<u8>, String> {
    if s.len() % 2 != 0 {
        return Err("odd hex".into());
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(|e| e.to_string()))
        .collect()
}

impl Op {
    pub fn to_text(&self) -> String {
        let mut t = format!(
            "{} {} {},{},{}",
            self.k.text(),
            self.slot,
            self.a[0],
            self.a[1],
            self.a[2]
        );
        for d in &self.d {
            match d {
                Data::Lit(v) => t.push_str(&format!(" x{}", hex(v))),
                Data::Gen { kind, seed, len } => t.push_str(&format!(" g{}:{}:{}", kind, seed, len)),
                Data::Out { slot, from, len } => t.push_str(&format!(" o{}:{}:{}", slot, from, len)),
            }
        }
        if let Some(g) = &self.golden {
            t.push_str(&format!(" ={}", hex(g)));
        }
        t
    }

    pub fn parse(line: &str) -> Result<Op, String> {
        let bad = |w: &str| format!("bad {} in line: {}", w, line);
        let mut it = line.split_whitespace();
        let k = K::parse(it.next().ok_or_else(|| bad("kind"))?).ok_or_else(|| bad("kind"))?;
        let slot = it
            .next()
            .and_then(|x| x.parse().ok())
            .ok_or_else(|| bad("slot"))?;
        let nums: Vec<u64> = it
            .next()
            .ok_or_else(|| bad("numbers"))?
            .split(',')
            .map(|x| x.parse().map_err(|_| bad("number")))
            .collect::<Result<_, _>>()?;
        if nums.len() != 3 {
            return Err(bad("numbers"));
        }
        let mut d = vec![];
        let mut golden = None;
        for tok in it {
            let (tag, rest) = tok.split_at(1);
            let three = || -> Result<Vec<u64>, String> {
                let v: Vec<u64> = rest
                    .split(':')
                    .map(|x| x.parse().map_err(|_| bad("data")))
                    .collect::<Result<_, _>>()?;
                if v.len() == 3 {
                    Ok(v)
                } else {
                    Err(bad("data"))
                }
            };
            match tag {
                "x" => d.push(Data::Lit(unhex(rest)?)),
                "g" => {
                    let v = three()?;
                    d.push(Data::Gen {
                        kind: v[0] as u8,
                        seed: v[1],
                        len: v[2],
                    });
                }
                "o" => {
                    let v = three()?;
                    d.push(Data::Out {
                        slot: v[0] as u32,
                        from: v[1],
                        len: v[2],
                    });
                }
                "=" => {
                    let v = unhex(rest)?;
                    if v.len() != 32 {
                        return Err(bad("golden"));
                    }
                    let mut h = [0; 32];
                    h.copy_from_slice(&v);
                    golden = Some(h);
                }
                _ => return Err(bad("token")),
            }
        }
        Ok(Op {
            k,
            slot,
            a: [nums[0], nums[1], nums[2]],
            d,
            golden,
        })
    }
}

/// Structural hash of a program
pub fn fingerprint(p: &Program) -> u64 {
    let mut h = 0x1234_5678u64;
    let mut mix = |x: u64| {
        h = (h ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
    };
    for op in &p.ops {
        mix(op.k as u64 + 1);
        mix(u64::from(op.slot));
        for a in op.a {
            mix(a);
        }
        for d in &op.d {
            match d {
                Data::Lit(v) => mix(hash64(v) ^ 1),
                Data::Gen { kind, seed, len } => {
                    mix(u64::from(*kind) + 2);
                    mix(*seed);
                    mix(*len);
                }
                Data::Out { slot, from, len } => {
                    mix(u64::from(*slot) + 3);
                    mix(*from);
                    mix(*len);
                }
            }
        }
    }
    h
}
