//! Workloads. A family is a numbered set of programs; program `i` of a family
//! is a function of (seed, i) alone, so any case can be regenerated.
//!
//! Families named `x:` enumerate a space completely (contents may still be
//! drawn from the seed); the others are samples.

use crate::inner;
use crate::program::{Data, Program, DATA_KINDS};
use crate::refimpl::aes::{cbc_enc, cbc_enc_raw, xor, RefAes};
use crate::refimpl::golden;
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Scale {
    /// interpreters (Miri): a few hundred small programs
    Mini,
    /// 32-bit WebAssembly, sanitizer builds
    Medium,
    Quick,
    Thorough,
}

impl Scale {
    pub fn parse(s: &str) -> Option<Scale> {
        match s {
            "mini" => Some(Scale::Mini),
            "medium" => Some(Scale::Medium),
            "quick" => Some(Scale::Quick),
            "thorough" => Some(Scale::Thorough),
            _ => None,
        }
    }

    pub fn n(self, mini: u64, medium: u64, quick: u64, thorough: u64) -> u64 {
        match self {
            Scale::Mini => mini,
            Scale::Medium => medium,
            Scale::Quick => quick,
            Scale::Thorough => thorough,
        }
    }
}

type Gen = Box<dyn Fn(u64, &mut Rng) -> Program + Send + Sync>;

pub struct Family {
    pub name: &'static str,
    pub count: u64,
    /// one case takes seconds: started first, only in the release build
    pub heavy: bool,
    pub gen: Gen,
}

/// One program
pub fn fixed(name: &'static str, gen: impl Fn() -> Program + Send + Sync + 'static) -> Family {
    Family { name, count: 1, heavy: false, gen: Box::new(move |_, _| gen()) }
}

pub fn fam(
    v: &mut Vec<Family>,
    name: &'static str,
    count: u64,
    gen: impl Fn(u64, &mut Rng) -> Program + Send + Sync + 'static,
) {
    if count > 0 {
        v.push(Family {
            name,
            count,
            heavy: false,
            gen: Box::new(gen),
        });
    }
}

fn heavy(
    v: &mut Vec<Family>,
    name: &'static str,
    count: u64,
    gen: impl Fn(u64, &mut Rng) -> Program + Send + Sync + 'static,
) {
    if count > 0 {
        v.push(Family {
            name,
            count,
            heavy: true,
            gen: Box::new(gen),
        });
    }
}

fn gen_data(r: &mut Rng, len: u64) -> Data {
    Data::Gen {
        kind: if r.chance(1, 2) {
            0
        } else {
            r.below(u64::from(DATA_KINDS)) as u8
        },
        seed: r.u64() >> 16,
        len,
    }
}

fn kind_data(r: &mut Rng, kind: u64, len: u64) -> Data {
    Data::Gen {
        kind: (kind % u64::from(DATA_KINDS)) as u8,
        seed: r.u64() >> 16,
        len,
    }
}

/// Lengths that are interesting to block-oriented code
fn len(r: &mut Rng, max: u64) -> u64 {
    let v = match r.below(8) {
        0 => 0,
        1 => r.below(17),
        2 => r.below(66),
        3 => *r.pick(&[15u64, 16, 17, 31, 32, 33, 47, 48, 55, 56, 57, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129]),
        4 => r.below(300),
        5 => {
            let unit = *r.pick(&[16u64, 32, 64]);
            (unit * r.below(1 + max / unit)).saturating_sub(1) + r.below(3)
        }
        _ => r.below(max + 1),
    };
    v.min(max)
}

/// Cut `v` into chunks in one of several styles, empty chunks included.
fn cut(r: &mut Rng, v: &[u8]) -> Vec<Vec<u8>> {
    let style = r.below(7);
    let fixed = *r.pick(&[1usize, 2, 3, 5, 7, 13, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 128, 255, 256, 257, 1000]);
    let mut out = vec![];
    let mut rest = v;
    while !rest.is_empty() && out.len() < 5000 {
        let n = match style {
            0 => rest.len(),
            1 => 1 + r.below(16) as usize,
            2 => fixed,
            3 => 1 + r.below(130) as usize,
            4 => {
                if r.chance(1, 3) {
                    0
                } else {
                    r.usize(0, rest.len())
                }
            }
            5 => *r.pick(&[0usize, 1, 15, 16, 17, 63, 64, 65]),
            _ => r.usize(0, 2 * fixed),
        }
        .min(rest.len());
        out.push(rest[..n].to_vec());
        rest = &rest[n..];
    }
    if !rest.is_empty() {
        out.push(rest.to_vec());
    }
    if r.chance(1, 6) {
        out.insert(0, vec![]);
    }
    if r.chance(1, 6) {
        out.push(vec![]);
    }
    out
}

pub fn real(d: &Data) -> Vec<u8> {
    d.resolve(&|_| vec![])
}

pub fn lit(v: &[u8]) -> Data {
    Data::Lit(v.to_vec())
}

pub fn aes_key(r: &mut Rng, size: u64) -> Data {
    let l = [16, 24, 32][(size % 3) as usize];
    gen_data(r, l)
}

fn bad_key_len(r: &mut Rng) -> u64 {
    loop {
        let n = match r.below(3) {
            0 => *r.pick(&[0u64, 1, 4, 8, 12, 15, 17, 20, 23, 25, 28, 31, 33, 40, 48, 64, 96, 128, 192, 256]),
            1 => r.below(70),
            _ => r.below(600),
        };
        if n != 16 && n != 24 && n != 32 {
            return n;
        }
    }
}

// ---------------------------------------------------------------- SHA-256

pub fn sha(scale: Scale) -> Vec<Family> {
    let mut v = vec![];
    if scale == Scale::Quick || scale == Scale::Thorough {
        let all = scale == Scale::Thorough;
        let list: Vec<_> = golden::SHA_HUGE.iter().filter(|g| all || !g.4).collect();
        heavy(&mut v, "sha/huge", list.len() as u64, move |i, _| {
            let (kind, times, len, tail, _, want) = *list[i as usize];
            let mut p = Program::new();
            // model not followed: the digest is golden
            p.sha_new(0)
                .sha_rep(0, times, Data::Gen { kind, seed: 7, len })
                .golden(want)
                .sha_upd(0, Data::Gen { kind: 4, seed: 3, len: tail })
                .golden(want)
                .sha_dig(0)
                .golden(want);
            p
        });
    }
    let top = scale.n(140, 400, 1100, 9000);
    let kinds = scale.n(1, 3, 3, 4);
    fam(&mut v, "x:sha/length", (top + 1) * kinds, move |i, r| {
        let (l, k) = (i / kinds, i % kinds);
        let k = [0, 3, 1, 2][k as usize];
        let mut p = Program::new();
        p.sha_new(r.below(2) as u32);
        let s = p.ops[0].slot;
        p.sha_upd(s, kind_data(r, k, l)).sha_dig(s);
        p
    });
    // every split of every length up to `m` in two
    let m = scale.n(0, 70, 200, 330);
    if m > 0 {
        fam(&mut v, "x:sha/two-splits", (m + 1) * (m + 2) / 2, move |i, r| {
            let mut l = 0;
            let mut i = i;
            while i > l {
                i -= l + 1;
                l += 1;
            }
            let data = r.bytes(l as usize);
            let mut p = Program::new();
            p.sha_new(0)
                .sha_upd(0, lit(&data[..i as usize]))
                .sha_upd(0, lit(&data[i as usize..]))
                .sha_dig(0);
            p
        });
    }
    fam(&mut v, "sha/short", scale.n(20, 3000, 400_000, 6_000_000), |_, r| {
        let n = r.below(150);
        let mut p = Program::new();
        p.sha_new(0).sha_upd(0, gen_data(r, n)).sha_dig(0);
        p
    });
    let max = scale.n(300, 3000, 4000, 20_000);
    fam(&mut v, "sha/chunked", scale.n(15, 500, 30_000, 400_000), move |_, r| {
        let n = len(r, max);
        let d = gen_data(r, n);
        let data = real(&d);
        let mut p = Program::new();
        p.sha_new(1);
        for c in cut(r, &data) {
            p.sha_upd(1, lit(&c));
        }
        p.sha_dig(1);
        p
    });
    fam(&mut v, "sha/no-update", scale.n(1, 2, 2, 2), |i, _| {
        let mut p = Program::new();
        p.sha_new(i as u32).sha_dig(i as u32);
        p
    });
    // single updates around powers of two
    fam(&mut v, "sha/large-update", scale.n(0, 20, 100, 400), |i, r| {
        let k = [12u64, 13, 14, 15, 16, 17, 18, 20, 21, 22][(i % 10) as usize];
        let n = (1u64 << k) - 2 + r.below(5);
        let pre = r.below(130);
        let mut p = Program::new();
        p.sha_new(0)
            .sha_upd(0, gen_data(r, pre))
            .sha_upd(0, gen_data(r, n))
            .sha_upd(0, gen_data(r, pre / 2))
            .sha_dig(0);
        p
    });
    // very many updates
    fam(&mut v, "sha/many-updates", scale.n(0, 3, 8, 40), |i, r| {
        let times = [65_535u64, 65_536, 65_537, 70_000, 131_073, 16_777_217][(i % 6) as usize];
        let n = if times > 1 << 20 { r.below(2) } else { [1u64, 0, 64, 3, 63, 0][(i % 6) as usize] };
        let mut p = Program::new();
        p.sha_new(0)
            .sha_upd(0, gen_data(r, 5))
            .sha_rep(0, times, gen_data(r, n))
            .sha_upd(0, gen_data(r, 70))
            .sha_dig(0);
        p
    });
    // the unit of length counting: total just below/above each power of two
    fam(&mut v, "sha/total-carry", scale.n(0, 12, 60, 90), |i, r| {
        let k = 8 + i % 18;
        let total = (1u64 << k) - 3 + r.below(7);
        let unit = 1 + r.below(if k > 20 { 70_000 } else { 300 });
        let mut p = Program::new();
        p.sha_new(0)
            .sha_rep(0, total / unit, gen_data(r, unit))
            .sha_upd(0, gen_data(r, total % unit))
            .sha_dig(0);
        p
    });
    inner::sha(&mut v, scale);
    v
}

// --------------------------------------------------------------- chunking

pub fn chunking(scale: Scale) -> Vec<Family> {
    let mut v = vec![];
    fn feed(p: &mut Program, s: u32, mac: bool, c: &[u8]) {
        if mac {
            p.mac_upd(s, lit(c));
        } else {
            p.sha_upd(s, lit(c));
        }
    }
    fn open(p: &mut Program, s: u32, key: Option<&Data>) {
        match key {
            Some(k) => p.mac_new(s, k.clone()),
            None => p.sha_new(s),
        };
    }
    fn close(p: &mut Program, s: u32, mac: bool) {
        if mac {
            p.mac_dig(s);
        } else {
            p.sha_dig(s);
        }
    }
    // every cut in two of every length, against one update
    let m = scale.n(0, 66, 260, 400);
    if m > 0 {
        fam(&mut v, "x:chunk/all-two-cuts", 2 * (m + 1), move |i, r| {
            let mac = i % 2 == 1;
            let l = i / 2;
            let data = real(&gen_data(r, l));
            let kl = r.below(140);
            let key = if mac { Some(gen_data(r, kl)) } else { None };
            let mut p = Program::new();
            open(&mut p, 0, key.as_ref());
            feed(&mut p, 0, mac, &data);
            close(&mut p, 0, mac);
            for at in 0..=l as usize {
                open(&mut p, 1, key.as_ref());
                feed(&mut p, 1, mac, &data[..at]);
                feed(&mut p, 1, mac, &data[at..]);
                close(&mut p, 1, mac);
            }
            p
        });
    }
    // every cut in three for lengths around the block size
    fam(&mut v, "x:chunk/all-three-cuts", scale.n(0, 1, 6, 20), |i, r| {
        let l = [64u64, 128, 63, 65, 120, 129, 56, 192][(i % 8) as usize];
        let data = real(&gen_data(r, l));
        let mut p = Program::new();
        open(&mut p, 0, None);
        feed(&mut p, 0, false, &data);
        close(&mut p, 0, false);
        for a in 0..=l as usize {
            for b in a..=l as usize {
                open(&mut p, 1, None);
                feed(&mut p, 1, false, &data[..a]);
                feed(&mut p, 1, false, &data[a..b]);
                feed(&mut p, 1, false, &data[b..]);
                close(&mut p, 1, false);
            }
        }
        p
    });
    let max = scale.n(260, 2000, 3000, 30_000);
    fam(&mut v, "chunk/random", scale.n(6, 300, 20_000, 250_000), move |_, r| {
        let mac = r.chance(1, 2);
        let n = len(r, max);
        let data = real(&gen_data(r, n));
        let kl = len(r, 200);
        let key = if mac { Some(gen_data(r, kl)) } else { None };
        let mut p = Program::new();
        open(&mut p, 0, key.as_ref());
        feed(&mut p, 0, mac, &data);
        close(&mut p, 0, mac);
        for s in 1..4 {
            open(&mut p, s, key.as_ref());
            for c in cut(r, &data) {
                feed(&mut p, s, mac, &c);
            }
            close(&mut p, s, mac);
        }
        p
    });
    // sessions open at the same time, fed in turns
    fam(&mut v, "chunk/interleaved", scale.n(3, 100, 5_000, 60_000), |_, r| {
        let k = 2 + r.below(4) as u32;
        let n = len(r, 600);
        let data = real(&gen_data(r, n));
        let mac = r.chance(1, 2);
        let kl = len(r, 150);
        let key = if mac { Some(gen_data(r, kl)) } else { None };
        let mut p = Program::new();
        let mut queues: Vec<Vec<Vec<u8>>> = vec![];
        for s in 0..k {
            open(&mut p, s, key.as_ref());
            let mut c = cut(r, &data);
            c.reverse();
            queues.push(c);
        }
        while queues.iter().any(|q| !q.is_empty()) {
            let s = r.below(u64::from(k)) as usize;
            if let Some(c) = queues[s].pop() {
                feed(&mut p, s as u32, mac, &c);
            }
        }
        for s in 0..k {
            close(&mut p, s, mac);
        }
        p
    });
    // long messages in large chunks of many sizes
    fam(&mut v, "chunk/large", scale.n(0, 4, 40, 200), |i, r| {
        let total = 1u64 << (14 + i % 7);
        let total = total + r.below(200);
        let d = Data::Gen {
            kind: [0u8, 3, 4, 10][(i % 4) as usize],
            seed: r.u64() >> 20,
            len: total,
        };
        let data = real(&d);
        let mut p = Program::new();
        open(&mut p, 0, None);
        feed(&mut p, 0, false, &data);
        close(&mut p, 0, false);
        for s in 1..5u32 {
            let unit = *r.pick(&[64usize, 128, 4096, 8192, 65_536, 4095, 4097, 1000, 16_384, 100_000, 32_768, 63, 65]);
            open(&mut p, s, None);
            let lead = r.usize(0, 130).min(data.len());
            feed(&mut p, s, false, &data[..lead]);
            for c in data[lead..].chunks(unit) {
                feed(&mut p, s, false, c);
            }
            close(&mut p, s, false);
        }
        p
    });
    // repeated unit, so that the number of updates can be huge
    fam(&mut v, "chunk/many-updates", scale.n(0, 2, 10, 40), |i, r| {
        let mac = i % 2 == 1;
        let times = [65_536u64, 65_537, 131_072, 1_000_003, 65_535][(i % 5) as usize];
        let unit = 1 + r.below(3);
        let d = Data::Gen { kind: 6, seed: r.below(256), len: unit };
        let all = Data::Gen {
            kind: 6,
            seed: match d {
                Data::Gen { seed, .. } => seed,
                _ => 0,
            },
            len: unit * times,
        };
        let key = gen_data(r, 40);
        let mut p = Program::new();
        if mac {
            p.mac_new(0, key.clone()).mac_rep(0, times, d).mac_dig(0);
            p.mac_new(1, key).mac_upd(1, all).mac_dig(1);
        } else {
            p.sha_new(0).sha_rep(0, times, d).sha_dig(0);
            p.sha_new(1).sha_upd(1, all).sha_dig(1);
        }
        p
    });
    if scale == Scale::Quick || scale == Scale::Thorough {
        // more than 2^32 bits, in one update and in many
        heavy(&mut v, "chunk/huge", 1, move |_, _| {
            let n = (1u64 << if scale == Scale::Thorough { 32 } else { 29 }) + 77;
            let mut p = Program::new();
            p.sha_new(0)
                .sha_upd(0, Data::Gen { kind: 6, seed: 0x41, len: n })
                .sha_dig(0);
            p.sha_new(1)
                .sha_rep(1, n / 1021, Data::Gen { kind: 6, seed: 0x41, len: 1021 })
                .sha_upd(1, Data::Gen { kind: 6, seed: 0x41, len: n % 1021 })
                .sha_dig(1);
            p
        });
    }
    v
}

// ------------------------------------------------------------------- HMAC

pub fn mac(scale: Scale) -> Vec<Family> {
    let mut v = vec![];
    if scale == Scale::Quick || scale == Scale::Thorough {
        let all = scale == Scale::Thorough;
        let list: Vec<_> = golden::HMAC_HUGE.iter().filter(|g| all || !g.3).collect();
        heavy(&mut v, "hmac/huge", list.len() as u64, move |i, _| {
            let (klen, times, len, _, want) = *list[i as usize];
            let mut p = Program::new();
            p.mac_new(0, Data::Gen { kind: 4, seed: 1, len: klen })
                .mac_rep(0, times, Data::Gen { kind: 4, seed: 2, len })
                .golden(want)
                .mac_dig(0)
                .golden(want);
            p
        });
    }
    let top = scale.n(70, 140, 400, 1100);
    let msgs = scale.n(1, 3, 6, 8);
    fam(&mut v, "x:hmac/key-length", (top + 1) * msgs, move |i, r| {
        let (kl, m) = (i / msgs, i % msgs);
        let ml = match m {
            0 => 11,
            1 => 0,
            2 => 64,
            3 => 55,
            _ => len(r, 300),
        };
        let mut p = Program::new();
        p.mac_new(0, gen_data(r, kl)).mac_upd(0, gen_data(r, ml)).mac_dig(0);
        p
    });
    let keys = scale.n(1, 3, 5, 8);
    fam(&mut v, "x:hmac/message-length", (top + 1) * keys, move |i, r| {
        let (ml, k) = (i / keys, i % keys);
        let kl = match k {
            0 => 32,
            1 => 64,
            2 => 65,
            3 => 0,
            _ => len(r, 400),
        };
        let mut p = Program::new();
        p.mac_new(0, gen_data(r, kl)).mac_upd(0, gen_data(r, ml)).mac_dig(0);
        p
    });
    let max = scale.n(200, 2000, 3000, 20_000);
    fam(&mut v, "hmac/random", scale.n(10, 500, 120_000, 1_500_000), move |_, r| {
        let kl = if r.chance(1, 40) { len(r, max) } else { len(r, 200) };
        let n = if r.chance(1, 20) { len(r, max) } else { len(r, 150) };
        let data = real(&gen_data(r, n));
        let mut p = Program::new();
        p.mac_new(0, gen_data(r, kl));
        for c in cut(r, &data) {
            p.mac_upd(0, lit(&c));
        }
        p.mac_dig(0);
        p
    });
    // keys by content: every byte value, every single bit, trailing zeros
    fam(&mut v, "x:hmac/key-byte", scale.n(0, 256, 256, 256), |i, r| {
        let kl = len(r, 130);
        let mut p = Program::new();
        p.mac_new(0, Data::Gen { kind: 6, seed: i, len: kl })
            .mac_upd(0, gen_data(r, 20))
            .mac_dig(0);
        p
    });
    fam(&mut v, "x:hmac/key-bit", scale.n(0, 512, 8 * 64 + 8 * 32, 8 * 64 + 8 * 32), |i, r| {
        let (bit, kl) = if i < 512 { (i, 64) } else { (i - 512, 32) };
        let mut p = Program::new();
        p.mac_new(0, Data::Gen { kind: 5, seed: bit, len: kl })
            .mac_upd(0, gen_data(r, 20))
            .mac_dig(0);
        p
    });
    fam(&mut v, "hmac/large-key", scale.n(0, 6, 60, 300), |i, r| {
        let k = 9 + i % 14;
        let kl = (1u64 << k) - 2 + r.below(5);
        let mut p = Program::new();
        p.mac_new(0, gen_data(r, kl)).mac_upd(0, gen_data(r, 33)).mac_dig(0);
        p
    });
    fam(&mut v, "hmac/large-message", scale.n(0, 6, 60, 300), |i, r| {
        let k = 10 + i % 13;
        let n = (1u64 << k) - 2 + r.below(5);
        let kl = len(r, 200);
        let mut p = Program::new();
        p.mac_new(0, gen_data(r, kl));
        if r.chance(1, 2) {
            p.mac_upd(0, gen_data(r, n));
        } else {
            let unit = 1 + r.below(300);
            p.mac_rep(0, n / unit, gen_data(r, unit)).mac_upd(0, gen_data(r, n % unit));
        }
        p.mac_dig(0);
        p
    });
    fam(&mut v, "hmac/no-update", scale.n(2, 130, 130, 130), |i, r| {
        let mut p = Program::new();
        p.mac_new(0, gen_data(r, i)).mac_dig(0);
        p
    });
    // several authenticators at once, some with the same key
    fam(&mut v, "hmac/parallel-sessions", scale.n(2, 60, 3000, 30_000), |_, r| {
        let k = 2 + r.below(4) as u32;
        let mut p = Program::new();
        let kl = len(r, 150);
        let shared = gen_data(r, kl);
        for s in 0..k {
            let kl = len(r, 150);
            let key = if r.chance(1, 2) { shared.clone() } else { gen_data(r, kl) };
            p.mac_new(s, key);
        }
        for _ in 0..r.below(20) {
            let s = r.below(u64::from(k)) as u32;
            let n = len(r, 150);
            p.mac_upd(s, gen_data(r, n));
        }
        for s in 0..k {
            p.mac_dig(s);
        }
        p
    });
    v
}

// ----------------------------------------------------------------- PBKDF2

pub fn pbkdf2(scale: Scale) -> Vec<Family> {
    let mut v = vec![];
    if scale == Scale::Quick || scale == Scale::Thorough {
        let all = scale == Scale::Thorough;
        let list: Vec<_> = golden::PBKDF2.iter().filter(|g| all || !g.2).collect();
        heavy(&mut v, "pbkdf2/golden", list.len() as u64, move |i, _| {
            let (c, n, _, want) = *list[i as usize];
            let mut p = Program::new();
            p.pbkdf2(lit(b"Password"), lit(b"NaCl"), c, n, 0x5a).golden(want);
            p
        });
        // the block counter needs its fourth byte
        heavy(&mut v, "pbkdf2/counter", 1, |_, r| {
            let mut p = Program::new();
            p.pbkdf2(gen_data(r, 9), gen_data(r, 8), 1, 32 * ((1 << 24) + 4) + 5, 0xff);
            p
        });
    }
    let top = scale.n(40, 140, 300, 700);
    fam(&mut v, "x:pbkdf2/output-length", top + 1, |i, r| {
        let mut p = Program::new();
        let (a, b, f) = (len(r, 80), len(r, 80), r.below(256));
        let c = 1 + r.below(3);
        p.pbkdf2(gen_data(r, a), gen_data(r, b), c, i, f);
        p
    });
    fam(&mut v, "x:pbkdf2/password-length", (top + 1) * 2, |i, r| {
        let mut p = Program::new();
        let (b, f) = (len(r, 80), r.below(256));
        let (c, n) = (1 + r.below(3), r.range(1, 40));
        p.pbkdf2(gen_data(r, i / 2), gen_data(r, b), c, n, f);
        p
    });
    fam(&mut v, "x:pbkdf2/salt-length", (top + 1) * 2, |i, r| {
        let mut p = Program::new();
        let (a, f) = (len(r, 80), r.below(256));
        let (c, n) = (1 + r.below(3), r.range(1, 40));
        p.pbkdf2(gen_data(r, a), gen_data(r, i / 2), c, n, f);
        p
    });
    let ctop = scale.n(12, 100, 2000, 6000);
    fam(&mut v, "x:pbkdf2/iterations", ctop, |i, r| {
        let mut p = Program::new();
        let (a, b, f) = (len(r, 80), len(r, 80), r.below(256));
        let n = r.range(1, 70);
        p.pbkdf2(gen_data(r, a), gen_data(r, b), i + 1, n, f);
        p
    });
    fam(&mut v, "pbkdf2/random", scale.n(6, 200, 30_000, 400_000), |_, r| {
        let mut p = Program::new();
        let (a, b) = (len(r, 260), len(r, 260));
        let c = 1 + match r.below(4) {
            0 => 0,
            1 => r.below(4),
            2 => r.below(20),
            _ => r.below(9),
        };
        let n = match r.below(4) {
            0 => len(r, 400),
            1 => 32 * r.range(1, 4),
            _ => r.range(1, 64),
        };
        let f = r.below(256);
        p.pbkdf2(gen_data(r, a), gen_data(r, b), c, n, f);
        p
    });
    // same inputs, several lengths and fills (each judged by the model)
    fam(&mut v, "pbkdf2/prefix", scale.n(1, 30, 1500, 20_000), |_, r| {
        let mut p = Program::new();
        let (a, b) = (len(r, 100), len(r, 100));
        let (pw, salt) = (gen_data(r, a), gen_data(r, b));
        let c = 1 + r.below(5);
        for _ in 0..4 {
            let (n, f) = (len(r, 200), r.below(256));
            p.pbkdf2(pw.clone(), salt.clone(), c, n, f);
        }
        p
    });
    // many blocks: carries of the block counter
    fam(&mut v, "pbkdf2/many-blocks", scale.n(0, 4, 24, 80), |i, r| {
        let b = [255u64, 256, 257, 511, 513, 1024, 4097, 65_535, 65_536, 65_537, 65_800, 131_073][(i % 12) as usize];
        let n = 32 * b - r.below(33);
        let mut p = Program::new();
        let f = r.below(256);
        p.pbkdf2(gen_data(r, 8), gen_data(r, 8), 1, n, f);
        p
    });
    fam(&mut v, "pbkdf2/many-iterations", scale.n(0, 4, 20, 60), |i, r| {
        let c = [255u64, 256, 257, 1000, 4096, 10_000, 32_768, 65_535, 65_536, 65_537, 100_000, 131_073][(i % 12) as usize];
        let mut p = Program::new();
        let (a, b, n) = (len(r, 100), len(r, 100), r.range(1, 40));
        p.pbkdf2(gen_data(r, a), gen_data(r, b), c, n, 0);
        p
    });
    fam(&mut v, "pbkdf2/large-inputs", scale.n(0, 4, 20, 60), |i, r| {
        let mut p = Program::new();
        let n = (1u64 << (10 + i % 9)) - 2 + r.below(5);
        let s = len(r, 100);
        if i % 2 == 0 {
            p.pbkdf2(gen_data(r, n), gen_data(r, s), 2, 33, 1);
        } else {
            p.pbkdf2(gen_data(r, s), gen_data(r, n), 2, 33, 1);
        }
        p
    });
    v
}

// ---------------------------------------------------------------- Salsa20

pub fn salsa(scale: Scale) -> Vec<Family> {
    let mut v = vec![];
    let top = scale.n(40, 300, 700, 3000);
    fam(&mut v, "x:salsa/rounds", top + 1, |i, r| {
        let mut p = Program::new();
        let f = r.below(256);
        p.salsa(gen_data(r, 64), i, f);
        p
    });
    fam(&mut v, "salsa/random", scale.n(20, 2000, 300_000, 5_000_000), |_, r| {
        let mut p = Program::new();
        let rounds = match r.below(6) {
            0 => r.below(5),
            1 | 2 => 4,
            3 => 10,
            4 => 6,
            _ => r.below(32),
        };
        let f = r.below(256);
        p.salsa(gen_data(r, 64), rounds, f);
        p
    });
    // every single bit of the input, 0 to 3 double rounds
    fam(&mut v, "x:salsa/single-bit", scale.n(0, 512, 2048, 2048), |i, _| {
        let mut p = Program::new();
        p.salsa(Data::Gen { kind: 5, seed: i % 512, len: 64 }, i / 512, 0x77);
        p
    });
    // words near the carries of 32-bit addition
    fam(&mut v, "salsa/carries", scale.n(10, 500, 60_000, 600_000), |_, r| {
        let mut b = vec![];
        for _ in 0..16 {
            let w: u32 = match r.below(6) {
                0 => 0xffff_ffff,
                1 => 0x8000_0000,
                2 => 0x7fff_ffff,
                3 => r.below(3) as u32,
                4 => (0u32).wrapping_sub(r.below(4) as u32),
                _ => r.u64() as u32,
            };
            b.extend_from_slice(&w.to_le_bytes());
        }
        let mut p = Program::new();
        let (n, f) = (r.below(5), r.below(256));
        p.salsa(lit(&b), n, f);
        p
    });
    let blocks = scale.n(4, 16, 40, 130);
    fam(&mut v, "x:salsa/blocks", (blocks + 1) * 3, |i, r| {
        let mut p = Program::new();
        let (n, f) = ([4, 10, 1][(i % 3) as usize], r.below(256));
        p.salsa(gen_data(r, 64 * (i / 3)), n, f);
        p
    });
    fam(&mut v, "salsa/many-rounds", scale.n(0, 3, 10, 30), |i, r| {
        let n = [255u64, 256, 257, 65_535, 65_536, 65_537, 1_000_000, 4096, 511, 1 << 24][(i % 10) as usize];
        let mut p = Program::new();
        p.salsa(gen_data(r, 64), n, 1);
        p
    });
    fam(&mut v, "salsa/many-blocks", scale.n(0, 2, 8, 30), |i, r| {
        let n = [255u64, 256, 257, 1024, 4096, 16_385, 65_537, 1000][(i % 8) as usize];
        let mut p = Program::new();
        p.salsa(gen_data(r, 64 * n), 4, 9);
        p
    });
    inner::salsa(&mut v, scale);
    v
}

// ----------------------------------------------------------------- scrypt

fn scrypt_case(r: &mut Rng, rr: u64, n: u64, p: u64) -> Program {
    let mut pr = Program::new();
    let (a, b, f) = (len(r, 120), len(r, 120), r.below(256));
    let l = match r.below(5) {
        0 => 64,
        1 => 32,
        _ => len(r, 130),
    };
    pr.scr_new(0, rr, n, p).scr_derive(0, gen_data(r, a), gen_data(r, b), l, f);
    pr
}

pub fn scrypt(scale: Scale) -> Vec<Family> {
    let mut v = vec![];
    if scale == Scale::Quick || scale == Scale::Thorough {
        let all = scale == Scale::Thorough;
        let list: Vec<_> = golden::SCRYPT.iter().filter(|g| all || !g.4).collect();
        heavy(&mut v, "scrypt/golden", list.len() as u64, move |i, _| {
            let (r, n, p, l, _, want) = *list[i as usize];
            let mut pr = Program::new();
            pr.scr_new(0, r, n, p)
                .scr_derive(0, lit(b"pleaseletmein"), lit(b"SodiumChloride"), l, 0xee)
                .golden(want);
            pr
        });
    }
    let (rt, nt, pt) = match scale {
        Scale::Mini => (2, 2, 2),
        Scale::Medium => (5, 5, 3),
        Scale::Quick => (10, 8, 6),
        Scale::Thorough => (20, 11, 10),
    };
    fam(&mut v, "x:scrypt/parameters", rt * nt * pt, move |i, r| {
        let rr = 1 + i % rt;
        let n = 2u64 << (i / rt % nt);
        let p = 1 + i / rt / nt;
        scrypt_case(r, rr, n, p)
    });
    fam(&mut v, "scrypt/random", scale.n(3, 100, 6000, 80_000), move |_, r| {
        let mini = scale == Scale::Mini;
        let rr = 1 + r.below(if mini { 2 } else { 6 });
        let n = 2u64 << r.below(if mini { 2 } else { 6 });
        let p = 1 + r.below(if mini { 2 } else { 3 });
        scrypt_case(r, rr, n, p)
    });
    fam(&mut v, "scrypt/small", scale.n(3, 300, 40_000, 500_000), |_, r| {
        let n = 2u64 << r.below(3);
        scrypt_case(r, 1, n, 1)
    });
    fam(&mut v, "x:scrypt/r", scale.n(0, 40, 140, 600), |i, r| {
        let n = 2u64 << r.below(2);
        scrypt_case(r, i + 1, n, 1)
    });
    fam(&mut v, "x:scrypt/p", scale.n(0, 40, 140, 600), |i, r| {
        let n = 2u64 << r.below(2);
        scrypt_case(r, 1, n, i + 1)
    });
    fam(&mut v, "scrypt/large-r", scale.n(0, 3, 12, 40), |i, r| {
        let rr = [255u64, 256, 257, 300, 512, 513, 1000, 1024, 2048, 4096, 127, 129][(i % 12) as usize];
        scrypt_case(r, rr, 2, 1)
    });
    fam(&mut v, "scrypt/large-p", scale.n(0, 3, 8, 30), |i, r| {
        let p = [255u64, 256, 257, 1000, 4096, 65_535, 65_536, 65_537][(i % 8) as usize];
        scrypt_case(r, 1, 2, p)
    });
    fam(&mut v, "scrypt/large-n", scale.n(0, 3, 16, 60), |i, r| {
        let k = [9u64, 10, 11, 12, 13, 14, 15, 12][(i % 8) as usize];
        let rr = if k >= 14 { 1 + r.below(2) } else { 1 + r.below(8) };
        let p = if k <= 11 { 1 + r.below(3) } else { 1 };
        scrypt_case(r, rr, 1 << k, p)
    });
    fam(&mut v, "scrypt/very-large-n", scale.n(0, 0, 6, 20), |i, r| {
        let k = [16u64, 17, 18, 16, 17, 19][(i % 6) as usize];
        let rr = if k > 17 { 2 } else { 2 + r.below(2) };
        scrypt_case(r, rr, 1 << k, 1)
    });
    let top = scale.n(10, 70, 300, 900);
    fam(&mut v, "x:scrypt/output-length", top + 1, |i, r| {
        let mut p = Program::new();
        let f = r.below(256);
        p.scr_new(0, 1, 2, 1)
            .scr_derive(0, gen_data(r, 8), gen_data(r, 8), i, f);
        p
    });
    fam(&mut v, "scrypt/long-output", scale.n(0, 3, 10, 40), |i, r| {
        let n = [8159u64, 8160, 8161, 8193, 65_536, 65_537, 2_097_120, 2_097_153, 100_000, 16_385][(i % 10) as usize];
        let mut p = Program::new();
        p.scr_new(0, 1, 4, 1).scr_derive(0, gen_data(r, 8), gen_data(r, 8), n, 3);
        p
    });
    let top = scale.n(10, 70, 260, 600);
    fam(&mut v, "x:scrypt/input-length", 2 * (top + 1), |i, r| {
        let mut p = Program::new();
        let other = len(r, 100);
        let (a, b) = if i % 2 == 0 { (i / 2, other) } else { (other, i / 2) };
        p.scr_new(0, 1, 2, 1)
            .scr_derive(0, gen_data(r, a), gen_data(r, b), 32, 3);
        p
    });
    // one object used for several derivations
    fam(&mut v, "scrypt/reuse", scale.n(1, 20, 600, 6000), move |_, r| {
        let mut p = Program::new();
        let (rr, n, pp) = (1 + r.below(3), 2u64 << r.below(4), 1 + r.below(3));
        let (rr, n, pp) = if scale == Scale::Mini { (1, 2, 1) } else { (rr, n, pp) };
        p.scr_new(0, rr, n, pp);
        let (pw, salt) = (gen_data(r, 10), gen_data(r, 16));
        for _ in 0..3 {
            let l = len(r, 100);
            p.scr_derive(0, pw.clone(), salt.clone(), l, 9);
            let l = len(r, 100);
            p.scr_derive(0, gen_data(r, 12), gen_data(r, 3), l, 0);
        }
        p
    });
    v
}

/// Whether checking a valid parameter set is affordable
pub fn cheap(r: u64, n: u64, p: u64, limit: u128) -> bool {
    u128::from(r) * u128::from(n) * u128::from(p) <= limit && u128::from(r) * u128::from(p) <= limit
}

pub fn scrypt_params(scale: Scale) -> Vec<Family> {
    let mut v = vec![];
    let limit: u128 = match scale {
        Scale::Mini => 16,
        Scale::Medium => 4096,
        _ => 1 << 15,
    };
    fn case(r: &mut Rng, rr: u64, n: u64, p: u64, limit: u128) -> Program {
        let mut pr = Program::new();
        // what the code gets to see where usize has 32 bits
        let cut = |x: u64| x as usize as u64;
        let (rr, n, p) = (cut(rr), cut(n), cut(p));
        // a parameter set that is valid but unaffordable is replaced
        let (rr, n, p) = if crate::model::scrypt_errors(rr, n, p).is_empty() && !cheap(rr, n, p, limit) {
            (1, 2, 1)
        } else {
            (rr, n, p)
        };
        let f = r.below(256);
        let l = len(r, 70);
        pr.scr_new(0, rr, n, p)
            .scr_derive(0, gen_data(r, 6), gen_data(r, 4), l, f);
        pr
    }
    let (rt, nt, pt) = match scale {
        Scale::Mini => (3u64, 6u64, 3u64),
        Scale::Medium => (4, 35, 3),
        _ => (6, 140, 5),
    };
    fam(&mut v, "x:scrypt/grid", rt * nt * pt, move |i, r| {
        case(r, i % rt, i / rt % nt, i / rt / nt, limit)
    });
    // the neighbourhood of every power of two, for each parameter
    fam(&mut v, "x:scrypt/edges-n", scale.n(0, 64 * 7, 64 * 7 * 5, 64 * 7 * 6), move |i, r| {
        let k = i % 64;
        let d = [0i64, 1, -1, 2, -2, 3, 5][(i / 64 % 7) as usize];
        let n = (1u64 << k).wrapping_add(d as u64);
        let rr = [1u64, 2, 3, 4, 8, 0][(i / 448 % 6) as usize];
        case(r, rr, n, 1, limit)
    });
    fam(&mut v, "x:scrypt/edges-p", scale.n(0, 64 * 5, 64 * 5 * 6, 64 * 5 * 12), move |i, r| {
        let k = i % 64;
        let d = [0i64, 1, -1, 2, -2][(i / 64 % 5) as usize];
        let p = (1u64 << k).wrapping_add(d as u64);
        let rr = [1u64, 2, 3, 8, 4, 7, 16, 0, 1 << 20, 1 << 33, u64::MAX, 5][(i / 320 % 12) as usize];
        case(r, rr, 2, p, limit)
    });
    fam(&mut v, "x:scrypt/edges-r", scale.n(0, 64 * 5, 64 * 5 * 3, 64 * 5 * 8), move |i, r| {
        let k = i % 64;
        let d = [0i64, 1, -1, 2, -2][(i / 64 % 5) as usize];
        let rr = (1u64 << k).wrapping_add(d as u64);
        let p = [1u64, 2, 1 << 20, 0, 3, 1 << 30, u64::MAX, 8][(i / 320 % 8) as usize];
        case(r, rr, 2, p, limit)
    });
    // just inside and just outside the limit r * p <= 2^30 - 1
    fam(&mut v, "scrypt/limit-rp", scale.n(0, 100, 3000, 30_000), move |_, r| {
        let rr = match r.below(3) {
            0 => 1 + r.below(16),
            1 => 1 + r.below(1 << 15),
            _ => 1 + r.below(1 << 31),
        };
        let p = ((1u64 << 30) - 1) / rr + 1 + r.below(3) * r.below(1 << 20);
        case(r, rr, 2, p, limit)
    });
    fam(&mut v, "scrypt/wild", scale.n(4, 200, 20_000, 200_000), move |_, r| {
        let mut w = |lo: u64| match r.below(6) {
            0 => lo,
            1 => 1,
            2 => r.below(20),
            3 => 1u64 << r.below(64),
            4 => r.u64() >> r.below(64),
            _ => u64::MAX - r.below(3),
        };
        let (a, b, c) = (w(0), w(2), w(0));
        case(r, a, b, c, limit)
    });
    // accepted again after a refusal, and refused again after acceptance
    fam(&mut v, "scrypt/repeat", scale.n(2, 40, 2000, 10_000), |_, r| {
        let mut p = Program::new();
        for s in 0..4u32 {
            let (a, b, c) = (r.below(3), r.below(6), r.below(3));
            p.scr_new(s, a, b, c);
        }
        for _ in 0..6 {
            let s = r.below(4) as u32;
            let l = len(r, 40);
            p.scr_derive(s, gen_data(r, 3), gen_data(r, 3), l, 0x33);
        }
        p
    });
    v
}

// -------------------------------------------------------------------- AES

pub fn aes(scale: Scale) -> Vec<Family> {
    let mut v = vec![];
    fam(&mut v, "aes/random", scale.n(9, 600, 60_000, 900_000), |i, r| {
        let mut p = Program::new();
        p.aes_new((i % 2) as u32);
        let s = (i % 2) as u32;
        p.aes_init(s, aes_key(r, i / 2));
        for _ in 0..4 {
            let b = gen_data(r, 16);
            let c = gen_data(r, 16);
            p.aes_enc(s, b).aes_dec(s, c);
        }
        p
    });
    // known-answer style: every single-bit plaintext/ciphertext and key
    fam(&mut v, "x:aes/block-bit", scale.n(0, 384, 384, 384), |i, r| {
        let mut p = Program::new();
        let key = if r.chance(1, 2) { aes_key(r, i / 128) } else { Data::Gen { kind: 1, seed: 0, len: [16, 24, 32][(i / 128) as usize] } };
        let b = Data::Gen { kind: 5, seed: i % 128, len: 16 };
        p.aes_new(0).aes_init(0, key).aes_enc(0, b.clone()).aes_dec(0, b);
        p
    });
    fam(&mut v, "x:aes/key-bit", scale.n(0, 576, 576, 576), |i, r| {
        let (l, bit) = if i < 128 {
            (16, i)
        } else if i < 320 {
            (24, i - 128)
        } else {
            (32, i - 320)
        };
        let mut p = Program::new();
        let b = gen_data(r, 16);
        p.aes_new(0)
            .aes_init(0, Data::Gen { kind: 5, seed: bit, len: l })
            .aes_enc(0, b.clone())
            .aes_dec(0, b);
        p
    });
    // every byte value at every position of a block: all of S-box and inverse
    fam(&mut v, "x:aes/byte-at-position", scale.n(0, 256, 3 * 4096, 3 * 4096), |i, r| {
        let mut b = r.block();
        let at = (i / 256 % 16) as usize;
        b[at] = i as u8;
        let mut p = Program::new();
        p.aes_new(0)
            .aes_init(0, aes_key(r, i / 4096))
            .aes_enc(0, lit(&b))
            .aes_dec(0, lit(&b));
        p
    });
    // encrypt then decrypt the result, and the other way round
    fam(&mut v, "aes/inverse", scale.n(6, 300, 20_000, 300_000), |i, r| {
        let mut p = Program::new();
        let key = aes_key(r, i);
        let k = RefAes::new(&real(&key));
        p.aes_new(0).aes_init(0, key);
        for _ in 0..3 {
            let b = r.block();
            let e = k.enc(&b);
            let d = k.dec(&b);
            p.aes_enc(0, lit(&b)).aes_dec(0, lit(&e));
            p.aes_dec(0, lit(&b)).aes_enc(0, lit(&d));
        }
        p
    });
    // chains in which each block is the previous result
    fam(&mut v, "aes/chain", scale.n(1, 10, 120, 1000), move |i, r| {
        let steps = scale.n(8, 100, 1500, 5000);
        let key = aes_key(r, i);
        let k = RefAes::new(&real(&key));
        let mut p = Program::new();
        p.aes_new(0).aes_init(0, key);
        let mut b = r.block();
        for _ in 0..steps {
            if i % 2 == 0 {
                p.aes_enc(0, lit(&b));
                b = k.enc(&b);
            } else {
                p.aes_dec(0, lit(&b));
                b = k.dec(&b);
            }
        }
        p
    });
    // keys by pattern
    fam(&mut v, "x:aes/key-pattern", scale.n(0, 3 * 256, 3 * 256, 3 * 256), |i, r| {
        let mut p = Program::new();
        let b = gen_data(r, 16);
        p.aes_new(0)
            .aes_init(0, Data::Gen { kind: 6, seed: i / 3, len: [16, 24, 32][(i % 3) as usize] })
            .aes_enc(0, b.clone())
            .aes_dec(0, b);
        p
    });
    // round trips through the real outputs are in families `cbc_*`
    inner::aes(&mut v, scale);
    inner::keys(&mut v, scale);
    v
}

pub fn aes_keys(scale: Scale) -> Vec<Family> {
    let mut v = vec![];
    let top = scale.n(34, 260, 1050, 4200);
    // more calls of an object than 8 and 16 bits count
    heavy(&mut v, "key/ages", scale.n(0, 0, 8, 16), |i, r| {
        let mut p = Program::new();
        p.aes_new(0);
        for _ in 0..[300, 66_000][i as usize / 4 % 2] {
            let k = r.below(3);
            match i % 4 {
                0 => {
                    p.aes_init(0, aes_key(r, k));
                }
                1 => {
                    let n = bad_key_len(r);
                    p.aes_init(0, gen_data(r, n.min(100)));
                }
                2 => {
                    p.aes_enc(0, gen_data(r, 16));
                }
                _ => {
                    p.aes_dec(0, gen_data(r, 16));
                }
            }
            if r.chance(1, 100) {
                p.aes_init(0, aes_key(r, k));
                p.aes_enc(0, gen_data(r, 16)).aes_dec(0, gen_data(r, 16));
            }
        }
        p.aes_enc(0, gen_data(r, 16)).aes_dec(0, gen_data(r, 16)).aes_init(0, aes_key(r, i));
        p.aes_enc(0, gen_data(r, 16)).aes_dec(0, gen_data(r, 16));
        p
    });
    // every key length, on a fresh object and on one that has a key
    fam(&mut v, "x:key/length", 6 * (top + 1), |i, r| {
        let (l, what) = (i / 6, i % 6);
        let mut p = Program::new();
        let old = aes_key(r, l);
        let iv = gen_data(r, 16);
        let b = gen_data(r, 16);
        match what {
            0 | 1 => {
                p.aes_new(0);
                if what == 1 {
                    p.aes_init(0, old);
                }
                p.aes_init(0, gen_data(r, l));
                p.aes_enc(0, b.clone()).aes_dec(0, b);
            }
            2 | 3 => {
                p.cip_new(0, iv);
                if what == 3 {
                    p.cip_init(0, old);
                }
                p.cip_init(0, gen_data(r, l));
                p.cip_write(0, gen_data(r, 20)).cip_flush(0);
            }
            _ => {
                p.dec_new(0, iv);
                if what == 5 {
                    p.dec_init(0, old);
                }
                p.dec_init(0, gen_data(r, l));
                p.dec_write(0, gen_data(r, 40));
            }
        }
        p
    });
    // lengths far out, those among them that look good in 8 or 16 bits
    fam(&mut v, "x:key/length-far", scale.n(4, 500, 70_000, 300_000), |i, r| {
        let mut p = Program::new();
        let b = r.block();
        let (k, l) = (r.below(3), 1051 + i);
        p.aes_new(0).aes_init(0, aes_key(r, k)).aes_init(0, gen_data(r, l)).aes_enc(0, lit(&b)).aes_dec(0, lit(&b));
        p
    });
    // all sequences of five inits out of {16, 24, 32, bad, same again}, each
    // followed by both directions
    let depth = scale.n(2, 4, 6, 7) as u32;
    fam(&mut v, "x:key/sequences", 5u64.pow(depth), move |i, r| {
        let mut p = Program::new();
        p.aes_new(0);
        let mut i = i;
        let mut last = gen_data(r, 16);
        let b = r.block();
        p.aes_enc(0, lit(&b));
        for _ in 0..depth {
            match i % 5 {
                3 => {
                    let n = bad_key_len(r);
                    p.aes_init(0, gen_data(r, n));
                }
                4 => {
                    p.aes_init(0, last.clone());
                }
                k => {
                    last = aes_key(r, k);
                    p.aes_init(0, last.clone());
                }
            }
            i /= 5;
            p.aes_enc(0, lit(&b)).aes_dec(0, lit(&b));
        }
        p
    });
    // random lives of several objects, keys shared between them
    fam(&mut v, "key/lives", scale.n(5, 200, 15_000, 200_000), |_, r| {
        let mut p = Program::new();
        let pool: Vec<Data> = (0..4).map(|k| aes_key(r, k)).collect();
        let n = 2 + r.below(3) as u32;
        for s in 0..n {
            p.aes_new(s);
        }
        for _ in 0..12 {
            let s = r.below(u64::from(n)) as u32;
            match r.below(6) {
                0 => {
                    let k = r.pick(&pool).clone();
                    p.aes_init(s, k);
                }
                1 => {
                    let l = bad_key_len(r);
                    p.aes_init(s, gen_data(r, l));
                }
                2 | 3 => {
                    p.aes_enc(s, gen_data(r, 16));
                }
                4 => {
                    p.aes_dec(s, gen_data(r, 16));
                }
                _ => {
                    p.aes_new(s);
                }
            }
        }
        p
    });
    // the same through cipher and decipher objects, re-keyed on the way
    fam(&mut v, "key/cbc-lives", scale.n(4, 200, 15_000, 200_000), |_, r| {
        let mut p = Program::new();
        let iv = gen_data(r, 16);
        p.cip_new(0, iv.clone()).dec_new(1, iv);
        for _ in 0..10 {
            let n = len(r, 50);
            match r.below(7) {
                0 | 1 => {
                    let k = r.below(3);
                    let key = aes_key(r, k);
                    p.cip_init(0, key.clone());
                    p.dec_init(1, key);
                }
                2 => {
                    let l = bad_key_len(r);
                    p.cip_init(0, gen_data(r, l)).dec_init(1, gen_data(r, l));
                }
                3 | 4 => {
                    p.cip_write(0, gen_data(r, n));
                }
                5 => {
                    p.dec_write(1, gen_data(r, n));
                }
                _ => {
                    p.cip_flush(0);
                }
            }
        }
        p
    });
    v
}

// -------------------------------------------------------------------- CBC

fn two(i: u64) -> (u64, u64) {
    // i-th pair (length, cut) in triangular order
    let mut l = 0;
    let mut i = i;
    while i > l {
        i -= l + 1;
        l += 1;
    }
    (l, i)
}

pub fn cbc_enc_fams(scale: Scale) -> Vec<Family> {
    let mut v = vec![];
    let top = scale.n(50, 200, 700, 3000);
    fam(&mut v, "x:cbc-enc/length", 3 * (top + 1), |i, r| {
        let mut p = Program::new();
        p.cip_new(0, gen_data(r, 16))
            .cip_init(0, aes_key(r, i))
            .cip_write(0, gen_data(r, i / 3))
            .cip_flush(0);
        p
    });
    let m = scale.n(0, 40, 100, 180);
    if m > 0 {
        fam(&mut v, "x:cbc-enc/two-splits", (m + 1) * (m + 2) / 2, |i, r| {
            let (l, cut) = two(i);
            let mut p = Program::new();
            p.cip_new(0, gen_data(r, 16))
                .cip_init(0, aes_key(r, i))
                .cip_write(0, gen_data(r, cut))
                .cip_write(0, gen_data(r, l - cut))
                .cip_flush(0);
            p
        });
    }
    // every three chunk lengths up to 34: all buffer states and how they are left
    let t = scale.n(0, 18, 34, 50);
    if t > 0 {
        fam(&mut v, "x:cbc-enc/three-chunks", t * t * t, move |i, r| {
            let mut p = Program::new();
            p.cip_new(0, gen_data(r, 16)).cip_init(0, aes_key(r, i));
            p.cip_write(0, gen_data(r, i % t));
            p.cip_write(0, gen_data(r, i / t % t));
            p.cip_write(0, gen_data(r, i / t / t));
            p.cip_flush(0);
            p
        });
    }
    let max = scale.n(100, 800, 1500, 10_000);
    fam(&mut v, "cbc-enc/chunked", scale.n(6, 300, 20_000, 300_000), move |i, r| {
        let n = len(r, max);
        let data = real(&gen_data(r, n));
        let mut p = Program::new();
        p.cip_new(0, gen_data(r, 16)).cip_init(0, aes_key(r, i));
        for c in cut(r, &data) {
            p.cip_write(0, lit(&c));
        }
        p.cip_flush(0);
        p
    });
    fam(&mut v, "cbc-enc/large", scale.n(0, 3, 20, 80), |i, r| {
        let k = [12u64, 13, 14, 15, 16, 17, 18, 19, 20, 21][(i % 10) as usize];
        let n = (1u64 << k) - 17 + r.below(35);
        let mut p = Program::new();
        p.cip_new(0, gen_data(r, 16)).cip_init(0, aes_key(r, i));
        let pre = r.below(40);
        p.cip_write(0, gen_data(r, pre)).cip_write(0, gen_data(r, n));
        p.cip_write(0, gen_data(r, 3)).cip_flush(0);
        p
    });
    // more blocks than 16 (20, 24) bits count
    heavy(&mut v, "cbc-enc/endless", scale.n(0, 0, 2, 3), move |i, r| {
        let mut p = Program::new();
        p.cip_new(0, gen_data(r, 16)).cip_init(0, aes_key(r, i));
        let mut left = 16 * (1u64 << [16, 20, 24][i as usize % 3]) + 77;
        while left > 0 {
            let n = (1 + r.below(1 << (12 + 4 * i))).min(left);
            p.cip_write(0, gen_data(r, n));
            left -= n;
        }
        p.cip_flush(0).cip_write(0, gen_data(r, 20)).cip_flush(0);
        p
    });
    fam(&mut v, "cbc-enc/many-writes", scale.n(0, 1, 6, 20), move |i, r| {
        let mut p = Program::new();
        p.cip_new(0, gen_data(r, 16)).cip_init(0, aes_key(r, i));
        for _ in 0..scale.n(0, 3000, 66_000, 140_000) {
            let n = *r.pick(&[0u64, 1, 1, 1, 2, 15]);
            p.cip_write(0, Data::Gen { kind: 4, seed: n, len: n });
        }
        p.cip_flush(0);
        p
    });
    // message that looks like padding, in every residue
    fam(&mut v, "x:cbc-enc/padding-like", scale.n(0, 17 * 32, 17 * 48, 17 * 64), |i, r| {
        let (n, b) = (i / 17, i % 17);
        let mut p = Program::new();
        p.cip_new(0, gen_data(r, 16))
            .cip_init(0, aes_key(r, i))
            .cip_write(0, Data::Gen { kind: 6, seed: b, len: n })
            .cip_flush(0);
        p
    });
    inner::cbc(&mut v, scale, true);
    v
}

/// A decipher program for `ct` cut into chunks, then flushed.
fn dec_program(r: &mut Rng, key: &[u8], iv: &[u8], ct: &[u8], flush: bool) -> Program {
    let mut p = Program::new();
    p.dec_new(0, lit(iv)).dec_init(0, lit(key));
    for c in cut(r, ct) {
        p.dec_write(0, lit(&c));
    }
    if flush {
        p.dec_flush(0);
    }
    p
}

pub fn cbc_dec_fams(scale: Scale) -> Vec<Family> {
    let mut v = vec![];
    let top = scale.n(40, 200, 600, 2500);
    fam(&mut v, "x:cbc-dec/length", 3 * (top + 1), |i, r| {
        let key = real(&aes_key(r, i));
        let iv = r.block();
        let n = i / 3;
        let msg = real(&gen_data(r, n));
        let ct = cbc_enc(&RefAes::new(&key), &iv, &msg);
        let mut p = Program::new();
        p.dec_new(0, lit(&iv)).dec_init(0, lit(&key)).dec_write(0, lit(&ct)).dec_flush(0);
        p
    });
    let m = scale.n(0, 50, 100, 200);
    if m > 0 {
        // every cut of the ciphertext of a message of every length
        fam(&mut v, "x:cbc-dec/two-splits", m, |i, r| {
            let key = real(&aes_key(r, i));
            let iv = r.block();
            let msg = real(&gen_data(r, i));
            let ct = cbc_enc(&RefAes::new(&key), &iv, &msg);
            let mut p = Program::new();
            for at in 0..=ct.len() {
                p.dec_new(0, lit(&iv))
                    .dec_init(0, lit(&key))
                    .dec_write(0, lit(&ct[..at]))
                    .dec_write(0, lit(&ct[at..]))
                    .dec_flush(0);
            }
            p
        });
    }
    // arbitrary ciphertext, any chunking: emission and content
    let t = scale.n(0, 18, 34, 50);
    if t > 0 {
        fam(&mut v, "x:cbc-dec/three-chunks", t * t * t, move |i, r| {
            let mut p = Program::new();
            p.dec_new(0, gen_data(r, 16)).dec_init(0, aes_key(r, i));
            p.dec_write(0, gen_data(r, i % t));
            p.dec_write(0, gen_data(r, i / t % t));
            p.dec_write(0, gen_data(r, i / t / t));
            p
        });
    }
    let max = scale.n(90, 800, 1500, 10_000);
    fam(&mut v, "cbc-dec/arbitrary", scale.n(5, 200, 10_000, 150_000), move |i, r| {
        let key = real(&aes_key(r, i));
        let n = len(r, max);
        let ct = real(&gen_data(r, n));
        let iv = real(&gen_data(r, 16));
        dec_program(r, &key, &iv, &ct, false)
    });
    fam(&mut v, "cbc-dec/valid", scale.n(5, 200, 10_000, 150_000), move |i, r| {
        let key = real(&aes_key(r, i));
        let n = len(r, max);
        let iv = real(&gen_data(r, 16));
        let msg = real(&gen_data(r, n));
        let mut ivb = [0; 16];
        ivb.copy_from_slice(&iv);
        let ct = cbc_enc(&RefAes::new(&key), &ivb, &msg);
        dec_program(r, &key, &iv, &ct, true)
    });
    // through the crate's own cipher: what comes out is what went in
    fam(&mut v, "cbc-dec/round-trip", scale.n(5, 300, 20_000, 300_000), move |i, r| {
        let key = aes_key(r, i);
        let iv = gen_data(r, 16);
        let n = len(r, max);
        let msg = real(&gen_data(r, n));
        let mut p = Program::new();
        p.cip_new(0, iv.clone()).cip_init(0, key.clone());
        for c in cut(r, &msg) {
            p.cip_write(0, lit(&c));
        }
        p.cip_flush(0);
        p.dec_new(1, iv).dec_init(1, key);
        let total = n / 16 * 16 + 16;
        let mut at = 0;
        while at < total {
            let unit = match r.below(5) {
                0 => total,
                1 => 16 * (1 + r.below(4)),
                2 => 1 + r.below(8),
                3 => 1 + r.below(100),
                _ => total / 2 + 1,
            };
            let n = unit.min(total - at);
            p.dec_write(1, Data::Out { slot: 0, from: at, len: n });
            at += n;
        }
        p.dec_flush(1);
        p
    });
    fam(&mut v, "x:cbc-dec/round-trip-padding-like", scale.n(0, 17 * 32, 17 * 48, 17 * 64), |i, r| {
        let (n, b) = (i / 17, i % 17);
        let key = aes_key(r, i);
        let iv = gen_data(r, 16);
        let mut p = Program::new();
        p.cip_new(0, iv.clone())
            .cip_init(0, key.clone())
            .cip_write(0, Data::Gen { kind: 6, seed: b, len: n })
            .cip_flush(0)
            .dec_new(1, iv)
            .dec_init(1, key)
            .dec_write(1, Data::Out { slot: 0, from: 0, len: 1 << 20 })
            .dec_flush(1);
        p
    });
    fam(&mut v, "cbc-dec/large", scale.n(0, 2, 12, 60), |i, r| {
        let k = [12u64, 13, 14, 15, 16, 17, 18, 19, 20][(i % 9) as usize];
        let n = (1u64 << k) - 17 + r.below(35);
        let key = aes_key(r, i);
        let iv = gen_data(r, 16);
        let mut p = Program::new();
        p.cip_new(0, iv.clone()).cip_init(0, key.clone()).cip_write(0, gen_data(r, n)).cip_flush(0);
        p.dec_new(1, iv).dec_init(1, key);
        let cut = r.below(100);
        p.dec_write(1, Data::Out { slot: 0, from: 0, len: cut });
        p.dec_write(1, Data::Out { slot: 0, from: cut, len: 1 << 30 });
        p.dec_flush(1);
        p
    });
    heavy(&mut v, "cbc-dec/endless", scale.n(0, 0, 2, 3), move |i, r| {
        let key = real(&aes_key(r, i));
        let iv = r.block();
        let n = 16 * (1u64 << [16, 20, 24][i as usize % 3]) + 77;
        if i == 2 {
            // any blocks will do, and need not be kept
            let mut p = Program::new();
            p.dec_new(0, lit(&iv)).dec_init(0, lit(&key));
            let mut left = n / 16 * 16;
            while left > 0 {
                let n = (1 + r.below(1 << 20)).min(left);
                p.dec_write(0, gen_data(r, n));
                left -= n;
            }
            p.dec_flush(0);
            return p;
        }
        let ct = cbc_enc(&RefAes::new(&key), &iv, &r.bytes(n as usize));
        let mut p = Program::new();
        p.dec_new(0, lit(&iv)).dec_init(0, lit(&key));
        let mut at = 0;
        while at < ct.len() {
            let n = (1 + r.below(1 << (12 + 4 * i)) as usize).min(ct.len() - at);
            p.dec_write(0, lit(&ct[at..at + n]));
            at += n;
        }
        p.dec_flush(0);
        p
    });
    fam(&mut v, "cbc-dec/many-writes", scale.n(0, 1, 4, 16), move |i, r| {
        let key = aes_key(r, i);
        let iv = gen_data(r, 16);
        let n = scale.n(0, 2000, 40_000, 100_000);
        let ct = real(&Data::Gen { kind: 0, seed: i, len: n / 16 * 16 });
        let mut p = Program::new();
        p.dec_new(0, iv).dec_init(0, key);
        for c in ct.chunks(1) {
            p.dec_write(0, lit(c));
            if r.chance(1, 9) {
                p.dec_write(0, Data::empty());
            }
        }
        p
    });
    inner::cbc(&mut v, scale, false);
    v
}

/// Ciphertext whose last decrypted block is `last`, after `lead` blocks.
fn forge(key: &RefAes, iv: &[u8; 16], lead: &[u8], last: &[u8; 16]) -> Vec<u8> {
    let mut clear = lead.to_vec();
    clear.extend_from_slice(last);
    cbc_enc_raw(key, iv, &clear)
}

pub fn cbc_reject(scale: Scale) -> Vec<Family> {
    let mut v = vec![];
    // every last byte, with the bytes before it equal to it
    fam(&mut v, "x:reject/last-byte", scale.n(20, 256, 256 * 6, 256 * 12), |i, r| {
        let key = real(&aes_key(r, i));
        let k = RefAes::new(&key);
        let iv = r.block();
        let b = i as u8;
        let n = if i % 3 == 0 { 0 } else { r.usize(0, 4) };
        let lead = r.bytes(16 * n);
        let last = match i / 256 % 2 {
            0 => [b; 16],
            _ => {
                let mut x = r.block();
                x[15] = b;
                for q in x.iter_mut().rev().take(b as usize) {
                    *q = b;
                }
                x
            }
        };
        let ct = forge(&k, &iv, &lead, &last);
        if i % 3 == 0 {
            let mut p = Program::new();
            p.dec_new(0, lit(&iv)).dec_init(0, lit(&key)).dec_write(0, lit(&ct)).dec_flush(0);
            p
        } else {
            dec_program(r, &key, &iv, &ct, true)
        }
    });
    // every pad length, every position, every wrong value of one byte
    let step = scale.n(1999, 97, 1, 1);
    let space = 16 * 16 * 256;
    fam(&mut v, "x:reject/one-wrong-byte", space / step, move |i, r| {
        let i = i * step;
        let l = 1 + i / 4096;
        let pos = (i / 256 % 16) as usize;
        let val = i as u8;
        let key = real(&aes_key(r, i));
        let k = RefAes::new(&key);
        let iv = r.block();
        let mut last = r.block();
        for q in last.iter_mut().rev().take(l as usize) {
            *q = l as u8;
        }
        last[pos] = val;
        let nb = r.usize(0, 2);
        let lead = r.bytes(16 * nb);
        let ct = forge(&k, &iv, &lead, &last);
        let mut p = Program::new();
        p.dec_new(0, lit(&iv)).dec_init(0, lit(&key)).dec_write(0, lit(&ct)).dec_flush(0);
        p
    });
    // several wrong bytes: every subset of the pad bytes, for each pad length
    fam(&mut v, "reject/wrong-subset", scale.n(5, 300, 20_000, 400_000), |i, r| {
        let l = r.usize(2, 16);
        let key = real(&aes_key(r, i));
        let k = RefAes::new(&key);
        let iv = r.block();
        let mut last = r.block();
        for q in last.iter_mut().rev().take(l) {
            *q = l as u8;
        }
        let mask = r.u64();
        // equal differences cancel in a sum or xor of the bytes
        let diff = if r.chance(1, 2) { 1 + r.below(255) as u8 } else { 0 };
        for j in 16 - l..15 {
            if mask >> j & 1 == 1 {
                last[j] ^= if diff != 0 { diff } else { r.u64() as u8 };
            }
        }
        let nb = r.usize(0, 3);
        let lead = r.bytes(16 * nb);
        let ct = forge(&k, &iv, &lead, &last);
        dec_program(r, &key, &iv, &ct, true)
    });
    // every truncation and extension of valid ciphertext
    let top = scale.n(3, 40, 90, 200);
    fam(&mut v, "x:reject/truncate", top + 1, move |i, r| {
        let key = real(&aes_key(r, i));
        let iv = r.block();
        let msg = real(&gen_data(r, i));
        let ct = cbc_enc(&RefAes::new(&key), &iv, &msg);
        let mut p = Program::new();
        for n in 0..=ct.len() {
            if scale == Scale::Mini && n % 5 != 0 {
                continue;
            }
            p.dec_new(0, lit(&iv)).dec_init(0, lit(&key)).dec_write(0, lit(&ct[..n])).dec_flush(0);
        }
        for n in 1..=33usize {
            if scale == Scale::Mini && ![1, 15, 16, 17].contains(&n) {
                continue;
            }
            let mut x = ct.clone();
            x.extend_from_slice(&r.bytes(n));
            p.dec_new(0, lit(&iv)).dec_init(0, lit(&key)).dec_write(0, lit(&x)).dec_flush(0);
            p.dec_new(0, lit(&iv))
                .dec_init(0, lit(&key))
                .dec_write(0, lit(&ct))
                .dec_write(0, lit(&x[ct.len()..]))
                .dec_flush(0);
        }
        p
    });
    // partial block after blocks whose padding is valid
    fam(&mut v, "x:reject/partial-tail", scale.n(15, 15 * 16, 15 * 16 * 8, 15 * 16 * 40), |i, r| {
        let extra = 1 + (i % 15) as usize;
        let pad = 1 + (i / 15 % 16) as usize;
        let key = real(&aes_key(r, i));
        let iv = r.block();
        let n = 16 * r.below(4) + 16 - pad as u64;
        let msg = real(&gen_data(r, n));
        let mut ct = cbc_enc(&RefAes::new(&key), &iv, &msg);
        ct.extend_from_slice(&r.bytes(extra));
        dec_program(r, &key, &iv, &ct, true)
    });
    // tampering anywhere in valid ciphertext or the IV
    fam(&mut v, "reject/tamper", scale.n(5, 300, 20_000, 300_000), |i, r| {
        let key = real(&aes_key(r, i));
        let mut iv = r.block();
        let n = len(r, 100);
        let msg = real(&gen_data(r, n));
        let mut ct = cbc_enc(&RefAes::new(&key), &iv, &msg);
        for _ in 0..1 + r.below(3) {
            let bit = 1u8 << r.below(8);
            if r.chance(1, 6) {
                iv[r.usize(0, 15)] ^= bit;
            } else {
                let at = if r.chance(1, 2) { ct.len() - 1 - r.usize(0, ct.len().min(32) - 1) } else { r.usize(0, ct.len() - 1) };
                ct[at] ^= bit;
            }
        }
        dec_program(r, &key, &iv, &ct, true)
    });
    // garbage, wrong keys
    fam(&mut v, "reject/garbage", scale.n(5, 300, 20_000, 300_000), |i, r| {
        let key = real(&aes_key(r, i));
        let iv = r.block();
        let n = len(r, 120);
        let ct = if r.chance(1, 2) {
            real(&gen_data(r, n))
        } else {
            let k = r.below(3);
            let other = real(&aes_key(r, k));
            cbc_enc(&RefAes::new(&other), &iv, &real(&gen_data(r, n)))
        };
        dec_program(r, &key, &iv, &ct, true)
    });
    // long ciphertexts, wrong only at the end
    fam(&mut v, "reject/long", scale.n(0, 6, 60, 600), |i, r| {
        let key = real(&aes_key(r, i));
        let iv = r.block();
        let blocks = [255u64, 256, 257, 4096, 1000, 63, 65_536, 4097, 65_537, 16_385][(i % 10) as usize];
        let msg = real(&gen_data(r, 16 * blocks - 16));
        let mut last = r.block();
        let l = if r.chance(1, 3) { r.below(256) as u8 } else { 1 + r.below(16) as u8 };
        for b in last.iter_mut().rev().take(l.clamp(1, 16) as usize) {
            *b = l;
        }
        if (2..=16).contains(&l) {
            let at = 16 - l as usize + r.usize(0, l as usize - 2);
            last[at] ^= 1 + r.below(255) as u8;
        }
        let mut clear = msg;
        clear.extend_from_slice(&last);
        let mut ct = crate::refimpl::aes::cbc_enc_raw(&RefAes::new(&key), &iv, &clear);
        match i / 10 % 3 {
            1 => ct.extend_from_slice(&r.bytes(1 + (i % 15) as usize)),
            2 => {
                let n = ct.len() - 1 - (i % 15) as usize;
                ct.truncate(n);
            }
            _ => {}
        }
        let mut p = Program::new();
        p.dec_new(0, lit(&iv)).dec_init(0, lit(&key));
        let cut = if r.chance(1, 2) { 0 } else { r.usize(0, ct.len()) };
        p.dec_write(0, lit(&ct[..cut])).dec_write(0, lit(&ct[cut..])).dec_flush(0);
        p
    });
    fam(&mut v, "x:reject/nothing", scale.n(3, 3, 3, 3), |i, r| {
        let mut p = Program::new();
        p.dec_new(0, gen_data(r, 16));
        if i > 0 {
            p.dec_init(0, aes_key(r, i));
        }
        if i > 1 {
            p.dec_write(0, Data::empty());
        }
        p.dec_flush(0);
        p
    });
    // no key at all
    fam(&mut v, "x:reject/no-key", scale.n(10, 40, 40, 40), |i, r| {
        let mut p = Program::new();
        p.dec_new(0, gen_data(r, 16)).dec_write(0, gen_data(r, i)).dec_flush(0);
        p
    });
    v
}

// --------------------------------------------------------------- sessions

/// Long lives of a cipher/decipher: keys arriving late, refused operations,
/// several messages, re-keying.
pub fn sessions(scale: Scale) -> Vec<Family> {
    let mut v = vec![];
    // every sequence of `depth` operations out of 8 on a cipher
    let depth = scale.n(2, 4, 5, 6) as u32;
    fam(&mut v, "x:session/cipher", 8u64.pow(depth), move |i, r| {
        let mut p = Program::new();
        p.cip_new(0, gen_data(r, 16));
        let mut i = i;
        for _ in 0..depth {
            match i % 8 {
                0 => {
                    let n = bad_key_len(r);
                    p.cip_init(0, gen_data(r, n));
                }
                1 => {
                    let k = r.below(3);
                    p.cip_init(0, aes_key(r, k));
                }
                2 => {
                    p.cip_write(0, Data::empty());
                }
                3 => {
                    p.cip_write(0, gen_data(r, 5));
                }
                4 => {
                    p.cip_write(0, gen_data(r, 11));
                }
                5 => {
                    p.cip_write(0, gen_data(r, 16));
                }
                6 => {
                    p.cip_write(0, gen_data(r, 21));
                }
                _ => {
                    p.cip_flush(0);
                }
            }
            i /= 8;
        }
        // whatever happened, the stream must still be usable
        p.cip_init(0, aes_key(r, 0)).cip_write(0, gen_data(r, 17)).cip_flush(0).cip_flush(0);
        p
    });
    // the same for a decipher; ciphertext is crafted for the state of the
    // stream so that flushes succeed as well as fail
    let depth = scale.n(2, 4, 5, 6) as u32;
    fam(&mut v, "x:session/decipher", 9u64.pow(depth), move |i, r| {
        let mut i = i;
        let mut ops = vec![];
        for _ in 0..depth {
            ops.push(i % 9);
            i /= 9;
        }
        dec_session(r, &ops)
    });
    let steps = scale.n(8, 20, 40, 80);
    fam(&mut v, "session/decipher-long", scale.n(3, 150, 6000, 80_000), move |_, r| {
        let n = r.below(steps) + 3;
        let mut ops = vec![1];
        for _ in 0..n {
            ops.push(*r.pick(&[0u64, 1, 2, 3, 4, 5, 5, 6, 6, 6, 7, 7, 7, 8]));
        }
        dec_session(r, &ops)
    });
    fam(&mut v, "session/cipher-long", scale.n(3, 150, 6000, 80_000), move |_, r| {
        let mut p = Program::new();
        p.cip_new(0, gen_data(r, 16));
        if r.chance(1, 2) {
            let k = r.below(3);
            p.cip_init(0, aes_key(r, k));
        }
        for _ in 0..r.below(steps) + 2 {
            let n = len(r, 90);
            let k = r.below(3);
            match r.below(12) {
                0 => {
                    let l = bad_key_len(r);
                    p.cip_init(0, gen_data(r, l));
                }
                1 => {
                    p.cip_init(0, aes_key(r, k));
                }
                2 | 3 | 4 => {
                    p.cip_flush(0);
                }
                _ => {
                    p.cip_write(0, gen_data(r, n));
                }
            }
        }
        p
    });
    // more messages, keys, refusals and idle calls than 8 and 16 bits count
    heavy(&mut v, "session/cipher-ages", scale.n(0, 0, 8, 16), |i, r| {
        let mut p = Program::new();
        p.cip_new(0, gen_data(r, 16)).cip_init(0, aes_key(r, i));
        for _ in 0..[300, 66_000][i as usize / 4 % 2] {
            match i % 4 {
                0 => {
                    let n = r.below(18);
                    p.cip_write(0, gen_data(r, n)).cip_flush(0);
                }
                1 => {
                    let k = r.below(3);
                    p.cip_init(0, aes_key(r, k));
                }
                2 => {
                    let n = r.below(16);
                    p.cip_init(0, gen_data(r, n));
                }
                _ => {
                    p.cip_write(0, Data::empty());
                }
            }
            if r.chance(1, 64) {
                let n = r.below(40);
                p.cip_write(0, gen_data(r, n));
            }
        }
        p.cip_write(0, gen_data(r, 50)).cip_flush(0).cip_flush(0);
        p
    });
    heavy(&mut v, "session/cipher-refusals", scale.n(0, 0, 2, 4), |i, r| {
        let mut p = Program::new();
        p.cip_new(0, gen_data(r, 16)).cip_write(0, gen_data(r, 7));
        for _ in 0..[300, 66_000][i as usize % 2] {
            if r.chance(1, 2) {
                let n = 9 + r.below(20);
                p.cip_write(0, gen_data(r, n));
            } else {
                p.cip_flush(0);
            }
        }
        p.cip_init(0, aes_key(r, i)).cip_write(0, gen_data(r, 50)).cip_flush(0).cip_flush(0);
        p
    });
    heavy(&mut v, "session/decipher-ages", scale.n(0, 0, 10, 20), |i, r| {
        let mut key = real(&aes_key(r, i));
        let mut chain = r.block();
        let mut p = Program::new();
        p.dec_new(0, lit(&chain));
        if i % 5 != 4 {
            p.dec_init(0, lit(&key));
        }
        let message = |p: &mut Program, r: &mut Rng, key: &[u8], chain: &mut [u8; 16]| {
            let n = r.usize(0, 17);
            let ct = cbc_enc(&RefAes::new(key), chain, &r.bytes(n));
            chain.copy_from_slice(&ct[ct.len() - 16..]);
            p.dec_write(0, lit(&ct)).dec_flush(0);
        };
        for _ in 0..[300, 66_000][i as usize / 5 % 2] {
            match i % 5 {
                0 => message(&mut p, r, &key, &mut chain),
                1 => {
                    let k = r.below(3);
                    key = real(&aes_key(r, k));
                    p.dec_init(0, lit(&key));
                }
                2 => {
                    let n = r.below(16);
                    p.dec_init(0, gen_data(r, n));
                }
                3 => {
                    p.dec_write(0, Data::empty());
                }
                // no key yet
                _ => {
                    if r.chance(1, 2) {
                        let n = 16 + r.below(20);
                        p.dec_write(0, gen_data(r, n));
                    } else {
                        p.dec_flush(0);
                    }
                    continue;
                }
            }
            if i % 5 != 0 && r.chance(1, 64) {
                message(&mut p, r, &key, &mut chain);
            }
        }
        p.dec_init(0, lit(&key));
        message(&mut p, r, &key, &mut chain);
        message(&mut p, r, &key, &mut chain);
        p
    });
    // a last block that is refused again and again
    heavy(&mut v, "session/refused-flushes", scale.n(0, 0, 4, 8), |i, r| {
        let key = real(&aes_key(r, i));
        let iv = r.block();
        let aes = RefAes::new(&key);
        let mut p = Program::new();
        p.dec_new(0, lit(&iv)).dec_init(0, lit(&key));
        let mut bad = r.block();
        bad[15] = 17 + r.below(200) as u8;
        let mut ct = crate::refimpl::aes::cbc_enc_raw(&aes, &iv, &bad);
        p.dec_write(0, lit(&ct));
        if i % 2 == 1 {
            p.dec_write(0, Data::empty()).dec_write(0, lit(&[1]));
        }
        for _ in 0..[300, 66_000][i as usize / 2 % 2] {
            p.dec_flush(0);
        }
        if i % 2 == 1 {
            let rest = r.bytes(15);
            p.dec_write(0, lit(&rest));
            ct = [&[1], &rest[..]].concat();
        }
        let chain: [u8; 16] = ct[..16].try_into().unwrap();
        let end = cbc_enc(&aes, &chain, &r.bytes(20));
        p.dec_write(0, lit(&end)).dec_flush(0);
        p
    });
    // several messages through a pair of objects
    fam(&mut v, "session/messages", scale.n(2, 100, 6000, 80_000), |i, r| {
        let key = aes_key(r, i);
        let iv = gen_data(r, 16);
        let mut p = Program::new();
        p.cip_new(0, iv.clone()).cip_init(0, key.clone());
        p.dec_new(1, iv).dec_init(1, key);
        let mut fed = 0;
        let mut made = 0u64;
        for _ in 0..1 + r.below(5) {
            let mut n = 0;
            for _ in 0..r.below(4) {
                let l = len(r, 60);
                n += l;
                p.cip_write(0, gen_data(r, l));
            }
            p.cip_flush(0);
            made += n / 16 * 16 + 16;
            while fed < made {
                let l = (1 + len(r, 70)).min(made - fed);
                p.dec_write(1, Data::Out { slot: 0, from: fed, len: l });
                fed += l;
            }
            p.dec_flush(1);
        }
        p
    });
    v
}

fn dec_session(r: &mut Rng, ops: &[u64]) -> Program {
    use crate::model::Model;
    let mut p = Program::new();
    let mut m = Model::default();
    let mut at = 0;
    p.dec_new(0, gen_data(r, 16));
    let mut finish = vec![1u64, 8, 7, 6];
    finish.reverse();
    let mut queue: Vec<u64> = ops.to_vec();
    loop {
        // keep the model in step with the program
        while at < p.ops.len() {
            let d: Vec<Vec<u8>> = p.ops[at].d.iter().map(real).collect();
            m.step(&p.ops[at], &d);
            at += 1;
        }
        let op = if !queue.is_empty() {
            queue.remove(0)
        } else if let Some(x) = finish.pop() {
            x
        } else {
            break;
        };
        match op {
            0 => {
                let n = bad_key_len(r);
                p.dec_init(0, gen_data(r, n));
            }
            1 => {
                let k = r.below(3);
                p.dec_init(0, aes_key(r, k));
            }
            2 => {
                p.dec_write(0, Data::empty());
            }
            3 => {
                p.dec_write(0, gen_data(r, 5));
            }
            4 => {
                p.dec_write(0, gen_data(r, 11));
            }
            5 => {
                let n = 16 * (1 + r.below(2)) + r.below(3);
                p.dec_write(0, gen_data(r, n));
            }
            // a block that decrypts to a validly padded one
            7 => {
                let n = 1 + r.below(16) as u8;
                let mut last = r.block();
                for q in last.iter_mut().rev().take(n as usize) {
                    *q = n;
                }
                match m.dec_state(0) {
                    Some((k, chain, 0, _)) => {
                        let ct = k.enc(&xor(&last, &chain));
                        p.dec_write(0, lit(&ct));
                    }
                    Some((_, _, pend, _)) => {
                        // complete the block that is being collected
                        p.dec_write(0, gen_data(r, 16 - pend as u64));
                    }
                    None => {
                        p.dec_write(0, gen_data(r, 16));
                    }
                }
            }
            // align to a block boundary
            8 => {
                if let Some((_, _, pend, _)) = m.dec_state(0) {
                    if pend > 0 {
                        p.dec_write(0, gen_data(r, 16 - pend as u64));
                    }
                }
            }
            _ => {
                p.dec_flush(0);
            }
        }
    }
    p
}

// --------------------------------------------------------------- isolation

/// Several objects of all kinds used in turns; every object must behave as if
/// it were alone.
pub fn mixed(scale: Scale) -> Vec<Family> {
    let mut v = vec![];
    let big = scale != Scale::Mini;
    fam(&mut v, "mixed/interleaved", scale.n(30, 600, 25_000, 300_000), move |_, r| mixed_program(r, big));
    v
}

pub fn mixed_program(r: &mut Rng, big: bool) -> Program {
    let mut p = Program::new();
    let n = 3 + r.below(6) as u32;
    let mut kind = vec![];
    // few keys, ivs, passwords, pieces of text: objects share them, and what
    // they do not share is alike (same length, same beginning, same end), so
    // that anything remembered from one call and found again by less than all
    // of its arguments shows
    let base: Vec<Vec<u8>> = (0..2).map(|_| r.bytes(160)).collect();
    let near = |r: &mut Rng, n: usize| -> Vec<u8> {
        let mut v = r.pick(&base)[..n.min(160)].to_vec();
        if n > 0 {
            let at = match r.below(4) {
                0 => Some(0),
                1 => Some(n - 1),
                2 => Some(r.below(n as u64) as usize),
                _ => None,
            };
            if let Some(at) = at {
                v[at] ^= 1 << r.below(8);
            }
        }
        v
    };
    let text = |r: &mut Rng, n: u64| -> Data {
        if r.chance(1, 2) && n <= 160 {
            lit(&near(r, n as usize))
        } else {
            gen_data(r, n)
        }
    };
    let mut keys: Vec<Data> = (0..3).map(|k| aes_key(r, k)).collect();
    for n in [16, 16, 24, 32, 32] {
        keys.push(lit(&near(r, n)));
    }
    let mut ivs: Vec<Data> = (0..2).map(|_| gen_data(r, 16)).collect();
    ivs.push(lit(&near(r, 16)));
    let kl = len(r, 100);
    let mut mackeys = vec![gen_data(r, kl)];
    let kl = len(r, 100) as usize;
    for _ in 0..3 {
        mackeys.push(lit(&near(r, kl)));
    }
    let words: Vec<Data> = [0, 5, 5, 5, 6, 70].iter().map(|n| lit(&near(r, *n))).collect();
    let blocks: Vec<Data> = (0..4).map(|_| lit(&near(r, 64))).collect();
    let params: Vec<(u64, u64, u64)> = (0..2).map(|_| (1 + r.below(2), 2u64 << r.below(2), 1 + r.below(2))).collect();
    let open = |p: &mut Program, r: &mut Rng, s: u32| -> u64 {
        let k = r.below(7);
        match k {
            0 => {
                p.sha_new(s);
            }
            1 => {
                let key = r.pick(&mackeys).clone();
                p.mac_new(s, key);
            }
            2 => {
                p.aes_new(s);
                if r.chance(3, 4) {
                    let key = r.pick(&keys).clone();
                    p.aes_init(s, key);
                }
            }
            3 | 4 => {
                let iv = r.pick(&ivs).clone();
                p.cip_new(s, iv);
                if r.chance(3, 4) {
                    let key = r.pick(&keys).clone();
                    p.cip_init(s, key);
                }
            }
            5 => {
                let iv = r.pick(&ivs).clone();
                p.dec_new(s, iv);
                if r.chance(3, 4) {
                    let key = r.pick(&keys).clone();
                    p.dec_init(s, key);
                }
            }
            _ => {
                let (a, b, c) = *r.pick(&params);
                p.scr_new(s, a, b, c);
            }
        }
        k
    };
    for s in 0..n {
        let k = open(&mut p, r, s);
        kind.push(k);
    }
    let steps = if big { 10 + r.below(40) } else { 6 + r.below(8) };
    for _ in 0..steps {
        let s = r.below(u64::from(n)) as u32;
        let l = len(r, if big { 150 } else { 70 });
        match kind[s as usize] {
            0 => {
                p.sha_upd(s, text(r, l));
                if r.chance(1, 4) {
                    p.sha_dig(s);
                    kind[s as usize] = open(&mut p, r, s);
                }
            }
            1 => {
                p.mac_upd(s, text(r, l));
                if r.chance(1, 4) {
                    p.mac_dig(s);
                    kind[s as usize] = open(&mut p, r, s);
                }
            }
            2 => match r.below(5) {
                0 => {
                    let key = r.pick(&keys).clone();
                    p.aes_init(s, key);
                }
                1 => {
                    p.aes_dec(s, text(r, 16));
                }
                2 => {
                    let n = bad_key_len(r);
                    p.aes_init(s, gen_data(r, n));
                }
                _ => {
                    p.aes_enc(s, text(r, 16));
                }
            },
            3 | 4 => match r.below(8) {
                0 => {
                    let key = r.pick(&keys).clone();
                    p.cip_init(s, key);
                }
                1 => {
                    p.cip_flush(s);
                }
                _ => {
                    p.cip_write(s, text(r, l));
                }
            },
            5 => match r.below(8) {
                0 => {
                    let key = r.pick(&keys).clone();
                    p.dec_init(s, key);
                }
                1 => {
                    p.dec_flush(s);
                }
                _ => {
                    p.dec_write(s, text(r, l));
                }
            },
            _ => {
                let n = len(r, 60);
                let (pw, salt) = (r.pick(&words).clone(), r.pick(&words).clone());
                p.scr_derive(s, pw, salt, n, 1);
            }
        }
        if r.chance(1, 6) {
            match r.below(3) {
                0 => {
                    let (a, f) = (r.below(3), r.below(256));
                    let x = if a == 1 { r.pick(&blocks).clone() } else { gen_data(r, 64 * a) };
                    let rounds = [4, 4, 10, 3][r.below(4) as usize];
                    p.salsa(x, rounds, f);
                }
                _ => {
                    let (c, f) = (1 + r.below(3), r.below(256));
                    let n = if r.chance(1, 2) { 32 * r.below(3) } else { len(r, 60) };
                    let (pw, salt) = (r.pick(&words).clone(), r.pick(&words).clone());
                    p.pbkdf2(pw, salt, c, n, f);
                }
            }
        }
        if r.chance(1, 20) {
            p.drop_slot(s);
            kind[s as usize] = open(&mut p, r, s);
        }
    }
    for s in 0..n {
        match kind[s as usize] {
            0 => {
                p.sha_dig(s);
            }
            1 => {
                p.mac_dig(s);
            }
            _ => {}
        }
    }
    p
}
