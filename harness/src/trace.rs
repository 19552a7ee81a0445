//! Which instructions are executed? Decided by single-stepping: with the trap
//! flag set the processor raises a SIGTRAP after every instruction, whose
//! handler takes down where in this program it happened. Two calls that may
//! differ in secrets only have to leave the same trace.

use crate::ct::Ct;
use dumb_crypto::aes_cbc::Decipher;
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::sha256::SHA256;
use vmon::program::hex;
use vmon::refimpl::aes::{xor, RefAes};
use vmon::rng::{hash64, Rng};

/// Instructions of this program, and their addresses in order, hashed
#[derive(Clone, Copy, PartialEq, Debug, Default)]
struct Trace {
    steps: u64,
    hash: u64,
}

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod step {
    use super::Trace;
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

    static STEPS: AtomicU64 = AtomicU64::new(0);
    static HASH: AtomicU64 = AtomicU64::new(0);

    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }

    extern "C" {
        static __executable_start: u8;
        static etext: u8;
        fn sigaction(sig: i32, new: *const Action, old: *mut Action) -> i32;
    }

    extern "C" fn on_trap(_: i32, _: *const u8, context: *const u8) {
        unsafe {
            let at = (context.add(40 + 16 * 8) as *const u64).read_unaligned();
            let from = &__executable_start as *const u8 as u64;
            let to = &etext as *const u8 as u64;
            if (from..to).contains(&at) {
                STEPS.store(STEPS.load(Relaxed) + 1, Relaxed);
                let h = HASH.load(Relaxed) ^ (at - from);
                HASH.store(h.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29), Relaxed);
            }
        }
    }

    pub fn ready() -> Result<(), String> {
        let a = Action { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        match unsafe { sigaction(5, &a, std::ptr::null_mut()) } {
            0 => Ok(()),
            _ => Err("sigaction".into()),
        }
    }

    #[inline(never)]
    pub fn traced(f: &mut dyn FnMut()) -> Trace {
        STEPS.store(0, Relaxed);
        HASH.store(0, Relaxed);
        unsafe {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        }
        f();
        unsafe {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -0x101", "popfq");
        }
        Trace { steps: STEPS.load(Relaxed), hash: HASH.load(Relaxed) }
    }
}

#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod step {
    pub fn ready() -> Result<(), String> {
        Err("no single-stepping here".into())
    }
    pub fn traced(f: &mut dyn FnMut()) -> super::Trace {
        f();
        Default::default()
    }
}

fn traced(mut f: impl FnMut()) -> Trace {
    step::traced(&mut f)
}

#[inline(never)]
fn leak(x: &[u8]) -> u64 {
    let mut n = 0;
    for b in x {
        if std::hint::black_box(*b) > 100 {
            n = std::hint::black_box(n + 1);
        }
    }
    n
}

fn controls(c: &mut Ct) -> Result<(), String> {
    step::ready()?;
    let of = |x: &[u8]| traced(|| {
        std::hint::black_box(leak(std::hint::black_box(x)));
    });
    let (low, again, high) = (of(&[1, 2, 3]), of(&[9, 8, 7]), of(&[1, 200, 3]));
    c.control_clean = u64::from(low != again);
    c.control_branch = u64::from(low != high);
    if low.steps == 0 || c.control_branch == 0 || c.control_clean != 0 {
        return Err(format!("trace controls: {:?} {:?} {:?}", low, again, high));
    }
    Ok(())
}

fn seen(c: &mut Ct, what: &str, t: Trace) {
    c.cases += 1;
    c.steps += t.steps;
    c.distinct.insert(hash64(what.as_bytes()));
    if c.samples.len() < 5 && c.cases % 97 == 3 {
        c.samples.push(format!("{}: {} instructions", what, t.steps));
    }
}

/// Do two calls leave two traces, each always its own? In an order that nothing
/// else alternates with, so that what comes of the state of the heap is told
/// from what comes of the secrets.
fn told_apart(mut of: impl FnMut(bool) -> Trace) -> Option<(Trace, Trace)> {
    let mut seen: [Option<Trace>; 2] = [None, None];
    for second in [0, 1, 1, 0, 0, 0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0, 1] {
        let t = of(second == 1);
        if *seen[second].get_or_insert(t) != t {
            return None;
        }
    }
    match seen {
        [Some(a), Some(b)] if a != b => Some((a, b)),
        _ => None,
    }
}

const FILLS: [&str; 9] = [
    "zero bytes",
    "zero bytes again",
    "ff bytes",
    "80 bytes",
    "random bytes",
    "other random bytes",
    "zero but the first byte",
    "zero but the last byte",
    "text",
];

/// Same lengths, other bytes.
pub fn hash_like(seed: u64, rounds: u64) -> Result<Ct, String> {
    let mut c = Ct::default();
    controls(&mut c)?;
    for k in 0..rounds {
        let mut r = Rng::keyed(seed, "trace-hash", k);
        let n = match r.below(3) {
            0 => *r.pick(&[0usize, 1, 55, 56, 63, 64, 65, 119, 120, 128]),
            _ => r.usize(0, 200),
        };
        let kl = *r.pick(&[0usize, 1, 16, 63, 64, 65, 100, 140]);
        let cut = r.usize(0, n);
        let (iters, len, dr) = (r.usize(1, 2), r.usize(1, 40), r.usize(0, 10));
        let (kind, what): (&'static str, String) = match k % 4 {
            0 => ("sha256: message", format!("{} bytes, cut at {}", n, cut)),
            1 => ("hmac: key and message", format!("key {} bytes, message {} bytes, cut at {}", kl, n, cut)),
            2 => ("pbkdf2: password and salt", format!("{} bytes, {} bytes, {} iterations, {} bytes out", kl, n, iters, len)),
            _ => ("salsa20: input", format!("64 bytes, {} double rounds", dr)),
        };
        let mut make = |how: u64, n: usize| -> Vec<u8> {
            let mut v = vec![0; n];
            match how {
                2 => v.iter_mut().for_each(|b| *b = 0xff),
                3 => v.iter_mut().for_each(|b| *b = 0x80),
                4 | 5 => v = r.bytes(n),
                6 => v.iter_mut().take(1).for_each(|b| *b = 0xa5),
                7 => v.iter_mut().rev().take(1).for_each(|b| *b = 0x5a),
                8 => v.iter_mut().for_each(|b| *b = b'a' + r.below(26) as u8),
                _ => {}
            }
            v
        };
        let ways: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> =
            (0..FILLS.len() as u64).map(|how| (make(how, n), make(how, kl), make(how, 64))).collect();
        // The same places for all of them: addresses are no secret, and code may
        // well look at them (an alias check, what the allocator has at hand).
        let (mut secret, mut key, mut block) = (vec![0; n], vec![0; kl], vec![0; 64]);
        let mut out = vec![0u8; len];
        let mut digest = [0u8; 32];
        let mut sout = [0u8; 64];
        let mut of = |how: usize| {
            secret.copy_from_slice(&ways[how].0);
            key.copy_from_slice(&ways[how].1);
            block.copy_from_slice(&ways[how].2);
            let t = traced(|| match k % 4 {
                0 => {
                    let mut s = SHA256::new();
                    s.update(&secret[..cut]);
                    s.update(&secret[cut..]);
                    digest = s.digest();
                }
                1 => {
                    let mut s = HMac::new(&key);
                    s.update(&secret[..cut]);
                    s.update(&secret[cut..]);
                    digest = s.digest();
                }
                2 => pbkdf2_sha256(&key, &secret, iters, &mut out),
                _ => salsa20(&block, dr, &mut sout),
            });
            std::hint::black_box((&out, &digest, &sout));
            t
        };
        for _ in 0..3 {
            of(0);
        }
        let mut traces = [Trace::default(); FILLS.len()];
        for (how, t) in traces.iter_mut().enumerate() {
            *t = of(how);
        }
        let told = match (1..FILLS.len()).find(|how| traces[*how] != traces[0]) {
            None => None,
            Some(how) => match told_apart(|second| of(if second { how } else { 0 })) {
                None => {
                    c.unstable += 1;
                    None
                }
                Some((a, b)) => Some((how, a, b)),
            },
        };
        for (how, t) in traces.iter().enumerate() {
            c.secret_bytes += [n, n + kl, n + kl, 64][(k % 4) as usize] as u64;
            seen(&mut c, &format!("{} ({}): {}", kind, what, FILLS[how]), *t);
            *c.by_kind.entry(kind).or_insert(0) += 1;
        }
        if let Some((how, a, b)) = told {
            c.found = Some((
                format!(
                    "{} ({}): {} instructions for {}, {} for {}{}",
                    kind,
                    what,
                    a.steps,
                    FILLS[0],
                    b.steps,
                    FILLS[how],
                    if a.steps == b.steps { ", but others" } else { "" }
                ),
                format!("trace-hash seed={} case={}", seed, k),
            ));
            return Ok(c);
        }
    }
    Ok(c)
}

/// Last blocks that are refused, equal in their last byte.
pub fn padding(seed: u64, rounds: u64) -> Result<Ct, String> {
    let mut c = Ct::default();
    controls(&mut c)?;
    for l in 0..=255u8 {
        let within = (2..=16).contains(&l);
        if !within && rounds < 1000 && l > 20 && l % 8 > 1 {
            continue;
        }
        let mut r = Rng::keyed(seed, "trace-pad", u64::from(l));
        let blocks_before = r.usize(0, 2);
        let key = r.bytes([16, 24, 32][l as usize % 3]);
        let aes = RefAes::new(&key);
        // the first of them twice
        let mut ways: Vec<[u8; 16]> = vec![];
        let mut good = [l; 16];
        for (k, b) in r.block().iter().enumerate().take(16 - if within { l as usize } else { 1 }) {
            good[k] = *b;
        }
        good[15] = l;
        let places: Vec<usize> = if within { (16 - l as usize..15).collect() } else { (0..15).collect() };
        let with = |set: &[(usize, u8)]| {
            let mut b = good;
            set.iter().for_each(|(p, d)| b[*p] ^= d);
            b
        };
        if let Some(p) = places.first() {
            ways.push(with(&[(*p, 1)]));
            ways.push(with(&[(*p, 1)]));
        } else {
            // a last byte of 1 cannot be wrong
            continue;
        }
        if within || rounds >= 1000 {
            for p in &places {
                for bit in 0..8 {
                    ways.push(with(&[(*p, 1 << bit)]));
                }
                ways.push(with(&[(*p, 0xff)]));
            }
        }
        for k in 0..rounds {
            let d = [0x80, 0xff, l, 1][k as usize % 4];
            let set: Vec<(usize, u8)> = match k % 3 {
                0 => places.iter().filter(|_| r.chance(1, 2)).map(|p| (*p, d)).collect(),
                1 => places.iter().map(|p| (*p, r.below(256) as u8)).collect(),
                _ => places.iter().map(|p| (*p, if r.chance(1, 3) { 1 + r.below(255) as u8 } else { 0 })).collect(),
            };
            // what is before the padding as well
            let mut b = with(&set);
            if k % 5 == 1 {
                b.iter_mut().take(places[0]).for_each(|b| *b = r.below(256) as u8);
            }
            ways.push(b);
        }
        // the ciphertext is the same for all: the IV or, where there are blocks
        // before, the last of them makes the difference
        let last = r.block();
        let decrypted = aes.dec(&last);
        let (some_iv, prefix) = (r.block(), r.bytes(16 * blocks_before.max(1) - 16));
        let mut cipher = vec![0; 16 * (blocks_before + 1)];
        // None: not refused
        let mut of = |want: &[u8; 16]| -> Result<Option<Trace>, String> {
            let before = xor(&decrypted, want);
            if blocks_before > 0 {
                cipher[..prefix.len()].copy_from_slice(&prefix);
                cipher[prefix.len()..prefix.len() + 16].copy_from_slice(&before);
            }
            cipher[16 * blocks_before..].copy_from_slice(&last);
            let mut d = Decipher::new(if blocks_before == 0 { before } else { some_iv });
            if d.init(&key).is_err() {
                return Err("key refused".into());
            }
            let w = d.write(&cipher);
            let mut kept = None;
            let t = traced(|| kept = Some(d.flush()));
            let refused = matches!(kept, Some(Err(_)));
            drop((w, kept));
            Ok(if refused { Some(t) } else { None })
        };
        let mut traces = Vec::with_capacity(ways.len());
        for _ in 0..3 {
            of(&ways[0])?;
        }
        for want in &ways {
            traces.push(of(want)?);
        }
        let first = traces[0];
        let name = |k: usize| format!("{} after {} blocks", hex(&ways[k]), blocks_before);
        let other = traces.iter().position(|t| t.is_some() && *t != first).filter(|_| first.is_some());
        let told = match other {
            None => None,
            Some(k) => match told_apart(|second| of(&ways[if second { k } else { 0 }]).ok().flatten().unwrap_or_default()) {
                None => {
                    c.unstable += 1;
                    None
                }
                Some((a, b)) => Some((k, a, b)),
            },
        };
        for (k, t) in traces.iter().enumerate() {
            c.secret_bytes += 15;
            match t {
                None => *c.by_kind.entry("accepted").or_insert(0) += 1,
                Some(t) => {
                    seen(&mut c, &name(k), *t);
                    *c.by_kind.entry("refused").or_insert(0) += 1;
                }
            }
        }
        if let Some((k, a, b)) = told {
            c.found = Some((
                format!(
                    "a padding is refused with {} instructions for last block {}, with {}{} for {}",
                    a.steps,
                    name(0),
                    b.steps,
                    if a.steps == b.steps { " others" } else { "" },
                    name(k)
                ),
                format!("trace-pad seed={} last byte={} case={}", seed, l, k),
            ));
            return Ok(c);
        }
    }
    Ok(c)
}
