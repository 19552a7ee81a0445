//! Does control flow or the choice of an address depend on a secret? Decided
//! by memcheck: secrets are marked undefined, and memcheck reports every
//! conditional jump on and every memory access at an undefined value.

use dumb_crypto::aes_cbc::Decipher;
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::sha256::SHA256;
use std::collections::{BTreeMap, HashSet};
use vmon::program::hex;
use vmon::refimpl::aes::{xor, RefAes};
use vmon::rng::{hash64, Rng};

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
fn request(what: u64, a: u64, b: u64) -> u64 {
    let args: [u64; 6] = [what, a, b, 0, 0, 0];
    let mut r: u64 = 0;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3",
            "rol rdi, 13",
            "rol rdi, 61",
            "rol rdi, 51",
            "xchg rbx, rbx",
            in("rax") args.as_ptr(),
            inout("rdx") r,
            inout("rdi") 0u64 => _,
        );
    }
    r
}

#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
fn request(_: u64, _: u64, _: u64) -> u64 {
    0
}

pub fn under_valgrind() -> bool {
    request(0x1001, 0, 0) > 0
}

fn hide(b: &mut [u8]) {
    request(0x4d43_0001, b.as_ptr() as u64, b.len() as u64);
}

fn reveal(b: &mut [u8]) {
    request(0x4d43_0002, b.as_ptr() as u64, b.len() as u64);
}

fn errors() -> u64 {
    request(0x1201, 0, 0)
}

fn counted(f: impl FnOnce()) -> u64 {
    let before = errors();
    f();
    errors() - before
}

#[derive(Default)]
pub struct Ct {
    pub cases: u64,
    pub distinct: HashSet<u64>,
    pub secret_bytes: u64,
    pub by_kind: BTreeMap<&'static str, u64>,
    pub control_branch: u64,
    pub control_index: u64,
    pub control_clean: u64,
    pub profiles: BTreeMap<String, u64>,
    pub steps: u64,
    pub unstable: u64,
    pub samples: Vec<String>,
    pub found: Option<(String, String)>,
}

#[inline(never)]
fn leak_branch(x: &[u8]) -> u64 {
    let mut n = 0;
    for b in x {
        if std::hint::black_box(*b) > 100 {
            n += std::hint::black_box(1);
        }
    }
    n
}

#[inline(never)]
fn leak_index(t: &[u8; 256], x: &[u8]) -> u8 {
    let mut n = 0;
    for b in x {
        n ^= t[std::hint::black_box(*b) as usize];
    }
    n
}

/// Memcheck sees what it has to see in this very process.
fn controls(c: &mut Ct, r: &mut Rng) -> Result<(), String> {
    let mut s = r.bytes(8);
    let mut t = [0; 256];
    r.fill(&mut t);
    c.control_clean = counted(|| {
        std::hint::black_box(leak_branch(&s));
        std::hint::black_box(leak_index(&t, &s));
    });
    hide(&mut s);
    c.control_branch = counted(|| {
        std::hint::black_box(leak_branch(&s));
    });
    c.control_index = counted(|| {
        std::hint::black_box(leak_index(&t, &s));
    });
    reveal(&mut s);
    if c.control_clean != 0 || c.control_branch == 0 || c.control_index == 0 {
        return Err(format!(
            "memcheck controls: {} {} {}",
            c.control_clean, c.control_branch, c.control_index
        ));
    }
    Ok(())
}

pub fn hash_like(seed: u64, rounds: u64) -> Result<Ct, String> {
    let mut c = Ct::default();
    let mut r = Rng::keyed(seed, "ct-hash", 0);
    controls(&mut c, &mut r)?;
    for k in 0..rounds {
        let mut r = Rng::keyed(seed, "ct-hash", k + 1);
        let n = match r.below(4) {
            0 => r.usize(0, 70),
            1 => *r.pick(&[55usize, 56, 63, 64, 65, 119, 120, 128]),
            _ => r.usize(0, 200),
        };
        let mut secret = r.bytes(n);
        if r.chance(1, 5) {
            secret.iter_mut().for_each(|b| *b = 0);
        }
        let kl = r.usize(0, 140);
        let mut key = r.bytes(kl);
        let cut = r.usize(0, n);
        let (kind, what): (&'static str, String) = match k % 5 {
            0 => ("sha256: message", format!("{} bytes, cut at {}", n, cut)),
            1 => ("hmac: key and message", format!("key {} bytes, message {} bytes, cut at {}", kl, n, cut)),
            2 => ("pbkdf2: password and salt", format!("password {} bytes, salt {} bytes", kl, n)),
            3 => ("salsa20: input", "64 bytes".to_string()),
            _ => ("hmac: key, public message", format!("key {} bytes, message {} bytes", kl, n)),
        };
        let mut block = r.bytes(64);
        let (iters, len, dr) = (r.usize(1, 3), r.usize(1, 70), r.usize(0, 10));
        let mut out = vec![0u8; len];
        let mut digest = [0u8; 32];
        let mut sout = [0u8; 64];
        match k % 5 {
            0 => hide(&mut secret),
            1 | 2 => {
                hide(&mut secret);
                hide(&mut key);
            }
            3 => hide(&mut block),
            _ => hide(&mut key),
        }
        let e = counted(|| match k % 5 {
            0 => {
                let mut s = SHA256::new();
                s.update(&secret[..cut]);
                s.update(&secret[cut..]);
                digest = s.digest();
            }
            1 | 4 => {
                let mut s = HMac::new(&key);
                s.update(&secret[..cut]);
                s.update(&secret[cut..]);
                digest = s.digest();
            }
            2 => pbkdf2_sha256(&key, &secret, iters, &mut out),
            _ => salsa20(&block, dr, &mut sout),
        });
        std::hint::black_box((&out, &digest, &sout));
        c.cases += 1;
        c.secret_bytes += match k % 5 {
            0 => n,
            1 | 2 => n + kl,
            3 => 64,
            _ => kl,
        } as u64;
        *c.by_kind.entry(kind).or_insert(0) += 1;
        c.distinct.insert(hash64(format!("{} {} {} {} {}", kind, what, iters, len, dr).as_bytes()));
        if c.samples.len() < 5 {
            c.samples.push(format!("{} ({})", kind, what));
        }
        if e > 0 {
            c.found = Some((
                format!("{} ({}): {} decisions or addresses depend on secret bytes", kind, what, e),
                format!("ct-hash seed={} case={}", seed, k),
            ));
            return Ok(c);
        }
    }
    Ok(c)
}

/// The final block of a message, its last byte (the pad length) known, the
/// others secret. How often a secret decides something while the padding is
/// checked must not tell where the padding is wrong.
pub fn padding(seed: u64, rounds: u64) -> Result<Ct, String> {
    let mut c = Ct::default();
    let mut r = Rng::keyed(seed, "ct-pad", 0);
    controls(&mut c, &mut r)?;
    for l in 2..=16usize {
        // (pattern, decisions) of refused paddings of this length
        let mut first: Option<(String, u64)> = None;
        for k in 0..rounds {
            let mut r = Rng::keyed(seed, "ct-pad", (l as u64) << 32 | k);
            // one wrong byte at each place in turn, then random subsets
            let mut last = r.block();
            for b in last.iter_mut().rev().take(l) {
                *b = l as u8;
            }
            let places: Vec<usize> = (16 - l..15).collect();
            let mut wrong = vec![];
            if (k as usize) < places.len() {
                wrong.push(places[k as usize]);
            } else if k as usize == places.len() {
                wrong = places.clone();
            } else {
                for p in &places {
                    if r.chance(1, 3) {
                        wrong.push(*p);
                    }
                }
                if wrong.is_empty() {
                    wrong.push(places[r.usize(0, places.len() - 1)]);
                }
            }
            for p in &wrong {
                let d = 1 + r.below(255) as u8;
                last[*p] ^= d;
            }
            let pattern = format!("pad length {}, wrong bytes at {:?}", l, wrong);
            let key = r.bytes([16, 24, 32][(k % 3) as usize]);
            let iv = r.block();
            let cipher = RefAes::new(&key).enc(&xor(&last, &iv));
            // The IV carries the secret into the decrypted block: decryption
            // itself works on public bytes.
            let mut hidden = iv;
            hide(&mut hidden[..15]);
            let mut d = Decipher::new(hidden);
            if d.init(&key).is_err() {
                return Err("key refused".into());
            }
            let w = d.write(&cipher);
            let mut verdict = None;
            let n = counted(|| {
                let f = d.flush();
                verdict = Some(f.is_ok());
                std::mem::forget(f);
            });
            let accepted = verdict == Some(true);
            drop(w);
            c.cases += 1;
            c.secret_bytes += 15;
            c.distinct.insert(hash64(pattern.as_bytes()));
            *c.profiles.entry(format!("pad length {}: {} secret decisions", l, n)).or_insert(0) += 1;
            if c.samples.len() < 5 && k % 7 == 3 {
                c.samples.push(format!("{} (iv {}): {} secret decisions", pattern, hex(&iv[15..]), n));
            }
            if accepted {
                // C12's business
                continue;
            }
            let text = format!("ct-pad seed={} length={} case={}", seed, l, k);
            match &first {
                None => first = Some((pattern.clone(), n)),
                Some((p, m)) if *m != n => {
                    c.found = Some((
                        format!(
                            "checking the padding takes {} secret-dependent decisions for {}, but {} for {}: the place of the mismatch shows",
                            m, p, n, pattern
                        ),
                        text,
                    ));
                    return Ok(c);
                }
                _ => {}
            }
        }
    }
    Ok(c)
}
