//! The executable specification: what each call of a history must return,
//! given the calls before it on the same object. Nothing here looks at the
//! code under test.

use crate::program::{Op, K};
use crate::refimpl::aes::{self as ra, RefAes};
use crate::refimpl::kdf;
use crate::refimpl::sha::{sha256, RefMac, RefSha};
use crate::sut::{Outcome, E};

pub enum Expect {
    Is(Outcome),
    /// One of these errors and no effect (several causes apply at once)
    ErrIn(Vec<E>),
    AnyErr,
    /// Bytes of this length whose SHA-256 is this (golden)
    Digest([u8; 32]),
    /// Bytes of a length, known at some places
    Sampled(usize, Vec<(usize, Vec<u8>)>),
    /// The contract says nothing about this call
    Open,
}

impl Expect {
    pub fn judge(&self, got: &Outcome) -> Result<(), String> {
        let fail = |want: String| Err(format!("expected {}, got {}", want, got.show()));
        match self {
            Expect::Is(o) => {
                if o == got {
                    Ok(())
                } else {
                    fail(o.show())
                }
            }
            Expect::ErrIn(es) => match got {
                Outcome::Err(e) if es.contains(e) => Ok(()),
                _ => fail(format!("an error of {:?}", es)),
            },
            Expect::AnyErr => match got {
                Outcome::Err(_) => Ok(()),
                _ => fail("an error".into()),
            },
            Expect::Digest(h) => match got {
                Outcome::Bytes(v) if sha256(v) == *h => Ok(()),
                _ => fail(format!("bytes with sha256 {}", crate::program::hex(h))),
            },
            Expect::Sampled(len, parts) => match got {
                Outcome::Bytes(v) if v.len() == *len => {
                    for (at, want) in parts {
                        if &v[*at..*at + want.len()] != want.as_slice() {
                            return Err(format!(
                                "at output offset {} expected {}, got {}",
                                at,
                                crate::program::hex(want),
                                crate::program::hex(&v[*at..*at + want.len()])
                            ));
                        }
                    }
                    Ok(())
                }
                _ => fail(format!("{} bytes", len)),
            },
            Expect::Open => match got {
                Outcome::Panic(_) | Outcome::Footprint(_) => fail("no panic".into()),
                _ => Ok(()),
            },
        }
    }
}

struct Cbc {
    key: Option<RefAes>,
    key_len: usize,
    chain: [u8; 16],
    pending: Vec<u8>,
    held: Option<[u8; 16]>,
    messages: u32,
}

enum M {
    Sha(RefSha, bool),
    Mac(RefMac, bool),
    Scr(u64, u64, u64),
    Aes(Option<RefAes>, usize),
    Cip(Cbc),
    Dec(Cbc),
}

#[derive(Default)]
pub struct Model {
    slots: Vec<Option<M>>,
}

fn blk(v: &[u8]) -> [u8; 16] {
    let mut b = [0; 16];
    b.copy_from_slice(&v[..16]);
    b
}

/// Errors that apply to a scrypt parameter set; empty when it is valid.
pub fn scrypt_errors(r: u64, n: u64, p: u64) -> Vec<E> {
    let mut es = vec![];
    if r < 1 {
        es.push(E::RSmall);
    }
    if n < 2 {
        es.push(E::NSmall);
    }
    if n == 0 || !n.is_power_of_two() {
        es.push(E::NPow2);
    }
    if p < 1 {
        es.push(E::PSmall);
    }
    if r >= 1 && r < 4 && u128::from(n) >= 1u128 << (16 * r) {
        es.push(E::NLarge);
    }
    if u128::from(r) * u128::from(p) > ((1u128 << 32) - 1) / 4 {
        es.push(E::PLarge);
    }
    es
}

fn key_init(key: &mut Option<RefAes>, len: &mut usize, d: &[u8]) -> Expect {
    if ra::key_len_ok(d.len()) {
        *key = Some(RefAes::new(d));
        *len = d.len();
        Expect::Is(Outcome::Unit)
    } else {
        Expect::Is(Outcome::Err(E::InvalidKeySize))
    }
}

/// Places at which a long PBKDF2 output is compared: both ends, around the
/// carries of the block counter, and a spread in between.
fn sample_blocks(total: u64) -> Vec<u64> {
    let mut at: Vec<u64> = vec![];
    let mut add = |lo: u64, hi: u64| {
        for i in lo..=hi {
            if i >= 1 && i <= total {
                at.push(i);
            }
        }
    };
    add(1, 300);
    for k in [9u32, 10, 12, 15, 16, 17, 18, 20, 22, 23, 24] {
        add((1u64 << k) - 3, (1u64 << k) + 3);
    }
    add(3 << 15, (3 << 15) + 2);
    add(total.saturating_sub(5), total);
    let mut x = total;
    for _ in 0..600 {
        let r = 1 + crate::rng::splitmix(&mut x) % total;
        at.push(r);
    }
    at.sort_unstable();
    at.dedup();
    at
}

impl Model {
    /// Small number naming the abstract state of a slot, for coverage.
    pub fn state(&self, slot: u32) -> u64 {
        match self.slots.get(slot as usize).and_then(|m| m.as_ref()) {
            None => 0,
            Some(M::Sha(s, done)) => {
                1000 + s.tail.len() as u64 + 64 * u64::from(s.total >= 64) + 128 * u64::from(*done)
            }
            Some(M::Mac(s, done)) => {
                2000 + s.total() % 64 + 64 * u64::from(s.total() >= 64) + 128 * u64::from(*done)
            }
            Some(M::Scr(..)) => 3000,
            Some(M::Aes(_, len)) => 4000 + *len as u64,
            Some(M::Cip(c)) => {
                5000 + c.pending.len() as u64 + 16 * (c.key_len as u64 / 8) + 80 * u64::from(c.messages.min(2))
            }
            Some(M::Dec(c)) => {
                6000 + c.pending.len() as u64
                    + 16 * (c.key_len as u64 / 8)
                    + 80 * u64::from(c.held.is_some())
                    + 160 * u64::from(c.messages.min(2))
            }
        }
    }

    /// Key and chaining block of a cipher/decipher slot, for generators that
    /// have to craft input for the state the stream is in.
    pub fn dec_state(&self, slot: u32) -> Option<(&RefAes, [u8; 16], usize, bool)> {
        match self.slots.get(slot as usize).and_then(|m| m.as_ref()) {
            Some(M::Dec(c)) => c
                .key
                .as_ref()
                .map(|k| (k, c.chain, c.pending.len(), c.held.is_some())),
            _ => None,
        }
    }

    pub fn step(&mut self, op: &Op, d: &[Vec<u8>]) -> Expect {
        let e = self.step_inner(op, d);
        // On an update the mark only says that the digest to come is golden and
        // the model need not follow.
        match &op.golden {
            Some(g) if op.k != K::ShaUpd && op.k != K::MacUpd => Expect::Digest(*g),
            _ => e,
        }
    }

    fn step_inner(&mut self, op: &Op, d: &[Vec<u8>]) -> Expect {
        let s = op.slot as usize;
        if self.slots.len() <= s {
            self.slots.resize_with(s + 1, || None);
        }
        let golden = op.golden.is_some();
        let fresh = |iv: &[u8]| Cbc {
            key: None,
            key_len: 0,
            chain: blk(iv),
            pending: vec![],
            held: None,
            messages: 0,
        };
        let new = match op.k {
            K::ShaNew => Some(M::Sha(RefSha::default(), false)),
            K::MacNew => Some(M::Mac(RefMac::new(&d[0]), false)),
            K::ScrNew => Some(M::Scr(
                // as the code gets to see them where usize has 32 bits
                op.a[0] as usize as u64,
                op.a[1] as usize as u64,
                op.a[2] as usize as u64,
            )),
            K::AesNew => Some(M::Aes(None, 0)),
            K::CipNew => Some(M::Cip(fresh(&d[0]))),
            K::DecNew => Some(M::Dec(fresh(&d[0]))),
            _ => None,
        };
        if new.is_some() {
            self.slots[s] = new;
            return Expect::Is(Outcome::Unit);
        }
        match op.k {
            K::Drop => {
                self.slots[s] = None;
                return Expect::Is(Outcome::Unit);
            }
            K::Salsa => {
                return Expect::Is(Outcome::Bytes(kdf::salsa_bytes(&d[0], op.a[0])));
            }
            K::Pbkdf2 => {
                let (c, len) = (op.a[0], op.a[1] as usize);
                if golden || c == 0 {
                    return Expect::Open;
                }
                if len > 1 << 23 {
                    let prf = RefMac::new(&d[0]);
                    let total = (len as u64 + 31) / 32;
                    let parts = sample_blocks(total)
                        .into_iter()
                        .map(|i| {
                            let at = (i - 1) as usize * 32;
                            let b = kdf::pbkdf2_block(&prf, &d[1], c, i as u32);
                            (at, b[..32.min(len - at)].to_vec())
                        })
                        .collect();
                    return Expect::Sampled(len, parts);
                }
                return Expect::Is(Outcome::Bytes(kdf::pbkdf2(&d[0], &d[1], c, len)));
            }
            _ => {}
        }
        match (op.k, self.slots[s].as_mut()) {
            (K::ShaUpd, Some(M::Sha(r, done))) => {
                if *done {
                    return Expect::Open;
                }
                if !golden {
                    for _ in 0..op.a[0] {
                        r.update(&d[0]);
                    }
                }
                Expect::Is(Outcome::Unit)
            }
            (K::ShaDig, Some(M::Sha(r, done))) => {
                if *done {
                    return Expect::Open;
                }
                *done = true;
                Expect::Is(Outcome::Bytes(r.value().to_vec()))
            }
            (K::MacUpd, Some(M::Mac(r, done))) => {
                if *done {
                    return Expect::Open;
                }
                if !golden {
                    for _ in 0..op.a[0] {
                        r.update(&d[0]);
                    }
                }
                Expect::Is(Outcome::Unit)
            }
            (K::MacDig, Some(M::Mac(r, done))) => {
                if *done {
                    return Expect::Open;
                }
                *done = true;
                Expect::Is(Outcome::Bytes(r.value().to_vec()))
            }
            (K::ScrDerive, Some(M::Scr(r, n, p))) => {
                let es = scrypt_errors(*r, *n, *p);
                if !es.is_empty() {
                    return Expect::ErrIn(es);
                }
                if golden {
                    return Expect::Open;
                }
                Expect::Is(Outcome::Bytes(kdf::scrypt(
                    &d[0],
                    &d[1],
                    *n,
                    *r as usize,
                    *p as usize,
                    op.a[0] as usize,
                )))
            }
            (K::AesInit, Some(M::Aes(k, len))) => key_init(k, len, &d[0]),
            (K::AesEnc, Some(M::Aes(k, _))) => match k {
                None => Expect::Is(Outcome::Err(E::NotInitialized)),
                Some(k) => Expect::Is(Outcome::Bytes(k.enc(&blk(&d[0])).to_vec())),
            },
            (K::AesDec, Some(M::Aes(k, _))) => match k {
                None => Expect::Is(Outcome::Err(E::NotInitialized)),
                Some(k) => Expect::Is(Outcome::Bytes(k.dec(&blk(&d[0])).to_vec())),
            },
            (K::CipInit, Some(M::Cip(c))) => key_init(&mut c.key, &mut c.key_len, &d[0]),
            (K::DecInit, Some(M::Dec(c))) => key_init(&mut c.key, &mut c.key_len, &d[0]),
            (K::CipWrite, Some(M::Cip(c))) => {
                if c.key.is_none() && c.pending.len() + d[0].len() >= 16 {
                    return Expect::Is(Outcome::Err(E::NotInitialized));
                }
                c.pending.extend_from_slice(&d[0]);
                let full = c.pending.len() / 16 * 16;
                let mut out = vec![];
                if full > 0 {
                    out = ra::cbc_enc_raw(c.key.as_ref().unwrap(), &c.chain, &c.pending[..full]);
                    c.chain = blk(&out[out.len() - 16..]);
                    c.pending.drain(..full);
                }
                Expect::Is(Outcome::Bytes(out))
            }
            (K::CipFlush, Some(M::Cip(c))) => match &c.key {
                None => Expect::Is(Outcome::Err(E::NotInitialized)),
                Some(k) => {
                    let out = ra::cbc_enc(k, &c.chain, &c.pending);
                    c.chain = blk(&out);
                    c.pending.clear();
                    c.messages += 1;
                    Expect::Is(Outcome::Bytes(out))
                }
            },
            (K::DecWrite, Some(M::Dec(c))) => {
                if c.key.is_none() && c.pending.len() + d[0].len() >= 16 {
                    return Expect::Is(Outcome::Err(E::NotInitialized));
                }
                c.pending.extend_from_slice(&d[0]);
                let full = c.pending.len() / 16 * 16;
                let mut out = vec![];
                if full > 0 {
                    let k = c.key.as_ref().unwrap();
                    out.reserve(full + 16);
                    for b in c.pending[..full].chunks_exact(16) {
                        if let Some(h) = c.held.take() {
                            out.extend_from_slice(&h);
                        }
                        let b = blk(b);
                        c.held = Some(ra::xor(&k.dec(&b), &c.chain));
                        c.chain = b;
                    }
                    c.pending.drain(..full);
                }
                Expect::Is(Outcome::Bytes(out))
            }
            (K::DecFlush, Some(M::Dec(c))) => {
                if c.key.is_none() {
                    return Expect::AnyErr;
                }
                let pad = c.held.as_ref().map(ra::pkcs7_len);
                match (c.pending.len(), pad) {
                    (0, Some(Some(n))) => {
                        let out = c.held.take().unwrap()[..n].to_vec();
                        c.messages += 1;
                        Expect::Is(Outcome::Bytes(out))
                    }
                    (0, Some(None)) => Expect::Is(Outcome::Err(E::InvalidPadding)),
                    // both faults at once: either report is right
                    (_, Some(None)) => Expect::ErrIn(vec![E::UnfinishedBlock, E::InvalidPadding]),
                    _ => Expect::Is(Outcome::Err(E::UnfinishedBlock)),
                }
            }
            _ => unreachable!("harness: wrong slot type in model"),
        }
    }
}
