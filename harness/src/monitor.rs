//! Online monitors. Each sees the stream of events (call, arguments, outcome)
//! of one program, in order, and says whether it can go on.

use crate::model::Model;
use crate::program::{Op, K};
use crate::refimpl::sha::RefSha;
use crate::rng::hash64;
use crate::sut::Outcome;
use std::collections::{BTreeMap, HashMap, HashSet};

/// What the monitors have seen in a run.
#[derive(Default)]
pub struct Coverage {
    pub events: u64,
    pub by_call: BTreeMap<(&'static str, &'static str), u64>,
    pub states: HashSet<u64>,
    pub transitions: HashSet<u64>,
    pub bytes_in: u64,
    pub bytes_out: u64,
    /// verdicts a monitor could take (events whose outcome was determined)
    pub judged: u64,
    pub extra: BTreeMap<String, u64>,
}

impl Coverage {
    pub fn merge(&mut self, o: Coverage) {
        self.events += o.events;
        for (k, v) in o.by_call {
            *self.by_call.entry(k).or_insert(0) += v;
        }
        self.states.extend(o.states);
        self.transitions.extend(o.transitions);
        self.bytes_in += o.bytes_in;
        self.bytes_out += o.bytes_out;
        self.judged += o.judged;
        for (k, v) in o.extra {
            *self.extra.entry(k).or_insert(0) += v;
        }
    }

    pub fn bump(&mut self, name: &str, by: u64) {
        *self.extra.entry(name.to_string()).or_insert(0) += by;
    }
}

pub trait Monitor {
    fn event(
        &mut self,
        op: &Op,
        d: &[Vec<u8>],
        out: &Outcome,
        cov: &mut Coverage,
    ) -> Result<(), String>;

    /// Called at the end of the program, a quiescent point.
    fn end(&mut self, _cov: &mut Coverage) -> Result<(), String> {
        Ok(())
    }
}

/// Every event must be the one the executable specification allows.
#[derive(Default)]
pub struct SpecMonitor {
    model: Model,
}

impl Monitor for SpecMonitor {
    fn event(
        &mut self,
        op: &Op,
        d: &[Vec<u8>],
        out: &Outcome,
        cov: &mut Coverage,
    ) -> Result<(), String> {
        let before = self.model.state(op.slot);
        let want = self.model.step(op, d);
        let after = self.model.state(op.slot);
        cov.states.insert(after);
        let len = d.first().map_or(0, |v| v.len().min(200)) as u64;
        cov.transitions.insert(
            hash64(out.class().as_bytes())
                ^ ((op.k as u64) << 56)
                ^ (before << 40)
                ^ (after << 20)
                ^ len.wrapping_mul(0x9e37_79b9_7f4a_7c15),
        );
        if !matches!(want, crate::model::Expect::Open) {
            cov.judged += 1;
        }
        want.judge(out)
    }
}

/// No call panics or writes where it must not; nothing is said about values.
#[derive(Default)]
pub struct TotalityMonitor;

impl Monitor for TotalityMonitor {
    fn event(
        &mut self,
        op: &Op,
        d: &[Vec<u8>],
        out: &Outcome,
        cov: &mut Coverage,
    ) -> Result<(), String> {
        cov.judged += 1;
        let len = d.iter().map(|v| v.len().min(300) as u64).sum::<u64>();
        cov.states.insert((op.k as u64) << 32 | len);
        cov.transitions
            .insert(hash64(out.class().as_bytes()) ^ ((op.k as u64) << 56) ^ len);
        match out {
            Outcome::Panic(m) => Err(format!("{} panicked: {}", op.k.text(), m)),
            Outcome::Footprint(m) => Err(format!("{}: {}", op.k.text(), m)),
            _ => Ok(()),
        }
    }
}

/// No call writes outside of the memory it was given. Everything else that
/// memory safety forbids is for the sanitizer or interpreter underneath to see;
/// a panic is memory-safe.
#[derive(Default)]
pub struct MemoryMonitor(TotalityMonitor);

impl Monitor for MemoryMonitor {
    fn event(
        &mut self,
        op: &Op,
        d: &[Vec<u8>],
        out: &Outcome,
        cov: &mut Coverage,
    ) -> Result<(), String> {
        let r = self.0.event(op, d, out, cov);
        if let Outcome::Bytes(v) = out {
            // a decision that depends on every byte, for tools that track
            // uninitialised memory
            if v.iter().fold(0u8, |a, b| a.wrapping_mul(3) ^ b) == 0x5a {
                cov.bump("fold_5a", 1);
            }
        }
        match out {
            Outcome::Footprint(m) if m.starts_with("bytes around") => r,
            _ => Ok(()),
        }
    }
}

/// No call has an effect on, or looks at, anything outside the process.
#[derive(Default)]
pub struct QuietMonitor(TotalityMonitor);

impl Monitor for QuietMonitor {
    fn event(
        &mut self,
        op: &Op,
        d: &[Vec<u8>],
        out: &Outcome,
        cov: &mut Coverage,
    ) -> Result<(), String> {
        let r = self.0.event(op, d, out, cov);
        match out {
            Outcome::Footprint(m) if m.starts_with("effect") => r,
            _ => Ok(()),
        }
    }
}

/// All sessions of a program that were fed the same concatenation must give
/// the same digest, whatever the chunking. Knows nothing about SHA-256: the
/// reference digest is only used as a name for the content.
#[derive(Default)]
pub struct ChunkMonitor {
    streams: HashMap<u32, (Vec<u8>, RefSha, u64)>,
    seen: HashMap<(Vec<u8>, [u8; 32]), (Vec<u8>, u64)>,
}

impl Monitor for ChunkMonitor {
    fn event(
        &mut self,
        op: &Op,
        d: &[Vec<u8>],
        out: &Outcome,
        cov: &mut Coverage,
    ) -> Result<(), String> {
        match op.k {
            K::ShaNew => {
                self.streams
                    .insert(op.slot, (b"sha".to_vec(), RefSha::default(), 0));
            }
            K::MacNew => {
                let mut name = b"mac".to_vec();
                name.extend_from_slice(&d[0]);
                self.streams.insert(op.slot, (name, RefSha::default(), 0));
            }
            K::ShaUpd | K::MacUpd => {
                let s = self.streams.get_mut(&op.slot).expect("harness: stream");
                for _ in 0..op.a[0] {
                    s.1.update(&d[0]);
                    s.2 += 1;
                }
                let st = (op.k as u64) << 32 | (s.1.total % 64) << 8 | (d[0].len().min(200) as u64);
                cov.states.insert((op.k as u64) << 32 | s.1.total % 64);
                cov.transitions.insert(st);
            }
            K::ShaDig | K::MacDig => {
                let (name, content, chunks) = self.streams.remove(&op.slot).expect("harness: stream");
                if let Outcome::Bytes(v) = out {
                    match self.seen.get(&(name.clone(), content.value())) {
                        None => {
                            self.seen
                                .insert((name, content.value()), (v.clone(), chunks));
                        }
                        Some((first, n)) => {
                            cov.judged += 1;
                            cov.bump("chunkings_compared", 1);
                            if first != v {
                                return Err(format!(
                                    "{} bytes in {} updates gave {}, in {} updates {}",
                                    content.total,
                                    n,
                                    crate::program::hex(first),
                                    chunks,
                                    crate::program::hex(v)
                                ));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        match out {
            Outcome::Panic(m) => Err(format!("{} panicked: {}", op.k.text(), m)),
            _ => Ok(()),
        }
    }
}

/// Block encryption and decryption undo each other, per object and key, and
/// under one key no two blocks share an image. No reference is involved.
#[derive(Default)]
pub struct InverseMonitor {
    keys: HashMap<u32, Vec<u8>>,
    fwd: HashMap<(Vec<u8>, Vec<u8>), Vec<u8>>,
    bwd: HashMap<(Vec<u8>, Vec<u8>), Vec<u8>>,
}

impl Monitor for InverseMonitor {
    fn event(
        &mut self,
        op: &Op,
        d: &[Vec<u8>],
        out: &Outcome,
        cov: &mut Coverage,
    ) -> Result<(), String> {
        match (op.k, out) {
            (K::AesInit, Outcome::Unit) => {
                self.keys.insert(op.slot, d[0].clone());
            }
            (K::AesEnc, Outcome::Bytes(v)) | (K::AesDec, Outcome::Bytes(v)) => {
                let key = match self.keys.get(&op.slot) {
                    Some(k) => k.clone(),
                    None => return Ok(()),
                };
                let (clear, secret) = if op.k == K::AesEnc { (&d[0], v) } else { (v, &d[0]) };
                cov.bump("inverse_pairs", 1);
                if let Some(x) = self.fwd.insert((key.clone(), clear.clone()), secret.clone()) {
                    cov.bump("inverse_pairs_compared", 1);
                    if &x != secret {
                        return Err("decrypt(encrypt(x)) is not x, or encrypt is not a function".into());
                    }
                }
                if let Some(x) = self.bwd.insert((key, secret.clone()), clear.clone()) {
                    if &x != clear {
                        return Err("two cleartext blocks share a ciphertext block under one key".into());
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
}

/// Conservation of bytes through a cipher feeding a decipher: whatever was
/// accepted by the cipher comes out of the decipher once, in order, and at no
/// time does either hold more than one block back. Pairs slot s (cipher) with
/// slot s + 1 (decipher); no reference is involved.
#[derive(Default)]
pub struct RoundTripMonitor {
    s: BTreeMap<u32, Flow>,
}

#[derive(Default)]
struct Flow {
    clear: Vec<u8>,
    secret: Vec<u8>,
    back: Vec<u8>,
    fed: usize,
    flushed: bool,
    done: bool,
}

impl Monitor for RoundTripMonitor {
    fn event(
        &mut self,
        op: &Op,
        d: &[Vec<u8>],
        out: &Outcome,
        cov: &mut Coverage,
    ) -> Result<(), String> {
        let id = op.slot & !1;
        match (op.k, out) {
            (K::CipNew, _) => {
                self.s.insert(id, Flow::default());
            }
            (K::DecNew, _) => {
                let f = self.s.entry(id).or_default();
                f.fed = 0;
                f.back.clear();
                f.done = false;
            }
            (K::CipWrite, Outcome::Bytes(v)) => {
                let f = self.s.entry(id).or_default();
                f.clear.extend_from_slice(&d[0]);
                f.secret.extend_from_slice(v);
                if f.secret.len() != f.clear.len() / 16 * 16 {
                    return Err(format!(
                        "{} bytes in, {} bytes of ciphertext out",
                        f.clear.len(),
                        f.secret.len()
                    ));
                }
            }
            (K::CipFlush, Outcome::Bytes(v)) => {
                let f = self.s.entry(id).or_default();
                f.secret.extend_from_slice(v);
                f.flushed = true;
                if f.secret.len() != f.clear.len() / 16 * 16 + 16 {
                    return Err(format!(
                        "{} bytes in, {} bytes of ciphertext after the flush",
                        f.clear.len(),
                        f.secret.len()
                    ));
                }
            }
            (K::DecWrite, Outcome::Bytes(v)) => {
                let f = self.s.entry(id).or_default();
                f.fed += d[0].len();
                f.back.extend_from_slice(v);
                let want = (f.fed / 16 * 16).saturating_sub(16);
                if f.back.len() != want {
                    return Err(format!(
                        "{} bytes of ciphertext in, {} bytes of cleartext out instead of {}",
                        f.fed,
                        f.back.len(),
                        want
                    ));
                }
            }
            (K::DecFlush, Outcome::Bytes(v)) => {
                let f = self.s.entry(id).or_default();
                f.back.extend_from_slice(v);
                f.done = true;
            }
            _ => {}
        }
        if op.k == K::DecFlush {
            if let Some(f) = self.s.get(&id) {
                if f.flushed && f.fed == f.secret.len() {
                    cov.judged += 1;
                    cov.bump("round_trips", 1);
                    cov.bump("round_trip_bytes", f.clear.len() as u64);
                    if !f.done {
                        return Err(format!("own ciphertext was not accepted: {}", out.show()));
                    }
                    if f.back != f.clear {
                        return Err("decrypted text differs from what was encrypted".into());
                    }
                }
            }
        }
        Ok(())
    }
}
