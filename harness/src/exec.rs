//! Runs a program against the real code and lets monitors watch.

use crate::monitor::{Coverage, Monitor};
use crate::program::{Op, Program, K};
use crate::sut::{Outcome, Sut, E};

pub struct Violation {
    pub at: usize,
    pub what: String,
}

/// Accumulated output of each slot, for `Data::Out`
#[derive(Default)]
pub struct Outs(Vec<Vec<u8>>);

impl Outs {
    pub fn get(&self, s: u32) -> Vec<u8> {
        self.0.get(s as usize).cloned().unwrap_or_default()
    }
    pub fn add(&mut self, op: &Op, o: &Outcome) {
        let s = op.slot as usize;
        match op.k {
            K::CipNew | K::DecNew => {
                if self.0.len() <= s {
                    self.0.resize_with(s + 1, Vec::new);
                }
                self.0[s].clear();
            }
            K::CipWrite | K::CipFlush | K::DecWrite | K::DecFlush => {
                if let Outcome::Bytes(v) = o {
                    self.0[s].extend_from_slice(v);
                }
            }
            _ => {}
        }
    }
}

/// What an execution of a faulty implementation could look like: used to show
/// that the monitors notice.
pub fn corrupt(o: &Outcome, how: u64) -> Outcome {
    match o {
        Outcome::Bytes(v) if !v.is_empty() => {
            let mut v = v.clone();
            let at = (how / 8) as usize % v.len();
            match how % 13 {
                11 => {
                    v.pop();
                }
                12 => v.push(0),
                _ => v[at] ^= 1 << (how % 8),
            }
            Outcome::Bytes(v)
        }
        Outcome::Bytes(_) => Outcome::Bytes(vec![0]),
        Outcome::Unit => Outcome::Err(E::InvalidKeySize),
        Outcome::Err(_) => Outcome::Unit,
        o => o.clone(),
    }
}

pub fn run(
    p: &Program,
    monitors: &mut [Box<dyn Monitor>],
    cov: &mut Coverage,
) -> Result<(), Violation> {
    run_with(p, monitors, cov, None)
}

pub fn run_with(
    p: &Program,
    monitors: &mut [Box<dyn Monitor>],
    cov: &mut Coverage,
    fault: Option<(usize, &dyn Fn(&Outcome) -> Outcome)>,
) -> Result<(), Violation> {
    let mut sut = Sut::default();
    let mut outs = Outs::default();
    for (at, op) in p.ops.iter().enumerate() {
        let d: Vec<Vec<u8>> = op.d.iter().map(|x| x.resolve(&|s| outs.get(s))).collect();
        let mut out = sut.exec(op, &d);
        if let Some((n, f)) = fault {
            if n == at {
                out = f(&out);
            }
        }
        cov.events += 1;
        *cov.by_call.entry((op.k.text(), out.class())).or_insert(0) += 1;
        cov.bytes_in += d.iter().map(|x| x.len() as u64).sum::<u64>();
        if let Outcome::Bytes(v) = &out {
            cov.bytes_out += v.len() as u64;
        }
        outs.add(op, &out);
        for m in monitors.iter_mut() {
            m.event(op, &d, &out, cov).map_err(|what| Violation {
                at,
                what: format!("call {} ({}): {}", at, op.k.text(), what),
            })?;
        }
        if let Outcome::Panic(_) = out {
            // accepted by all monitors, but nothing is known of the objects now
            break;
        }
    }
    for m in monitors.iter_mut() {
        m.end(cov).map_err(|what| Violation {
            at: p.ops.len(),
            what,
        })?;
    }
    Ok(())
}
