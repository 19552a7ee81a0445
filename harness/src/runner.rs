//! Runs the cases of a property on several threads, keeps a journal of what is
//! in flight (for crashes and hangs), shrinks and reports violations.

use crate::exec;
use crate::families::Family;
use crate::monitor::{Coverage, Monitor};
use crate::program::{fingerprint, Data, Op, Program};
use crate::props::Prop;
use crate::rng::Rng;
use crate::sut::{Outcome, E};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Options {
    pub seed: u64,
    pub threads: usize,
    /// run the cases that take seconds and gigabytes
    pub heavy: bool,
    /// run the others
    pub light: bool,
    /// only every `stride`-th case of a family
    pub stride: u64,
    /// which family to begin with, in eighths of their list
    pub rotate: u64,
    /// how often the sampled families are gone through
    pub rounds: u64,
    /// stop taking new cases after this long
    pub limit: Duration,
    /// give up (exit 3) on a case that takes this long
    pub stuck: Duration,
    pub journal: Option<String>,
    /// how many corrupted executions to show the monitors
    pub controls: u64,
}

pub struct Found {
    pub family: String,
    pub index: u64,
    pub what: String,
    pub text: String,
    pub first_text_ops: usize,
}

#[derive(Default)]
pub struct Report {
    pub cov: Coverage,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub families: BTreeMap<String, (u64, u64)>,
    pub samples: Vec<String>,
    pub found: Vec<Found>,
    pub harness_errors: Vec<String>,
    pub truncated: bool,
    pub controls: u64,
    pub controls_noticed: u64,
    pub controls_judged: u64,
    pub slowest_ms: u64,
    pub slowest: String,
}

pub fn case(fam: &Family, seed: u64, index: u64) -> Program {
    let mut r = Rng::keyed(seed, fam.name, index);
    (fam.gen)(index, &mut r)
}

pub enum Verdict {
    Fine,
    Bad(usize, String),
    Harness(String),
}

pub fn judge(p: &Program, monitors: fn() -> Vec<Box<dyn Monitor>>, cov: &mut Coverage) -> Verdict {
    judge_with(p, monitors, cov, None)
}

type Fault<'a> = Option<(usize, &'a dyn Fn(&Outcome) -> Outcome)>;

fn judge_with(
    p: &Program,
    monitors: fn() -> Vec<Box<dyn Monitor>>,
    cov: &mut Coverage,
    fault: Fault,
) -> Verdict {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut m = monitors();
        exec::run_with(p, &mut m, cov, fault)
    }));
    match r {
        Ok(Ok(())) => Verdict::Fine,
        Ok(Err(v)) => Verdict::Bad(v.at, v.what),
        Err(e) => Verdict::Harness(
            e.downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into()),
        ),
    }
}

/// Make a failing program smaller while it goes on failing.
pub fn shrink(p: &Program, monitors: fn() -> Vec<Box<dyn Monitor>>, budget: Duration) -> (Program, String) {
    let start = Instant::now();
    let fails = |q: &Program| -> Option<(usize, String)> {
        match judge(q, monitors, &mut Coverage::default()) {
            Verdict::Bad(at, w) => Some((at, w)),
            _ => None,
        }
    };
    let mut best = p.clone();
    let mut what = match fails(&best) {
        Some((at, w)) => {
            best.ops.truncate(at + 1);
            w
        }
        None => return (best, String::new()),
    };
    let mut chunk = best.ops.len() / 2;
    while chunk > 0 && start.elapsed() < budget {
        let mut i = 0;
        while i < best.ops.len() && start.elapsed() < budget {
            let mut q = best.clone();
            q.ops.drain(i..(i + chunk).min(q.ops.len()));
            if let Some((at, w)) = fails(&q) {
                q.ops.truncate(at + 1);
                best = q;
                what = w;
            } else {
                i += chunk;
            }
        }
        chunk /= 2;
    }
    // shorter arguments
    let shorter = |op: &Op, k: usize, n: u64| -> Op {
        let mut o = op.clone();
        match &mut o.d[k] {
            Data::Lit(v) => v.truncate(n as usize),
            Data::Gen { len, .. } => *len = n,
            Data::Out { len, .. } => *len = n,
        }
        o
    };
    use crate::program::K;
    for i in 0..best.ops.len() {
        for k in 0..best.ops[i].d.len() {
            if matches!(best.ops[i].k, K::AesEnc | K::AesDec | K::CipNew | K::DecNew | K::Salsa) {
                continue;
            }
            let mut len = match &best.ops[i].d[k] {
                Data::Lit(v) => v.len() as u64,
                Data::Gen { len, .. } | Data::Out { len, .. } => *len,
            };
            let mut step = len;
            while step > 0 && start.elapsed() < budget {
                if step <= len && best.ops[i].golden.is_none() {
                    let mut q = best.clone();
                    q.ops[i] = shorter(&best.ops[i], k, len - step);
                    if let Some((at, w)) = fails(&q) {
                        if at + 1 == q.ops.len() {
                            best = q;
                            what = w;
                            len -= step;
                            continue;
                        }
                    }
                }
                step /= 2;
            }
        }
    }
    (best, what)
}

/// Enumerated families have the size they have; the others are repeated.
fn size(f: &Family, o: &Options) -> u64 {
    if f.name.starts_with("x:") || f.heavy {
        f.count
    } else {
        f.count * o.rounds
    }
}

struct Batch {
    fam: usize,
    from: u64,
    to: u64,
}

fn plan(fams: &[Family], o: &Options) -> Vec<Batch> {
    let mut heavy = vec![];
    let mut light: Vec<(f64, Batch)> = vec![];
    for (i, f) in fams.iter().enumerate() {
        if f.heavy {
            if o.heavy {
                for k in 0..f.count {
                    heavy.push(Batch { fam: i, from: k, to: k + 1 });
                }
            }
            continue;
        }
        if !o.light {
            continue;
        }
        let n = (size(f, o) + o.stride - 1) / o.stride;
        let size = (n / 400).clamp(1, 64);
        let mut at = 0;
        while at < n {
            let to = (at + size).min(n);
            light.push((at as f64 / n as f64, Batch { fam: i, from: at, to }));
            at = to;
        }
    }
    // all families advance together, so that a time limit cuts each alike
    let count = fams.len();
    let turn = |b: &Batch| (b.fam + count - o.rotate as usize * count / 8 % count) % count;
    light.sort_by(|a, b| a.0.total_cmp(&b.0).then(turn(&a.1).cmp(&turn(&b.1))));
    heavy.extend(light.into_iter().map(|x| x.1));
    heavy
}

pub fn run(prop: &Prop, o: &Options) -> Report {
    let batches = plan(&prop.families, o);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let finished = AtomicUsize::new(0);
    let start = Instant::now();
    let total = Mutex::new(Report::default());
    // what each thread is doing: family, index, since when (ms + 1; 0 = idle)
    let doing: Vec<[AtomicUsize; 3]> = (0..o.threads).map(|_| Default::default()).collect();
    let journal = o.journal.as_ref().map(|p| {
        use std::os::unix::fs::FileExt;
        let f = std::fs::File::create(p).expect("harness: journal");
        f.write_all_at(&vec![b' '; 64 * o.threads], 0).expect("harness: journal");
        f
    });
    std::thread::scope(|s| {
        for t in 0..o.threads {
            let (batches, next, stop, total, doing, journal, finished) =
                (&batches, &next, &stop, &total, &doing, &journal, &finished);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    let mut rep = Report::default();
                    #[cfg(feature = "quiet")]
                    {
                        use std::os::fd::AsRawFd;
                        let fd = journal.as_ref().map(|j| j.as_raw_fd());
                        crate::quiet::ready();
                        crate::quiet::enter(fd).expect("harness: filter");
                    }
                    loop {
                        let b = next.fetch_add(1, Ordering::Relaxed);
                        if b >= batches.len() || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let b = &batches[b];
                        let fam = &prop.families[b.fam];
                        if start.elapsed() > o.limit && !fam.heavy {
                            rep.truncated = true;
                            break;
                        }
                        for k in b.from..b.to {
                            let index = if fam.heavy { k } else { (k * o.stride + o.seed % o.stride).min(size(fam, o) - 1) };
                            doing[t][0].store(b.fam, Ordering::Relaxed);
                            doing[t][1].store(index as usize, Ordering::Relaxed);
                            doing[t][2].store(start.elapsed().as_millis() as usize + 1, Ordering::Release);
                            if let Some(j) = journal {
                                use std::os::unix::fs::FileExt;
                                let line = format!("{:<63}\n", format!("{} {}", fam.name, index));
                                let _ = j.write_all_at(line.as_bytes(), 64 * t as u64);
                            }
                            one(prop, fam, index, o, &mut rep);
                            let took = start.elapsed().as_millis() as u64 + 1
                                - doing[t][2].load(Ordering::Relaxed) as u64;
                            if took > rep.slowest_ms {
                                rep.slowest_ms = took;
                                rep.slowest = format!("{}:{}", fam.name, index);
                            }
                            doing[t][2].store(0, Ordering::Release);
                            if !rep.found.is_empty() {
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                        }
                    }
                    if let Some(j) = journal {
                        use std::os::unix::fs::FileExt;
                        let _ = j.write_all_at(&[b' '; 63], 64 * t as u64);
                    }
                    merge(&mut total.lock().unwrap(), rep);
                    finished.fetch_add(1, Ordering::SeqCst);
                })
                .expect("harness: thread");
        }
        // watchdog
        while finished.load(Ordering::SeqCst) < o.threads {
            std::thread::sleep(Duration::from_millis(20));
            let now = start.elapsed().as_millis() as u64;
            for d in &doing {
                let since = d[2].load(Ordering::Acquire) as u64;
                if since == 0 {
                    continue;
                }
                let fam = &prop.families[d[0].load(Ordering::Relaxed)];
                let allowed = o.stuck.as_millis() as u64 * if fam.heavy { 5 } else { 1 };
                if now > since + allowed {
                    println!("STUCK {} {}", fam.name, d[1].load(Ordering::Relaxed));
                    std::process::exit(3);
                }
            }
        }
    });
    total.into_inner().unwrap()
}

fn merge(into: &mut Report, r: Report) {
    into.cov.merge(r.cov);
    into.evaluations += r.evaluations;
    into.distinct.extend(r.distinct);
    for (k, v) in r.families {
        let e = into.families.entry(k).or_insert((0, 0));
        e.0 += v.0;
        e.1 = e.1.max(v.1);
    }
    into.samples.extend(r.samples);
    into.found.extend(r.found);
    into.harness_errors.extend(r.harness_errors);
    into.truncated |= r.truncated;
    into.controls += r.controls;
    into.controls_noticed += r.controls_noticed;
    into.controls_judged += r.controls_judged;
    if r.slowest_ms > into.slowest_ms {
        into.slowest_ms = r.slowest_ms;
        into.slowest = r.slowest;
    }
}

fn one(prop: &Prop, fam: &Family, index: u64, o: &Options, rep: &mut Report) {
    let p = case(fam, o.seed, index);
    let judged = rep.cov.judged;
    let events = rep.cov.events;
    rep.evaluations += 1;
    let e = rep.families.entry(fam.name.to_string()).or_insert((0, size(fam, o)));
    e.0 += 1;
    let nth = e.0;
    match judge(&p, prop.monitors, &mut rep.cov) {
        Verdict::Fine => {
            if rep.cov.judged > judged {
                rep.distinct.insert(fingerprint(&p));
            }
            if rep.samples.len() < 3 && nth == 2 {
                let t: Vec<String> = p
                    .ops
                    .iter()
                    .take(6)
                    .map(|x| {
                        let mut t = x.to_text();
                        if t.len() > 140 {
                            t.truncate(140);
                            t.push_str("...");
                        }
                        t
                    })
                    .collect();
                rep.samples.push(format!(
                    "{}:{} [{} events] {}",
                    fam.name,
                    index,
                    rep.cov.events - events,
                    t.join(" ; ")
                ));
            }
            if !fam.heavy && nth <= o.controls && !p.ops.is_empty() && p.ops.len() < 500 {
                control(prop, &p, o.seed ^ index, rep);
            }
        }
        Verdict::Bad(_, what) => {
            let n = p.ops.len();
            let budget = Duration::from_secs(if fam.heavy { 0 } else { 5 });
            let (q, w) = shrink(&p, prop.monitors, budget);
            let w = if w.is_empty() { what } else { w };
            rep.found.push(Found {
                family: fam.name.to_string(),
                index,
                what: w,
                text: q.to_text(),
                first_text_ops: n,
            });
        }
        Verdict::Harness(m) => {
            rep.harness_errors.push(format!("{}:{}: {}", fam.name, index, m));
        }
    }
}

/// Corrupt one outcome of an execution that was accepted and see whether the
/// monitors notice.
pub fn control(prop: &Prop, p: &Program, seed: u64, rep: &mut Report) {
    let mut r = Rng::new(seed ^ 0xc0ffee);
    let at = r.below(p.ops.len() as u64) as usize;
    let how = r.u64() >> 8;
    let mut cov = Coverage::default();
    // is the event one whose outcome the monitors determine?
    let mut head = p.clone();
    head.ops.truncate(at);
    let mut before = Coverage::default();
    let _ = judge(&head, prop.monitors, &mut before);
    head.ops.push(p.ops[at].clone());
    let mut after = Coverage::default();
    let _ = judge(&head, prop.monitors, &mut after);
    let judged = after.judged > before.judged;
    let f = |o: &Outcome| {
        if prop.id == "C15" {
            Outcome::Footprint("bytes around: control".into())
        } else if prop.id == "C22" {
            Outcome::Footprint("effect: control".into())
        } else if prop.id == "C16" {
            Outcome::Panic("control".into())
        } else if let ("C23", Outcome::Err(_)) = (prop.id, o) {
            Outcome::Err(E::Other("control".into()))
        } else {
            exec::corrupt(o, how)
        }
    };
    rep.controls += 1;
    if judged {
        rep.controls_judged += 1;
    }
    match judge_with(p, prop.monitors, &mut cov, Some((at, &f))) {
        Verdict::Bad(..) => rep.controls_noticed += 1,
        Verdict::Fine if judged && prop.strict_control => rep.harness_errors.push(format!(
            "control: corrupted outcome of call {} not noticed in\n{}",
            at,
            p.to_text()
        )),
        _ => {}
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn list(v: impl Iterator<Item = String>) -> String {
    format!("[{}]", v.collect::<Vec<_>>().join(","))
}

impl Report {
    pub fn json(&self, prop: &Prop, wall: f64) -> String {
        let calls = self
            .cov
            .by_call
            .iter()
            .map(|((a, b), n)| format!("{}:{}", js(&format!("{} -> {}", a, b)), n))
            .collect::<Vec<_>>()
            .join(",");
        let missing = list(
            prop.must_see
                .iter()
                .filter(|k| !self.cov.by_call.contains_key(k))
                .map(|(a, b)| js(&format!("{} -> {}", a, b))),
        );
        let fams = self
            .families
            .iter()
            .map(|(k, (n, of))| format!("{}:[{},{}]", js(k), n, of))
            .collect::<Vec<_>>()
            .join(",");
        let extra = self
            .cov
            .extra
            .iter()
            .map(|(k, n)| format!("{}:{}", js(k), n))
            .collect::<Vec<_>>()
            .join(",");
        let found = list(self.found.iter().map(|f| {
            format!(
                "{{\"family\":{},\"index\":{},\"what\":{},\"program\":{},\"ops_before_shrinking\":{}}}",
                js(&f.family),
                f.index,
                js(&f.what),
                js(&f.text),
                f.first_text_ops
            )
        }));
        format!(
            "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"events\":{},\"judged\":{},\"model_states\":{},\"transitions\":{},\"bytes_in\":{},\"bytes_out\":{},\"outcomes\":{{{}}},\"missing\":{},\"families\":{{{}}},\"extra\":{{{}}},\"samples\":{},\"found\":{},\"harness_errors\":{},\"truncated\":{},\"controls\":{},\"controls_judged\":{},\"controls_noticed\":{},\"slowest_ms\":{},\"slowest\":{},\"worker_wall_s\":{:.2}}}",
            self.evaluations,
            self.distinct.len(),
            self.cov.events,
            self.cov.judged,
            self.cov.states.len(),
            self.cov.transitions.len(),
            self.cov.bytes_in,
            self.cov.bytes_out,
            calls,
            missing,
            fams,
            extra,
            list(self.samples.iter().take(6).map(|s| js(s))),
            found,
            list(self.harness_errors.iter().take(5).map(|s| js(s))),
            self.truncated,
            self.controls,
            self.controls_judged,
            self.controls_noticed,
            self.slowest_ms,
            js(&self.slowest),
            wall
        )
    }
}
