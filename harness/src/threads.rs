//! Concurrency: threads that share objects, threads that hand objects over,
//! and cold starts. Every call is recorded with tickets taken from one global
//! counter at its invocation and its response; the log is checked offline.

use crate::exec::Outs;
use crate::families::mixed_program;
use crate::model::{Expect, Model};
use crate::monitor::{Coverage, Monitor, SpecMonitor};
use crate::program::{Data, Op, Program, K};
use crate::rng::{hash64, Rng};
use crate::sut::{self, Obj, Outcome};
use std::collections::HashSet;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::mpsc;

struct Probe<T>(PhantomData<T>);

#[allow(dead_code)]
trait Not {
    fn can_sync(&self) -> bool {
        false
    }
}
impl<T> Not for &Probe<T> {}
trait IsSync {
    fn can_sync(&self) -> bool {
        true
    }
}
impl<T: Sync> IsSync for Probe<T> {}

#[allow(dead_code)]
trait NotSend {
    fn can_send(&self) -> bool {
        false
    }
}
impl<T> NotSend for &Probe<T> {}
trait IsSend {
    fn can_send(&self) -> bool {
        true
    }
}
impl<T: Send> IsSend for Probe<T> {}

macro_rules! threads_ok {
    ($($t:ty),*) => {
        vec![$((
            stringify!($t),
            (&Probe::<$t>(PhantomData)).can_send(),
            (&Probe::<$t>(PhantomData)).can_sync(),
        )),*]
    };
}

/// (type, can be moved between threads, can be shared)
pub fn thread_traits() -> Vec<(&'static str, bool, bool)> {
    use dumb_crypto::aes::{AESError, AES};
    use dumb_crypto::aes_cbc::{Cipher, Decipher, DecipherError};
    use dumb_crypto::hmac::HMac;
    use dumb_crypto::scrypt::{Scrypt, ScryptError};
    use dumb_crypto::sha256::SHA256;
    threads_ok!(SHA256, HMac, Scrypt, AES, Cipher, Decipher, AESError, DecipherError, ScryptError)
}

/// Only used when the probes above say that it is no more than the truth.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

struct Event {
    thread: usize,
    began: u64,
    ended: u64,
    obj: usize,
    op: Op,
    data: Vec<Vec<u8>>,
    out: Outcome,
}

#[derive(Default)]
pub struct Seen {
    pub cov: Coverage,
    pub rounds: u64,
    pub calls: u64,
    /// pairs of calls in different threads that overlapped in time
    pub overlaps: u64,
    /// of those, on one and the same object
    pub same_object_overlaps: u64,
    pub handovers: u64,
    /// distinct orders in which threads took tickets
    pub orders: HashSet<u64>,
    pub samples: Vec<String>,
}

fn delay(r: &mut Rng) {
    match r.below(12) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..r.below(if cfg!(miri) { 5 } else { 400 }) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}

struct Gate {
    waiting: AtomicUsize,
    open: AtomicBool,
}

impl Gate {
    fn pass(&self, n: usize) {
        if self.waiting.fetch_add(1, Ordering::AcqRel) + 1 == n {
            self.open.store(true, Ordering::Release);
        }
        while !self.open.load(Ordering::Acquire) {
            if cfg!(miri) {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
}

fn gate() -> Gate {
    Gate {
        waiting: AtomicUsize::new(0),
        open: AtomicBool::new(false),
    }
}

fn lit(v: &[u8]) -> Data {
    Data::Lit(v.to_vec())
}

fn resolve(op: &Op) -> Vec<Vec<u8>> {
    op.d.iter().map(|d| d.resolve(&|_| vec![])).collect()
}

/// One round: `n` threads, some objects shared by all of them, and a private
/// program for each that is watched online.
pub fn shared_round(seed: u64, n: usize, calls: u64, seen: &mut Seen) -> Result<(), String> {
    let mut r = Rng::new(seed);
    // constructors of the shared objects, for the model as well
    let mut setup = Program::new();
    for s in 0..3u32 {
        let key = r.bytes([16, 24, 32][s as usize]);
        setup.aes_new(s);
        if s != 2 || r.chance(3, 4) {
            setup.aes_init(s, lit(&key));
        }
    }
    let (a, b, c) = (1 + r.below(2), 2u64 << r.below(3), 1 + r.below(2));
    setup.scr_new(3, a, b, c);
    setup.scr_new(4, r.below(2), r.below(5), r.below(3));
    let mut objects: Vec<Option<Obj>> = (0..5).map(|_| None).collect();
    for op in &setup.ops {
        let d = resolve(op);
        let s = op.slot as usize;
        match op.k {
            K::AesNew | K::ScrNew => objects[s] = Some(sut::create(op, &d)),
            _ => {
                sut::call_mut(objects[s].as_mut().unwrap(), op, &d);
            }
        }
    }
    let objects: Vec<Force<Obj>> = objects.into_iter().map(|o| Force(o.unwrap())).collect();
    let ticket = AtomicUsize::new(1);
    let start = gate();
    // few distinct inputs, so that threads meet on the same ones
    let blocks: Vec<Vec<u8>> = (0..3).map(|_| r.bytes(16)).collect();
    let results: Vec<(Vec<Event>, Result<Coverage, String>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (objects, ticket, start, blocks) = (&objects, &ticket, &start, &blocks);
                let mut r = Rng::new(seed ^ (t as u64 + 1).wrapping_mul(0x1234_5678_9abc_def1));
                sc.spawn(move || {
                    let own = mixed_program(&mut r, !cfg!(miri));
                    let mut sut = sut::Sut::default();
                    let mut outs = Outs::default();
                    let mut mon = SpecMonitor::default();
                    let mut cov = Coverage::default();
                    let mut verdict = Ok(());
                    let mut own_ops = own.ops.iter();
                    let mut log = vec![];
                    start.pass(n);
                    for _ in 0..calls {
                        delay(&mut r);
                        if r.chance(1, 2) {
                            // an event of the private program
                            if let Some(op) = own_ops.next() {
                                let d: Vec<Vec<u8>> =
                                    op.d.iter().map(|x| x.resolve(&|s| outs.get(s))).collect();
                                ticket.fetch_add(1, Ordering::AcqRel);
                                let out = sut.exec(op, &d);
                                ticket.fetch_add(1, Ordering::AcqRel);
                                cov.events += 1;
                                *cov.by_call.entry((op.k.text(), out.class())).or_insert(0) += 1;
                                outs.add(op, &out);
                                if verdict.is_ok() {
                                    verdict = mon.event(op, &d, &out, &mut cov);
                                }
                                continue;
                            }
                        }
                        let s = r.below(objects.len() as u64) as usize;
                        let mut p = Program::new();
                        match s {
                            0..=2 => {
                                let b = if r.chance(1, 2) { r.pick(blocks).clone() } else { r.bytes(16) };
                                if r.chance(1, 2) {
                                    p.aes_enc(s as u32, lit(&b));
                                } else {
                                    p.aes_dec(s as u32, lit(&b));
                                }
                            }
                            _ => {
                                let (k, l) = (r.below(4) as usize, r.below(50));
                                p.scr_derive(s as u32, lit(&r.bytes(k)), lit(b"salt"), l, 0xee);
                            }
                        }
                        let op = p.ops.remove(0);
                        let data = resolve(&op);
                        let began = ticket.fetch_add(1, Ordering::AcqRel) as u64;
                        let out = sut::caught(|| sut::call_shared(&objects[s].0, &op, &data));
                        let ended = ticket.fetch_add(1, Ordering::AcqRel) as u64;
                        log.push(Event { thread: t, began, ended, obj: s, op, data, out });
                    }
                    (log, verdict.map(|_| cov))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
    });
    let mut log = vec![];
    for (l, v) in results {
        log.extend(l);
        match v {
            Ok(c) => seen.cov.merge(c),
            Err(e) => return Err(format!("private objects of a thread among {}: {}", n, e)),
        }
    }
    offline(&setup, &log, seen)?;
    seen.rounds += 1;
    Ok(())
}

/// Calls through shared references change nothing, so in whatever order they
/// took effect each has to return what the specification says of the object as
/// it was set up.
fn offline(setup: &Program, log: &[Event], seen: &mut Seen) -> Result<(), String> {
    let mut m = Model::default();
    for op in &setup.ops {
        m.step(op, &resolve(op));
    }
    let mut by_time: Vec<&Event> = log.iter().collect();
    by_time.sort_by_key(|e| e.began);
    let mut order = vec![];
    for (i, e) in by_time.iter().enumerate() {
        order.push(e.thread as u8);
        for f in by_time[i + 1..].iter().take_while(|f| f.began < e.ended) {
            if f.thread != e.thread {
                seen.overlaps += 1;
                if f.obj == e.obj {
                    seen.same_object_overlaps += 1;
                }
            }
        }
    }
    seen.orders.insert(hash64(&order));
    for e in log {
        seen.calls += 1;
        seen.cov.events += 1;
        *seen.cov.by_call.entry((e.op.k.text(), e.out.class())).or_insert(0) += 1;
        let want = m.step(&e.op, &e.data);
        if !matches!(want, Expect::Open) {
            seen.cov.judged += 1;
        }
        if let Err(w) = want.judge(&e.out) {
            return Err(format!(
                "thread {} (tickets {}..{}) {} on an object shared by all threads: {}",
                e.thread,
                e.began,
                e.ended,
                e.op.to_text(),
                w
            ));
        }
    }
    if seen.samples.len() < 3 && log.len() > 3 {
        let t: Vec<String> = by_time
            .iter()
            .take(4)
            .map(|e| format!("t{}@{}-{} {}", e.thread, e.began, e.ended, e.op.to_text()))
            .collect();
        seen.samples.push(t.join(" ; "));
    }
    Ok(())
}

/// Objects that travel: each op of a program is executed by another thread
/// than the one before, the objects being sent along.
pub fn handover_round(seed: u64, n: usize, seen: &mut Seen) -> Result<(), String> {
    struct Baggage {
        sut: sut::Sut,
        outs: Outs,
        at: usize,
        log: Vec<(usize, Vec<Vec<u8>>, Outcome)>,
    }
    let mut r = Rng::new(seed ^ 0xb166);
    let programs: Vec<Program> = (0..n).map(|_| mixed_program(&mut r, !cfg!(miri))).collect();
    let (done_tx, done_rx) = mpsc::channel::<(usize, Force<Baggage>)>();
    let mut txs = vec![];
    let mut rxs = vec![];
    for _ in 0..n {
        let (a, b) = mpsc::channel::<(usize, Force<Baggage>)>();
        txs.push(a);
        rxs.push(b);
    }
    let left = AtomicUsize::new(n);
    let hops = AtomicUsize::new(0);
    let mut finished: Vec<(usize, Force<Baggage>)> = std::thread::scope(|sc| {
        for (t, rx) in rxs.into_iter().enumerate() {
            let txs = txs.clone();
            let done_tx = done_tx.clone();
            let (programs, left, hops) = (&programs, &left, &hops);
            let mut r = Rng::new(seed ^ (t as u64 + 77));
            sc.spawn(move || {
                while left.load(Ordering::Acquire) > 0 {
                    let (id, mut b) = match rx.recv_timeout(std::time::Duration::from_millis(2)) {
                        Ok(x) => x,
                        Err(_) => continue,
                    };
                    let p = &programs[id];
                    for _ in 0..1 + r.below(3) {
                        if b.0.at == p.ops.len() {
                            break;
                        }
                        let op = &p.ops[b.0.at];
                        let d: Vec<Vec<u8>> =
                            op.d.iter().map(|x| x.resolve(&|s| b.0.outs.get(s))).collect();
                        let out = b.0.sut.exec(op, &d);
                        b.0.outs.add(op, &out);
                        b.0.log.push((t, d, out));
                        b.0.at += 1;
                    }
                    hops.fetch_add(1, Ordering::Relaxed);
                    if b.0.at == p.ops.len() {
                        left.fetch_sub(1, Ordering::AcqRel);
                        let _ = done_tx.send((id, b));
                    } else {
                        let to = r.below(n as u64) as usize;
                        let _ = txs[to].send((id, b));
                    }
                }
            });
        }
        for (id, tx) in txs.iter().enumerate() {
            let _ = tx.send((
                id,
                Force(Baggage {
                    sut: Default::default(),
                    outs: Default::default(),
                    at: 0,
                    log: vec![],
                }),
            ));
        }
        (0..n).map(|_| done_rx.recv().expect("harness: recv")).collect()
    });
    seen.handovers += hops.load(Ordering::Relaxed) as u64;
    finished.sort_by_key(|x| x.0);
    for (id, b) in finished {
        let mut mon = SpecMonitor::default();
        let order: Vec<u8> = b.0.log.iter().map(|x| x.0 as u8).collect();
        seen.orders.insert(hash64(&order));
        for (op, (t, d, out)) in programs[id].ops.iter().zip(b.0.log.iter()) {
            seen.cov.events += 1;
            *seen.cov.by_call.entry((op.k.text(), out.class())).or_insert(0) += 1;
            mon.event(op, d, out, &mut seen.cov)
                .map_err(|w| format!("object handed between threads, in thread {}: {} {}", t, op.to_text(), w))?;
        }
    }
    seen.rounds += 1;
    Ok(())
}

thread_local! {
    static LAST: std::cell::RefCell<Option<AtExit>> = const { std::cell::RefCell::new(None) };
}

struct AtExit(Program, mpsc::Sender<Result<Coverage, String>>);

impl Drop for AtExit {
    fn drop(&mut self) {
        let _ = self.1.send(alone(&self.0));
    }
}

fn alone(p: &Program) -> Result<Coverage, String> {
    let mut cov = Coverage::default();
    let mut m: Vec<Box<dyn Monitor>> = vec![Box::new(SpecMonitor::default())];
    crate::exec::run(p, &mut m, &mut cov).map(|_| cov).map_err(|v| v.what)
}

/// Places a program may call from where others never do: from destructors
/// while a panic unwinds, from what a thread runs when it has ended, and after
/// calls that went wrong.
pub fn places_round(seed: u64, seen: &mut Seen) -> Result<(), String> {
    let mut r = Rng::new(seed ^ 0x91ac);
    let p = mixed_program(&mut r, !cfg!(miri));
    let other = mixed_program(&mut r, !cfg!(miri));
    let place = seed % 4;
    let (tx, rx) = mpsc::channel();
    let join = std::thread::spawn(move || match place {
        0 | 1 => {
            // what the library may keep for a thread is set up after, or
            // before, the thing that uses it last
            if place == 0 {
                let _ = alone(&other);
            }
            LAST.with(|l| *l.borrow_mut() = Some(AtExit(p, tx)));
            let _ = alone(&other);
        }
        2 => {
            let _ = std::panic::catch_unwind(move || {
                let _runs = AtExit(p, tx);
                std::panic::resume_unwind(Box::new("on purpose"));
            });
        }
        _ => {
            // nothing is said of these calls, but of those that follow
            let bad = || {
                let mut out = vec![0; 70];
                for (i, o) in [(64, 32), (3, 64), (70, 70), (64, 0)] {
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        dumb_crypto::salsa20::salsa20(&vec![1; i], 4, &mut out[..o])
                    }));
                }
            };
            std::thread::scope(|s| {
                s.spawn(bad);
            });
            bad();
            let _ = tx.send(alone(&p));
        }
    });
    let got = rx.recv();
    let _ = join.join();
    let name = [
        "in a destructor run as the thread ends",
        "in a destructor run as the thread ends",
        "in a destructor while a panic unwinds",
        "after calls with blocks of wrong sizes",
    ][place as usize];
    match got {
        Ok(Ok(cov)) => {
            seen.cov.merge(cov);
            seen.cov.bump(name, 1);
        }
        Ok(Err(e)) => return Err(format!("{}: {}", name, e)),
        Err(_) => return Err(format!("{}: the calls did not come to an end", name)),
    }
    Ok(())
}

/// First use of everything, in all threads at once.
pub fn cold(seed: u64, n: usize, seen: &mut Seen) -> Result<(), String> {
    let start = gate();
    let r: Vec<Result<Coverage, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let start = &start;
                let mut r = Rng::new(seed ^ ((t as u64 % 2) << 40));
                sc.spawn(move || {
                    let mut p = Program::new();
                    let key = r.bytes([16, 24, 32][(seed % 3) as usize]);
                    let first = (seed / 3 + t as u64 / 2) % 5;
                    // (interpreted, rather more processes than longer ones)
                    for k in 0..if cfg!(miri) && seed % 2 == 1 { 1 } else { 5 } {
                        match (first + k) % 5 {
                            0 => {
                                p.aes_new(0).aes_init(0, lit(&key));
                                p.aes_dec(0, lit(&r.bytes(16))).aes_enc(0, lit(&r.bytes(16)));
                            }
                            1 => {
                                p.sha_new(1).sha_upd(1, lit(&r.bytes(100))).sha_dig(1);
                                p.mac_new(2, lit(&r.bytes(70))).mac_upd(2, lit(b"x")).mac_dig(2);
                            }
                            2 => {
                                p.salsa(lit(&r.bytes(64)), 4, 0).pbkdf2(lit(b"pw"), lit(b"s"), 2, 40, 0);
                            }
                            3 => {
                                p.scr_new(3, 1, 4, 1).scr_derive(3, lit(b"pw"), lit(b"salt"), 20, 0);
                            }
                            _ => {
                                p.cip_new(4, lit(&r.block())).cip_init(4, lit(&key));
                                p.cip_write(4, lit(&r.bytes(33))).cip_flush(4);
                                p.dec_new(5, lit(&r.block())).dec_init(5, lit(&key));
                                p.dec_write(5, lit(&r.bytes(48))).dec_flush(5);
                            }
                        }
                    }
                    let mut cov = Coverage::default();
                    let mut m: Vec<Box<dyn Monitor>> = vec![Box::new(SpecMonitor::default())];
                    start.pass(n);
                    match crate::exec::run(&p, &mut m, &mut cov) {
                        Ok(()) => Ok(cov),
                        Err(v) => Err(format!("cold start in {} threads: {}", n, v.what)),
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
    });
    for x in r {
        seen.cov.merge(x?);
    }
    seen.rounds += 1;
    Ok(())
}
