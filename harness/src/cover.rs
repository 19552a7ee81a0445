//! Coverage-guided workload. The crate under test, and nothing else, is
//! compiled with the coverage instrumentation of LLVM: counters on its edges
//! and calls on its comparisons. Programs that reach something new are kept and
//! changed again; constants met in comparisons go into the programs.

use crate::families::{cheap, lit, real};
use crate::model::scrypt_errors;
use crate::program::{fingerprint, Data, Op, Program, K};
use crate::props::Prop;
use crate::rng::Rng;
use crate::runner::{self, Found, Report, Verdict};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

// ------------------------------------------------------------ observation

const SPAN: usize = 1 << 18;
static mut COUNTERS: [(*mut u8, usize); 64] = [(std::ptr::null_mut(), 0); 64];
static mut RANGES: usize = 0;
static mut HAMMING: [u8; SPAN] = [0; SPAN];
static mut DISTANCE: [u8; SPAN] = [0; SPAN];
/// by place: what was compared with what, and the width
static mut PAIRS: [(u64, u64, u8); 4096] = [(0, 0, 0); 4096];
static mut FRESH: u64 = 0;
/// The calls of the crate only; memcmp is everybody's.
static INSIDE: AtomicBool = AtomicBool::new(false);

pub fn begin() {
    INSIDE.store(true, Relaxed);
}

pub fn end() {
    INSIDE.store(false, Relaxed);
}

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(from: *mut u8, to: *mut u8) {
    let n = to as usize - from as usize;
    if n > 0 && RANGES < 64 && (0..RANGES).all(|k| COUNTERS[k].0 != from) {
        COUNTERS[RANGES] = (from, n);
        RANGES += 1;
    }
}

#[no_mangle]
extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

// The place is the caller's; what it is called with is left as it is.
std::arch::global_asm!(
    ".macro vmon_hook name, to, reg",
    ".globl \\name",
    "\\name:",
    "mov \\reg, [rsp]",
    "jmp \\to",
    ".endm",
    "vmon_hook __sanitizer_cov_trace_cmp1, vmon_cmp1, rdx",
    "vmon_hook __sanitizer_cov_trace_cmp2, vmon_cmp2, rdx",
    "vmon_hook __sanitizer_cov_trace_cmp4, vmon_cmp4, rdx",
    "vmon_hook __sanitizer_cov_trace_cmp8, vmon_cmp8, rdx",
    "vmon_hook __sanitizer_cov_trace_const_cmp1, vmon_cmp1, rdx",
    "vmon_hook __sanitizer_cov_trace_const_cmp2, vmon_cmp2, rdx",
    "vmon_hook __sanitizer_cov_trace_const_cmp4, vmon_cmp4, rdx",
    "vmon_hook __sanitizer_cov_trace_const_cmp8, vmon_cmp8, rdx",
    "vmon_hook __sanitizer_cov_trace_switch, vmon_switch, rdx",
);

#[no_mangle]
extern "C" fn vmon_cmp1(a: u8, b: u8, pc: usize) {
    compared(a.into(), b.into(), 1, pc);
}
#[no_mangle]
extern "C" fn vmon_cmp2(a: u16, b: u16, pc: usize) {
    compared(a.into(), b.into(), 2, pc);
}
#[no_mangle]
extern "C" fn vmon_cmp4(a: u32, b: u32, pc: usize) {
    compared(a.into(), b.into(), 4, pc);
}
#[no_mangle]
extern "C" fn vmon_cmp8(a: u64, b: u64, pc: usize) {
    compared(a, b, 8, pc);
}
#[no_mangle]
unsafe extern "C" fn vmon_switch(v: u64, cases: *const u64, pc: usize) {
    let n = (*cases).min(64) as usize;
    let width = (*cases.add(1) / 8) as u8;
    for k in 0..n {
        compared(*cases.add(2 + k), v, width, pc + 7919 * (k + 1));
    }
}

#[inline]
fn compared(a: u64, b: u64, width: u8, pc: usize) {
    let h = (pc as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 52;
    let i = (h as usize) << 6 | (a ^ b).count_ones().min(63) as usize;
    let d = a.abs_diff(b);
    let j = (h as usize) << 6 | if d == 0 { 0 } else { 1 + d.ilog2().min(62) } as usize;
    // SAFETY: one thread at a time calls the crate in this workload
    unsafe {
        if HAMMING[i] == 0 {
            HAMMING[i] = 1;
            FRESH += 1;
        }
        if DISTANCE[j] == 0 {
            DISTANCE[j] = 1;
            FRESH += 1;
        }
        if a != b {
            PAIRS[h as usize] = (a, b, width);
        }
    }
}

unsafe fn bytes_compared(a: *const u8, b: *const u8, n: usize, pc: usize) -> i32 {
    let mut k = 0;
    while k < n && a.add(k).read_volatile() == b.add(k).read_volatile() {
        k += 1;
    }
    if n > 0 && INSIDE.load(Relaxed) {
        let at = k.min(n - 1) / 8 * 8;
        let word = |p: *const u8| (0..8.min(n - at)).fold(0u64, |x, i| x | u64::from(p.add(at + i).read_volatile()) << (8 * i));
        compared(word(a), word(b), 8.min(n - at) as u8, pc + 31 * at);
    }
    if k == n {
        0
    } else {
        i32::from(a.add(k).read_volatile()) - i32::from(b.add(k).read_volatile())
    }
}

std::arch::global_asm!(
    ".globl memcmp",
    ".globl bcmp",
    "memcmp:",
    "bcmp:",
    "mov rcx, [rsp]",
    "jmp vmon_memcmp",
);

#[no_mangle]
unsafe extern "C" fn vmon_memcmp(a: *const u8, b: *const u8, n: usize, pc: usize) -> i32 {
    bytes_compared(a, b, n, pc)
}

struct Edges {
    seen: Vec<u8>,
    total: usize,
}

impl Edges {
    fn clear() {
        unsafe {
            for k in 0..RANGES {
                std::ptr::write_bytes(COUNTERS[k].0, 0, COUNTERS[k].1);
            }
            FRESH = 0;
        }
    }

    /// How much of what the last execution did was never seen before
    fn fresh(&mut self) -> u64 {
        unsafe {
            let mut n = FRESH;
            let mut at = 0;
            for k in 0..RANGES {
                for i in 0..COUNTERS[k].1 {
                    let c = *COUNTERS[k].0.add(i);
                    if c != 0 {
                        let bucket = match c {
                            1 => 1,
                            2 => 2,
                            3 => 4,
                            4..=7 => 8,
                            8..=15 => 16,
                            16..=31 => 32,
                            32..=127 => 64,
                            _ => 128,
                        };
                        if self.seen[at + i] & bucket == 0 {
                            self.seen[at + i] |= bucket;
                            n += 1;
                        }
                    }
                }
                at += COUNTERS[k].1;
            }
            n
        }
    }

    fn reached(&self) -> usize {
        self.seen.iter().filter(|x| **x != 0).count()
    }
}

// ---------------------------------------------------------------- programs

fn data_len(d: &Data) -> u64 {
    match d {
        Data::Lit(v) => v.len() as u64,
        Data::Gen { len, .. } => *len,
        Data::Out { len, .. } => (*len).min(4096),
    }
}

fn set_len(d: &mut Data, n: u64) {
    match d {
        Data::Lit(v) => {
            let old = v.len();
            v.resize(n as usize, if old == 0 { 0 } else { v[old / 2] });
            // more of the same, not a run of one byte
            for k in old..v.len() {
                if old > 0 {
                    v[k] = v[k % old].wrapping_add((k / old) as u8);
                }
            }
        }
        Data::Gen { len, .. } | Data::Out { len, .. } => *len = n,
    }
}

fn literal(d: &mut Data) -> Option<&mut Vec<u8>> {
    if let Data::Gen { len, .. } = d {
        if *len > 8192 {
            return None;
        }
        *d = lit(&real(d));
    }
    match d {
        Data::Lit(v) => Some(v),
        _ => None,
    }
}

const MOST_BYTES: u64 = 40_000;
const MOST_WORK: u64 = 1500;
/// Now and then, as far as a part of the time allows
const RARE_WORK: u64 = 120_000;

/// Makes of any list of calls one that the properties speak about and that
/// takes no time to speak of. None: nothing is left of it.
fn tidy(p: Program, most_work: u64) -> Option<Program> {
    let mut kinds: HashMap<u32, (K, bool)> = HashMap::new();
    let mut out = Program::new();
    let (mut bytes, mut work) = (0u64, 0u64);
    for mut op in p.ops {
        op.golden = None;
        if op.slot > 15 || out.ops.len() >= 80 {
            continue;
        }
        for d in op.d.iter_mut() {
            if data_len(d) > MOST_BYTES {
                set_len(d, MOST_BYTES / 8);
            }
            if let (K::AesEnc | K::AesDec | K::CipNew | K::DecNew, Some(v)) = (op.k, literal(d)) {
                v.resize(16, 0);
            }
            if op.k == K::Salsa {
                let n = data_len(d) / 64 * 64;
                set_len(d, n);
            }
        }
        if matches!(op.k, K::AesEnc | K::AesDec | K::CipNew | K::DecNew | K::Salsa) && matches!(op.d[0], Data::Out { .. }) {
            continue;
        }
        let n: u64 = op.d.iter().map(data_len).sum();
        let maker = match op.k {
            K::ShaNew | K::ShaUpd | K::ShaDig => K::ShaNew,
            K::MacNew | K::MacUpd | K::MacDig => K::MacNew,
            K::ScrNew | K::ScrDerive => K::ScrNew,
            K::AesNew | K::AesInit | K::AesEnc | K::AesDec => K::AesNew,
            K::CipNew | K::CipInit | K::CipWrite | K::CipFlush => K::CipNew,
            K::DecNew | K::DecInit | K::DecWrite | K::DecFlush => K::DecNew,
            K::Pbkdf2 | K::Salsa | K::Drop => op.k,
        };
        let cost = match op.k {
            K::ShaNew | K::AesNew | K::ScrNew | K::Drop => 0,
            K::ShaUpd | K::MacUpd => {
                op.a[0] = op.a[0].clamp(1, 200);
                op.a[0] * (n / 64 + 1)
            }
            K::ShaDig | K::MacDig | K::CipNew | K::DecNew => 2,
            K::MacNew => 4 + n / 64,
            K::Pbkdf2 => {
                op.a[0] = op.a[0].max(1);
                op.a[2] &= 255;
                n / 64 + op.a[0].min(1 << 30).saturating_mul(op.a[1].min(1 << 30) / 32 + 1).min(1 << 50) * 4
            }
            K::Salsa => {
                op.a[1] &= 255;
                op.a[0].min(1 << 40) * (n / 64 + 1) / 4
            }
            K::ScrDerive => {
                op.a[1] &= 255;
                n / 64 + op.a[0].min(1 << 40) / 8
            }
            K::AesInit | K::CipInit | K::DecInit => 2 + n / 1024,
            _ => n / 16 * 2 + 2,
        };
        if op.k == K::ScrDerive {
            // what the object was made with
            let made = out.ops.iter().rev().find(|o| o.slot == op.slot && o.k == K::ScrNew);
            let [r, n, p] = made.map_or([0; 3], |o| o.a);
            if scrypt_errors(r, n, p).is_empty() {
                if !cheap(r, n, p, 256) {
                    continue;
                }
                work += r * p * (4 * n + 2) + 8;
            }
        }
        let grown: u64 = n * if op.k == K::ShaUpd || op.k == K::MacUpd { op.a[0] } else { 1 };
        let made = match op.k {
            K::Pbkdf2 => op.a[1],
            K::ScrDerive => op.a[0],
            _ => 0,
        }
        .min(1 << 40);
        if bytes + grown.saturating_add(made) > MOST_BYTES || work + cost > most_work {
            continue;
        }
        bytes += grown + made;
        work += cost;
        match op.k {
            K::Pbkdf2 | K::Salsa => {}
            K::Drop => {
                if kinds.remove(&op.slot).is_none() {
                    continue;
                }
            }
            k if k == maker => {
                kinds.insert(op.slot, (maker, false));
            }
            k => match kinds.get_mut(&op.slot) {
                // nothing is said about a hash after its digest
                Some((m, done)) if *m == maker && !*done => *done = k == K::ShaDig || k == K::MacDig,
                _ => continue,
            },
        }
        out.ops.push(op);
    }
    if out.ops.is_empty() {
        None
    } else {
        Some(out)
    }
}

/// Two or three sessions over the same content, cut differently (C02).
fn recut(p: &Program, r: &mut Rng) -> Program {
    let mut out = Program::new();
    let first = match p.ops.iter().find(|o| matches!(o.k, K::ShaNew | K::MacNew)) {
        Some(o) => o.clone(),
        None => return out,
    };
    let mut content = vec![];
    for o in p.ops.iter().filter(|o| o.slot == first.slot) {
        match o.k {
            K::ShaUpd | K::MacUpd => (0..o.a[0].min(200)).for_each(|_| content.extend(real(&o.d[0]))),
            K::ShaDig | K::MacDig => break,
            _ => {}
        }
    }
    content.truncate(10_000);
    let mac = first.k == K::MacNew;
    let style = r.below(4);
    for s in 0..2 + r.below(2) as u32 {
        if mac {
            out.mac_new(s, first.d[0].clone());
        } else {
            out.sha_new(s);
        }
        let mut at = 0;
        while s > 0 && at < content.len() {
            let n = match style {
                0 => r.usize(0, content.len() - at),
                1 => *r.pick(&[1, 63, 64, 65, 55, 56]),
                2 => r.usize(0, 130),
                _ => content.len() - at - r.usize(0, (content.len() - at).min(70)),
            };
            let n = n.min(content.len() - at);
            let d = lit(&content[at..at + n]);
            if mac {
                out.mac_upd(s, d);
            } else {
                out.sha_upd(s, d);
            }
            at += n;
            if out.ops.len() > 60 {
                break;
            }
        }
        let d = lit(&content[at..]);
        if mac {
            out.mac_upd(s, d).mac_dig(s);
        } else {
            out.sha_upd(s, d).sha_dig(s);
        }
    }
    out
}

fn number(r: &mut Rng, old: u64, pairs: &[(u64, u64, u8)]) -> u64 {
    match r.below(10) {
        0 => old.wrapping_add(1 + r.below(4)),
        1 => old.saturating_sub(1 + r.below(4)),
        2 => old ^ (1 << r.below(64)),
        3 => *r.pick(&[0, 1, 2, 15, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
        4 => r.below(400),
        5 => 1 << r.below(64),
        _ if !pairs.is_empty() => {
            let (a, b, _) = *r.pick(pairs);
            let (a, b) = if r.chance(1, 2) { (a, b) } else { (b, a) };
            match r.below(4) {
                0 => a,
                1 => old.wrapping_add(a.wrapping_sub(b)),
                2 => a.wrapping_add(r.below(3)).wrapping_sub(1),
                _ if old == b => a,
                _ => old.wrapping_add(a.wrapping_sub(b)),
            }
        }
        _ => old.wrapping_mul(2),
    }
}

fn content(r: &mut Rng, v: &mut Vec<u8>, pairs: &[(u64, u64, u8)]) {
    if v.is_empty() {
        return;
    }
    let n = v.len() as u64;
    match r.below(10) {
        0 => v[r.below(n) as usize] ^= 1 << r.below(8),
        1 => v[r.below(n) as usize] = r.u64() as u8,
        2 => v[r.below(n) as usize] = *r.pick(&[0, 0xff, 0x80, 0x7f, 1, 16, 15, 17]),
        3 => {
            let (a, b) = (r.below(n) as usize, r.below(n) as usize);
            let k = r.usize(0, 32).min(v.len() - a.max(b));
            v.copy_within(a..a + k, b);
        }
        4 => {
            let a = r.below(n) as usize;
            let k = r.usize(0, 32).min(v.len() - a);
            let c = *r.pick(&[0, 0xff, 0x10, v[a]]);
            v[a..a + k].iter_mut().for_each(|x| *x = c);
        }
        _ if !pairs.is_empty() => {
            // what was compared with something else becomes that
            let (a, b, w) = *r.pick(pairs);
            let w = (w as usize).clamp(1, 8);
            let (from, to) = if r.chance(1, 2) { (b, a) } else { (a, b) };
            let big = r.chance(1, 2);
            let img = |x: u64| {
                let mut i = x.to_le_bytes()[..w].to_vec();
                if big {
                    i.reverse();
                }
                i
            };
            let (f, t) = (img(from), img(to));
            if r.chance(1, 3) {
                // what makes one the other, where it may work through
                let how = r.below(2);
                let diff = img(if how == 0 { from ^ to } else { to.wrapping_sub(from) });
                let step = if r.chance(1, 2) { w } else { 1 };
                let at = r.below(n) as usize / step * step;
                let mut carry = 0u32;
                for k in 0..w.min(v.len() - at) {
                    let k = if big { w.min(v.len() - at) - 1 - k } else { k };
                    if how == 0 {
                        v[at + k] ^= diff[k];
                    } else {
                        let x = u32::from(v[at + k]) + u32::from(diff[k]) + carry;
                        v[at + k] = x as u8;
                        carry = x >> 8;
                    }
                }
                return;
            }
            let hits: Vec<usize> = (0..(v.len() + 1).saturating_sub(w)).filter(|k| v[*k..*k + w] == f[..]).collect();
            let at = if hits.is_empty() {
                let at = match r.below(4) {
                    0 => 0,
                    1 => v.len().saturating_sub(w),
                    2 => r.below(n) as usize,
                    _ => r.below(n) as usize / w * w,
                };
                at.min(v.len().saturating_sub(w))
            } else {
                *r.pick(&hits)
            };
            let k = w.min(v.len() - at);
            v[at..at + k].copy_from_slice(&t[..k]);
        }
        _ => v.reverse(),
    }
}

fn change(p: &mut Program, other: &Program, r: &mut Rng, pairs: &[(u64, u64, u8)]) {
    let n = p.ops.len() as u64;
    if n == 0 {
        return;
    }
    let at = r.below(n) as usize;
    match r.below(16) {
        0 => {
            let op = p.ops[at].clone();
            p.ops.insert(r.usize(at, p.ops.len()), op);
        }
        1 if n > 1 => {
            p.ops.remove(at);
        }
        2 if n > 1 => {
            let b = r.below(n) as usize;
            p.ops.swap(at, b);
        }
        3 => {
            // some of another program, here
            let a = r.usize(0, other.ops.len());
            let b = r.usize(a, other.ops.len());
            let some: Vec<Op> = other.ops[a..b].to_vec();
            p.ops.splice(at..at, some);
        }
        4 => {
            p.ops.extend(other.ops.iter().cloned());
        }
        5 => {
            // a stream cut once more
            let op = &mut p.ops[at];
            if matches!(op.k, K::ShaUpd | K::MacUpd | K::CipWrite | K::DecWrite) {
                let mut second = op.clone();
                if let Some(v) = literal(&mut op.d[0]) {
                    let c = r.usize(0, v.len());
                    let rest = v.split_off(c);
                    second.d[0] = Data::Lit(rest);
                    p.ops.insert(at + 1, second);
                }
            }
        }
        6 => {
            let d: Vec<Data> = p.ops.iter().chain(&other.ops).flat_map(|o| o.d.iter().cloned()).collect();
            let op = &mut p.ops[at];
            if !op.d.is_empty() && !d.is_empty() {
                let k = r.below(op.d.len() as u64) as usize;
                op.d[k] = r.pick(&d).clone();
            }
        }
        7 => {
            let s = r.below(4) as u32;
            p.ops[at].slot = s;
        }
        8..=10 => {
            let op = &mut p.ops[at];
            if op.d.is_empty() || (op.k == K::Pbkdf2 || op.k == K::ScrDerive || op.k == K::Salsa) && r.chance(1, 2) || op.k == K::ScrNew {
                let k = r.below(3) as usize;
                op.a[k] = number(r, op.a[k], pairs);
            } else {
                let k = r.below(op.d.len() as u64) as usize;
                let n = number(r, data_len(&op.d[k]), pairs);
                set_len(&mut op.d[k], if n > MOST_BYTES { n % 300 } else { n });
            }
        }
        _ => {
            let op = &mut p.ops[at];
            if !op.d.is_empty() {
                let k = r.below(op.d.len() as u64) as usize;
                if let Some(v) = literal(&mut op.d[k]) {
                    content(r, v, pairs);
                }
            }
        }
    }
}

// -------------------------------------------------------------------- loop

pub struct Options {
    pub seed: u64,
    pub limit: Duration,
    pub stuck: Duration,
    pub journal: Option<String>,
    pub controls: u64,
}

pub fn run(prop: &Prop, o: &Options) -> Report {
    let mut rep = Report::default();
    let mut edges = Edges { seen: vec![], total: unsafe { (0..RANGES).map(|k| COUNTERS[k].1).sum() } };
    edges.seen = vec![0; edges.total];
    let start = Instant::now();
    let cut = prop.id == "C02";
    // the monitor of round trips wants a cipher and a decipher that belong together
    let monitors = if prop.id == "C11" { crate::props::spec } else { prop.monitors };
    let families = &prop.families;
    let prop = &Prop { id: prop.id, monitors, families: vec![], must_see: &[], strict_control: prop.strict_control };
    let journal = o.journal.as_ref().map(|p| std::fs::File::create(p).expect("harness: journal"));
    // 0: idle; otherwise ms + 1
    static SINCE: AtomicU64 = AtomicU64::new(0);
    let stuck = o.stuck.as_millis() as u64;
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let since = SINCE.load(Relaxed);
        if since != 0 && start.elapsed().as_millis() as u64 > since + stuck {
            println!("STUCK");
            std::process::exit(3);
        }
    });
    #[cfg(feature = "quiet")]
    {
        use std::os::fd::AsRawFd;
        crate::quiet::ready();
        crate::quiet::enter(journal.as_ref().map(|j| j.as_raw_fd())).expect("harness: filter");
    }
    let mut r = Rng::keyed(o.seed, "cover", 0);
    let mut corpus: Vec<Program> = vec![];
    let mut try_one = |p: &Program, rep: &mut Report, corpus: &mut Vec<Program>, control: bool, origin: &str| -> bool {
        if let Some(j) = &journal {
            use std::os::unix::fs::FileExt;
            let mut t = p.to_text();
            t.push_str("end\n");
            let _ = j.write_all_at(t.as_bytes(), 0);
        }
        let judged = rep.cov.judged;
        SINCE.store(start.elapsed().as_millis() as u64 + 1, Relaxed);
        Edges::clear();
        let v = runner::judge(p, prop.monitors, &mut rep.cov);
        let fresh = edges.fresh();
        SINCE.store(0, Relaxed);
        rep.evaluations += 1;
        match v {
            Verdict::Fine => {
                if rep.cov.judged > judged && rep.distinct.len() < 3_000_000 {
                    rep.distinct.insert(fingerprint(p));
                }
                if fresh > 0 {
                    corpus.push(p.clone());
                    if rep.samples.len() < 5 && corpus.len() % 97 == 5 {
                        let mut t = p.to_text().replace('\n', " ; ");
                        if t.len() > 400 {
                            t.truncate(400);
                        }
                        rep.samples.push(format!("{}: {}", origin, t));
                    }
                    if control && rep.controls < o.controls && p.ops.len() < 100 {
                        runner::control(prop, p, o.seed, rep);
                    }
                }
                true
            }
            Verdict::Bad(_, what) => {
                let (q, w) = runner::shrink(p, prop.monitors, Duration::from_secs(5));
                rep.found.push(Found {
                    family: format!("coverage-guided ({})", origin),
                    index: rep.evaluations,
                    what: if w.is_empty() { what } else { w },
                    text: q.to_text(),
                    first_text_ops: p.ops.len(),
                });
                false
            }
            Verdict::Harness(m) => {
                rep.harness_errors.push(format!("{}: {}\n{}", origin, m, p.to_text()));
                false
            }
        }
    };
    // to begin with: some of every family
    'seeds: for f in families.iter().filter(|f| !f.heavy) {
        for k in 0..40u64 {
            if start.elapsed() > o.limit / 3 {
                rep.truncated = true;
                break 'seeds;
            }
            let i = if f.count > 40 { Rng::keyed(o.seed, f.name, k).below(f.count) } else { k };
            if i >= f.count {
                break;
            }
            let p = runner::case(f, o.seed, i);
            if p.ops.len() > 400 {
                continue;
            }
            if let Some(p) = tidy(p, MOST_WORK) {
                *rep.families.entry(f.name.to_string()).or_insert((0, f.count)) = (k + 1, f.count);
                if !try_one(&p, &mut rep, &mut corpus, true, f.name) {
                    break 'seeds;
                }
            }
        }
    }
    let seeds = corpus.len();
    let mut pairs = vec![];
    let mut rare = Duration::ZERO;
    'all: while start.elapsed() < o.limit && rep.found.is_empty() && rep.harness_errors.is_empty() && !corpus.is_empty() {
        let n = corpus.len() as u64;
        let at = if r.chance(1, 2) { n - 1 - r.below(n.min(50)) } else { r.below(n) } as usize;
        let parent = corpus[at].clone();
        // what it compares
        unsafe {
            let t = &mut *std::ptr::addr_of_mut!(PAIRS);
            t.iter_mut().for_each(|x| *x = (0, 0, 0));
            if !try_one(&parent, &mut rep, &mut corpus, false, "again") {
                break 'all;
            }
            pairs.clear();
            pairs.extend(t.iter().filter(|x| x.2 != 0).copied());
        }
        for _ in 0..60 {
            let mut q = parent.clone();
            let other = corpus[r.below(corpus.len() as u64) as usize].clone();
            for _ in 0..1 + r.below(3) * r.below(3) {
                change(&mut q, &other, &mut r, &pairs);
            }
            if cut {
                q = recut(&q, &mut r);
            }
            let much = rare < start.elapsed() / 4 && r.chance(1, 4);
            let work = if much {
                RARE_WORK
            } else if r.chance(1, 20) {
                MOST_WORK
            } else {
                MOST_WORK / 10
            };
            if let Some(q) = tidy(q, work) {
                let before = start.elapsed();
                if !try_one(&q, &mut rep, &mut corpus, false, "changed") {
                    break 'all;
                }
                if much {
                    rare += start.elapsed() - before;
                }
            }
        }
    }
    if edges.reached() < 3 {
        rep.harness_errors.push(format!("only {} of {} edges seen: not instrumented?", edges.reached(), edges.total));
    }
    let comparisons = unsafe { (0..SPAN).filter(|i| HAMMING[*i] != 0 || DISTANCE[*i] != 0).count() };
    for (k, n) in [
        ("edges_in_the_crate", edges.total),
        ("edges_reached", edges.reached()),
        ("comparison_profiles", comparisons),
        ("programs_begun_with", seeds),
        ("programs_kept", corpus.len()),
    ] {
        rep.cov.bump(k, n as u64);
    }
    rep
}
