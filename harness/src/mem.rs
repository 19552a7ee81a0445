//! Memory held and used by the crate, seen by a counting allocator.

use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use vmon::rng::Rng;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            // old and new exist at the same time in the worst case
            add(n as i64);
            add(-(l.size() as i64));
        }
        q
    }
}

fn live() -> i64 {
    LIVE.with(|l| l.get())
}

const SLACK: i64 = 4096;

/// Stack that is looked at, and what of it a call may use.
const STACK: usize = 1 << 20;
const STACK_ALLOWED: usize = 128 << 10;
const PAINT: u8 = 0x9d;

/// Leaves the stack below the caller's frame painted, and says from where on.
#[inline(never)]
fn paint() -> usize {
    let mut a = std::mem::MaybeUninit::<[u8; STACK]>::uninit();
    let p = a.as_mut_ptr() as *mut u64;
    for k in 0..STACK / 8 {
        unsafe { p.add(k).write_volatile(u64::from_ne_bytes([PAINT; 8])) };
    }
    std::hint::black_box(&mut a) as *mut _ as usize
}

/// How far down the paint has been touched since. Takes no room of its own
/// down there, as that would be touched when taken.
#[inline(never)]
fn deepest(from: usize) -> usize {
    let p = std::hint::black_box(from) as *const u64;
    let mut k = 0;
    while k < STACK / 8 && unsafe { p.add(k).read_volatile() } == u64::from_ne_bytes([PAINT; 8]) {
        k += 1;
    }
    STACK - 8 * k
}

#[inline(never)]
fn below<T>(f: impl FnOnce() -> T) -> T {
    f()
}

pub struct Mem {
    pub cases: u64,
    pub calls: u64,
    pub bytes: u64,
    pub max_retained: BTreeMap<&'static str, i64>,
    pub max_peak: BTreeMap<&'static str, i64>,
    pub max_scrypt_ratio: f64,
    pub max_stack: BTreeMap<&'static str, usize>,
    pub stack_calls: u64,
    pub distinct: std::collections::HashSet<u64>,
    pub samples: Vec<String>,
    pub found: Option<(String, String)>,
    what: &'static str,
    text: String,
    base: i64,
    largest: i64,
    input: i64,
    nth: u64,
    last: i64,
}

impl Mem {
    pub fn new() -> Mem {
        Mem {
            cases: 0,
            calls: 0,
            bytes: 0,
            max_retained: BTreeMap::new(),
            max_peak: BTreeMap::new(),
            max_scrypt_ratio: 0.0,
            max_stack: BTreeMap::new(),
            stack_calls: 0,
            distinct: Default::default(),
            samples: vec![],
            found: None,
            what: "",
            text: String::new(),
            base: 0,
            largest: 0,
            input: 0,
            nth: 0,
            last: -1,
        }
    }

    fn begin(&mut self, what: &'static str, text: String) {
        self.cases += 1;
        let h = vmon::rng::hash64(format!("{} {}", what, text).as_bytes());
        if self.distinct.insert(h) && self.samples.len() < 8 && !self.max_peak.contains_key(what) {
            self.samples.push(format!("{} {}", what, text));
        }
        self.max_peak.entry(what).or_insert(0);
        self.max_retained.entry(what).or_insert(0);
        self.max_stack.entry(what).or_insert(0);
        self.what = what;
        self.text = text;
        self.largest = 0;
        self.input = 0;
        self.nth = 0;
        // all our own allocations for the case have to be made before this
        self.base = live();
    }

    fn bad(&mut self, m: String) {
        if self.found.is_none() {
            self.found = Some((format!("{}: {}", self.what, m), format!("{} {}", self.what, self.text)));
        }
    }

    /// One call with `n` bytes of input; what the call returns is dropped.
    fn call<T>(&mut self, n: usize, f: impl FnOnce() -> T) -> T {
        let n = n as i64;
        self.largest = self.largest.max(n);
        self.calls += 1;
        self.bytes += n as u64;
        self.input += n;
        PEAK.with(|p| p.set(live()));
        let r = self.on_stack(n, f);
        let peak = PEAK.with(|p| p.get()) - self.base;
        let e = self.max_peak.entry(self.what).or_insert(0);
        *e = (*e).max(peak);
        let allowed = 16 * SLACK + 16 * self.largest;
        if peak > allowed {
            let m = format!(
                "a call with {} bytes of input needed {} bytes of heap (at most {} allowed: 64 KiB + 16 times the largest input)",
                n, peak, allowed
            );
            self.bad(m);
        }
        r
    }

    /// For some of the calls: how much stack they use
    fn on_stack<T>(&mut self, size: i64, f: impl FnOnce() -> T) -> T {
        self.nth += 1;
        let other = size != self.last;
        self.last = size;
        if self.nth > 6 && !(other && self.nth % 16 > 10) && self.nth % 257 != 0 {
            return f();
        }
        self.stack_calls += 1;
        let from = paint();
        let r = below(f);
        let used = deepest(from);
        let e = self.max_stack.entry(self.what).or_insert(0);
        *e = (*e).max(used);
        if used > STACK_ALLOWED {
            let m = format!("a call used {}{} bytes of stack (at most {} allowed)", if used == STACK { "at least " } else { "" }, used, STACK_ALLOWED);
            self.bad(m);
        }
        r
    }

    /// What is held between two calls does not depend on how much went through.
    fn between(&mut self) {
        let held = live() - self.base;
        let e = self.max_retained.entry(self.what).or_insert(0);
        *e = (*e).max(held);
        let allowed = 8 * SLACK + 8 * self.largest;
        if held > allowed {
            let m = format!(
                "{} bytes of heap held between calls after {} bytes of input in pieces of at most {} (at most {} allowed: 32 KiB + 8 times the largest piece)",
                held, self.input, self.largest, allowed
            );
            self.bad(m);
        }
    }

    fn end(&mut self) {
        let held = live() - self.base;
        if held > 0 {
            let m = format!("{} bytes of heap not returned when everything was dropped", held);
            self.bad(m);
        }
    }
}

fn stream(m: &mut Mem, kind: u64, chunk: usize, calls: u64, r: &mut Rng) {
    let data = r.bytes(chunk);
    let key = r.bytes([16, 24, 32][(calls % 3) as usize]);
    let mackey = r.bytes(chunk % 150);
    let iv = r.block();
    let text = format!("chunk={} calls={}", chunk, calls);
    match kind {
        0 => {
            m.begin("sha256 stream", text);
            {
                let mut s = m.call(0, SHA256::new);
                for _ in 0..calls {
                    m.call(chunk, || s.update(&data));
                    m.between();
                }
                m.call(0, || s.digest());
                m.between();
            }
            m.end();
        }
        1 => {
            m.begin("hmac stream", text);
            {
                let mut s = m.call(mackey.len(), || HMac::new(&mackey));
                for _ in 0..calls {
                    m.call(chunk, || s.update(&data));
                    m.between();
                }
                m.call(0, || s.digest());
                m.between();
            }
            m.end();
        }
        2 => {
            m.begin("cipher stream", text);
            {
                let mut s = m.call(0, || Cipher::new(iv));
                m.call(0, || s.init(&key)).unwrap();
                for k in 0..calls {
                    let _ = m.call(chunk, || s.write(&data));
                    m.between();
                    if k % 1000 == 999 {
                        let _ = m.call(0, || s.flush());
                        m.between();
                    }
                }
                let _ = m.call(0, || s.flush());
                m.between();
            }
            m.end();
        }
        3 => {
            m.begin("decipher stream", text);
            {
                let mut s = m.call(0, || Decipher::new(iv));
                m.call(0, || s.init(&key)).unwrap();
                for k in 0..calls {
                    let _ = m.call(chunk, || s.write(&data));
                    m.between();
                    if k % 100 == 99 {
                        // mostly refused
                        let _ = m.call(0, || s.flush());
                        m.between();
                    }
                }
                let _ = m.call(0, || s.flush());
                m.between();
            }
            m.end();
        }
        4 => {
            m.begin("refused writes and flushes", text);
            {
                let mut c = m.call(0, || Cipher::new(iv));
                let mut d = m.call(0, || Decipher::new(iv));
                for _ in 0..calls {
                    let _ = m.call(chunk, || c.write(&data));
                    m.between();
                    let _ = m.call(0, || c.flush());
                    m.between();
                    let _ = m.call(chunk, || d.write(&data));
                    m.between();
                    let _ = m.call(0, || d.flush());
                    m.between();
                    let _ = m.call(chunk, || c.init(&data));
                    let _ = m.call(chunk, || d.init(&data));
                    m.between();
                }
            }
            m.end();
        }
        5 => {
            m.begin("aes keys and blocks", text);
            {
                let mut a = m.call(0, AES::new);
                for k in 0..calls {
                    if k % 3 == 0 {
                        m.call(key.len(), || a.init(&key)).unwrap();
                    } else {
                        let _ = m.call(chunk, || a.init(&data));
                    }
                    m.between();
                    let _ = m.call(16, || a.encrypt(&iv));
                    let _ = m.call(16, || a.decrypt(&iv));
                    m.between();
                }
            }
            m.end();
        }
        _ => {
            // messages of the cipher through a decipher that accepts them
            m.begin("messages", text);
            {
                let mut c = m.call(0, || Cipher::new(iv));
                let mut d = m.call(0, || Decipher::new(iv));
                m.call(0, || c.init(&key)).unwrap();
                m.call(0, || d.init(&key)).unwrap();
                for _ in 0..calls {
                    let x = m.call(chunk, || c.write(&data)).unwrap_or_default();
                    let n = x.len();
                    let _ = m.call(n, || d.write(&x));
                    drop(x);
                    let x = m.call(16, || c.flush()).unwrap_or_default();
                    let n = x.len();
                    let _ = m.call(n, || d.write(&x));
                    drop(x);
                    let _ = m.call(16, || d.flush());
                    m.between();
                }
            }
            m.end();
        }
    }
}

fn kdf(m: &mut Mem, kind: u64, r: &mut Rng, big: bool) {
    let pw = r.bytes((r.clone().u64() % 300) as usize);
    let salt = r.bytes((r.clone().u64() % 300) as usize);
    match kind {
        0 => {
            let n = r.usize(0, if big { 1 << 20 } else { 4000 });
            let c = r.usize(1, if n > 5000 { 2 } else { 200 });
            let mut out = vec![0; n];
            m.begin("pbkdf2", format!("c={} length={} password={} salt={}", c, n, pw.len(), salt.len()));
            m.call(pw.len() + salt.len(), || pbkdf2_sha256(&pw, &salt, c, &mut out));
            m.end();
        }
        1 => {
            let n = 64 * r.usize(0, if big { 20_000 } else { 40 });
            let rounds = r.usize(0, 40);
            let input = r.bytes(n);
            let mut out = vec![0; n];
            m.begin("salsa20", format!("length={} rounds={}", n, rounds));
            m.call(64.min(n), || salsa20(&input, rounds, &mut out));
            m.end();
        }
        2 => {
            // refused: nothing of the size of the parameters is set up first
            let bad = [
                (0usize, 1usize << 20, 1usize),
                (1 << 20, 3 << 20, 1),
                (1, 1 << 20, 1 << 20),
                (1 << 20, 1 << 20, 1 << 20),
                (1 << 20, 1, 1),
                (1 << 20, 0, 1 << 9),
                (8, 1 << 20, 0),
                (8, (1 << 20) + 1, 8),
                (usize::MAX, 2, 1),
                (1, 2, usize::MAX),
                (1, usize::MAX, 1),
                (usize::MAX, usize::MAX, usize::MAX),
                (2, (1u64 << 40) as usize, 1),
                (1, 1 << 16, 1),
            ];
            let (a, b, c) = bad[(r.u64() % bad.len() as u64) as usize];
            let n = r.usize(0, 100);
            let mut out = vec![0; n];
            m.begin("scrypt refused", format!("r={} n={} p={}", a, b, c));
            {
                let s = m.call(0, || Scrypt::new(a, b, c));
                let e = m.call(pw.len() + salt.len(), || s.derive(&pw, &salt, &mut out));
                if e.is_ok() {
                    m.bad("accepted".into());
                }
            }
            m.end();
        }
        _ => {
            let rr = r.usize(1, if big { 16 } else { 4 });
            let n = 2usize << r.below(if big { 12 } else { 6 });
            let p = r.usize(1, 4);
            let mut out = vec![0; r.usize(0, 100)];
            m.begin("scrypt", format!("r={} n={} p={}", rr, n, p));
            // The construction needs n + O(p) rows of 128 * r bytes.
            let rows = 128 * rr as i64 * (n as i64 + 4 * p as i64 + 8);
            {
                let s = m.call(0, || Scrypt::new(rr, n, p));
                PEAK.with(|k| k.set(live()));
                let ok = m.on_stack(-1, || s.derive(&pw, &salt, &mut out).is_ok());
                let peak = PEAK.with(|k| k.get()) - m.base;
                m.calls += 1;
                m.bytes += (pw.len() + salt.len()) as u64;
                let ratio = peak as f64 / rows as f64;
                if ratio > m.max_scrypt_ratio {
                    m.max_scrypt_ratio = ratio;
                }
                if !ok {
                    m.bad("refused".into());
                }
                let allowed = rows / 10 * 26 + 16 * SLACK + 8 * (pw.len() + salt.len()) as i64;
                if peak > allowed {
                    m.bad(format!("needed {} bytes of heap, more than {}", peak, allowed));
                }
                m.between();
            }
            m.end();
        }
    }
}

pub fn run(seed: u64, scale: u64) -> Mem {
    let mut m = Mem::new();
    // A first pass, not judged, in which things that are set up once may be.
    for kind in 0..7 {
        stream(&mut m, kind, 33, 5, &mut Rng::new(seed));
    }
    for kind in 0..4 {
        kdf(&mut m, kind, &mut Rng::new(seed), false);
    }
    m = Mem { found: None, ..Mem::new() };
    for kind in 0..7u64 {
        for (chunk, calls) in [
            (0usize, 20_000u64),
            (1, 45_000),
            (5, 20_000),
            (15, 10_000),
            (16, 20_000),
            (17, 20_000),
            (63, 5_000),
            (64, 5_000),
            (65, 5_000),
            (1000, 2_000),
            (4096, 1_000),
            (65_537, 60),
            (1 << 20, 8),
        ] {
            // dearer kinds get fewer calls
            // (a byte kept for each call has to show against what is allowed)
            let less = if chunk == 1 { 1 } else { [1, 1, 2, 4, 4, 4, 8][kind as usize] };
            let calls = (calls * scale / less).max(4);
            stream(&mut m, kind, chunk, calls, &mut Rng::keyed(seed, "stream", kind));
            if m.found.is_some() {
                return m;
            }
        }
        for k in 0..60 * scale {
            let mut r = Rng::keyed(seed, "stream/random", kind << 32 | k);
            let chunk = r.usize(0, 400);
            let calls = 50 + r.below(400);
            stream(&mut m, kind, chunk, calls, &mut r);
            if m.found.is_some() {
                return m;
            }
        }
    }
    for kind in 0..4u64 {
        for k in 0..150 * scale {
            let mut r = Rng::keyed(seed, "kdf", kind << 32 | k);
            kdf(&mut m, kind, &mut r, k % 8 == 0);
            if m.found.is_some() {
                return m;
            }
        }
    }
    m
}
