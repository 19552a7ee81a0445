//! Does a call reach for anything but its arguments, memory and the processor?
//!
//! Each worker thread runs under a seccomp filter that lets through what memory
//! management, threads and locks need and turns every other system call into a
//! SIGSYS, whose handler takes a note; and functions of the C library that need
//! no system call (environment, clock) are replaced by ones that take a note.
//! Compiled with the feature `quiet` only.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static NOTE: Cell<u32> = const { Cell::new(0) };
}
/// Notes taken anywhere, and the last of them
static NOTES: AtomicU64 = AtomicU64::new(0);
static LAST: AtomicU32 = AtomicU32::new(0);
/// Calls watched
static CALLS: AtomicU64 = AtomicU64::new(0);

const GETENV: u32 = 1 << 16;
const SETENV: u32 = 2 << 16;
const CLOCK: u32 = 3 << 16;
const RANDOM: u32 = 4 << 16;
const THREAD: u32 = 5 << 16;

fn note(what: u32) {
    NOTES.fetch_add(1, Ordering::Relaxed);
    LAST.store(what, Ordering::Relaxed);
    let _ = NOTE.try_with(|n| {
        if n.get() == 0 {
            n.set(what)
        }
    });
}

fn inside() -> bool {
    INSIDE.try_with(|i| i.get()).unwrap_or(false)
}

pub fn tell(what: u32) -> String {
    match what & !0xffff {
        GETENV => "an environment variable was read".into(),
        SETENV => "an environment variable was changed".into(),
        CLOCK => "the clock was read".into(),
        RANDOM => "random numbers were fetched".into(),
        THREAD => "a thread was started".into(),
        _ => {
            let nr = (what & 0xffff) - 1;
            let name = match nr {
                0 => "read",
                1 => "write",
                2 | 257 | 437 => "open",
                20 => "writev",
                24 => "sched_yield",
                56 | 435 => "clone (a thread or process)",
                35 | 230 => "sleep",
                39 => "getpid",
                41 => "socket",
                57 | 58 => "fork",
                59 => "execve",
                79 => "getcwd",
                87 | 263 => "unlink",
                _ => "",
            };
            format!("system call {} {}", nr, name)
        }
    }
}

pub fn begin() {
    NOTE.with(|n| n.set(0));
    INSIDE.with(|i| i.set(true));
}

/// What the call that began last did
pub fn end() -> Option<String> {
    INSIDE.with(|i| i.set(false));
    CALLS.fetch_add(1, Ordering::Relaxed);
    match NOTE.with(|n| n.replace(0)) {
        0 => None,
        n => Some(format!("effect: {}", tell(n))),
    }
}

/// (calls watched, notes, last note)
pub fn seen() -> (u64, u64, u32) {
    (
        CALLS.load(Ordering::Relaxed),
        NOTES.load(Ordering::Relaxed),
        LAST.load(Ordering::Relaxed),
    )
}

// ------------------------------------------------------- the C library's side

extern "C" {
    static environ: *const *const u8;
    fn syscall(nr: i64, ...) -> i64;
    fn prctl(what: i32, ...) -> i32;
    fn dlsym(from: *const u8, name: *const u8) -> *const u8;
    fn sigaction(sig: i32, new: *const Action, old: *mut Action) -> i32;
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let mut len = 0;
    while *name.add(len) != 0 {
        len += 1;
    }
    let name = std::slice::from_raw_parts(name, len);
    if inside() && !name.starts_with(b"RUST_") {
        note(GETENV);
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let mut k = 0;
        while k < len && *(*e).add(k) == name[k] {
            k += 1;
        }
        if k == len && *(*e).add(k) == b'=' {
            return (*e).add(k + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

#[no_mangle]
pub extern "C" fn setenv(_: *const u8, _: *const u8, _: i32) -> i32 {
    if inside() {
        note(SETENV);
    }
    0
}

#[no_mangle]
pub extern "C" fn unsetenv(_: *const u8) -> i32 {
    if inside() {
        note(SETENV);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, out: *mut [i64; 2]) -> i32 {
    if inside() {
        note(CLOCK);
    }
    syscall(228, i64::from(id), out) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(to: *mut u8, len: usize, flags: u32) -> isize {
    if inside() {
        note(RANDOM);
    }
    syscall(318, to, len, u64::from(flags)) as isize
}

/// Where the filter works, a thread can be started no other way either: the
/// signal is blocked then, so that the system call ends the process.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(id: *mut u64, how: *const u8, start: *const u8, with: *mut u8) -> i32 {
    if inside() {
        note(THREAD);
        return 11;
    }
    let next = dlsym(usize::MAX as *const u8, b"pthread_create\0".as_ptr());
    let next: extern "C" fn(*mut u64, *const u8, *const u8, *mut u8) -> i32 = std::mem::transmute(next);
    next(id, how, start, with)
}

// ------------------------------------------------------------------- seccomp

#[repr(C)]
struct Action {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

#[repr(C)]
struct Step {
    code: u16,
    jt: u8,
    jf: u8,
    k: u32,
}

#[repr(C)]
struct Prog {
    len: u16,
    steps: *const Step,
}

extern "C" fn on_sigsys(_: i32, info: *const u8, context: *mut u8) {
    unsafe {
        let nr = (info.add(24) as *const i32).read_unaligned();
        note((nr as u32 & 0x7fff) + 1);
        let register = |k: usize| context.add(40 + k * 8) as *mut i64;
        // the call's result: what keeps the caller going, or "no such call"
        let result = match nr {
            1 => register(12).read_unaligned(),
            3 | 35 | 230 => 0,
            _ => -38,
        };
        register(13).write_unaligned(result);
    }
}

/// mmap, mprotect, munmap, brk, rt_sigprocmask, rt_sigreturn, mremap, madvise,
/// exit, gettid, tgkill, futex, sched_getaffinity, sigaltstack, prctl,
/// clock_gettime, set_robust_list, getrandom, rseq
const ALLOWED: [u32; 19] = [
    9, 10, 11, 12, 14, 15, 25, 28, 60, 186, 234, 202, 204, 131, 157, 228, 273, 318, 334,
];

/// The standard library fetches a thread's keys for maps once: here.
pub fn ready() {
    drop(std::collections::HashMap::<u8, u8>::new());
}

/// For the rest of this thread's life. The journal may be written.
pub fn enter(journal: Option<i32>) -> Result<(), String> {
    const LD: u16 = 0x20;
    const JEQ: u16 = 0x15;
    const RET: u16 = 0x06;
    const ALLOW: u32 = 0x7fff_0000;
    const TRAP: u32 = 0x0003_0000;
    const KILL: u32 = 0x8000_0000;
    let s = |code, jt, jf, k| Step { code, jt, jf, k };
    let mut p = vec![s(LD, 0, 0, 0)];
    for nr in ALLOWED {
        p.push(s(JEQ, 0, 1, nr));
        p.push(s(RET, 0, 0, ALLOW));
    }
    // to end the process is to be seen as that
    p.push(s(JEQ, 0, 1, 231));
    p.push(s(RET, 0, 0, KILL));
    if let Some(fd) = journal {
        p.push(s(JEQ, 0, 3, 18));
        p.push(s(LD, 0, 0, 16));
        p.push(s(JEQ, 0, 1, fd as u32));
        p.push(s(RET, 0, 0, ALLOW));
    }
    p.push(s(RET, 0, 0, TRAP));
    let prog = Prog { len: p.len() as u16, steps: p.as_ptr() };
    let a = Action { handler: on_sigsys as usize, mask: [0; 16], flags: 4 | 0x4000_0000 | 0x0800_0000, restorer: 0 };
    unsafe {
        if sigaction(31, &a, std::ptr::null_mut()) != 0 {
            return Err("sigaction".into());
        }
        if prctl(38, 1u64, 0u64, 0u64, 0u64) != 0 {
            return Err("no_new_privs".into());
        }
        if prctl(22, 2u64, &prog as *const Prog, 0u64, 0u64) != 0 {
            return Err("seccomp".into());
        }
    }
    Ok(())
}

/// Shows that each kind of effect is seen. For a thread of its own.
pub fn controls(thread: bool) -> Result<u64, String> {
    ready();
    if thread {
        enter(None)?;
    }
    let kinds: [(&str, fn()); 12] = [
        ("print", || println!("control")),
        ("file", || drop(std::hint::black_box(std::fs::metadata("/nowhere")))),
        ("open", || drop(std::hint::black_box(std::fs::File::open("/dev/null")))),
        ("sleep", || std::thread::sleep(std::time::Duration::from_micros(1))),
        ("environment", || drop(std::hint::black_box(std::env::var("HOME")))),
        ("clock", || drop(std::hint::black_box(std::time::SystemTime::now()))),
        ("monotonic clock", || drop(std::hint::black_box(std::time::Instant::now()))),
        ("socket", || drop(std::hint::black_box(std::net::UdpSocket::bind("127.0.0.1:0")))),
        ("directory", || drop(std::hint::black_box(std::env::current_dir()))),
        ("thread", || drop(std::thread::Builder::new().spawn(|| std::hint::black_box(1)))),
        ("yield", std::thread::yield_now),
        ("random", || unsafe {
            let mut b = [0u8; 4];
            getrandom(b.as_mut_ptr(), 4, 0);
        }),
    ];
    for (name, f) in kinds {
        begin();
        f();
        if end().is_none() {
            return Err(format!("control not noticed: {}", name));
        }
    }
    // and what is no effect
    begin();
    let v: Vec<Vec<u8>> = (0..100).map(|k| vec![1; 1 << (k % 24)]).collect();
    std::hint::black_box(v);
    let m = std::sync::Mutex::new(std::collections::HashMap::new());
    m.lock().unwrap().insert(1, 2);
    match end() {
        Some(e) => Err(format!("control: seen where there was none: {}", e)),
        None => Ok(kinds.len() as u64),
    }
}
