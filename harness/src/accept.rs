//! Which parameter sets does scrypt refuse? Each is tried in a child process
//! that has little memory and little time: whatever asks for more than that has
//! been accepted.

use crate::rng::Rng;
use dumb_crypto::scrypt::Scrypt;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn setrlimit(what: i32, limit: *const [u64; 2]) -> i32;
    fn alarm(seconds: u32) -> u32;
    fn close(fd: i32) -> i32;
    fn _exit(code: i32) -> !;
}

const MOST: u64 = (1 << 30) - 1;
const MEMORY: u64 = 192 << 20;

#[derive(Default)]
pub struct Seen {
    pub tried: u64,
    pub returned: u64,
    pub no_memory: u64,
    pub time: u64,
    pub samples: Vec<String>,
    pub found: Option<String>,
}

/// r, n, p within the limits
fn cases(seed: u64, dense: u64, random: u64) -> Vec<[u64; 3]> {
    let mut r = Rng::keyed(seed, "accept", 0);
    let mut v = vec![];
    for b in 1..=dense {
        let most = MOST / b;
        v.push([b, 2, most]);
        if b % 4 == 0 {
            v.push([b, 1 << 16, most - r.below(most.min(5))]);
        }
        let top = (16 * b).min(64) - 1;
        v.push([b, 1 << top, 1]);
    }
    for k in 0..30 {
        for d in -3i64..=3 {
            let b = ((1i64 << k) + d).clamp(1, MOST as i64) as u64;
            for e in [0, 1, 2] {
                v.push([b, 1 << r.range(1, (16 * b).min(64) - 1), (MOST / b).saturating_sub(e).max(1)]);
            }
            // and the other way round
            v.push([MOST / b, 1 << r.range(1, (16 * (MOST / b)).min(64) - 1), b.min(MOST / (MOST / b))]);
        }
    }
    for b in [1u64, 2, 3, 4, 5, 8, 100, MOST] {
        for k in 1..(16 * b).min(64) {
            v.push([b, 1 << k, MOST / b]);
            v.push([b, 1 << k, 1]);
        }
    }
    for _ in 0..random {
        let (j, k) = (r.range(1, 30), r.range(1, 30));
        let b = r.range(1, 1 << j).min(MOST);
        let p = r.range(1, (MOST / b).min(1 << k));
        v.push([b, 1 << r.range(1, (16 * b).min(64) - 1), p]);
    }
    // those that neither end nor fail at once tell nothing more
    v.retain(|&[b, n, p]| {
        let lanes = b.saturating_mul(p).saturating_mul(128);
        let work = n.saturating_mul(b).saturating_mul(p);
        lanes > MEMORY || lanes < 1 << 16 && (n.saturating_mul(24) > MEMORY || work < 1 << 12)
    });
    v
}

/// Part `part` of `parts`
pub fn run(seed: u64, dense: u64, random: u64, part: usize, parts: usize) -> Seen {
    let mut seen = Seen::default();
    // else every failed allocation is told with all its callers
    std::env::set_var("RUST_BACKTRACE", "0");
    for [r, n, p] in cases(seed, dense, random).into_iter().skip(part).step_by(parts) {
        // SAFETY: this process has one thread
        let mut status = 0;
        unsafe {
            let child = fork();
            if child < 0 {
                panic!("harness: fork");
            }
            if child == 0 {
                setrlimit(9, &[MEMORY; 2]);
                setrlimit(4, &[0; 2]);
                close(2);
                alarm(3);
                std::panic::set_hook(Box::new(|_| {}));
                let refused = std::panic::catch_unwind(|| {
                    let mut out = [0x5au8; 1];
                    Scrypt::new(r as usize, n as usize, p as usize).derive(b"passphrase", b"salt", &mut out).is_err()
                });
                _exit(if let Ok(true) = refused { 55 } else { 0 });
            }
            while waitpid(child, &mut status, 0) != child {}
        }
        seen.tried += 1;
        match (status & 127, status >> 8 & 255) {
            (0, 55) => {
                seen.found = Some(format!("r={} n={} p={} is within the limits, but refused", r, n, p));
                return seen;
            }
            (0, _) => seen.returned += 1,
            (14, _) => seen.time += 1,
            _ => seen.no_memory += 1,
        }
        if seen.tried % 3001 == 1 {
            seen.samples.push(format!("r={} n={} p={} not refused", r, n, p));
        }
    }
    seen
}
