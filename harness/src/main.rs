//! vmon: run monitored workloads against dumb-crypto.

mod ct;
mod mem;
mod trace;
mod work;

use std::collections::HashMap;
use std::time::{Duration, Instant};
use vmon::families::Scale;
use vmon::monitor::Coverage;
use vmon::program::Program;
use vmon::runner::{self, js, Options, Verdict};
use vmon::{props, selftest};

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

struct Args(HashMap<String, String>, Vec<String>);

impl Args {
    fn parse() -> Args {
        let mut m = HashMap::new();
        let mut rest = vec![];
        let mut it = std::env::args().skip(1);
        while let Some(a) = it.next() {
            if let Some(k) = a.strip_prefix("--") {
                m.insert(k.to_string(), it.next().unwrap_or_default());
            } else {
                rest.push(a);
            }
        }
        Args(m, rest)
    }
    fn get(&self, k: &str, default: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| default.to_string())
    }
    fn num(&self, k: &str, default: u64) -> u64 {
        self.0
            .get(k)
            .map(|v| v.parse().unwrap_or_else(|_| fail(&format!("bad --{}", k))))
            .unwrap_or(default)
    }
}

/// How often our panic hook ran
static HOOK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// What is left of the process as it was found, and what was seen on the way.
#[cfg(feature = "quiet")]
fn quiet_report(before: &(std::collections::BTreeMap<String, String>, std::path::PathBuf)) -> String {
    let n = HOOK.load(std::sync::atomic::Ordering::Relaxed);
    let _ = std::panic::catch_unwind(|| panic!("control"));
    let hook = HOOK.load(std::sync::atomic::Ordering::Relaxed) == n + 1;
    let same = *before == surroundings();
    let (calls, notes, last) = vmon::quiet::seen();
    let last = if notes > 0 { vmon::quiet::tell(last) } else { String::new() };
    format!(
        "{{\"calls_watched\":{},\"notes\":{},\"last\":{},\"panic_hook_kept\":{},\"environment_kept\":{}}}",
        calls,
        notes,
        js(&last),
        hook,
        same
    )
}

#[cfg(feature = "quiet")]
fn surroundings() -> (std::collections::BTreeMap<String, String>, std::path::PathBuf) {
    (std::env::vars().collect(), std::env::current_dir().unwrap_or_default())
}

const UB: [&str; 4] =
    ["unsafe precondition", "misaligned pointer dereference", "null pointer dereference", "null reference produced"];

fn fail(m: &str) -> ! {
    eprintln!("harness: {}", m);
    std::process::exit(2)
}

fn main() {
    let a = Args::parse();
    // outcomes, panics included, are reported by the monitors
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        HOOK.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        // what debug builds check of the contracts of unsafe code
        if UB.iter().any(|u| m.contains(u)) {
            eprintln!("UBCHECK: {}", m.replace('\n', " "));
        }
    }));
    match a.1.first().map(String::as_str) {
        Some("selftest") => match selftest::run() {
            Ok(n) => println!("{{\"selftest\":{}}}", n),
            Err(e) => fail(&e),
        },
        Some("worker") => worker(&a),
        Some("single") => single(&a),
        Some("show") => {
            let (p, _) = find_case(&a);
            print!("{}", p.to_text());
        }
        Some("replay") => replay(&a),
        Some("threads") => threads(&a),
        Some("mem") => memory(&a),
        Some("ct-hash") | Some("ct-pad") | Some("trace-hash") | Some("trace-pad") => ct(&a),
        Some("list") => list(&a),
        Some("probe") => probe(&a),
        #[cfg(all(unix, target_pointer_width = "64"))]
        Some("accept") => accept(&a),
        #[cfg(feature = "quiet")]
        Some("quiet-controls") => {
            match std::thread::spawn(|| vmon::quiet::controls(true)).join() {
                Ok(Ok(n)) => println!("{{\"noticed\":{}}}", n),
                Ok(Err(e)) => fail(&e),
                Err(_) => fail("panic"),
            }
        }
        #[cfg(feature = "cover")]
        Some("cover") => cover(&a),
        Some("work-kinds") => {
            for (k, n, what) in work::KINDS {
                println!("{}\t{}\t{}", k, n, what);
            }
        }
        Some("work") => match work::run(&a.get("kind", ""), a.num("n", 1) as usize) {
            Ok(()) => println!("done"),
            Err(e) => fail(&e),
        },
        _ => fail("usage: vmon selftest|worker|single|show|replay|list"),
    }
}

fn prop(a: &Args) -> props::Prop {
    let scale = Scale::parse(&a.get("scale", "quick")).unwrap_or_else(|| fail("bad --scale"));
    props::prop(&a.get("prop", ""), scale).unwrap_or_else(|| fail("no such property"))
}

fn options(a: &Args) -> Options {
    Options {
        seed: a.num("seed", 1),
        threads: a.num("threads", 8) as usize,
        heavy: a.num("heavy", 0) == 1,
        light: a.num("light", 1) == 1,
        stride: a.num("stride", 1),
        rotate: a.num("rotate", 0),
        rounds: a.num("rounds", 1),
        limit: Duration::from_secs(a.num("limit", 600)),
        stuck: Duration::from_secs(a.num("stuck", 60)),
        journal: a.0.get("journal").cloned(),
        controls: a.num("controls", 40),
    }
}

fn worker(a: &Args) {
    let start = Instant::now();
    let p = prop(a);
    #[cfg(feature = "quiet")]
    let before = surroundings();
    let r = runner::run(&p, &options(a));
    #[cfg(feature = "quiet")]
    if let Some(f) = a.0.get("quiet-out") {
        std::fs::write(f, quiet_report(&before)).unwrap_or_else(|e| fail(&e.to_string()));
    }
    let j = r.json(&p, start.elapsed().as_secs_f64());
    match a.0.get("out") {
        Some(f) => std::fs::write(f, j).unwrap_or_else(|e| fail(&e.to_string())),
        None => println!("{}", j),
    }
}

#[cfg(feature = "cover")]
fn cover(a: &Args) {
    let start = Instant::now();
    let p = prop(a);
    #[cfg(feature = "quiet")]
    let before = surroundings();
    let o = vmon::cover::Options {
        seed: a.num("seed", 1),
        limit: Duration::from_secs(a.num("limit", 20)),
        stuck: Duration::from_secs(a.num("stuck", 30)),
        journal: a.0.get("journal").cloned(),
        controls: a.num("controls", 10),
    };
    // a thread of its own, as some of what is watched is so for good
    let r = std::thread::scope(|s| {
        let b = std::thread::Builder::new().stack_size(64 << 20);
        b.spawn_scoped(s, || vmon::cover::run(&p, &o)).expect("harness: thread").join()
    })
    .unwrap_or_else(|_| fail("the thread panicked"));
    #[cfg(feature = "quiet")]
    if let Some(f) = a.0.get("quiet-out") {
        std::fs::write(f, quiet_report(&before)).unwrap_or_else(|e| fail(&e.to_string()));
    }
    println!("{}", r.json(&p, start.elapsed().as_secs_f64()));
}

fn find_case(a: &Args) -> (Program, props::Prop) {
    let p = prop(a);
    let name = a.get("family", "");
    let index = a.num("index", 0);
    let prog = {
        let fam = p
            .families
            .iter()
            .find(|f| f.name == name)
            .unwrap_or_else(|| fail("no such family"));
        runner::case(fam, a.num("seed", 1), index)
    };
    (prog, p)
}

fn report(v: Verdict) {
    match v {
        Verdict::Fine => println!("{{\"verdict\":\"fine\"}}"),
        Verdict::Bad(_, w) => {
            println!("{{\"verdict\":\"bad\",\"what\":{}}}", js(&w));
            std::process::exit(1);
        }
        Verdict::Harness(w) => fail(&w),
    }
}

fn single(a: &Args) {
    let (prog, p) = find_case(a);
    report(runner::judge(&prog, p.monitors, &mut Coverage::default()));
}

fn replay(a: &Args) {
    let f = a.1.get(1).cloned().unwrap_or_else(|| fail("replay FILE"));
    let text = std::fs::read_to_string(&f).unwrap_or_else(|e| fail(&e.to_string()));
    let prog = Program::parse(&text).unwrap_or_else(|e| fail(&e));
    let p = prop(a);
    report(runner::judge(&prog, p.monitors, &mut Coverage::default()));
}

fn list(a: &Args) {
    for f in prop(a).families {
        println!("{:40} {:>9}{}", f.name, f.count, if f.heavy { " heavy" } else { "" });
    }
}

/// Concurrency workload. `--mode all|cold|shared|handover`; violations are told by round, the
/// schedule being the scheduler's.
fn threads(a: &Args) {
    use vmon::threads as th;
    let start = Instant::now();
    let seed = a.num("seed", 1);
    let n = a.num("threads", 8) as usize;
    let rounds = a.num("rounds", 200);
    let calls = a.num("calls", 60);
    let limit = Duration::from_secs(a.num("limit", 20));
    let mut seen = th::Seen::default();
    let mut found = vec![];
    for (name, send, sync) in th::thread_traits() {
        if !send {
            found.push(format!("a {} cannot be moved to another thread any more", name));
        }
        if !sync {
            found.push(format!("a {} cannot be shared by threads any more", name));
        }
    }
    if found.is_empty() {
        for k in 0..rounds {
            if start.elapsed() > limit {
                break;
            }
            let s = vmon::rng::Rng::keyed(seed, "threads", k).u64();
            let r = match a.get("mode", "all").as_str() {
                "cold" => th::cold(seed.wrapping_add(k), n, &mut seen),
                "shared" => th::shared_round(s, n, calls, &mut seen),
                "places" => th::places_round(seed.wrapping_add(k), &mut seen),
                "handover" => th::handover_round(s, n, &mut seen),
                _ => th::shared_round(s, 2 + (s % (n as u64 - 1)) as usize, calls, &mut seen)
                    .and_then(|_| th::handover_round(s, 2 + (s % 3) as usize, &mut seen))
                    .and_then(|_| th::places_round(k, &mut seen)),
            };
            if let Err(e) = r {
                found.push(format!("round {}: {}", k, e));
                break;
            }
        }
    }
    let calls = seen
        .cov
        .by_call
        .iter()
        .map(|((a, b), n)| format!("{}:{}", js(&format!("{} -> {}", a, b)), n))
        .collect::<Vec<_>>()
        .join(",");
    let places: Vec<String> = seen.cov.extra.iter().map(|(a, n)| format!("{}:{}", js(a), n)).collect();
    let places = places.join(",");
    println!(
        "{{\"rounds\":{},\"events\":{},\"judged\":{},\"shared_calls\":{},\"overlapping_pairs\":{},\"overlapping_pairs_same_object\":{},\"handovers\":{},\"distinct_orders\":{},\"places\":{{{}}},\"outcomes\":{{{}}},\"samples\":{},\"found\":{},\"wall_s\":{:.2}}}",
        seen.rounds,
        seen.cov.events,
        seen.cov.judged,
        seen.calls,
        seen.overlaps,
        seen.same_object_overlaps,
        seen.handovers,
        seen.orders.len(),
        places,
        calls,
        runner::list(seen.samples.iter().map(|s| js(s))),
        runner::list(found.iter().map(|s| js(s))),
        start.elapsed().as_secs_f64()
    );
    if !found.is_empty() {
        std::process::exit(1);
    }
}

fn memory(a: &Args) {
    let start = Instant::now();
    // a thread, for a stack that is as large as the monitor of it needs
    let (seed, rounds) = (a.num("seed", 1), a.num("rounds", 1));
    let m = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || mem::run(seed, rounds))
        .expect("harness: thread")
        .join()
        .unwrap_or_else(|_| fail("the thread panicked"));
    let stack: Vec<String> = m.max_stack.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect();
    let map = |x: &std::collections::BTreeMap<&'static str, i64>| {
        let v: Vec<String> = x.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect();
        format!("{{{}}}", v.join(","))
    };
    let found = match &m.found {
        Some((what, text)) => format!("[{{\"what\":{},\"program\":{}}}]", js(what), js(text)),
        None => "[]".into(),
    };
    println!(
        "{{\"cases\":{},\"distinct\":{},\"calls\":{},\"bytes\":{},\"max_retained\":{},\"max_peak\":{},\"max_scrypt_ratio\":{:.3},\"stack_calls\":{},\"max_stack\":{{{}}},\"samples\":{},\"found\":{},\"wall_s\":{:.2}}}",
        m.cases,
        m.distinct.len(),
        m.calls,
        m.bytes,
        map(&m.max_retained),
        map(&m.max_peak),
        m.max_scrypt_ratio,
        m.stack_calls,
        stack.join(","),
        runner::list(m.samples.iter().map(|s| js(s))),
        found,
        start.elapsed().as_secs_f64()
    );
    if m.found.is_some() {
        std::process::exit(1);
    }
}

/// Under `valgrind --error-limit=no` only.
fn ct(a: &Args) {
    let start = Instant::now();
    if a.1[0].starts_with("ct-") && !ct::under_valgrind() {
        fail("not running under valgrind");
    }
    let (seed, rounds) = (a.num("seed", 1), a.num("rounds", 40));
    let r = match a.1[0].as_str() {
        "ct-pad" => ct::padding(seed, rounds),
        "ct-hash" => ct::hash_like(seed, rounds),
        "trace-pad" => trace::padding(seed, rounds),
        _ => trace::hash_like(seed, rounds),
    };
    let c = r.unwrap_or_else(|e| fail(&e));
    let kinds: Vec<String> = c.by_kind.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect();
    let profiles: Vec<String> = c.profiles.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect();
    let found = match &c.found {
        Some((what, text)) => format!("[{{\"what\":{},\"program\":{}}}]", js(what), js(text)),
        None => "[]".into(),
    };
    println!(
        "{{\"cases\":{},\"distinct\":{},\"secret_bytes\":{},\"instructions\":{},\"unstable\":{},\"by_kind\":{{{}}},\"profiles\":{{{}}},\"control_branch\":{},\"control_index\":{},\"control_clean\":{},\"samples\":{},\"found\":{},\"wall_s\":{:.2}}}",
        c.cases,
        c.distinct.len(),
        c.secret_bytes,
        c.steps,
        c.unstable,
        kinds.join(","),
        profiles.join(","),
        c.control_branch,
        c.control_index,
        c.control_clean,
        runner::list(c.samples.iter().map(|s| js(s))),
        found,
        start.elapsed().as_secs_f64()
    );
    if c.found.is_some() {
        std::process::exit(1);
    }
}

#[cfg(all(unix, target_pointer_width = "64"))]
fn accept(a: &Args) {
    let (part, parts) = (a.num("part", 0) as usize, a.num("parts", 1) as usize);
    let c = vmon::accept::run(a.num("seed", 1), a.num("dense", 100), a.num("random", 100), part, parts);
    println!(
        "{{\"tried\":{},\"returned\":{},\"no_memory\":{},\"time\":{},\"samples\":{:?},\"found\":{:?}}}",
        c.tried,
        c.returned,
        c.no_memory,
        c.time,
        c.samples,
        c.found.as_slice()
    );
}

/// Is the parameter set refused? Whatever else happens (the memory it asks for
/// is not there, it takes for ever) is for the caller to see.
fn probe(a: &Args) {
    let mut out = [0x5au8; 1];
    println!("calling");
    let (r, n, p) = (a.num("r", 1), a.num("n", 2), a.num("p", 1));
    let s = dumb_crypto::scrypt::Scrypt::new(r as usize, n as usize, p as usize);
    match s.derive(b"passphrase", b"salt", &mut out) {
        Ok(()) => println!("accepted"),
        Err(e) => println!("refused {:?}", e),
    }
}
