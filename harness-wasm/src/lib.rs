//! The monitored workload on a platform with 32-bit usize, one case per call:
//! run.js drives it.

use std::cell::RefCell;
use std::collections::HashSet;
use vmon::families::{Family, Scale};
use vmon::monitor::{Coverage, Monitor, SpecMonitor};
use vmon::program::{fingerprint, Data, Program};
use vmon::refimpl::golden;
use vmon::rng::Rng;
use vmon::{exec, props, sut};

#[derive(Default)]
struct State {
    seed: u64,
    families: Vec<Family>,
    cov: Coverage,
    distinct: HashSet<u64>,
    program: String,
    text: String,
}

thread_local! {
    static ST: RefCell<State> = RefCell::new(State::default());
}

fn say(s: &mut State, t: String) -> u32 {
    s.text = t;
    s.text.len() as u32
}

/// Messages of more bytes than 32 bits can count the bits of
fn huge() -> Vec<Family> {
    let list: Vec<_> = golden::SHA_HUGE.iter().filter(|g| !g.4 && g.1 < 1000 && g.2 < 1 << 30).collect();
    vec![Family {
        name: "sha/huge",
        count: list.len() as u64,
        heavy: false,
        gen: Box::new(move |i, _| {
            let (kind, times, len, tail, _, want) = *list[i as usize];
            let mut p = Program::new();
            p.sha_new(0)
                .sha_rep(0, times, Data::Gen { kind, seed: 7, len })
                .golden(want)
                .sha_upd(0, Data::Gen { kind: 4, seed: 3, len: tail })
                .golden(want)
                .sha_dig(0)
                .golden(want);
            p
        }),
    }]
}

/// Number of families; the panic message of a trap is kept for `text_ptr`.
#[no_mangle]
pub extern "C" fn start(seed: u32, scale: u32) -> u32 {
    std::panic::set_hook(Box::new(|info| {
        let inside = sut::running();
        let m = format!("{} {}", if inside { "CODE" } else { "HARNESS" }, info);
        ST.with(|s| {
            // a case runs without the state borrowed
            if let Ok(mut s) = s.try_borrow_mut() {
                s.text = m;
            }
        });
    }));
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let scale = [Scale::Mini, Scale::Medium][scale as usize];
        s.seed = u64::from(seed);
        s.families = props::prop("C20", scale).expect("harness: property").families;
        s.families.extend(huge());
        s.families.len() as u32
    })
}

#[no_mangle]
pub extern "C" fn text_ptr() -> *const u8 {
    ST.with(|s| s.borrow().text.as_ptr())
}

#[no_mangle]
pub extern "C" fn text_len() -> u32 {
    ST.with(|s| s.borrow().text.len() as u32)
}

#[no_mangle]
pub extern "C" fn family_name(f: u32) -> u32 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let n = s.families[f as usize].name.to_string();
        say(&mut s, n)
    })
}

#[no_mangle]
pub extern "C" fn family_count(f: u32) -> u32 {
    ST.with(|s| s.borrow().families[f as usize].count as u32)
}

/// The program of the last case, for the replay file
#[no_mangle]
pub extern "C" fn last_program() -> u32 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let t = s.program.clone();
        say(&mut s, t)
    })
}

/// 0: as specified, 1: not (text says how). `corrupt` = 1 + number of the call
/// whose outcome is shown to the monitor falsified; 0: none.
#[no_mangle]
pub extern "C" fn run_case(f: u32, index: u32, corrupt: u32) -> u32 {
    let p = ST.with(|s| {
        let mut s = s.borrow_mut();
        let fam = &s.families[f as usize];
        let mut r = Rng::keyed(s.seed, fam.name, u64::from(index));
        let p = (fam.gen)(u64::from(index), &mut r);
        s.program = p.to_text();
        s.text.clear();
        p
    });
    let mut cov = Coverage::default();
    let mut m: Vec<Box<dyn Monitor>> = vec![Box::new(SpecMonitor::default())];
    let how = |o: &sut::Outcome| exec::corrupt(o, u64::from(corrupt));
    let fault: Option<(usize, &dyn Fn(&sut::Outcome) -> sut::Outcome)> = if corrupt > 0 {
        Some((corrupt as usize - 1, &how))
    } else {
        None
    };
    let v = exec::run_with(&p, &mut m, &mut cov, fault);
    ST.with(|s| {
        let mut s = s.borrow_mut();
        if corrupt == 0 {
            if cov.judged > 0 {
                s.distinct.insert(fingerprint(&p));
            }
            s.cov.merge(cov);
        }
        match v {
            Ok(()) => 0,
            Err(v) => {
                say(&mut s, v.what);
                1
            }
        }
    })
}

/// 1 when a trap happened inside a call of the crate
#[no_mangle]
pub extern "C" fn in_call() -> u32 {
    u32::from(sut::running())
}

/// Coverage so far, as JSON
#[no_mangle]
pub extern "C" fn coverage() -> u32 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let calls: Vec<String> = s
            .cov
            .by_call
            .iter()
            .map(|((a, b), n)| format!("\"{} -> {}\":{}", a, b, n))
            .collect();
        let t = format!(
            "{{\"usize_bits\":{},\"distinct_nontrivial\":{},\"events\":{},\"judged\":{},\"model_states\":{},\"transitions\":{},\"outcomes\":{{{}}}}}",
            usize::BITS,
            s.distinct.len(),
            s.cov.events,
            s.cov.judged,
            s.cov.states.len(),
            s.cov.transitions.len(),
            calls.join(",")
        );
        say(&mut s, t)
    })
}
