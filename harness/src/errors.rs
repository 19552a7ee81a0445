//! Errors as values: what they say, judged against the causes they have.

use crate::model::{Expect, Model};
use crate::monitor::{Coverage, Monitor};
use crate::program::{Op, K};
use crate::rng::hash64;
use crate::sut::{Outcome, Said, E, SAID};
use std::collections::HashMap;
use std::sync::Mutex;

/// By type and cause, as first seen in this process
static FIRST: Mutex<Vec<(&'static str, E, Said)>> = Mutex::new(vec![]);

static PROVOKED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[derive(Default)]
pub struct ErrorMonitor {
    model: Model,
    scrypt: HashMap<u32, [u128; 3]>,
}

/// a number above all that matters
const HUGE: u128 = 1 << 100;

/// `2 ^ (16 * r)` and the like
struct Expr<'a> {
    s: &'a [u8],
    v: [u128; 3],
}

impl Expr<'_> {
    fn peek(&mut self) -> u8 {
        while self.s.first().map_or(false, |c| matches!(c, b' ' | b'`')) {
            self.s = &self.s[1..];
        }
        self.s.first().copied().unwrap_or(0)
    }

    fn sum(&mut self) -> Option<u128> {
        let mut a = self.product()?;
        loop {
            match self.peek() {
                b'+' => {
                    self.s = &self.s[1..];
                    a = a.saturating_add(self.product()?).min(HUGE);
                }
                b'-' => {
                    self.s = &self.s[1..];
                    a = a.checked_sub(self.product()?)?;
                }
                _ => return Some(a),
            }
        }
    }

    fn product(&mut self) -> Option<u128> {
        let mut a = self.power()?;
        loop {
            match self.peek() {
                b'*' => {
                    self.s = &self.s[1..];
                    a = a.saturating_mul(self.power()?).min(HUGE);
                }
                b'/' => {
                    self.s = &self.s[1..];
                    let b = self.power()?;
                    if a == HUGE {
                        return None;
                    }
                    a = a.checked_div(b)?;
                }
                _ => return Some(a),
            }
        }
    }

    fn power(&mut self) -> Option<u128> {
        let a = self.atom()?;
        if self.peek() != b'^' {
            return Some(a);
        }
        self.s = &self.s[1..];
        let b = self.power()?;
        Some(if a < 2 || b == 0 {
            if b == 0 { 1 } else { a }
        } else if b >= 100 {
            HUGE
        } else {
            (0..b).fold(1u128, |x, _| x.saturating_mul(a).min(HUGE))
        })
    }

    fn atom(&mut self) -> Option<u128> {
        let c = self.peek();
        if c == b'(' {
            self.s = &self.s[1..];
            let v = self.sum()?;
            if self.peek() != b')' {
                return None;
            }
            self.s = &self.s[1..];
            return Some(v);
        }
        let n = self.s.iter().take_while(|c| c.is_ascii_alphanumeric() || **c == b'_').count();
        let word: String = std::str::from_utf8(&self.s[..n]).ok()?.replace('_', "");
        self.s = &self.s[n..];
        match word.as_str() {
            "r" => Some(self.v[0]),
            "n" => Some(self.v[1]),
            "p" => Some(self.v[2]),
            "one" => Some(1),
            "two" => Some(2),
            "zero" => Some(0),
            w => w.parse().ok().map(|x: u128| x.min(HUGE)),
        }
    }
}

/// The parameter a text is about: 0 for `r`, 1 for `n`, 2 for `p`
fn about(text: &str) -> Option<usize> {
    text.split(|c: char| !c.is_ascii_alphanumeric())
        .find_map(|w| "rnp".find(&w.to_lowercase()).filter(|_| w.len() == 1))
}

/// Whether a text such as "`n` must be less than 2 ^ (16 * r)" is true
pub fn holds(text: &str, v: [u128; 3]) -> Option<bool> {
    let t = text.to_lowercase();
    let x = v[about(&t)?];
    if t.contains("power of two") || t.contains("power of 2") {
        return Some(x.is_power_of_two());
    }
    let cmp: [(&str, fn(u128, u128) -> bool); 11] = [
        ("larger than ", |x, y| x > y),
        ("greater than ", |x, y| x > y),
        ("more than ", |x, y| x > y),
        ("at least ", |x, y| x >= y),
        ("less than or equal to ", |x, y| x <= y),
        ("at most ", |x, y| x <= y),
        ("less than ", |x, y| x < y),
        ("smaller than ", |x, y| x < y),
        ("below ", |x, y| x < y),
        ("above ", |x, y| x > y),
        (" positive", |x, _| x > 0),
    ];
    for (words, f) in cmp {
        if let Some(at) = t.find(words) {
            // what is said the other way round is not understood
            if ["not ", "or equal to "].iter().any(|w| t[..at].ends_with(w) || t[at + words.len()..].starts_with(w)) {
                return None;
            }
            let y = if words == " positive" {
                0
            } else {
                let mut e = Expr { s: t[at + words.len()..].as_bytes(), v };
                let y = e.sum()?;
                if !matches!(e.peek(), 0 | b'.' | b',' | b';') {
                    return None;
                }
                y
            };
            return Some(f(x, y));
        }
    }
    None
}

/// The numbers in a text
fn numbers(text: &str) -> Vec<u64> {
    text.split(|c: char| !c.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect()
}

fn same_words(a: &Said, b: &Said) -> bool {
    a.debug == b.debug && a.pretty == b.pretty && a.display == b.display && a.description == b.description && a.sources == b.sources
}

fn check(e: &E, s: &Said) -> Result<(), String> {
    let no = |what: String| Err(format!("the {} for {:?} {}", s.of, e, what));
    let texts = [
        ("Debug", &s.debug),
        ("Display", &s.display),
        ("Display with #", &s.pretty[0]),
        ("Debug with #", &s.pretty[1]),
        ("description", &s.description),
    ];
    for (name, t) in texts {
        if t.trim().is_empty() {
            return no(format!("has an empty {} form", name));
        }
    }
    if !s.display.contains(s.description.trim()) {
        return no(format!("is printed as {:?}, which leaves out its description {:?}", s.display, s.description));
    }
    if s.sources.len() >= 10 {
        return no("has no end of sources".into());
    }
    if !s.equal {
        return no("does not equal itself".into());
    }
    for (other, equal) in &s.kept {
        if *equal != (other == e) {
            return no(format!("{} that for {:?}", if *equal { "equals" } else { "does not equal" }, other));
        }
    }
    if let Some(i) = &s.inner {
        if !s.display.contains(i.description.trim()) {
            return no(format!("is printed as {:?}, which leaves out what is inside: {:?}", s.display, i.description));
        }
        check(e, i)?;
    }
    let mut first = FIRST.lock().unwrap_or_else(|p| p.into_inner());
    for (of, cause, said) in first.iter().filter(|x| x.0 == s.of) {
        if cause == e {
            if !same_words(said, s) {
                return no(format!("says {:?}, {:?} this time, {:?}, {:?} before", s.display, s.debug, said.display, said.debug));
            }
        } else if said.display == s.display || said.debug == s.debug {
            return no(format!("says {:?} as a {} for {:?} does", s.display, of, cause));
        } else {
            // of two texts only one of which speaks of a thing, it is the one
            // that has to
            for (word, whose) in [("padding", E::InvalidPadding), ("initialized", E::NotInitialized), ("key", E::InvalidKeySize)] {
                let (a, b) = (s.description.to_lowercase().contains(word), said.description.to_lowercase().contains(word));
                if a != b && (a && *cause == whose || b && *e == whose) {
                    return no(format!("says {:?}, and {:?} for {:?}", s.description, said.description, cause));
                }
            }
        }
    }
    if first.iter().all(|x| x.0 != s.of || x.1 != *e) {
        let mut s = s.clone();
        s.kept.clear();
        first.push((s.of, e.clone(), s));
    }
    Ok(())
}

fn scrypt_text(e: &E, text: &str, v: [u128; 3], cov: &mut Coverage) -> Result<(), String> {
    let which = match e {
        E::RSmall => 0,
        E::NSmall | E::NPow2 | E::NLarge => 1,
        E::PSmall | E::PLarge => 2,
        _ => return Ok(()),
    };
    if about(text).map_or(false, |x| x != which) {
        return Err(format!("{:?} says {:?}, as if it were about another parameter", e, text));
    }
    match holds(text, v) {
        Some(true) => Err(format!("{:?} says {:?}, which was so: r={} n={} p={}", e, text, v[0], v[1], v[2])),
        Some(false) => {
            cov.bump("limits_told_and_broken", 1);
            Ok(())
        }
        None => {
            cov.bump("limits_not_understood", 1);
            Ok(())
        }
    }
}

/// What the type says for a cause, if it was seen
fn text_of(of: &str, e: &E) -> Option<String> {
    let first = FIRST.lock().unwrap_or_else(|p| p.into_inner());
    first.iter().find(|x| x.0 == of && x.1 == *e).map(|x| x.2.description.clone())
}

impl Monitor for ErrorMonitor {
    fn event(&mut self, op: &Op, d: &[Vec<u8>], out: &Outcome, cov: &mut Coverage) -> Result<(), String> {
        let said = SAID.try_with(|s| s.take()).ok().flatten();
        if !PROVOKED.swap(true, std::sync::atomic::Ordering::SeqCst) {
            // so that every text is known from the start; a family says the
            // same to be judged
            let mut m: Vec<Box<dyn Monitor>> = vec![Box::new(ErrorMonitor::default())];
            let _ = crate::exec::run(&provoke(), &mut m, &mut Coverage::default());
        }
        let want = self.model.step(op, d);
        if op.k == K::ScrNew {
            self.scrypt.insert(op.slot, op.a.map(|x| x as usize as u128));
        }
        let v = self.scrypt.get(&op.slot).copied().unwrap_or([1, 2, 1]);
        let len = d.first().map_or(0, |v| v.len().min(200)) as u64;
        let class = hash64(out.class().as_bytes());
        match out {
            Outcome::Err(e) => {
                cov.judged += 1;
                cov.states.insert(class);
                cov.transitions.insert(class ^ ((op.k as u64) << 56) ^ len.wrapping_mul(0x9e37_79b9_7f4a_7c15));
                if !matches!(want, Expect::Open) {
                    want.judge(out)?;
                }
                let Some(said) = said else { return Ok(()) };
                check(e, &said)?;
                cov.bump("errors_read", 1);
                if op.k == K::ScrDerive {
                    scrypt_text(e, &said.description, v, cov)?;
                }
                if *e == E::InvalidKeySize {
                    let bits = 8 * d[0].len() as u64;
                    if numbers(&said.description).contains(&bits) {
                        return Err(format!("a key of {} bits was refused with {:?}", bits, said.description));
                    }
                }
            }
            // what was accepted breaks no limit that an error tells of
            Outcome::Bytes(_) if op.k == K::ScrDerive => {
                for e in [E::RSmall, E::NSmall, E::NPow2, E::PSmall, E::NLarge, E::PLarge] {
                    if let Some(t) = text_of("ScryptError", &e) {
                        if holds(&t, v) == Some(false) {
                            return Err(format!("r={} n={} p={} was accepted, but {:?} says {:?}", v[0], v[1], v[2], e, t));
                        }
                        cov.judged += 1;
                        cov.bump("limits_told_and_kept", 1);
                    }
                }
            }
            Outcome::Unit if matches!(op.k, K::AesInit | K::CipInit | K::DecInit) => {
                if let Some(t) = text_of("AESError", &E::InvalidKeySize).or(text_of("DecipherError", &E::InvalidKeySize)) {
                    let (n, len) = (numbers(&t), d[0].len() as u64);
                    cov.judged += 1;
                    if !n.is_empty() && !n.contains(&len) && !n.contains(&(8 * len)) {
                        return Err(format!("a key of {} bits was accepted, which {:?} does not tell of", 8 * len, t));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
}

/// Every cause once, so that what is accepted can be judged from the start
pub fn provoke() -> crate::program::Program {
    use crate::program::{Data, Program};
    let lit = |v: &[u8]| Data::Lit(v.to_vec());
    let mut p = Program::new();
    for (k, (r, n, q)) in [(0, 2, 1), (1, 1, 1), (1, 3, 1), (1, 2, 0), (1, 1 << 16, 1), (1, 2, 1 << 30)].into_iter().enumerate() {
        p.scr_new(k as u32, r, n, q).scr_derive(k as u32, lit(b"pw"), lit(b"salt"), 8, 0);
    }
    p.aes_new(10).aes_init(10, lit(b"short"));
    p.cip_new(11, lit(&[0; 16])).cip_init(11, lit(b"short")).cip_flush(11);
    p.dec_new(12, lit(&[0; 16])).dec_init(12, lit(b"short")).dec_write(12, lit(&[1; 16]));
    p.dec_init(12, lit(&[0; 16])).dec_write(12, lit(&[1; 16])).dec_flush(12);
    p.dec_write(12, lit(&[1; 3])).dec_flush(12);
    p
}

/// What has to be noticed, is
pub fn controls() -> Result<u64, String> {
    let mut n = 0;
    for (text, v, want) in [
        ("`r` must be larger than 1", [1, 2, 1], Some(false)),
        ("`r` must be at least 1", [1, 2, 1], Some(true)),
        ("`n` must be a power of two", [1, 6, 1], Some(false)),
        ("`n` must be less than 2 ^ (16 * r)", [1, 1 << 16, 1], Some(false)),
        ("`n` must be less than 2 ^ (16 * r)", [7, 1 << 63, 1], Some(true)),
        ("`p` must be at most (2 ^ 32 - 1) / (4 * r)", [1, 2, 1 << 30], Some(false)),
        ("`p` must be at most (2 ^ 32 - 1) / (4 * r)", [3, 2, 357_913_941], Some(true)),
        ("`p` must be at most (2 ^ 32 - 1) / (4 * r)", [3, 2, 357_913_942], Some(false)),
        ("`p` must be at most (2 ^ 32 - 1) / (4 * r)", [0, 2, 1], None),
        ("`p` is wrong", [0, 2, 1], None),
        ("the block size must be positive", [0, 2, 1], None),
    ] {
        n += 1;
        if holds(text, v) != want {
            return Err(format!("errors: {:?} of {:?} is taken for {:?}", text, v, holds(text, v)));
        }
    }
    let say = |t: &str| Said {
        of: "control",
        debug: t.into(),
        display: format!("Control: {}", t),
        pretty: [format!("Control: {}", t), t.into()],
        description: t.into(),
        sources: vec![],
        equal: true,
        kept: vec![],
        inner: None,
    };
    let fine = check(&E::InvalidPadding, &say("wrong pad")).and_then(|_| check(&E::UnfinishedBlock, &say("cut short")));
    fine.map_err(|e| format!("errors: {}", e))?;
    let mut kept = say("cut short");
    kept.kept = vec![(E::InvalidPadding, true)];
    let mut unlike = say("cut short");
    unlike.equal = false;
    let mut curt = say("cut short");
    curt.display = "Control".into();
    let mut plain = say("cut short");
    plain.pretty[0].clear();
    let mut wrap = say("cut short");
    wrap.inner = Some(Box::new(say("wrong pad")));
    for (what, e, s) in [
        ("a text with data", E::InvalidPadding, say("wrong pad at 3")),
        ("the text of another cause", E::UnfinishedBlock, say("wrong pad")),
        ("an empty text", E::NotInitialized, say("")),
        ("a text about another cause", E::NotInitialized, say("no padding")),
        ("equality with another cause", E::UnfinishedBlock, kept),
        ("no equality with itself", E::UnfinishedBlock, unlike),
        ("a form without the description", E::UnfinishedBlock, curt),
        ("an empty pretty form", E::UnfinishedBlock, plain),
        ("a form without what is inside", E::UnfinishedBlock, wrap),
    ] {
        n += 1;
        if check(&e, &s).is_ok() {
            return Err(format!("errors: {} was not noticed", what));
        }
    }
    let mut cov = Coverage::default();
    for (e, t, v) in [
        (E::NSmall, "`p` must be larger than 1", [1, 1, 1]),
        (E::NSmall, "`n` must be larger than 1", [1, 2, 1]),
    ] {
        n += 1;
        if scrypt_text(&e, t, v, &mut cov).is_ok() {
            return Err(format!("errors: {:?} for {:?} was not noticed", t, v));
        }
    }
    Ok(n)
}
