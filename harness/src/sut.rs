//! The system under test at its public boundary: executes one call of the real
//! crate and reports what an outside caller can observe of it.

use crate::program::{Op, K};
use dumb_crypto::aes::{AESError, AES};
use dumb_crypto::aes_cbc::{Cipher, Decipher, DecipherError};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::{Scrypt, ScryptError};
use dumb_crypto::sha256::SHA256;
use std::error::Error;
use std::cell::RefCell;
use std::thread::LocalKey;
#[cfg(not(target_arch = "wasm32"))]
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum E {
    InvalidKeySize,
    NotInitialized,
    UnfinishedBlock,
    InvalidPadding,
    RSmall,
    NSmall,
    NPow2,
    PSmall,
    NLarge,
    PLarge,
    Other(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Unit,
    Bytes(Vec<u8>),
    Err(E),
    Panic(String),
    /// Memory outside the output, or an output that had to stay as it was, was
    /// written.
    Footprint(String),
}

impl Outcome {
    pub fn class(&self) -> &'static str {
        match self {
            Outcome::Unit => "ok",
            Outcome::Bytes(v) if v.is_empty() => "empty",
            Outcome::Bytes(_) => "bytes",
            Outcome::Err(e) => match e {
                E::InvalidKeySize => "err:InvalidKeySize",
                E::NotInitialized => "err:NotInitialized",
                E::UnfinishedBlock => "err:UnfinishedBlock",
                E::InvalidPadding => "err:InvalidPadding",
                E::RSmall => "err:RIsTooSmall",
                E::NSmall => "err:NIsTooSmall",
                E::NPow2 => "err:NIsNotAPowerOfTwo",
                E::PSmall => "err:PIsTooSmall",
                E::NLarge => "err:NIsTooLarge",
                E::PLarge => "err:PIsTooLarge",
                E::Other(_) => "err:other",
            },
            Outcome::Panic(_) => "panic",
            Outcome::Footprint(_) => "footprint",
        }
    }

    pub fn show(&self) -> String {
        match self {
            Outcome::Bytes(v) if v.len() > 80 => format!(
                "{} bytes {}..{} (sha256 {})",
                v.len(),
                crate::program::hex(&v[..24]),
                crate::program::hex(&v[v.len() - 24..]),
                crate::program::hex(&crate::refimpl::sha::sha256(v)[..8])
            ),
            Outcome::Bytes(v) => format!("bytes {}", crate::program::hex(v)),
            o => format!("{:?}", o),
        }
    }
}

/// What an error value says of itself, in every way there is.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Said {
    pub of: &'static str,
    pub debug: String,
    pub display: String,
    /// with `#`
    pub pretty: [String; 2],
    pub description: String,
    pub sources: Vec<String>,
    /// whether it equals itself
    pub equal: bool,
    /// of the values kept so far of its type, by cause: is it equal to it?
    pub kept: Vec<(E, bool)>,
    /// what the error inside says
    pub inner: Option<Box<Said>>,
}

thread_local! {
    /// of the error last returned
    pub static SAID: RefCell<Option<Said>> = const { RefCell::new(None) };
}

type Kept<T> = RefCell<Vec<(E, T)>>;

thread_local! {
    static AES_KEPT: Kept<AESError> = const { RefCell::new(vec![]) };
    static DEC_KEPT: Kept<DecipherError> = const { RefCell::new(vec![]) };
    static SCR_KEPT: Kept<ScryptError> = const { RefCell::new(vec![]) };
}

fn said<T: Error>(of: &'static str, e: &T) -> Said {
    #[allow(deprecated)]
    let mut description = e.description().to_string();
    if description.starts_with("description() is deprecated") {
        // the default one: Display says it all then
        let t = e.to_string();
        description = t.split_once(": ").map_or(t.clone(), |x| x.1.to_string());
    }
    let mut sources = vec![];
    let mut at = e.source();
    while let (Some(s), true) = (at, sources.len() < 10) {
        sources.push(s.to_string());
        at = s.source();
    }
    Said {
        of,
        debug: format!("{:?}", e),
        display: e.to_string(),
        pretty: [format!("{:#}", e), format!("{:#?}", e)],
        description,
        sources,
        equal: true,
        kept: vec![],
        inner: None,
    }
}

/// An error value must also be printable, through every way there is.
#[allow(clippy::eq_op)]
fn printable<T: Error + PartialEq>(
    of: &'static str,
    e: T,
    c: &E,
    kept: &'static LocalKey<Kept<T>>,
    inner: Option<Said>,
) {
    let mut s = said(of, &e);
    s.equal = e == e && !(e != e);
    s.inner = inner.map(Box::new);
    // (nothing is kept any more when a thread is about to be gone)
    let _ = kept.try_with(|k| {
        if let Ok(mut k) = k.try_borrow_mut() {
            s.kept = k.iter().map(|(c, o)| (c.clone(), e == *o)).collect();
            if k.iter().all(|(o, _)| o != c) && k.len() < 10 {
                k.push((c.clone(), e));
            }
        }
    });
    let _ = SAID.try_with(|x| x.replace(Some(s)));
}

fn aes_cause(e: &AESError) -> E {
    match e {
        AESError::InvalidKeySize => E::InvalidKeySize,
        AESError::NotInitialized => E::NotInitialized,
        #[allow(unreachable_patterns)]
        other => E::Other(format!("{:?}", other)),
    }
}

fn aes_err(e: AESError) -> E {
    let c = aes_cause(&e);
    printable("AESError", e, &c, &AES_KEPT, None);
    c
}

fn dec_err(e: DecipherError) -> E {
    let (c, inner) = match &e {
        DecipherError::AES(i) => (aes_cause(i), Some(said("AESError", i))),
        // The type inside cannot be named from outside the crate; its Debug
        // form is the documented name of the case.
        DecipherError::PKCS7(i) => {
            let c = match format!("{:?}", i).as_str() {
                "UnfinishedBlock" => E::UnfinishedBlock,
                "InvalidPadding" => E::InvalidPadding,
                other => E::Other(other.to_string()),
            };
            (c, Some(said("UnpadError", i)))
        }
        #[allow(unreachable_patterns)]
        other => (E::Other(format!("{:?}", other)), None),
    };
    printable("DecipherError", e, &c, &DEC_KEPT, inner);
    c
}

fn scrypt_err(e: ScryptError) -> E {
    // By name, so that the harness also builds where a variant is absent.
    let c = match format!("{:?}", e).as_str() {
        "RIsTooSmall" => E::RSmall,
        "NIsTooSmall" => E::NSmall,
        "NIsNotAPowerOfTwo" => E::NPow2,
        "PIsTooSmall" => E::PSmall,
        "NIsTooLarge" => E::NLarge,
        "PIsTooLarge" => E::PLarge,
        other => E::Other(other.to_string()),
    };
    printable("ScryptError", e, &c, &SCR_KEPT, None);
    c
}

pub enum Obj {
    Sha(SHA256),
    Mac(HMac),
    Scr(Scrypt),
    Aes(AES),
    Cip(Cipher),
    Dec(Decipher),
}

/// What is handed to the crate: copies that begin at addresses of every
/// alignment and end where their allocation ends, so that a sanitizer sees the
/// first byte read past them.
pub struct Args<'a> {
    given: &'a [Vec<u8>],
    placed: Vec<Vec<u8>>,
    off: usize,
}

const COPY_AT_MOST: usize = 1 << 25;

impl<'a> Args<'a> {
    pub fn new(op: &Op, given: &'a [Vec<u8>]) -> Args<'a> {
        let mut h = (op.k as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ u64::from(op.slot);
        for v in given {
            let mid = v.get(v.len() / 2).copied().unwrap_or(0);
            let first = v.first().copied().unwrap_or(0);
            h = (h ^ v.len() as u64 ^ u64::from(first) << 40 ^ u64::from(mid) << 50).wrapping_mul(0xff51_afd7_ed55_8ccd);
        }
        let off = (h >> 60) as usize;
        let placed = if given.iter().any(|v| v.len() > COPY_AT_MOST) {
            vec![]
        } else {
            let at = |(k, v): (usize, &Vec<u8>)| {
                let skip = (off + 5 * k) % 16;
                let mut b = Vec::with_capacity(skip + v.len());
                b.resize(skip, 0xc3);
                b.extend_from_slice(v);
                b
            };
            given.iter().enumerate().map(at).collect()
        };
        Args { given, placed, off }
    }

    pub fn get(&self) -> Vec<&[u8]> {
        if self.placed.is_empty() {
            return self.given.iter().map(|v| &v[..]).collect();
        }
        self.placed.iter().zip(self.given).map(|(p, v)| &p[p.len() - v.len()..]).collect()
    }

    /// The crate only ever gets shared references to them.
    fn kept(&self, o: Outcome) -> Outcome {
        if self.placed.is_empty() || self.get().iter().zip(self.given).all(|(a, b)| *a == &b[..]) {
            o
        } else {
            Outcome::Footprint("bytes around: an input was written".into())
        }
    }
}

const GUARD: usize = 48;
const GUARD_BYTE: u8 = 0xa5;

/// Run `f` on an output slice of `len` bytes filled with `fill` that lies
/// between guard bytes.
fn with_out(off: usize, len: usize, fill: u8, f: impl FnOnce(&mut [u8]) -> Result<(), E>) -> Outcome {
    let front = GUARD + off;
    let mut area = vec![GUARD_BYTE; len + front + GUARD];
    for b in area[front..front + len].iter_mut() {
        *b = fill;
    }
    let r = f(&mut area[front..front + len]);
    let bad = area[..front]
        .iter()
        .chain(area[front + len..].iter())
        .any(|b| *b != GUARD_BYTE);
    if bad {
        return Outcome::Footprint("bytes around the output were written".into());
    }
    match r {
        Ok(()) => {
            area.truncate(front + len);
            area.drain(..front);
            Outcome::Bytes(area)
        }
        Err(e) => {
            if area[front..front + len].iter().any(|b| *b != fill) {
                return Outcome::Footprint(format!("output written although {:?} was returned", e));
            }
            Outcome::Err(e)
        }
    }
}

/// The block where it lies
fn block(v: &[u8]) -> &[u8; 16] {
    v[..16].try_into().expect("harness: block")
}

fn bytes_or<T>(r: Result<Vec<u8>, T>, f: fn(T) -> E) -> Outcome {
    match r {
        Ok(v) => Outcome::Bytes(v),
        Err(e) => Outcome::Err(f(e)),
    }
}

fn unit_or<T>(r: Result<(), T>, f: fn(T) -> E) -> Outcome {
    match r {
        Ok(()) => Outcome::Unit,
        Err(e) => Outcome::Err(f(e)),
    }
}

/// Stateless calls
pub fn call_free(op: &Op, d: &[Vec<u8>]) -> Outcome {
    let args = Args::new(op, d);
    let d = args.get();
    let out = match op.k {
        K::Pbkdf2 => with_out(args.off, op.a[1] as usize, op.a[2] as u8, |out| {
            pbkdf2_sha256(d[0], d[1], op.a[0] as usize, out);
            Ok(())
        }),
        K::Salsa => with_out(args.off, d[0].len(), op.a[1] as u8, |out| {
            salsa20(d[0], op.a[0] as usize, out);
            Ok(())
        }),
        _ => unreachable!("harness: not a free function"),
    };
    args.kept(out)
}

/// Calls that need only a shared reference to the object
pub fn call_shared(obj: &Obj, op: &Op, d: &[Vec<u8>]) -> Outcome {
    let args = Args::new(op, d);
    let d = args.get();
    let out = match (op.k, obj) {
        (K::ScrDerive, Obj::Scr(s)) => with_out(args.off, op.a[0] as usize, op.a[1] as u8, |out| {
            s.derive(d[0], d[1], out).map_err(scrypt_err)
        }),
        (K::AesEnc, Obj::Aes(a)) => match a.encrypt(block(d[0])) {
            Ok(b) => Outcome::Bytes(b.to_vec()),
            Err(e) => Outcome::Err(aes_err(e)),
        },
        (K::AesDec, Obj::Aes(a)) => match a.decrypt(block(d[0])) {
            Ok(b) => Outcome::Bytes(b.to_vec()),
            Err(e) => Outcome::Err(aes_err(e)),
        },
        _ => unreachable!("harness: wrong slot type"),
    };
    args.kept(out)
}

pub fn create(op: &Op, d: &[Vec<u8>]) -> Obj {
    let args = Args::new(op, d);
    let d = args.get();
    match op.k {
        K::ShaNew => Obj::Sha(if op.a[0] == 1 {
            SHA256::default()
        } else {
            SHA256::new()
        }),
        K::MacNew => Obj::Mac(HMac::new(d[0])),
        K::ScrNew => Obj::Scr(Scrypt::new(
            op.a[0] as usize,
            op.a[1] as usize,
            op.a[2] as usize,
        )),
        K::AesNew => Obj::Aes(if op.a[0] == 1 {
            AES::default()
        } else {
            AES::new()
        }),
        K::CipNew => Obj::Cip(Cipher::new(*block(d[0]))),
        K::DecNew => Obj::Dec(Decipher::new(*block(d[0]))),
        _ => unreachable!("harness: not a constructor"),
    }
}

pub fn call_mut(obj: &mut Obj, op: &Op, d: &[Vec<u8>]) -> Outcome {
    let args = Args::new(op, d);
    let d = args.get();
    let out = match (op.k, obj) {
        (K::ShaUpd, Obj::Sha(s)) => {
            for _ in 0..op.a[0] {
                s.update(d[0]);
            }
            Outcome::Unit
        }
        (K::ShaDig, Obj::Sha(s)) => Outcome::Bytes(s.digest().to_vec()),
        (K::MacUpd, Obj::Mac(s)) => {
            for _ in 0..op.a[0] {
                s.update(d[0]);
            }
            Outcome::Unit
        }
        (K::MacDig, Obj::Mac(s)) => Outcome::Bytes(s.digest().to_vec()),
        (K::AesInit, Obj::Aes(a)) => unit_or(a.init(d[0]), aes_err),
        (K::CipInit, Obj::Cip(c)) => unit_or(c.init(d[0]), aes_err),
        (K::CipWrite, Obj::Cip(c)) => bytes_or(c.write(d[0]), aes_err),
        (K::CipFlush, Obj::Cip(c)) => bytes_or(c.flush(), aes_err),
        (K::DecInit, Obj::Dec(c)) => unit_or(c.init(d[0]), aes_err),
        (K::DecWrite, Obj::Dec(c)) => bytes_or(c.write(d[0]), dec_err),
        (K::DecFlush, Obj::Dec(c)) => bytes_or(c.flush(), dec_err),
        (_, obj) => return call_shared(obj, op, args.given),
    };
    args.kept(out)
}

#[cfg(target_arch = "wasm32")]
static RUNNING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Whether a call of the crate is being executed (where panics abort)
#[cfg(target_arch = "wasm32")]
pub fn running() -> bool {
    RUNNING.load(std::sync::atomic::Ordering::Relaxed)
}

#[cfg(target_arch = "wasm32")]
pub fn caught(f: impl FnOnce() -> Outcome) -> Outcome {
    RUNNING.store(true, std::sync::atomic::Ordering::Relaxed);
    let o = f();
    RUNNING.store(false, std::sync::atomic::Ordering::Relaxed);
    o
}

#[cfg(not(target_arch = "wasm32"))]
pub fn caught(f: impl FnOnce() -> Outcome) -> Outcome {
    #[cfg(feature = "quiet")]
    crate::quiet::begin();
    #[cfg(feature = "cover")]
    crate::cover::begin();
    let r = catch_unwind(AssertUnwindSafe(f));
    #[cfg(feature = "cover")]
    crate::cover::end();
    #[cfg(feature = "quiet")]
    if let Some(e) = crate::quiet::end() {
        return Outcome::Footprint(e);
    }
    match r {
        Ok(o) => o,
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            if m.contains("harness:") {
                // our own mistake must not be reported as the crate's
                std::panic::resume_unwind(Box::new(m));
            }
            Outcome::Panic(m)
        }
    }
}

#[derive(Default)]
pub struct Sut {
    slots: Vec<Option<Obj>>,
}

impl Sut {
    pub fn exec(&mut self, op: &Op, d: &[Vec<u8>]) -> Outcome {
        let s = op.slot as usize;
        if self.slots.len() <= s {
            self.slots.resize_with(s + 1, || None);
        }
        match op.k {
            K::Pbkdf2 | K::Salsa => caught(|| call_free(op, d)),
            K::Drop => caught(|| {
                self.slots[s] = None;
                Outcome::Unit
            }),
            K::ShaNew | K::MacNew | K::ScrNew | K::AesNew | K::CipNew | K::DecNew => caught(|| {
                self.slots[s] = Some(create(op, d));
                Outcome::Unit
            }),
            _ => {
                let obj = self.slots[s].as_mut().expect("harness: empty slot");
                caught(|| call_mut(obj, op, d))
            }
        }
    }
}
