//! Which workloads and monitors decide which property.

use crate::families::{self as f, Family, Scale};
use crate::monitor::*;

pub struct Prop {
    pub id: &'static str,
    pub families: Vec<Family>,
    pub monitors: fn() -> Vec<Box<dyn Monitor>>,
    /// (call, outcome class) pairs that a run has to have observed to mean
    /// anything
    pub must_see: &'static [(&'static str, &'static str)],
    /// every corruption of an event the monitors judge has to be noticed
    pub strict_control: bool,
}

pub fn spec() -> Vec<Box<dyn Monitor>> {
    vec![Box::new(SpecMonitor::default())]
}

fn spec_inverse() -> Vec<Box<dyn Monitor>> {
    vec![
        Box::new(SpecMonitor::default()),
        Box::new(InverseMonitor::default()),
    ]
}

fn spec_round_trip() -> Vec<Box<dyn Monitor>> {
    vec![
        Box::new(SpecMonitor::default()),
        Box::new(RoundTripMonitor::default()),
    ]
}

fn chunk() -> Vec<Box<dyn Monitor>> {
    vec![Box::new(ChunkMonitor::default())]
}

fn totality() -> Vec<Box<dyn Monitor>> {
    vec![Box::new(TotalityMonitor)]
}

fn quiet() -> Vec<Box<dyn Monitor>> {
    vec![Box::new(QuietMonitor::default())]
}

fn memory() -> Vec<Box<dyn Monitor>> {
    vec![Box::new(MemoryMonitor::default())]
}

/// Everything the crate can be asked to do
pub fn all_families(scale: Scale) -> Vec<Family> {
    let mut v = vec![];
    v.extend(f::sha(scale));
    v.extend(f::mac(scale));
    v.extend(f::pbkdf2(scale));
    v.extend(f::salsa(scale));
    v.extend(f::scrypt(scale));
    v.extend(f::scrypt_params(scale));
    v.extend(f::aes(scale));
    v.extend(f::aes_keys(scale));
    v.extend(f::cbc_enc_fams(scale));
    v.extend(f::cbc_dec_fams(scale));
    v.extend(f::cbc_reject(scale));
    v.extend(f::sessions(scale));
    v.extend(f::mixed(scale));
    v
}

pub fn prop(id: &str, scale: Scale) -> Option<Prop> {
    let p = |id, families, monitors, must_see| Prop {
        id,
        families,
        monitors,
        must_see,
        strict_control: true,
    };
    Some(match id {
        "C01" => p("C01", f::sha(scale), spec, &[("sha.digest", "bytes")]),
        "C02" => Prop {
            strict_control: false,
            ..p(
                "C02",
                f::chunking(scale),
                chunk,
                &[("sha.digest", "bytes"), ("hmac.digest", "bytes")],
            )
        },
        "C03" => p("C03", f::mac(scale), spec, &[("hmac.digest", "bytes")]),
        "C04" => p(
            "C04",
            f::pbkdf2(scale),
            spec,
            &[("pbkdf2", "bytes"), ("pbkdf2", "empty")],
        ),
        "C05" => p("C05", f::salsa(scale), spec, &[("salsa20", "bytes")]),
        "C06" => p(
            "C06",
            f::scrypt(scale),
            spec,
            &[("scrypt.derive", "bytes"), ("scrypt.derive", "empty")],
        ),
        "C07" => p(
            "C07",
            f::scrypt_params(scale),
            spec,
            &[
                ("scrypt.derive", "bytes"),
                ("scrypt.derive", "err:RIsTooSmall"),
                ("scrypt.derive", "err:NIsTooSmall"),
                ("scrypt.derive", "err:NIsNotAPowerOfTwo"),
                ("scrypt.derive", "err:PIsTooSmall"),
                ("scrypt.derive", "err:NIsTooLarge"),
                ("scrypt.derive", "err:PIsTooLarge"),
            ],
        ),
        "C08" => p(
            "C08",
            f::aes(scale),
            spec_inverse,
            &[("aes.encrypt", "bytes"), ("aes.decrypt", "bytes")],
        ),
        "C09" => p(
            "C09",
            f::aes_keys(scale),
            spec,
            &[
                ("aes.init", "ok"),
                ("aes.init", "err:InvalidKeySize"),
                ("aes.encrypt", "err:NotInitialized"),
                ("aes.decrypt", "err:NotInitialized"),
                ("cipher.init", "err:InvalidKeySize"),
                ("decipher.init", "err:InvalidKeySize"),
            ],
        ),
        "C10" => p(
            "C10",
            f::cbc_enc_fams(scale),
            spec,
            &[
                ("cipher.write", "bytes"),
                ("cipher.write", "empty"),
                ("cipher.flush", "bytes"),
            ],
        ),
        "C11" => p(
            "C11",
            f::cbc_dec_fams(scale),
            spec_round_trip,
            &[
                ("decipher.write", "bytes"),
                ("decipher.write", "empty"),
                ("decipher.flush", "bytes"),
                ("decipher.flush", "empty"),
            ],
        ),
        "C12" => p(
            "C12",
            f::cbc_reject(scale),
            spec,
            &[
                ("decipher.flush", "err:UnfinishedBlock"),
                ("decipher.flush", "err:InvalidPadding"),
                ("decipher.flush", "bytes"),
                ("decipher.flush", "empty"),
            ],
        ),
        "C13" => p(
            "C13",
            f::sessions(scale),
            spec,
            &[
                ("cipher.write", "err:NotInitialized"),
                ("cipher.flush", "err:NotInitialized"),
                ("decipher.write", "err:NotInitialized"),
                ("decipher.flush", "err:UnfinishedBlock"),
                ("decipher.flush", "err:InvalidPadding"),
                ("decipher.flush", "bytes"),
                ("cipher.flush", "bytes"),
            ],
        ),
        "C14" => p("C14", f::mixed(scale), spec, &[("sha.digest", "bytes")]),
        "C15" | "C16" | "C22" => p(
            ["C15", "C16", "C22"][(id == "C16") as usize + 2 * (id == "C22") as usize],
            all_families(scale),
            match id {
                "C15" => memory,
                "C16" => totality,
                _ => quiet,
            },
            &[
                ("sha.digest", "bytes"),
                ("hmac.digest", "bytes"),
                ("pbkdf2", "bytes"),
                ("salsa20", "bytes"),
                ("scrypt.derive", "bytes"),
                ("aes.encrypt", "bytes"),
                ("aes.decrypt", "bytes"),
                ("cipher.flush", "bytes"),
                ("decipher.flush", "bytes"),
            ],
        ),
        "C23" => Prop {
            strict_control: false,
            ..p(
                "C23",
                {
                    let mut v = vec![f::fixed("x:errors/each", crate::errors::provoke)];
                    v.extend(f::scrypt_params(scale));
                    v.extend(f::aes_keys(scale));
                    v.extend(f::cbc_reject(scale));
                    v.extend(f::sessions(scale));
                    v
                },
                || vec![Box::new(crate::errors::ErrorMonitor::default())],
                &[
                    ("scrypt.derive", "bytes"),
                    ("scrypt.derive", "err:RIsTooSmall"),
                    ("scrypt.derive", "err:NIsTooSmall"),
                    ("scrypt.derive", "err:NIsNotAPowerOfTwo"),
                    ("scrypt.derive", "err:PIsTooSmall"),
                    ("scrypt.derive", "err:NIsTooLarge"),
                    ("scrypt.derive", "err:PIsTooLarge"),
                    ("aes.init", "err:InvalidKeySize"),
                    ("cipher.init", "err:InvalidKeySize"),
                    ("decipher.init", "err:InvalidKeySize"),
                    ("aes.encrypt", "err:NotInitialized"),
                    ("cipher.write", "err:NotInitialized"),
                    ("cipher.flush", "err:NotInitialized"),
                    ("decipher.write", "err:NotInitialized"),
                    ("decipher.flush", "err:UnfinishedBlock"),
                    ("decipher.flush", "err:InvalidPadding"),
                ],
            )
        },
        // the whole workload against the whole specification
        "C20" => p(
            "C20",
            all_families(scale),
            spec,
            &[
                ("sha.digest", "bytes"),
                ("hmac.digest", "bytes"),
                ("pbkdf2", "bytes"),
                ("salsa20", "bytes"),
                ("scrypt.derive", "bytes"),
                ("aes.encrypt", "bytes"),
                ("aes.decrypt", "bytes"),
                ("cipher.flush", "bytes"),
                ("decipher.flush", "bytes"),
            ],
        ),
        _ => return None,
    })
}
