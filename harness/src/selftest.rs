//! The reference models against answers computed by OpenSSL and against the
//! vectors of the Salsa20 specification. Does not touch the code under test.

use crate::program::{generate, hex, unhex};
use crate::refimpl::{aes, golden, kdf, sha};

fn arr(s: &str) -> [u8; 16] {
    let mut b = [0; 16];
    b.copy_from_slice(&unhex(s).unwrap());
    b
}

pub fn run() -> Result<u64, String> {
    let mut n = 0;
    let mut same = |what: String, a: String, b: &str| {
        n += 1;
        if a == b {
            Ok(())
        } else {
            Err(format!("reference model: {}: {} instead of {}", what, a, b))
        }
    };
    for (seed, len, want) in golden::SELF_SHA {
        let d = generate(4, *seed, *len as usize);
        same(format!("sha256 of {} bytes", len), hex(&sha::sha256(&d)), want)?;
    }
    for (k, l, want) in golden::SELF_HMAC {
        let m = sha::hmac(&generate(4, 1, *k as usize), &generate(4, 2, *l as usize));
        same(format!("hmac {} {}", k, l), hex(&m), want)?;
    }
    for (a, b, c, want) in golden::SELF_PBKDF2 {
        let o = kdf::pbkdf2(
            &generate(4, 1, *a as usize),
            &generate(4, 2, *b as usize),
            *c,
            want.len() / 2,
        );
        same(format!("pbkdf2 {} {} {}", a, b, c), hex(&o), want)?;
    }
    for (a, b, r, nn, p, want) in golden::SELF_SCRYPT {
        let o = kdf::scrypt(
            &generate(4, 1, *a as usize),
            &generate(4, 2, *b as usize),
            *nn,
            *r as usize,
            *p as usize,
            want.len() / 2,
        );
        same(format!("scrypt {} {} {}", r, nn, p), hex(&o), want)?;
    }
    for (k, b, want) in golden::SELF_AES {
        let key = aes::RefAes::new(&unhex(k).unwrap());
        let c = key.enc(&arr(b));
        same("aes encrypt".into(), hex(&c), want)?;
        same("aes decrypt".into(), hex(&key.dec(&c)), b)?;
    }
    for (k, iv, l, want) in golden::SELF_CBC {
        let key = aes::RefAes::new(&unhex(k).unwrap());
        let c = aes::cbc_enc(&key, &arr(iv), &generate(4, 9, *l as usize));
        same(format!("cbc {}", l), hex(&c), want)?;
    }
    // Bernstein, "Salsa20 specification", section 8
    let x: Vec<u8> = vec![
        211, 159, 13, 115, 76, 55, 82, 183, 3, 117, 222, 37, 191, 187, 234, 136, 49, 237, 179, 48,
        1, 106, 178, 219, 175, 199, 166, 48, 86, 16, 179, 207, 31, 240, 32, 63, 15, 83, 93, 161,
        116, 147, 48, 113, 238, 55, 204, 36, 79, 201, 235, 79, 3, 81, 156, 47, 203, 26, 244, 243,
        88, 118, 104, 54,
    ];
    let y: Vec<u8> = vec![
        109, 42, 178, 168, 156, 240, 248, 238, 168, 196, 190, 203, 26, 110, 170, 154, 29, 29, 150,
        26, 150, 30, 235, 249, 190, 163, 251, 48, 69, 144, 51, 57, 118, 40, 152, 157, 180, 57, 27,
        94, 107, 42, 236, 35, 27, 111, 114, 114, 219, 236, 232, 135, 111, 155, 110, 18, 24, 232,
        95, 158, 179, 19, 48, 202,
    ];
    same("salsa20".into(), hex(&kdf::salsa_bytes(&x, 10)), &hex(&y))?;
    // section 8, a million applications would be slow in an interpreter; RFC
    // 7914 section 8: the Salsa20/8 core
    let x = unhex("7e879a214f3ec9867ca940e641718f26baee555b8c61c1b50df846116dcd3b1dee24f319df9b3d8514121e4b5ac5aa3276021d2909c74829edebc68db8b8c25e").unwrap();
    let y = "a41f859c6608cc993b81cacb020cef05044b2181a2fd337dfd7b1c6396682f29b4393168e3c9e6bcfe6bc5b7a06d96bae424cc102c91745c24ad673dc7618f81";
    same("salsa20/8".into(), hex(&kdf::salsa_bytes(&x, 4)), y)?;
    Ok(n + crate::errors::controls()?)
}
