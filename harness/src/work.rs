//! Work: the same kind of use at a size that is doubled again and again, for a
//! tool outside that counts the instructions executed.

use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;
use std::hint::black_box;

/// (name, smallest size, what is doubled)
pub const KINDS: &[(&str, usize, &str)] = &[
    ("sha/bytes", 1 << 15, "bytes of one update"),
    ("sha/updates-1", 1 << 15, "updates of one byte"),
    ("sha/updates-64", 1 << 10, "updates of a block"),
    ("sha/updates-0", 1 << 16, "updates of no bytes"),
    ("sha/objects", 1 << 10, "objects used one after the other"),
    ("hmac/key", 1 << 15, "bytes of key"),
    ("hmac/bytes", 1 << 15, "bytes of one update"),
    ("hmac/updates-1", 1 << 15, "updates of one byte"),
    ("hmac/objects", 1 << 8, "objects used one after the other"),
    ("pbkdf2/count", 1 << 6, "iterations"),
    ("pbkdf2/length", 1 << 13, "bytes of output"),
    ("pbkdf2/password", 1 << 14, "bytes of password"),
    ("pbkdf2/salt", 1 << 14, "bytes of salt"),
    ("salsa20/rounds", 1 << 12, "double rounds"),
    ("salsa20/blocks", 1 << 10, "blocks"),
    ("scrypt/n", 1 << 7, "cost n"),
    ("scrypt/r", 1 << 4, "block size r"),
    ("scrypt/p", 1 << 4, "parallelism p"),
    ("scrypt/length", 1 << 13, "bytes of output"),
    ("scrypt/derivations", 1 << 4, "derivations of one object"),
    ("scrypt/refused", 1 << 14, "refused derivations"),
    ("aes/encrypt", 1 << 9, "blocks encrypted"),
    ("aes/decrypt", 1 << 8, "blocks decrypted"),
    ("aes/keys", 1 << 9, "keys accepted"),
    ("aes/refused", 1 << 15, "keys refused"),
    ("cipher/bytes", 1 << 14, "bytes of one write"),
    ("cipher/writes-1", 1 << 13, "writes of one byte"),
    ("cipher/writes-16", 1 << 10, "writes of a block"),
    ("cipher/writes-17", 1 << 10, "writes of 17 bytes"),
    ("cipher/writes-0", 1 << 15, "writes of no bytes"),
    ("cipher/messages", 1 << 9, "messages"),
    ("cipher/keys", 1 << 9, "changes of key"),
    ("cipher/refused", 1 << 14, "refused writes and flushes"),
    ("decipher/bytes", 1 << 14, "bytes of one write"),
    ("decipher/writes-1", 1 << 12, "writes of one byte"),
    ("decipher/writes-16", 1 << 9, "writes of a block"),
    ("decipher/writes-17", 1 << 9, "writes of 17 bytes"),
    ("decipher/writes-0", 1 << 15, "writes of no bytes"),
    ("decipher/messages", 1 << 6, "messages"),
    ("decipher/rejected", 1 << 8, "rejected messages"),
    ("decipher/refused", 1 << 14, "refused writes and flushes"),
    ("objects", 1 << 5, "objects of all kinds, all alive"),
];

pub fn run(kind: &str, n: usize) -> Result<(), String> {
    let key = [0x42u8; 32];
    let data = |len: usize| vec![0x5au8; len];
    let sha = |chunk: usize, times: usize| {
        let d = data(chunk);
        let mut s = SHA256::new();
        for _ in 0..times {
            s.update(black_box(&d));
        }
        black_box(s.digest());
    };
    let cipher = |chunk: usize, times: usize| {
        let d = data(chunk);
        let mut s = Cipher::new([7; 16]);
        s.init(&key).unwrap();
        for _ in 0..times {
            black_box(s.write(black_box(&d)).unwrap());
        }
        black_box(s.flush().unwrap());
    };
    let decipher = |chunk: usize, times: usize| {
        let d = data(chunk);
        let mut s = Decipher::new([7; 16]);
        s.init(&key[..16]).unwrap();
        for _ in 0..times {
            black_box(s.write(black_box(&d)).unwrap());
        }
        let _ = black_box(s.flush());
    };
    let pbkdf2 = |pw: usize, salt: usize, c: usize, len: usize| {
        let mut out = data(len);
        pbkdf2_sha256(&data(pw), &data(salt), c, &mut out);
        black_box(out);
    };
    let scrypt = |r: usize, cost: usize, p: usize, len: usize, times: usize| {
        let s = Scrypt::new(r, cost, p);
        let mut out = data(len);
        for _ in 0..times {
            s.derive(b"passphrase", b"salt", &mut out).unwrap();
            black_box(&out);
        }
    };
    match kind {
        "sha/bytes" => sha(n, 1),
        "sha/updates-1" => sha(1, n),
        "sha/updates-64" => sha(64, n),
        "sha/updates-0" => sha(0, n),
        "sha/objects" => (0..n).for_each(|_| sha(5, 1)),
        "hmac/key" => {
            black_box(HMac::new(&data(n)).digest());
        }
        "hmac/bytes" | "hmac/updates-1" => {
            let (chunk, times) = if kind == "hmac/bytes" { (n, 1) } else { (1, n) };
            let d = data(chunk);
            let mut s = HMac::new(&key);
            for _ in 0..times {
                s.update(black_box(&d));
            }
            black_box(s.digest());
        }
        "hmac/objects" => {
            for _ in 0..n {
                let mut s = HMac::new(black_box(&key));
                s.update(b"text");
                black_box(s.digest());
            }
        }
        "pbkdf2/count" => pbkdf2(10, 10, n, 40),
        "pbkdf2/length" => pbkdf2(10, 10, 1, n),
        "pbkdf2/password" => pbkdf2(n, 10, 2, 40),
        "pbkdf2/salt" => pbkdf2(10, n, 2, 40),
        "salsa20/rounds" => {
            let mut out = [0; 64];
            salsa20(black_box(&[3; 64]), n, &mut out);
            black_box(out);
        }
        "salsa20/blocks" => {
            let mut out = data(64 * n);
            salsa20(&data(64 * n), 4, &mut out);
            black_box(out);
        }
        "scrypt/n" => scrypt(1, n, 1, 32, 1),
        "scrypt/r" => scrypt(n, 16, 1, 32, 1),
        "scrypt/p" => scrypt(1, 16, n, 32, 1),
        "scrypt/length" => scrypt(1, 2, 1, n, 1),
        "scrypt/derivations" => scrypt(1, 16, 1, 32, n),
        "scrypt/refused" => {
            for k in 0..n {
                let (r, c, p) = [(0, 16, 1), (1 << 20, 3 << 20, 1), (8, 1 << 20, usize::MAX), (1, 1 << 16, 1)][k % 4];
                let mut out = [0; 8];
                if Scrypt::new(r, c, p).derive(b"", b"", &mut out).is_ok() {
                    return Err("accepted".into());
                }
            }
        }
        "aes/encrypt" | "aes/decrypt" => {
            let mut a = AES::new();
            a.init(&key).unwrap();
            let mut b = [1; 16];
            for _ in 0..n {
                b = if kind == "aes/encrypt" { a.encrypt(&b) } else { a.decrypt(&b) }.unwrap();
            }
            black_box(b);
        }
        "aes/keys" => {
            let mut a = AES::new();
            for k in 0..n {
                a.init(black_box(&key[..16 + k % 3 * 8])).unwrap();
            }
            black_box(a.encrypt(&[0; 16]).unwrap());
        }
        "aes/refused" => {
            let mut a = AES::new();
            for k in 0..n {
                let _ = black_box(a.init(&key[..k % 16]));
                let _ = black_box(a.encrypt(&[0; 16]));
            }
        }
        "cipher/bytes" => cipher(n, 1),
        "cipher/writes-1" => cipher(1, n),
        "cipher/writes-16" => cipher(16, n),
        "cipher/writes-17" => cipher(17, n),
        "cipher/writes-0" => cipher(0, n),
        "cipher/messages" | "cipher/keys" => {
            let mut s = Cipher::new([7; 16]);
            s.init(&key).unwrap();
            for k in 0..n {
                if kind == "cipher/keys" {
                    s.init(&key[..16 + k % 3 * 8]).unwrap();
                }
                black_box(s.write(&[1; 5]).unwrap());
                black_box(s.flush().unwrap());
            }
        }
        "cipher/refused" => {
            let mut s = Cipher::new([7; 16]);
            for k in 0..n {
                let _ = black_box(s.write(&key));
                let _ = black_box(s.flush());
                let _ = black_box(s.init(&key[..k % 16]));
            }
        }
        "decipher/bytes" => decipher(n, 1),
        "decipher/writes-1" => decipher(1, n),
        "decipher/writes-16" => decipher(16, n),
        "decipher/writes-17" => decipher(17, n),
        "decipher/writes-0" => decipher(0, n),
        "decipher/messages" => {
            let mut c = Cipher::new([7; 16]);
            let mut d = Decipher::new([7; 16]);
            c.init(&key).unwrap();
            d.init(&key).unwrap();
            for _ in 0..n {
                let mut x = c.write(&[1; 21]).unwrap();
                x.extend(c.flush().unwrap());
                black_box(d.write(&x).unwrap());
                black_box(d.flush().unwrap());
            }
        }
        "decipher/rejected" => {
            let mut d = Decipher::new([7; 16]);
            d.init(&key).unwrap();
            for _ in 0..n {
                black_box(d.write(&key).unwrap());
                let _ = black_box(d.flush());
            }
        }
        "decipher/refused" => {
            let mut s = Decipher::new([7; 16]);
            for k in 0..n {
                let _ = black_box(s.write(&key));
                let _ = black_box(s.flush());
                let _ = black_box(s.init(&key[..k % 16]));
            }
        }
        "objects" => {
            let mut all = Vec::with_capacity(n);
            for k in 0..n {
                let mut o = (SHA256::new(), HMac::new(&key), AES::new(), Cipher::new([1; 16]), Decipher::new([1; 16]));
                o.0.update(&key[..k % 32]);
                o.1.update(&key[..k % 32]);
                o.2.init(&key[..16]).unwrap();
                o.3.init(&key[..24]).unwrap();
                o.4.init(&key[..32]).unwrap();
                black_box(o.3.write(&key).unwrap());
                black_box(o.4.write(&key).unwrap());
                all.push(o);
            }
            for o in &mut all {
                black_box(o.0.digest());
                black_box(o.1.digest());
            }
            black_box(all.len());
        }
        // work that grows as the monitor is to notice
        "control" => {
            let mut v = vec![];
            for k in 0..n {
                v.insert(0, black_box(k));
            }
            black_box(v);
        }
        _ => return Err("no such kind".into()),
    }
    Ok(())
}
