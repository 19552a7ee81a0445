#!/usr/bin/env python3
"""Write harness/src/refimpl/golden.rs: answers computed by OpenSSL (through
hashlib and the openssl command line), independent of the code under test and
of the reference models. Run once; the output is committed."""

import hashlib, hmac, os, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))


def data(kind, seed, n):
    if kind == 1:
        return bytes(n)
    if kind == 6:
        return bytes([seed & 255]) * n
    if kind == 4:
        unit = bytes((i + seed) & 255 for i in range(256))
        return (unit * (n // 256 + 1))[:n]
    raise ValueError(kind)


def h(b):
    return hashlib.sha256(b).hexdigest()


out = []


def emit(s):
    out.append(s)


emit("//! Generated by tools/gen_golden.py with OpenSSL %s. Do not edit." % "3")
emit("//! `want` is the hex SHA-256 of the output bytes.")
emit("")

# --- huge messages -----------------------------------------------------
emit("/// (kind, times, len, tail, thorough only, want)")
emit("pub const SHA_HUGE: &[(u8, u64, u64, u64, bool, &str)] = &[")
for kind, times, n, tail, slow in [
    (6, 512, 1 << 20, 77, False),
    (1, 511, 1 << 20, (1 << 20) - 9, False),
    (6, 4096, 1 << 20, 1, False),
    (1, 1, (1 << 32) + 3, 5, False),
    (6, 3 * 4096, 1 << 20, 200, True),
]:
    c = hashlib.sha256()
    unit = data(kind, 7, min(n, 1 << 20))
    total = times * n
    while total > 0:
        k = min(total, len(unit))
        c.update(unit[:k])
        total -= k
    c.update(data(4, 3, tail))
    emit('    (%d, %d, %d, %d, %s, "%s"),' % (kind, times, n, tail, str(slow).lower(), h(c.digest())))
emit("];")
emit("")

emit("/// (key length, times, len, thorough only, want)")
emit("pub const HMAC_HUGE: &[(u64, u64, u64, bool, &str)] = &[")
for klen, times, n, slow in [(32, 512, 1 << 20, False), (100, 4096, 1 << 20, False)]:
    m = hmac.new(data(4, 1, klen), digestmod=hashlib.sha256)
    unit = data(4, 2, n)
    for _ in range(times):
        m.update(unit)
    emit('    (%d, %d, %d, %s, "%s"),' % (klen, times, n, str(slow).lower(), h(m.digest())))
emit("];")
emit("")

emit("/// (c, length, thorough only, want); password \"Password\", salt \"NaCl\"")
emit("pub const PBKDF2: &[(u64, u64, bool, &str)] = &[")
for c, n, slow in [(1, 20, False), (80000, 64, False), (1000003, 33, False), (16777217, 20, False)]:
    d = hashlib.pbkdf2_hmac("sha256", b"Password", b"NaCl", c, n)
    emit('    (%d, %d, %s, "%s"),' % (c, n, str(slow).lower(), h(d)))
emit("];")
emit("")


def scrypt(n, r, p, length, pw=b"pleaseletmein", salt=b"SodiumChloride"):
    mem = 128 * n * r + 128 * r * p + (1 << 22)
    o = subprocess.run(
        ["openssl", "kdf", "-keylen", str(length), "-binary",
         "-kdfopt", "hexpass:" + pw.hex(), "-kdfopt", "hexsalt:" + salt.hex(),
         "-kdfopt", "n:%d" % n, "-kdfopt", "r:%d" % r, "-kdfopt", "p:%d" % p,
         "-kdfopt", "maxmem_bytes:%d" % mem, "SCRYPT"],
        check=True, stdout=subprocess.PIPE).stdout
    assert len(o) == length
    return o


emit("/// (r, n, p, length, thorough only, want); \"pleaseletmein\", \"SodiumChloride\"")
emit("pub const SCRYPT: &[(u64, u64, u64, u64, bool, &str)] = &[")
for r, n, p, length, slow in [
    (8, 16384, 1, 64, False),
    (8, 16384, 3, 64, False),
    (1, 16384, 16, 32, False),
    (8, 1 << 17, 1, 64, False),
    (2, 1 << 20, 1, 64, False),
    (2, 1 << 22, 1, 64, False),
    (8, 1 << 20, 1, 64, True),
    (2, 1 << 25, 1, 64, True),
]:
    d = scrypt(n, r, p, length)
    if n * r < 1 << 20:
        assert d == hashlib.scrypt(b"pleaseletmein", salt=b"SodiumChloride", n=n, r=r, p=p,
                                   maxmem=1 << 30, dklen=length)
    emit('    (%d, %d, %d, %d, %s, "%s"),' % (r, n, p, length, str(slow).lower(), h(d)))
emit("];")
emit("")

# --- small vectors for the self test of the reference models --------------
emit("/// (data seed, length, hex digest); data = generate(4, seed, length)")
emit("pub const SELF_SHA: &[(u64, u64, &str)] = &[")
for n in list(range(0, 131)) + [255, 256, 1000, 4097, 70001]:
    emit('    (%d, %d, "%s"),' % (n % 7, n, h(data(4, n % 7, n))))
emit("];")
emit("")
emit("/// (key length, data length, hex mac); key seed 1, data seed 2")
emit("pub const SELF_HMAC: &[(u64, u64, &str)] = &[")
for k in [0, 1, 20, 31, 32, 33, 55, 56, 63, 64, 65, 66, 127, 128, 129, 200]:
    for n in [0, 1, 55, 56, 64, 200]:
        emit('    (%d, %d, "%s"),' % (k, n, hmac.new(data(4, 1, k), data(4, 2, n), hashlib.sha256).hexdigest()))
emit("];")
emit("")
emit("/// (password length, salt length, c, hex output)")
emit("pub const SELF_PBKDF2: &[(u64, u64, u64, &str)] = &[")
for a, b, c, n in [(0, 0, 1, 20), (8, 4, 1, 32), (8, 4, 2, 33), (64, 16, 3, 64), (65, 100, 7, 65), (200, 0, 100, 130), (3, 64, 1, 1)]:
    emit('    (%d, %d, %d, "%s"),' % (a, b, c, hashlib.pbkdf2_hmac("sha256", data(4, 1, a), data(4, 2, b), c, n).hex()))
emit("];")
emit("")
emit("/// (password length, salt length, r, n, p, hex output)")
emit("pub const SELF_SCRYPT: &[(u64, u64, u64, u64, u64, &str)] = &[")
for a, b, r, n, p, l in [(0, 0, 1, 16, 1, 64), (8, 4, 8, 1024, 2, 64), (3, 70, 1, 2, 1, 20), (65, 1, 3, 4, 5, 100), (10, 10, 2, 2048, 1, 33), (1, 1, 7, 8, 3, 8)]:
    d = scrypt(n, r, p, l, data(4, 1, a), data(4, 2, b)) if a and b else hashlib.scrypt(data(4, 1, a), salt=data(4, 2, b), n=n, r=r, p=p, dklen=l)
    emit('    (%d, %d, %d, %d, %d, "%s"),' % (a, b, r, n, p, d.hex()))
emit("];")
emit("")


def openssl_enc(alg, key, iv, msg, pad=True):
    cmd = ["openssl", "enc", "-e", "-" + alg, "-K", key.hex()]
    if iv is not None:
        cmd += ["-iv", iv.hex()]
    if not pad:
        cmd += ["-nopad"]
    return subprocess.run(cmd, input=msg, check=True, stdout=subprocess.PIPE).stdout


emit("/// (hex key, hex block, hex ECB ciphertext)")
emit("pub const SELF_AES: &[(&str, &str, &str)] = &[")
for i in range(60):
    kl = [16, 24, 32][i % 3]
    key = hashlib.sha256(b"k%d" % i).digest()[:kl]
    blk = hashlib.sha256(b"b%d" % i).digest()[:16]
    if i < 3:
        key, blk = bytes(kl), bytes(16)
    ct = openssl_enc("aes-%d-ecb" % (8 * kl), key, None, blk, False)
    emit('    ("%s", "%s", "%s"),' % (key.hex(), blk.hex(), ct.hex()))
emit("];")
emit("")
emit("/// (hex key, hex iv, message length, hex CBC ciphertext); message = generate(4, 9, length)")
emit("pub const SELF_CBC: &[(&str, &str, u64, &str)] = &[")
for i in range(51):
    kl = [16, 24, 32][i % 3]
    key = hashlib.sha256(b"K%d" % i).digest()[:kl]
    iv = hashlib.sha256(b"i%d" % i).digest()[:16]
    ct = openssl_enc("aes-%d-cbc" % (8 * kl), key, iv, data(4, 9, i))
    emit('    ("%s", "%s", %d, "%s"),' % (key.hex(), iv.hex(), i, ct.hex()))
emit("];")
emit("")

# ChaCha20/Salsa20 as such is not in OpenSSL; scrypt covers the core with 4
# double rounds. The specification's own vectors are in selftest.
path = os.path.join(HERE, "..", "harness", "src", "refimpl", "golden.rs")
with open(path, "w") as f:
    f.write("\n".join(out))
