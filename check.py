#!/usr/bin/env python3
"""check.py ID: decide one property of /repo's current working tree.

Exit 0: every execution observed had the property. Exit 1 and a line
`VIOLATION property=ID replay=PATH`: one had not. Exit 2: no answer.
VERIF_SEED seeds every random choice, VERIF_TIER is quick or thorough.
"""

import concurrent.futures
import glob
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
WASM = os.path.join(VERIF, "harness-wasm")
TARGETS = os.path.join(HARNESS, "target")
WORK = os.path.join(VERIF, "work")
GIB = 1 << 30
HOST = "x86_64-unknown-linux-gnu"

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"
QUICK = TIER == "quick"
START = time.time()


class NoAnswer(Exception):
    pass


class Violation(Exception):
    """what: one line; replay: text of the replay file"""

    def __init__(self, what, replay, stage):
        super().__init__(what)
        self.what, self.replay, self.stage = what, replay, stage


# ------------------------------------------------------------------ processes


def run(cmd, timeout, mem=None, env=None, cwd=None, stdout=None):
    """Returns (code, stdout, stderr); code is None after a timeout."""
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "MIRIFLAGS", "RUST_BACKTRACE"):
        e.pop(k, None)
    e.update(env or {})

    def limits():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))

    p = subprocess.Popen(
        cmd,
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        stdin=subprocess.DEVNULL,
        env=e,
        cwd=cwd or HARNESS,
        preexec_fn=limits,
    )
    try:
        out, err = p.communicate(timeout=timeout)
        code = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        code = None
    return code, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


def vendor():
    code, out, _ = run(["rustc", "+nightly", "--print", "sysroot"], 60)
    if code != 0:
        raise NoAnswer("no nightly toolchain")
    d = out.strip() + "/lib/rustlib/src/rust/library/vendor"
    return ["--config", 'source.crates-io.replace-with="v"', "--config", 'source.v.directory="%s"' % d]


def forget(target_dir):
    """cargo decides by time stamps whether the crate has changed; make sure
    that what is tested is what is there."""
    for pat in ("*", "*/*"):
        for d in glob.glob(os.path.join(target_dir, pat, ".fingerprint", "dumb-crypto-*")):
            shutil.rmtree(d, ignore_errors=True)


def cargo(args, target, env=None, crate=HARNESS, timeout=600):
    d = os.path.join(TARGETS if crate == HARNESS else os.path.join(crate, "target"), target)
    forget(d)
    e = {"CARGO_TARGET_DIR": d, "CARGO_NET_OFFLINE": "true"}
    e.update(env or {})
    code, out, err = run(["cargo"] + args, timeout, env=e, cwd=crate)
    if code != 0:
        raise NoAnswer("build of %s failed:\n%s" % (target, "\n".join((out + err).splitlines()[-30:])))
    return d


def build_native(profile):
    flag = ["--release"] if profile == "release" else []
    d = cargo(["build", "--offline", "-q"] + flag, "native")
    return os.path.join(d, "release" if profile == "release" else "debug", "vmon")


def build_quiet():
    d = cargo(["build", "--offline", "-q", "--release", "--features", "quiet"], "quiet")
    return os.path.join(d, "release", "vmon")


WRAPPER = os.path.join(VERIF, "tools", "rustc-cover")


def build_cover(kind=""):
    """The crate, and only it, with coverage instrumentation; None if this tree
    does not build so (the other stages build it as it is)."""
    try:
        return cover(kind)
    except NoAnswer:
        return None


def cover(kind):
    env = {"RUSTC_WRAPPER": WRAPPER}
    if kind == "asan":
        env["RUSTFLAGS"] = "-Zsanitizer=address -Cdebuginfo=1"
        args = ["+nightly", "build", "--offline", "-q", "--release", "--target", HOST, "--features", "cover"]
        return os.path.join(cargo(args, "cover-asan", env=env), HOST, "release", "vmon")
    features = "cover,quiet" if kind == "quiet" else "cover"
    flag = [] if kind == "checked" else ["--release"]
    d = cargo(["build", "--offline", "-q"] + flag + ["--features", features], "cover" + kind, env=env)
    return os.path.join(d, "release" if flag else "debug", "vmon")


def build_sanitizer(name):
    """asan links the compiler's runtime as it is; the others need all code,
    std included, instrumented."""
    extra = [] if name == "address" else ["-Zbuild-std"] + vendor()
    d = cargo(
        ["+nightly", "build", "--offline", "-q", "--release", "--target", HOST] + extra,
        name,
        env={"RUSTFLAGS": "-Zsanitizer=%s -Cdebuginfo=1" % name},
    )
    return os.path.join(d, HOST, "release", "vmon")


def build_wasm(profile):
    flag = ["--release"] if profile == "release" else []
    d = cargo(
        ["+nightly", "build", "--offline", "-q", "--target", "wasm32-unknown-unknown", "-Zbuild-std=std,panic_abort"]
        + vendor()
        + flag,
        "wasm",
        crate=WASM,
    )
    return os.path.join(d, "wasm32-unknown-unknown", "release" if profile == "release" else "debug", "vmon_wasm.wasm")


def parse_json(out, what, err=""):
    for line in reversed(out.splitlines()):
        if line.startswith("{"):
            try:
                return json.loads(line)
            except ValueError:
                break
    raise NoAnswer("%s printed no result:\n%s" % (what, "\n".join((out + err).splitlines()[-20:])))


# --------------------------------------------------------------------- result


class Result:
    """What the stages of a check observed"""

    def __init__(self, prop):
        self.prop = prop
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.stages = {}
        self.notes = []

    def add(self, name, data, distinct):
        self.evaluations += data.get("evaluations", data.get("cases", data.get("rounds", 0)))
        if distinct:
            self.distinct += distinct
        for s in data.get("samples", [])[:3]:
            if len(self.samples) < 8:
                self.samples.append("%s: %s" % (name, s))
        keep = {k: v for k, v in data.items() if k not in ("samples", "found", "harness_errors")}
        self.stages[name] = keep


def replay_file(prop, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s.txt" % (prop, hashlib.sha256((v.what + v.replay).encode()).hexdigest()[:12])
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write("# property %s, stage %s, seed %d, tier %s\n" % (prop, v.stage, SEED, TIER))
        for line in v.what.splitlines():
            f.write("# %s\n" % line)
        f.write(v.replay.rstrip("\n") + "\n")
    return p


def program_replay(prop, text, how="native release build"):
    head = "# observed in: %s\n# run again with: harness/target/native/release/vmon replay THIS_FILE --prop %s\n" % (how, prop)
    return head + (text or "")


# --------------------------------------------------------------------- stages


def in_flight(journal):
    try:
        with open(journal) as f:
            for line in f:
                w = line.split()
                if len(w) == 2 and w[1].isdigit():
                    yield w[0], int(w[1])
    except OSError:
        return


def case_text(vmon, prop, scale, seed, family, index):
    code, out, _ = run(
        [vmon, "show", "--prop", prop, "--scale", scale, "--seed", str(seed), "--family", family, "--index", str(index)], 120
    )
    return out if code == 0 else ""


def worker(res, vmon, name, prop, scale, count_distinct=True, mem=26 * GIB, timeout=850, env=None, sick=None, **opts):
    """Run the monitored workload. `sick` tells from the output of a process
    that died whether that in itself breaks the property (default: any death by
    signal and any call that never returns does)."""
    os.makedirs(WORK, exist_ok=True)
    journal = os.path.join(WORK, "%s-%s.journal" % (res.prop, name))
    open(journal, "w").close()
    seed = opts.pop("seed", SEED)
    cmd = [vmon, "worker", "--prop", prop, "--scale", scale, "--seed", str(seed), "--journal", journal]
    for k, v in opts.items():
        cmd += ["--" + k, str(v)]
    code, out, err = run(cmd, timeout, mem=mem, env=env)
    if code == 0:
        if "out" in opts:
            said = out + err
            if not os.path.exists(opts["out"]):
                raise Violation("the process ended, with exit code 0, in the middle of the work", "# " + " ".join(cmd), name)
            with open(opts["out"]) as f:
                out = f.read()
        data = parse_json(out, name, err)
        if "out" in opts:
            data["process_output"] = said
        if data["found"]:
            f = data["found"][0]
            raise Violation(
                "%s [%s:%d]" % (f["what"], f["family"], f["index"]), program_replay(prop, f["program"], name), name
            )
        if data["harness_errors"]:
            raise NoAnswer("harness: " + "; ".join(data["harness_errors"]))
        if data["evaluations"] == 0 or data["judged"] == 0:
            raise NoAnswer("%s judged nothing" % name)
        if data["missing"] and not data["truncated"]:
            raise NoAnswer("%s never observed %s" % (name, data["missing"]))
        res.add(name, data, data["distinct_nontrivial"] if count_distinct else 0)
        return data
    if sick is not None:
        hit = sick(code, out, err)
    elif code is None or code == 3 or code < 0:
        hit = "never returned" if code is None or code == 3 else "died with signal %d" % -code
    else:
        hit = None
    if hit is None:
        raise NoAnswer("%s ended with %s:\n%s" % (name, code, "\n".join((out + err).splitlines()[-20:])))
    # which of the cases in flight does it? each again, alone
    cases = list(in_flight(journal))
    m = re.search(r"^STUCK (\S+) (\d+)", out, re.M)
    if m:
        cases.insert(0, (m.group(1), int(m.group(2))))
    tried = set()
    for fam, idx in cases:
        if (fam, idx) in tried:
            continue
        tried.add((fam, idx))
        heavy = re.match(r"(sha|hmac|chunk)/huge|pbkdf2/(golden|counter)|scrypt/golden", fam)
        c2, o2, e2 = run(
            [vmon, "single", "--prop", prop, "--scale", scale, "--seed", str(seed), "--family", fam, "--index", str(idx)],
            240 if heavy else 60,
            mem=mem,
            env=env,
        )
        if c2 == 1:
            what = parse_json(o2, "single", e2)["what"]
        elif sick is not None:
            what = sick(c2, o2, e2)
        elif c2 is None:
            what = "a call did not return within %d s" % (240 if heavy else 60)
        elif c2 < 0:
            what = "the process died with signal %d: %s" % (-c2, " ".join(e2.split())[-300:])
        else:
            what = None
        if what:
            raise Violation("%s [%s:%d]" % (what, fam, idx), program_replay(prop, case_text(vmon, prop, scale, seed, fam, idx), name), name)
    crash = lambda c, e: c in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGABRT) and "memory allocation of" not in e
    if sick is None and crash(code, err):
        # no case of its own, but does the whole die again?
        c2, o2, e2 = run(cmd, timeout, mem=mem, env=env)
        if crash(c2, e2):
            raise Violation(
                "the process died with signal %d, and again with %d when run once more: %s" % (-code, -c2, " ".join(e2.split())[-300:]),
                "# " + " ".join(cmd), name,
            )  # fmt: skip
    raise NoAnswer("%s %s, but no case in flight does so alone:\n%s" % (name, hit, "\n".join((out + err).splitlines()[-10:])))


def guided(res, vmon, replayer=None, sick=None, env=None, name="guided", secs=None, mem=3 * GIB):
    """Coverage-guided workload in 8 processes. `replayer` is the build in which
    a program that ended a process is run once more, alone."""
    prop = res.prop
    if vmon is None:
        res.notes.append("no build with coverage instrumentation on this tree: the guided stage was left out")
        return
    secs = secs or (20 if QUICK else 600)
    os.makedirs(WORK, exist_ok=True)

    def one(k):
        journal = os.path.join(WORK, "%s-%s-%d.program" % (prop, name, k))
        open(journal, "w").close()
        cmd = [vmon, "cover", "--prop", prop, "--seed", str(SEED * 1000 + k), "--limit", str(secs), "--journal", journal]
        code, out, err = run(cmd, secs * 3 + 120, mem=mem, env=env)
        return journal, code, out, err

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, range(8)))
    total = {"processes": 0, "extra": {}, "outcomes": {}, "samples": []}
    undecided = None
    for journal, code, out, err in rs:
        if code != 0:
            with open(journal, errors="replace") as f:
                text = f.read().split("end\n")[0]
            replay = journal + ".replay"
            with open(replay, "w") as f:
                f.write(text)
            c2, o2, e2 = run([replayer or vmon, "replay", replay, "--prop", prop], 60, mem=mem, env=env)
            if c2 == 1:
                what = parse_json(o2, "replay", e2)["what"]
            elif sick is not None:
                what = sick(c2, o2, e2) or sick(code, out, err)
            elif c2 is None:
                what = "a call did not return within 60 s"
            elif c2 < 0:
                what = "the process died with signal %d: %s" % (-c2, " ".join(e2.split())[-300:])
            else:
                what = None
            if what:
                raise Violation("%s [coverage-guided]" % what, program_replay(prop, text, name), name)
            undecided = "%s ended with %s:\n%s" % (name, code, "\n".join((out + err).splitlines()[-10:]))
            continue
        data = parse_json(out, name, err)
        if data["found"]:
            f = data["found"][0]
            raise Violation("%s [%s]" % (f["what"], f["family"]), program_replay(prop, f["program"], name), name)
        if data["harness_errors"]:
            raise NoAnswer("%s: %s" % (name, data["harness_errors"]))
        total["processes"] += 1
        for k, v in data.items():
            if isinstance(v, bool) or k in ("wall_s", "worker_wall_s", "slowest_ms"):
                continue
            if isinstance(v, (int, float)):
                total[k] = total.get(k, 0) + v
        for k, v in data["outcomes"].items():
            total["outcomes"][k] = total["outcomes"].get(k, 0) + v
        for k, v in data["extra"].items():
            total["extra"][k] = max(total["extra"].get(k, 0), v)
        total["samples"] += data["samples"][:1]
    if undecided:
        raise NoAnswer(undecided)
    res.add(name, total, total["distinct_nontrivial"])


def selftest(res, vmon):
    code, out, err = run([vmon, "selftest"], 300)
    if code != 0:
        raise NoAnswer("reference models: " + err.strip())
    res.stages["selftest"] = {"reference_answers_compared_with_openssl": parse_json(out, "selftest")["selftest"]}


def simple(res, name, cmd, timeout, distinct=None, env=None, mem=None, replay=""):
    """A command that prints one line of JSON with `found`"""
    code, out, err = run(cmd, timeout, env=env, mem=mem)
    if code is None or code < 0:
        c2, o2, e2 = run(cmd, timeout, env=env, mem=mem)
        if c2 is None or c2 < 0:
            what = "%s: a call did not return" % name if c2 is None else "%s: the process died with signal %d" % (name, -c2)
            raise Violation(what, "# %s\n%s" % (" ".join(cmd), "\n".join("# " + x for x in e2.splitlines()[-15:])), name)
        code, out, err = c2, o2, e2
    if code not in (0, 1):
        raise NoAnswer("%s ended with %s:\n%s" % (name, code, "\n".join((out + err).splitlines()[-20:])))
    data = parse_json(out, name, err)
    if data["found"]:
        f = data["found"][0]
        if isinstance(f, str):
            raise Violation(f, replay or "# " + " ".join(cmd), name)
        raise Violation(f["what"], program_replay(res.prop, f.get("program"), name), name)
    res.add(name, data, data.get(distinct, 0) if isinstance(distinct, str) else 0)
    return data


# ----------------------------------------------------------------------- Miri


def miri(args, seed, target=None, limit=600, extra=""):
    """Returns (kind, data, text): kind is ok, ub, found, unsupported, none"""
    flags = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=%d %s" % (seed, extra)
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--release"]
    if target:
        cmd += ["--target", target]
    env = {"CARGO_TARGET_DIR": os.path.join(TARGETS, "miri"), "MIRIFLAGS": flags, "CARGO_NET_OFFLINE": "true"}
    code, out, err = run(cmd + ["--"] + args, limit, env=env)
    said = "MIRIFLAGS='%s' %s -- %s" % (flags, " ".join(cmd), " ".join(args))
    tail = "\n".join(x for x in err.splitlines() if not x.startswith("warning"))
    if "error: Undefined Behavior" in err:
        i = err.index("error: Undefined Behavior")
        return "ub", None, said + "\n" + err[i : i + 3000]
    if "error: unsupported operation" in err:
        return "unsupported", None, said + "\n" + tail[-800:]
    try:
        data = parse_json(out, "miri", err)
    except NoAnswer:
        return ("slow" if code is None else "none"), None, said + "\n" + tail[-1500:]
    return ("found" if data["found"] else "ok"), data, said


def miri_setup(target=None):
    d = os.path.join(TARGETS, "miri")
    forget(d)
    t = ["--target", target] if target else []
    code, out, err = run(["cargo", "+nightly", "miri", "setup"] + t, 600, cwd=HARNESS)
    if code != 0:
        raise NoAnswer("cargo miri setup: " + err[-600:])
    # builds, runs nothing of the crate
    k, _, text = miri(["selftest-build-only"], 0, target, 600)
    if "usage: vmon" not in text:
        raise NoAnswer("build for Miri failed:\n" + text[-1500:])


def miri_workers(res, prop, procs, secs, target=None, name="miri", judge_found=True):
    """The mini workload, dealt out to `procs` interpreters."""

    def one(k):
        args = ["worker", "--prop", prop, "--scale", "mini", "--threads", "1", "--controls", "0", "--stuck", "100000"]
        args += ["--limit", str(secs), "--stride", str(procs), "--seed", str(SEED * procs + k), "--rotate", str(k)]
        return miri(args, SEED + k, target, secs * 3 + 120)

    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(one, range(procs)))
    return miri_collect(res, name, rs, judge_found)


def miri_threads(res, procs, rounds, secs):
    def one(k):
        args = ["threads", "--mode", ["cold", "shared", "handover"][k % 3]]
        args += ["--rounds", str(rounds), "--calls", "6", "--threads", "3", "--seed", str(SEED * 1000 + k), "--limit", str(secs)]
        return miri(args, SEED * 100 + k, None, secs * 4 + 240, "-Zmiri-preemption-rate=%s" % ["0.05", "0.01", "0.2"][k % 3])

    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(one, range(procs)))
    return miri_collect(res, "miri-threads", rs, False)


def miri_schedules(res, procs, secs):
    """First use of everything by threads that an interpreter switches between
    at random, anywhere. What they compute is judged, and that alone."""
    end = time.time() + secs

    def one(k):
        if k >= procs and time.time() > end:
            return None
        args = ["threads", "--mode", "cold", "--rounds", "1", "--threads", str(2 + k % 3)]
        args += ["--seed", str(2 * (SEED * 100_000 + k) + 1), "--limit", "60"]
        return miri(args, SEED * 1000 + k, None, 240, "-Zmiri-disable-data-race-detector -Zmiri-preemption-rate=%s" % ["0.05", "0.01", "0.2"][k // 5 % 3])

    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        rs = [x for x in ex.map(one, range(8 * secs)) if x]
    # undefined behaviour is another property's matter
    for kind, _, text in rs:
        if kind in ("ub", "none"):
            res.notes.append("miri-schedules: %s" % text[-300:])
    return miri_collect(res, "miri-schedules", [x for x in rs if x[0] not in ("ub", "none")], True)


def miri_collect(res, name, rs, judge_found):
    total = {"interpreters": 0, "families": {}, "outcomes": {}, "samples": []}
    for kind, data, text in rs:
        if kind == "ub":
            raise Violation("Miri: " + text.split("\n")[1], "\n".join("# " + x for x in text.splitlines()), name)
        if kind == "found" and judge_found:
            f = data["found"][0]
            raise Violation(f["what"], "# %s\n%s" % (text, f["program"]), name)
        if kind == "found":
            # what else may be wrong is for other properties to say
            res.notes.append("%s: an execution was not as specified (not this property's matter)" % name)
            continue
        if kind == "unsupported":
            res.notes.append("%s: %s" % (name, text[-300:]))
            continue
        if kind == "slow":
            res.notes.append("%s: one interpreter did not finish in time" % name)
            continue
        if kind != "ok":
            raise NoAnswer("%s: %s" % (name, text))
        if data.get("harness_errors"):
            raise NoAnswer("%s: %s" % (name, data["harness_errors"]))
        total["interpreters"] += 1
        for k, v in data.items():
            if isinstance(v, bool) or k in ("wall_s", "worker_wall_s", "slowest_ms"):
                continue
            if isinstance(v, (int, float)):
                total[k] = total.get(k, 0) + v
        for k, v in data.get("outcomes", {}).items():
            total["outcomes"][k] = total["outcomes"].get(k, 0) + v
        for k, v in data.get("families", {}).items():
            o = total["families"].get(k, [0, v[1]])
            total["families"][k] = [o[0] + v[0], v[1]]
        total["samples"] += data.get("samples", [])[:1]
    res.add(name, total, total.get("distinct_nontrivial", 0))
    return total


# ----------------------------------------------------------------- properties

# rounds: how often the sampled families are gone through at tier quick;
# heavy: whether the cases of seconds and gigabytes are run as well
NATIVE = {
    "C01": dict(rounds=1, heavy=1),
    "C02": dict(rounds=6, heavy=1),
    "C03": dict(rounds=6, heavy=1),
    "C04": dict(rounds=1, heavy=1),
    "C05": dict(rounds=6, heavy=0),
    "C06": dict(rounds=1, heavy=1),
    "C07": dict(rounds=1, heavy=0),
    "C08": dict(rounds=12, heavy=0),
    "C09": dict(rounds=12, heavy=1),
    "C10": dict(rounds=10, heavy=1),
    "C11": dict(rounds=6, heavy=1),
    "C12": dict(rounds=12, heavy=0),
    "C13": dict(rounds=12, heavy=1),
    "C14": dict(rounds=5, heavy=0),
    "C23": dict(rounds=3, heavy=0),
}


def native(res, prop):
    """Both builds of the code: with and without arithmetic checks."""
    cfg = NATIVE[prop]
    rel, dev = build_native("release"), build_native("dev")
    selftest(res, rel)
    if QUICK:
        worker(res, rel, "release", prop, "quick", rounds=cfg["rounds"], heavy=cfg["heavy"], limit=200, timeout=420)
        # same programs, so not counted as distinct ones again
        worker(res, dev, "checked", prop, "quick", count_distinct=False, stride=4, limit=100, timeout=300, controls=0)
    else:
        worker(res, rel, "release", prop, "thorough", rounds=cfg["rounds"], heavy=1, limit=1500, timeout=3000)
        worker(res, dev, "checked", prop, "quick", rounds=2, heavy=cfg["heavy"], limit=600, timeout=1200, controls=0, seed=SEED + 1)
    guided(res, build_cover(), rel)
    return rel, dev


def functional(res):
    native(res, res.prop)


def acceptance(res):
    """Parameter sets within the limits, most of them beyond any memory: a
    process of little memory is to fail for want of it, not be refused."""
    rel = build_native("release")
    rng = random.Random(SEED)
    most = (2**32 - 1) // 4
    cases = []
    for r in [1, 2, 3, 4, 5, 7, 8, 16, 64, 1000, 4096, 65535, 65536, 1 << 20, 1 << 29, most // 2, most]:
        cases += [(r, 2, max(1, most // r - d)) for d in (0, 1)]
        top = min(16 * r, 64) - 1
        cases += [(r, 1 << k, 1) for k in {top, top - 1, min(top, 31), min(top, 32), min(top, 20)}]
        cases += [(r, 1 << top, most // r)]
    for _ in range(60 if QUICK else 3000):
        r = min(most, 1 << rng.randrange(30)) if rng.random() < 0.5 else rng.randrange(1, 1 + (1 << rng.randrange(1, 30)))
        p = rng.randrange(1, 1 + min(most // r, 1 << rng.randrange(1, 31)))
        cases.append((r, 1 << rng.randrange(1, min(16 * r, 64)), p))
    cases = sorted(set(cases))

    def one(c):
        args = [rel, "probe", "--r", str(c[0]), "--n", str(c[1]), "--p", str(c[2])]
        code, out, err = run(args, 3, mem=GIB // 2)
        if not out.startswith("calling") and code is not None:
            raise NoAnswer("probe: " + err[-300:])
        m = re.search(r"^refused (.*)", out, re.M)
        return c, code, m and m.group(1), args

    ends = {"ran": 0, "asked for more memory than there is": 0, "still running when ended": 0}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for c, code, refused, args in ex.map(one, cases):
            if refused:
                what = "r=%d n=%d p=%d is within the limits, but refused with %s" % (*c, refused)
                raise Violation(what, "# %s" % " ".join(args), "acceptance")
            ends[list(ends)[0 if code == 0 else 2 if code is None else 1]] += 1
    # very many more, in children of one process
    dense, some = (70_000, 50_000) if QUICK else (1_000_000, 3_000_000)
    cmd = [rel, "accept", "--seed", str(SEED), "--dense", str(dense), "--random", str(some), "--parts", "8", "--part"]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda k: run(cmd + [str(k)], 300 if QUICK else 3000), range(8)))
    wide = {"tried": 0, "returned": 0, "no_memory": 0, "time": 0, "samples": []}
    for code, out, err in rs:
        d = parse_json(out, "accept", err)
        if d["found"]:
            at = " ".join("--%s %s" % tuple(x.split("=")) for x in d["found"][0].split()[:3])
            raise Violation(d["found"][0], "# %s probe %s" % (rel, at), "acceptance-wide")
        for k in wide:
            wide[k] += d[k][:1] if k == "samples" else d[k]
    res.add("acceptance-wide", dict(wide, evaluations=wide["tried"]), wide["tried"])
    samples = ["r=%d n=%d p=%d not refused" % c for c in cases[:: len(cases) // 3]]
    res.add("acceptance", {"evaluations": len(cases), "ends": ends, "samples": samples}, len(cases))


def parameters(res):
    native(res, "C07")
    acceptance(res)


def isolation(res):
    rel, dev = native(res, "C14")
    rounds, secs = (600, 30) if QUICK else (100_000, 400)
    args = ["--seed", str(SEED), "--limit", str(secs)]
    simple(res, "threads", [rel, "threads", "--mode", "all", "--rounds", str(rounds)] + args, secs + 120, mem=16 * GIB)
    simple(
        res, "threads-checked", [dev, "threads", "--mode", "all", "--rounds", str(rounds // 3)] + args, secs + 120, mem=16 * GIB
    )
    # first use of everything, at once, in many processes
    total = {"processes": 0, "rounds": 0, "events": 0, "judged": 0}
    n = 60 if QUICK else 3000
    for k in range(n):
        r = Result("C14")
        cmd = [rel, "threads", "--mode", "cold", "--rounds", "1", "--threads", str([8, 16, 4][k % 3]), "--seed", str(SEED * n + k)]
        d = simple(r, "cold", cmd, 60, mem=16 * GIB)
        total["processes"] += 1
        for key in ("rounds", "events", "judged"):
            total[key] += d[key]
    res.add("cold-start", total, 0)
    try:
        miri_setup()
    except NoAnswer as e:
        res.notes.append("miri-schedules: left out: %s" % e)
        return
    miri_schedules(res, 8, 40 if QUICK else 900)


def memory_safety(res):
    """Sanitizers and an interpreter under the workload of all properties."""
    env = {
        "ASAN_OPTIONS": "exitcode=99:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1",
        "MSAN_OPTIONS": "exitcode=99:allocator_may_return_null=1",
        "TSAN_OPTIONS": "exitcode=99:halt_on_error=1",
    }

    def sick(tool):
        def f(code, out, err):
            m = re.search(r"(ERROR|WARNING): \w+Sanitizer: .*", err)
            if m and code == 99:
                at = re.search(r"#\d+ 0x\w+ in (dumb_crypto\S*.*)", err)
                return m.group(0) + (" in " + at.group(1) if at else "")
            if code is not None and code in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL) and "overflowed its stack" not in err:
                return "%s build died with signal %d" % (tool, -code)
            return None

        return f

    def ubcheck(code, out, err):
        m = re.search(r"UBCHECK: (.*)", err)
        if m and code == -signal.SIGABRT:
            return m.group(1)
        return sick("debug")(code, out, err)

    with concurrent.futures.ThreadPoolExecutor(5) as ex:
        jobs = [ex.submit(build_sanitizer, n) for n in ("address", "memory", "thread")]
        jobs.append(ex.submit(miri_setup))
        asan, msan, tsan, _ = [j.result() for j in jobs]
    q = QUICK
    # A tool without an answer (a corrupted heap may end a process in many ways)
    # does not keep the others from giving theirs
    open_questions = []

    def ask(stage, *args, **opts):
        try:
            stage(*args, **opts)
        except NoAnswer as e:
            open_questions.append(str(e))

    # what a debug build checks of unchecked operations, pointers and copies
    dev = build_native("dev")
    ask(
        worker, res, dev, "ub-checks", "C15", "quick", sick=ubcheck, count_distinct=False,
        stride=5 if q else 1, limit=40 if q else 600, timeout=400 if q else 1500, stuck=200, controls=8,
    )  # fmt: skip
    # AddressSanitizer: every byte the code touches
    ask(
        worker, res, asan, "asan", "C15", "quick", env=env, mem=None, sick=sick("ASan"),
        stride=5 if q else 1, limit=60 if q else 900, timeout=400 if q else 1500, stuck=200, controls=8,
    )  # fmt: skip
    # MemorySanitizer: every decision and output byte, down to uninitialised memory
    ask(
        worker, res, msan, "msan", "C15", "medium" if q else "quick", env=env, mem=None, sick=sick("MSan"), count_distinct=False,
        rounds=4 if q else 1, limit=40 if q else 900, timeout=400 if q else 1500, stuck=200, controls=8,
    )  # fmt: skip
    # ThreadSanitizer
    for k, (mode, rounds) in enumerate([("all", 150 if q else 5000)] + [("cold", 1)] * (15 if q else 300)):
        r = res if k == 0 else Result("C15")
        cmd = [tsan, "threads", "--mode", mode, "--rounds", str(rounds), "--seed", str(SEED + k), "--limit", "40" if q else "600"]
        code, out, err = run(cmd, 900, env=env)
        hit = sick("TSan")(code, out, err)
        if hit:
            at = err.find("ThreadSanitizer")
            raise Violation(hit, "# %s\n%s" % (" ".join(cmd), "\n".join("# " + x for x in err[at : at + 2500].splitlines())), "tsan")
        if code not in (0, 1):
            open_questions.append("tsan ended with %s: %s" % (code, err[-800:]))
            break
        d = parse_json(out, "tsan", err)
        if k == 0:
            res.add("tsan", d, 0)
        else:
            t = res.stages.setdefault("tsan-cold", {"processes": 0, "events": 0})
            t["processes"] += 1
            t["events"] += d["events"]
    ask(guided, res, build_cover("asan"), sick=sick("ASan"), env=env, name="asan-guided", mem=None)
    ask(miri_workers, res, "C15", 8, 45 if q else 700, judge_found=True)
    ask(miri_threads, res, 8 if q else 24, 1, 40 if q else 600)
    if open_questions:
        raise NoAnswer("; ".join(open_questions))
    if not any(res.stages.get(n, {}).get("interpreters") for n in ("miri", "miri-threads")):
        res.notes.append("Miri gave no verdict on this tree; the sanitizers did")


def totality(res):
    rel, dev = build_native("release"), build_native("dev")
    if QUICK:
        worker(res, rel, "release", "C16", "quick", rounds=1, limit=120, timeout=400, controls=8)
        worker(res, dev, "checked", "C16", "quick", seed=SEED + 1, heavy=1, rounds=2, limit=150, timeout=500, controls=0)
    else:
        worker(res, rel, "release", "C16", "thorough", rounds=1, heavy=1, limit=1500, timeout=3000, controls=8)
        worker(res, dev, "checked", "C16", "thorough", seed=SEED + 1, rounds=1, heavy=1, limit=1500, timeout=3000, controls=0)
    guided(res, build_cover("checked"), dev)


def footprint(res):
    rel = build_native("release")
    n = 1 if QUICK else 20
    simple(res, "allocator", [rel, "mem", "--seed", str(SEED), "--rounds", str(n)], 800 if QUICK else 3000, "distinct", mem=26 * GIB)


def growth(res):
    """Instructions executed, counted by cachegrind, as something is doubled
    again and again. Nothing here is a matter of time: the counts are exact."""
    rel = build_native("release")
    code, out, err = run([rel, "work-kinds"], 60)
    kinds = [x.split("\t") for x in out.splitlines()]
    if code != 0 or len(kinds) < 40:
        raise NoAnswer("work-kinds: " + err)
    steps = 8 if QUICK else 11
    tool = ["valgrind", "--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null"]
    budget = START + (500 if QUICK else 3000)

    def count(kind, n):
        args = tool + [rel, "work", "--kind", kind, "--n", str(n)]
        # the tool does some 10^8 a second; what is not done by then is no
        # matter of a slow machine, but checked once more all the same
        for limit in (60, 180):
            t = time.time()
            code, out, err = run(args, limit, mem=None)
            m = re.search(r"I +refs: +([\d,]+)", err)
            if code is not None:
                break
        if code is None:
            return None, args
        if code != 0 or "done" not in out or not m:
            if code < 0 or code > 128 or "panicked" in err or code == 101:
                return -1, args  # that it ends is another property's matter
            raise NoAnswer("work: " + err[-400:])
        return int(m.group(1).replace(",", "")), args

    def ladder(kind, base, what):
        c = []
        for j in range(steps):
            if time.time() > budget:
                break
            n = int(base) << j
            v, args = count(kind, n)
            if v == -1:
                break
            if v is None:
                if len(c) < 2 or c[-1] * 3 > 2 * 10**9:
                    raise NoAnswer("%s: no count at n=%d" % (kind, n))
                what = "%s: %d %s do not get done in 180 s under the counter, where %d took %d instructions" % (kind, n, what, n // 2, c[-1])
                raise Violation(what, "# " + " ".join(args), "growth")
            c.append(v)
            if len(c) >= 3:
                d = [b - a for a, b in zip(c, c[1:])]
                per = lambda k: max(d[k], 1) / (int(base) << k)
                # (a first step of next to nothing is no measure)
                if d[-1] > 2.5 * max(d[-2], 20_000) or per(-1 + len(d)) > 1.5 * max(per(0), 20_000 / int(base)):
                    what = "%s: doubling the number of %s to %d makes %d more instructions, doubling it to %d made %d, to %d made %d" % (
                        kind, what, n, d[-1], n // 2, d[-2], 2 * int(base), d[0],
                    )  # fmt: skip
                    raise Violation(what, "# %s\n# counts from n=%s, doubled: %s" % (" ".join(args), base, c), "growth")
        return kind, int(base), c

    rows = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        jobs = [ex.submit(ladder, *k) for k in kinds]
        bad = None
        for j in jobs:
            try:
                kind, base, c = j.result()
                rows[kind] = {"from": base, "to": base << (len(c) - 1) if c else base, "instructions": c}
            except (Violation, NoAnswer) as e:
                bad = bad if isinstance(bad, Violation) else e
                budget = 0
        if bad:
            raise bad
    n = sum(len(r["instructions"]) for r in rows.values())
    if n < 5 * len(kinds):
        raise NoAnswer("growth: only %d counts" % n)
    try:
        ladder("control", 1 << 10, "insertions")
        raise NoAnswer("growth: the quadratic control was not noticed")
    except Violation as v:
        control = v.what
    samples = ["%s %d..%d: %s" % (k, r["from"], r["to"], r["instructions"]) for k, r in list(rows.items())[::8]]
    res.add("growth", {"evaluations": n, "kinds": len(kinds), "counts": rows, "control_noticed": control, "samples": samples}, n)


def effects(res):
    """System calls, the environment and the clock, looked for in every call."""
    vmon = build_quiet()
    code, out, err = run([vmon, "quiet-controls"], 60)
    if code != 0:
        raise NoAnswer("the effects put there to be seen: " + err[-300:])
    os.makedirs(WORK, exist_ok=True)
    result, extra = os.path.join(WORK, "C22.json"), os.path.join(WORK, "C22-extra.json")
    for f in (result, extra):
        if os.path.exists(f):
            os.unlink(f)

    def sick(code, out, err):
        if code == -signal.SIGSYS:
            return "the process was ended from within a call"
        if code == 0 and not os.path.exists(extra):
            return "the process ended from within a call"
        return None

    # with more than one arena glibc's allocator itself reads files at times
    env = {"MALLOC_ARENA_MAX": "1", "VMON_CONTROL": "1"}
    opts = dict(stride=4, heavy=0, limit=150, timeout=420) if QUICK else dict(heavy=1, limit=1500, timeout=3000)
    d = worker(
        res, vmon, "effects", "C22", "quick", env=env, sick=sick, out=result, controls=8, **{"quiet-out": extra}, **opts
    )  # fmt: skip
    guided(res, build_cover("quiet"), sick=sick, env=env)
    with open(extra) as f:
        x = json.load(f)
    replay = "# %s worker --prop C22 --scale quick --seed %d" % (vmon, SEED)
    if not x["panic_hook_kept"]:
        raise Violation("the process's panic hook was replaced", replay, "effects")
    if not x["environment_kept"]:
        raise Violation("the process's environment or directory was changed", replay, "effects")
    if x["calls_watched"] < d["events"]:
        raise NoAnswer("effects: only %d calls were watched" % x["calls_watched"])
    said = d["process_output"].strip()
    if said:
        raise Violation("the process wrote %r" % said[:200], replay, "effects")
    res.stages["effects"].update(x, controls_seen=parse_json(out, "quiet-controls")["noticed"])


def taint(res):
    """memcheck's bits, used to follow secrets instead of undefined values"""
    rel = build_native("release")
    sub, n = ("ct-hash", 500 if QUICK else 8000) if res.prop == "C18" else ("ct-pad", 60 if QUICK else 1500)
    cmd = ["valgrind", "-q", "--error-limit=no", rel, sub, "--seed", str(SEED), "--rounds", str(n)]
    d = simple(res, "taint", cmd, 800 if QUICK else 3000, "distinct")
    if not (d["control_branch"] and d["control_index"]) or d["control_clean"]:
        raise NoAnswer("the taint monitor does not see what it has to see")
    jobs = []
    sub, n, parts = ("trace-hash", 15 if QUICK else 250, 4) if res.prop == "C18" else ("trace-pad", 60 if QUICK else 2000, 1)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for k in range(parts):
            cmd = [rel, sub, "--seed", str(SEED * 1000 + k), "--rounds", str(n)]
            name = "instructions" + ("-%d" % k if k else "")
            ex.submit(simple, res, name, cmd, 600 if QUICK else 3000, "distinct").add_done_callback(jobs.append)
    for j in jobs:
        d = j.result()
        # a few cases may be told apart by the state of the heap: they don't count
        if not d["control_branch"] or d["control_clean"] or d["unstable"] * 4 > n:
            raise NoAnswer("the trace monitor does not see what it has to see")


def platforms(res):
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        be = "powerpc-unknown-linux-gnu"
        jobs = [ex.submit(build_wasm, "release"), ex.submit(miri_setup, be)]
        wasm = jobs[0].result()
        jobs[1].result()
    run_wasm(res, wasm, "wasm32", 1 if QUICK else 1)
    if not QUICK:
        run_wasm(res, build_wasm("dev"), "wasm32-checked", 1)
        for k in range(1, 12):
            run_wasm(res, wasm, "wasm32-seed+%d" % k, 1, SEED + k)
    miri_workers(res, "C20", 8, 50 if QUICK else 600, be, "miri-big-endian-32")
    if not QUICK:
        for t in ("s390x-unknown-linux-gnu", "i686-unknown-linux-gnu"):
            miri_setup(t)
            miri_workers(res, "C20", 8, 400, t, "miri-" + t.split("-")[0])


def run_wasm(res, wasm, name, stride, seed=SEED):
    os.makedirs(WORK, exist_ok=True)
    journal = os.path.join(WORK, "%s-%s.journal" % (res.prop, name))
    open(journal, "w").close()
    js = [shutil.which("node"), os.path.join(WASM, "run.js"), wasm, str(seed), "medium"]
    code, out, err = run(js + [str(stride), "200"], 400, env={"JOURNAL": journal})
    if code is None or code < 0:
        for fam, idx in in_flight(journal):
            c2, o2, e2 = run(js + ["case", fam, str(idx)], 60)
            if c2 is None or c2 < 0 or c2 == 1:
                raise Violation(
                    "on wasm32 a call does not return or the process dies [%s:%d]" % (fam, idx),
                    "# %s" % " ".join(js + ["case", fam, str(idx)]),
                    name,
                )
        raise NoAnswer("%s did not finish: %s" % (name, err[-400:]))
    d = parse_json(out, name, err)
    if d["harness_errors"]:
        raise NoAnswer("%s: %s" % (name, d["harness_errors"]))
    if d["found"]:
        f = d["found"][0]
        what = "on wasm32 (32-bit usize): %s [%s:%d]" % (f["what"], f["family"], f["index"])
        cmd = " ".join(js + ["case", f["family"], str(f["index"])])
        raise Violation(what, "# run again with: %s\n%s" % (cmd, f["program"] or ""), name)
    if d["usize_bits"] != 32 or d["controls"] == 0 or d["controls"] != d["controls_noticed"]:
        raise NoAnswer("%s: controls not noticed: %s" % (name, {k: d[k] for k in ("usize_bits", "controls", "controls_noticed")}))
    res.add(name, d, d["distinct_nontrivial"])


RULES = {
    "default": "Programs of API calls from numbered families: x: families enumerate lengths, cuts, bits, bytes or call "
    "sequences completely, the others are drawn from the seed. Non-trivial: a program in which a monitor determined the "
    "outcome of at least one call and judged it; distinct: by structural hash of the program, counted once over all builds. "
    "The guided stage counts the programs it made from the instrumentation's feedback in the same way, per process.",
    "C17": "Histories of one object, told by its kind, input size and chunking (allocator stage); non-trivial: bytes were "
    "fed and the allocator was watched across the calls. Distinct: by kind and sizes.",
    "C21": "Uses of the API of one kind, told by the number that is doubled; non-trivial: the instructions of the process "
    "were counted and compared with those of half and quarter the number. Distinct: by kind and number.",
    "C18": "Calls whose key, password, message or block is marked secret for valgrind's memcheck; non-trivial: at least one "
    "secret byte went in and the count of decisions/addresses depending on it was read (taint), or the instructions executed "
    "were recorded and compared with those for other secrets (instructions). Distinct: by kind, lengths and secret's shape.",
    "C19": "Last blocks with every padding value and every set of wrong bytes (or samples of them), marked secret after "
    "decryption; non-trivial: the profile of secret-dependent decisions, or the trace of instructions, of a flush that "
    "refused was recorded and compared. Distinct: by pattern and block.",
}

ASSUME = {
    "default": [
        "x86-64 Linux, rustc stable 1.99.1, code built with and without arithmetic checks",
        "reference models are independent implementations, compared with OpenSSL's answers at every run",
    ],
    "C15": ["Miri, ASan, MSan and TSan of the nightly toolchain see what they document to see", "only what the workload reaches"],
    "C18": ["memcheck's propagation of undefined bits; instruction-level timing is not measured", "the release build of this compiler"],
    "C19": ["memcheck's propagation of undefined bits; instruction-level timing is not measured", "the release build of this compiler"],
    "C20": ["wasm32 under node stands for 32-bit targets, Miri's powerpc and s390x for big-endian ones"],
}

CHECKS = {p: functional for p in NATIVE}
CHECKS.update(
    C07=parameters, C14=isolation, C15=memory_safety, C16=totality, C17=footprint, C18=taint, C19=taint, C20=platforms, C21=growth, C22=effects
)  # fmt: skip


def listed_findings(prop):
    """known-findings.txt: `finding: property=ID match=<regex> what`. Lines that
    start with `fixed:` are a record and suppress nothing."""
    r = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    r.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return r


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py " + "|".join(sorted(CHECKS)), file=sys.stderr)
        return 2
    prop = sys.argv[1]
    res = Result(prop)
    code, violations = 0, 0
    try:
        CHECKS[prop](res)
    except Violation as v:
        known = [w for m, w in listed_findings(prop) if re.search(m, v.what + "\n" + v.replay)]
        if known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[0]))
        else:
            path = replay_file(prop, v)
            print(v.what)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            code, violations = 1, 1
            res.stages["violation"] = {"stage": v.stage, "what": v.what, "replay": path}
    except NoAnswer as e:
        print("no answer: %s" % e, file=sys.stderr)
        return 2
    cov = {
        "evaluations": res.evaluations,
        "distinct_nontrivial": res.distinct,
        "rule": RULES.get(prop, RULES["default"]),
        "samples": res.samples,
        "stages": res.stages,
    }
    if res.notes:
        cov["notes"] = res.notes
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(
            {
                "property": prop,
                "tier": TIER,
                "seed": SEED,
                "level": "exploration",
                "coverage": cov,
                "assumptions": ASSUME.get(prop, ASSUME["default"]),
                "wall_s": round(time.time() - START, 2),
                "violations": violations,
            },
            f,
            indent=1,
        )
        f.write("\n")
    if code == 0:
        print("%s: held on %d executions (%d distinct) in %.0f s" % (prop, res.evaluations, res.distinct, time.time() - START))
    return code


if __name__ == "__main__":
    sys.exit(main())
