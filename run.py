#!/usr/bin/env python3
"""Runs the check of one property: run.py PROPERTY [quick|thorough]; `run.py setup` builds everything once.

Rebuilds the harness against /repo's working tree, runs the drivers of the property under the monitors in
several processes and build modes, merges what they observed into evidence/<property>.json.
Exit status: 0 held, 1 violated (with a VIOLATION line), 2 no answer.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
sys.path.insert(0, os.path.join(VERIF, "tools"))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
CORES = 8


class NoAnswer(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, info=None):
        Exception.__init__(self, what)
        self.info = info or {}


# ------------------------------------------------------------------ building

GNU = "x86_64-unknown-linux-gnu"
KINDS = {
    # Debug assertions and overflow checks; monitoring allocator.
    "dbg": dict(args=["--features", "galloc"], out="debug/vh", flags=""),
    # No debug assertions, wrapping arithmetic; monitoring allocator.
    "plain": dict(args=["--profile", "plain", "--features", "galloc"], out="plain/vh", flags=""),
    # Optimized.
    "rel": dict(args=["--release", "--features", "galloc"], out="release/vh", flags=""),
    # AddressSanitizer on the system allocator.
    "asan": dict(args=["--target", GNU], out=GNU + "/debug/vh", flags="-Zsanitizer=address -Cdebuginfo=0", nightly=True),
    # ThreadSanitizer with an instrumented standard library.
    "tsan": dict(args=["--target", GNU, "-Zbuild-std"], out=GNU + "/debug/lite", flags="-Zsanitizer=thread -Cdebuginfo=0", nightly=True, crate="lite"),
    # The drivers that bring their own types.
    "lite": dict(args=[], out="debug/lite", flags="", crate="lite"),
    "miri": dict(args=[], out=None, flags="", nightly=True),
    "mirilite": dict(args=[], out=None, flags="", nightly=True, crate="lite", target="miri"),
    # Interpreted for a 32-bit and a big-endian machine.
    "miri32": dict(args=[], out=None, flags="", nightly=True, target="miri", triple="i686-unknown-linux-gnu"),
    "mirilite32": dict(args=[], out=None, flags="", nightly=True, crate="lite", target="miri", triple="i686-unknown-linux-gnu"),
    "miribe": dict(args=[], out=None, flags="", nightly=True, target="miri", triple="s390x-unknown-linux-gnu"),
}


def tree_hash():
    """Of every file of /repo's working tree that git does not ignore, and of the harness."""
    h = hashlib.sha256()

    def add(root, rel):
        p = os.path.join(root, rel)
        try:
            with open(p, "rb") as f:
                d = f.read()
        except OSError:
            return
        h.update(rel.encode() + b"\0" + str(len(d)).encode() + b"\0" + d)

    for top in ("varlen", "varlen_macro", "varlen_example"):
        for dp, dn, fn in os.walk(os.path.join(REPO, top)):
            dn[:] = sorted(x for x in dn if x not in ("target", ".git"))
            for f in sorted(fn):
                add(REPO, os.path.relpath(os.path.join(dp, f), REPO))
    add(REPO, "Cargo.toml")
    for top in ("harness", "app", "lite", "snip"):
        for dp, dn, fn in os.walk(os.path.join(VERIF, top)):
            dn[:] = sorted(x for x in dn if x != "target")
            for f in sorted(fn):
                add(VERIF, os.path.relpath(os.path.join(dp, f), VERIF))
    return h.hexdigest()


def env_for(kind, flags):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS", "RUST_BACKTRACE"):
        e.pop(k, None)
    e["RUSTFLAGS"] = ("-Awarnings " + flags).strip()
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, kind)
    e["CARGO_INCREMENTAL"] = "0"
    if kind.startswith("miri"):
        e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "miri")
        e["XDG_CACHE_HOME"] = os.path.join(TARGET, "cache")
        e["MIRIFLAGS"] = "-Zmiri-tree-borrows -Zmiri-disable-isolation"
    return e


def forget_old(kind, h, names):
    """Cargo decides by modification times, which copies of the tree need not keep: rebuild when contents differ."""
    t = os.path.join(TARGET, kind)
    os.makedirs(t, exist_ok=True)
    mark = os.path.join(t, ".treehash")
    try:
        old = open(mark).read()
    except OSError:
        old = ""
    if old != h:
        for dp, dn, fn in os.walk(t):
            if os.path.basename(dp) == ".fingerprint":
                for d in dn:
                    if re.match(r"(%s)-[0-9a-f]+$" % "|".join(names), d):
                        shutil.rmtree(os.path.join(dp, d), ignore_errors=True)
                dn[:] = []
        open(mark, "w").write("")
    return mark


BUILD_LOCKS = {}
OURS = ["varlen", "varlen_macro", "vh", "vhapp", "vhlite", "vhgen", "snip", "legit_[a-z0-9]+", "hostile_[a-z0-9]+"]


def build(kind, crate_dir=None, target=None, timeout=700):
    """Builds a crate in a mode; returns the program (or raises). Under Miri: has it interpreted once, with nothing to do."""
    k = KINDS[kind]
    crate_dir = crate_dir or os.path.join(VERIF, k.get("crate", "app"))
    target = target or k.get("target", kind)
    h = tree_hash()
    env = env_for(kind, k["flags"])
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, target)
    with BUILD_LOCKS.setdefault(target, threading.Lock()):
        mark = forget_old(target, h, OURS)
        if kind.startswith("miri"):
            cmd = miri_cmd(["--cases", "0"], kind)
        else:
            cmd = ["cargo"] + (["+nightly"] if k.get("nightly") else []) + ["build", "--offline"] + k["args"]
        r = subprocess.run(cmd, cwd=crate_dir, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        if r.returncode != 0 and "could not compile" not in r.stdout:
            # Not for the code's sake: once more.
            print(f"building {kind} failed, once more: {r.stdout[-1500:]}", file=sys.stderr, flush=True)
            time.sleep(3)
            r = subprocess.run(cmd, cwd=crate_dir, env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        if r.returncode != 0:
            raise BuildFailed(kind, r.stdout)
        open(mark, "w").write(h)
    return os.path.join(TARGET, target, k["out"]) if k["out"] else None


class BuildFailed(Exception):
    def __init__(self, kind, out):
        Exception.__init__(self, "build %s failed" % kind)
        self.out = out


def build_all(kinds):
    with ThreadPoolExecutor(len(kinds)) as ex:
        fs = [(k, ex.submit(build, k)) for k in kinds]
        return {k: f.result() for k, f in fs}


def prepare(target):
    """Before cargo is run in this target directory by other means; call the result when it went well."""
    h = tree_hash()
    mark = forget_old(target, h, OURS)
    return lambda: open(mark, "w").write(h)


def miri_cmd(args, kind="miri"):
    t = KINDS[kind].get("triple")
    return ["cargo", "+nightly", "miri", "run", "--offline", "-q"] + (["--target", t] if t else []) + ["--"] + args


# ------------------------------------------------------------------ running

class Merge:
    """What all processes of the run observed."""

    def __init__(self):
        self.evals = 0
        self.counters = {}
        self.hashes = set()
        self.samples = []
        self.other = {}
        self.runs = []
        self.lock = threading.Lock()

    def add(self, label, s):
        with self.lock:
            self.evals += s["evaluations"]
            for k, v in s["counters"].items():
                if k.startswith("max."):
                    self.counters[k] = max(self.counters.get(k, 0), v)
                else:
                    self.counters[k] = self.counters.get(k, 0) + v
            hs = s.get("hashes", "")
            self.hashes.update(hs[i:i + 8] for i in range(0, len(hs), 8))
            for k, v in s["other"].items():
                self.other[k] = self.other.get(k, 0) + v
            self.samples += ["[%s] %s" % (label, x) for x in s["samples"][:2]]
            self.runs.append({"mode": label, "cases": s["evaluations"]})

    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n


def replay_file(prop, data):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.json" % prop)
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p


def run_one(prop, label, cmd, env, cwd, timeout, merge, kind):
    """One process. Returns None, or a description of the violation."""
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as e:
        raise NoAnswer("%s: no end after %s s" % (label, timeout))
    info = {"property": prop, "mode": label, "cmd": cmd, "cwd": cwd,
            "env": {k: env[k] for k in ("MIRIFLAGS", "RUSTFLAGS", "ASAN_OPTIONS", "TSAN_OPTIONS", "CARGO_TARGET_DIR", "MIRI_SYSROOT") if k in env},
            "status": r.returncode}
    for l in r.stdout.splitlines():
        if l.startswith("VIOL "):
            v = json.loads(l[5:])
            info["violation"] = v
            info["stderr"] = r.stderr[-3000:]
            return ("%s: case %s: %s" % (label, v["case"], v["what"]), info)
    sm = [l for l in r.stdout.splitlines() if l.startswith("SUMMARY ")]
    if r.returncode == 0 and sm:
        merge.add(label, json.loads(sm[0][8:]))
        return None
    tail = r.stderr[-6000:]
    info["stderr"] = tail
    if kind == "asan" and "AddressSanitizer" in tail:
        m = re.search(r"ERROR: AddressSanitizer: .*", r.stderr)
        return ("%s: %s" % (label, m.group(0) if m else "AddressSanitizer error"), info)
    if kind == "asan" and "LeakSanitizer" in tail:
        return ("%s: memory leak" % label, info)
    if kind == "tsan" and "ThreadSanitizer" in tail:
        m = re.search(r"WARNING: ThreadSanitizer: .*", r.stderr)
        return ("%s: %s" % (label, m.group(0) if m else "ThreadSanitizer"), info)
    if kind == "miri":
        m = re.search(r"error: (Undefined Behavior|memory leaked|abnormal termination|the main thread terminated|the evaluated program).*", r.stderr)
        if m:
            if "unsupported operation" in m.group(0):
                raise NoAnswer("%s: %s" % (label, m.group(0)))
            return ("%s: %s" % (label, m.group(0)), info)
    if r.returncode < 0 and kind not in ("miri",):
        return ("%s: the program was ended by signal %d" % (label, -r.returncode), info)
    raise NoAnswer("%s: exit status %s without a summary\n%s\n%s" % (label, r.returncode, r.stdout[-500:], tail[-3000:]))


def vh_jobs(prop, tier, kind, binary, shards, budget_ms, extra=(), timeout=None, env_extra=None, seed_off=0, start=0, label=None):
    out = []
    for i in range(shards):
        args = ["--prop", prop, "--tier", tier, "--seed", str(SEED * 64 + seed_off), "--shard", "%d/%d" % (i, shards), "--start", str(start),
                "--budget-ms", str(budget_ms)] + list(extra)
        env = env_for(kind, KINDS[kind]["flags"])
        env.update(env_extra or {})
        cwd = VERIF
        lb = "%s %d/%d" % (label or kind, i, shards)
        if kind == "asan":
            env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1"
            args += ["--mode", "asan"]
        if kind == "tsan":
            env["TSAN_OPTIONS"] = "halt_on_error=1:report_signal_unsafe=0"
            args += ["--mode", "asan"]
        if kind.startswith("miri"):
            cmd = miri_cmd(args + ["--mode", "miri"], kind)
            cwd = os.path.join(VERIF, KINDS[kind].get("crate", "app"))
        else:
            cmd = [binary] + args
        out.append((prop, lb, cmd, env, cwd, timeout or (budget_ms / 1000.0 * 3 + 150), "miri" if kind.startswith("miri") else kind))
    return out


def run_jobs(jobs, merge, workers=CORES):
    bad = []
    errs = []
    with ThreadPoolExecutor(workers) as ex:
        fs = [ex.submit(run_one, p, label, cmd, env, cwd, to, merge, kind) for (p, label, cmd, env, cwd, to, kind) in jobs]
        for f in fs:
            try:
                b = f.result()
                if b:
                    bad.append(b)
            except NoAnswer as e:
                errs.append(str(e))
    if bad:
        raise Violation(bad[0][0], dict(bad[0][1], all=[b[0] for b in bad]))
    if errs:
        raise NoAnswer("\n".join(errs))


# ------------------------------------------------------------------ the checks

import plans  # noqa: E402


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.group(2).strip())
    except OSError:
        pass
    return out


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    # One run at a time: they share the build directories.
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if sys.argv[1] == "setup":
        try:
            plans.setup(sys.modules[__name__])
        except BuildFailed as e:
            # The checks that need it build it again, and report it.
            print(e, e.out[-3000:], file=sys.stderr)
        return
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    merge = Merge()
    plan = plans.PLANS[prop]
    code = 0
    what = None
    for f in known_findings(prop):
        if f.startswith("program "):
            continue  # printed when it is seen
        print("KNOWN-FINDING: property=%s %s" % (prop, f))
    try:
        try:
            plan["run"](sys.modules[__name__], prop, tier, merge)
        except BuildFailed as b:
            v = plans.judge_build_failure(prop, b)
            if v:
                raise Violation(v, {"property": prop, "build": b.out[-8000:]})
            raise NoAnswer("the harness does not build against this tree:\n" + b.out[-4000:])
        missing = [c for c in plan.get("must_see", []) if not merge.counters.get(c)]
        if missing:
            raise NoAnswer("the workload did not reach: %s" % ", ".join(missing))
        if not merge.evals or not merge.hashes:
            raise NoAnswer("nothing was observed")
    except Violation as v:
        what = str(v)
        code = 1
        p = replay_file(prop, dict(v.info, what=what, seed=SEED, tier=tier))
        print(what)
        print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
    except NoAnswer as e:
        print("no answer: %s" % e)
        code = 2
    doc = {
        "property": prop, "tier": tier, "seed": SEED, "level": plan["level"],
        "coverage": {
            "evaluations": merge.evals,
            "distinct_nontrivial": len(merge.hashes),
            "rule": plan["rule"],
            "samples": merge.samples[:8] or ["(none)"],
            "observed": dict(sorted(merge.counters.items())),
            "runs": merge.runs,
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if code == 1 else 0,
    }
    if merge.other:
        doc["coverage"]["judged_by_other_properties"] = dict(list(merge.other.items())[:10])
    with open(ev, "w") as f:
        json.dump(doc, f, indent=1)
    if code == 0:
        print("held: property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs" % (prop, tier, merge.evals, len(merge.hashes), time.time() - t0))
    sys.exit(code)


if __name__ == "__main__":
    main()
