"""Runs the catalogues of programs (catalog.py): hostile readings must be refused by the compiler, legitimate readings
must be accepted and run clean, natively and under Miri. A hostile program that is accepted is executed under Miri."""
import hashlib, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import catalog


def build_snip(R):
    """The library as a plain dependency. Returns rustc arguments."""
    done = R.prepare("snip")
    e = R.env_for("snip", "")
    r = subprocess.run(["cargo", "build", "--offline", "--message-format=json"], cwd=os.path.join(R.VERIF, "snip"), env=e, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if r.returncode != 0:
        raise R.NoAnswer("the library does not build: " + r.stderr[-2000:])
    done()
    ex = {}
    for l in r.stdout.splitlines():
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] in ("varlen", "bumpalo"):
            for f in m["filenames"]:
                if f.endswith(".rlib"):
                    ex[m["target"]["name"]] = f
    deps = os.path.join(R.TARGET, "snip", "debug", "deps")
    return ["--extern", "varlen=" + ex["varlen"], "--extern", "bumpalo=" + ex["bumpalo"], "-L", "dependency=" + deps]


def compile_one(R, ext, work, name, text):
    """(accepted, error text)"""
    base = os.path.join(work, re.sub(r"[^a-z0-9_]", "_", name.lower()))
    src = base + ".rs"
    with open(src, "w") as f:
        f.write(text)
    cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "p", "--emit=metadata", "--cap-lints", "allow",
           "-o", base + ".rmeta"] + ext + [src]
    e = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUST_BACKTRACE")}
    r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=120, errors="replace")
    for x in (src, base + ".rmeta"):
        try:
            os.remove(x)
        except OSError:
            pass
    if r.returncode == 0:
        return True, ""
    if r.returncode == 1 and re.search(r"^error", r.stderr, re.M):
        return False, r.stderr
    raise R.NoAnswer("rustc on %s: status %s: %s" % (name, r.returncode, r.stderr[-1500:]))


def write_crate(R, dir_, name, programs):
    """One program that runs all the given ones in turn."""
    shutil.rmtree(dir_, ignore_errors=True)
    os.makedirs(os.path.join(dir_, "src"))
    with open(os.path.join(dir_, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nvarlen = { path = "/repo/varlen", features = ["macro", "bumpalo"] }\n'
                'bumpalo = "3"\n[workspace]\n[profile.dev]\ndebug = 0\nincremental = false\n' % name)
    shutil.copy(os.path.join(R.VERIF, "snip", "Cargo.lock"), os.path.join(dir_, "Cargo.lock"))
    lock = os.path.join(dir_, "Cargo.lock")
    s = open(lock).read().replace('name = "snip"', 'name = "%s"' % name)
    open(lock, "w").write(s)
    main = "#![allow(warnings)]\n" + "".join("mod p%d;\n" % i for i in range(len(programs)))
    main += ("fn main() {\n    let a: Vec<usize> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();\n    let all: &[(usize, fn())] = &[%s];\n"
             "    for (i, f) in all {\n        if a.len() == 2 && (i %% a[1]) != a[0] { continue; }\n        println!(\"begin {}\", i);\n        f();\n        println!(\"end {}\", i);\n    }\n}\n"
             % ", ".join("(%d, p%d::main)" % (i, i) for i in range(len(programs))))
    with open(os.path.join(dir_, "src", "main.rs"), "w") as f:
        f.write(main)
    for i, (n, t) in enumerate(programs):
        with open(os.path.join(dir_, "src", "p%d.rs" % i), "w") as f:
            f.write("// %s\n" % n + t)


def run_split(R, cmd, cwd, env, programs, merge, label, shards, kind, timeout):
    def go(k):
        r = subprocess.run(cmd + [str(k), str(shards)], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, errors="replace")
        ends = len(re.findall(r"^end ", r.stdout, re.M))
        want = len(range(k, len(programs), shards))
        merge.count("legitimate programs run clean (%s)" % label, ends)
        if r.returncode == 0 and ends == want:
            return None
        b = re.findall(r"^begin (\d+)", r.stdout, re.M)
        if not b:
            return ("none", "?", r)
        if kind == "miri" and "unsupported operation" in r.stderr:
            return ("none", "?", r)
        if ends == want and not re.search(r"^error: (memory leaked|Undefined)", r.stderr, re.M):
            return ("none", "?", r)
        return ("bad", programs[int(b[-1])][0] if ends != want else "(after all programs)", r)
    with ThreadPoolExecutor(shards) as ex:
        out = list(ex.map(go, range(shards)))
    for o in out:
        if o and o[0] == "bad":
            m = re.search(r"error: .*", o[2].stderr)
            text = dict(programs).get(o[1], "")
            raise R.Violation("the legitimate program %s does not run clean (%s): %s" % (o[1], label, (m.group(0) if m else o[2].stderr[-300:].strip())),
                              {"program": o[1], "text": text, "stderr": o[2].stderr[-4000:], "mode": label})
    for o in out:
        if o:
            raise R.NoAnswer("%s: %s %s" % (label, o[2].stdout[-300:], o[2].stderr[-1500:]))


def demonstrate(R, prop, name, text):
    """What a hostile program that was accepted does, under Miri."""
    d = os.path.join(R.TARGET, "gen", prop + "-hostile")
    write_crate(R, d, "hostile_" + prop.lower(), [(name, text)])
    env = R.env_for("miri", "")
    env["MIRIFLAGS"] += " -Zmiri-ignore-leaks"
    env["CARGO_TARGET_DIR"] = os.path.join(R.TARGET, "miri")
    try:
        r = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "-q"], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=300, errors="replace")
    except subprocess.TimeoutExpired:
        return "no end", ""
    m = re.search(r"error: .*", r.stderr)
    return (m.group(0) if m and r.returncode else "no damage in this execution" if r.returncode == 0 else "status %s" % r.returncode), r.stderr[-3000:]


def check(R, prop, merge, pairs, miri_shards=8):
    ext = build_snip(R)
    work = os.path.join(R.TARGET, "gen", prop + "-w")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    miri_env = R.env_for("miri", "")
    # Some programs forget or leak on purpose; what they own is the business of other properties.
    miri_env["MIRIFLAGS"] += " -Zmiri-ignore-leaks"
    batch = os.path.join(R.TARGET, "gen", prop)
    legit = [(n, l) for n, h, l in pairs]
    write_crate(R, batch, "legit_" + prop.lower(), legit)
    nat = R.env_for("gen" + prop, "")
    done = R.prepare("gen" + prop)

    def build_batch():
        return subprocess.run(["cargo", "build", "--offline"], cwd=batch, env=nat, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, timeout=800, errors="replace")

    def hostile(c):
        n, h, l = c
        ok, err = compile_one(R, ext, work, "h_" + n, h)
        return n, h, ok, err
    with ThreadPoolExecutor(8) as ex:
        b = ex.submit(build_batch)
        res = list(ex.map(hostile, [p for p in pairs if p[1] is not None]))
        b = b.result()
    accepted = []
    codes = {}
    for n, h, ok, err in res:
        merge.evals += 1
        merge.hashes.add(hashlib.sha256(n.encode()).hexdigest()[:8])
        if ok:
            accepted.append((n, h))
        else:
            merge.count("hostile programs refused")
            for c in sorted(set(re.findall(r"^error\[(E\d+)\]", err, re.M))) or ["message of the macro" if "#[define_varlen]" in err or "define_varlen" in err else "other"]:
                codes[c] = codes.get(c, 0) + 1
    for c, k in codes.items():
        merge.count("refused with %s" % c, k)
    known = {f.split()[1]: f for f in R.known_findings(prop) if f.startswith("program ")}
    for n, h in [x for x in accepted if x[0] in known]:
        what, err = demonstrate(R, prop, n, h)
        merge.count("known findings observed")
        merge.samples.append("[known finding] %s: accepted; under Miri: %s" % (n, what))
        print("KNOWN-FINDING: property=%s %s" % (prop, known[n]))
    accepted = [x for x in accepted if x[0] not in known]
    if accepted:
        n, h = accepted[0]
        what, err = demonstrate(R, prop, n, h)
        raise R.Violation("the compiler accepts the hostile program %s (%d in all); executed under Miri: %s" % (n, len(accepted), what),
                          {"program": n, "text": h, "accepted": [x[0] for x in accepted], "miri": err})
    if b.returncode != 0:
        def one(c):
            ok, err = compile_one(R, ext, work, "l_" + c[0], c[1])
            return c[0], c[1], ok, err
        with ThreadPoolExecutor(8) as ex:
            for n, t, ok, err in ex.map(one, legit):
                if not ok:
                    raise R.Violation("the compiler refuses the legitimate program %s: %s" % (n, re.search(r"^error.*", err, re.M).group(0)),
                                      {"program": n, "text": t, "stderr": err[-4000:]})
        raise R.NoAnswer("the legitimate programs do not build together: " + b.stdout[-3000:])
    done()
    merge.count("legitimate programs accepted", len(legit))
    merge.evals += len(legit)
    exe = os.path.join(R.TARGET, "gen" + prop, "debug", "legit_" + prop.lower())
    run_split(R, [exe], batch, nat, legit, merge, "native", 4, "native", 300)
    done = R.prepare("miri")
    run_split(R, ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--"], batch, miri_env, legit, merge, "Miri", miri_shards, "miri", 800)
    done()
    merge.samples += ["[hostile] %s: refused" % n for n, h, l in pairs[:4] if h is not None] + ["[legitimate] %s: accepted, runs clean" % n for n, h, l in pairs[:4]]
    merge.runs.append({"mode": "rustc %s" % prop, "cases": sum(2 if h is not None else 1 for n, h, l in pairs)})
    shutil.rmtree(work, ignore_errors=True)


def choose(pairs, seed, tier, keep, key=lambda n: n.split("/")[0]):
    """All pairs, or of each group `keep` of them, rotating with the seed."""
    if tier == "thorough" or keep is None:
        return pairs
    groups = {}
    for p in pairs:
        groups.setdefault(key(p[0]), []).append(p)
    out = []
    for gi, g in enumerate(groups.values()):
        k = min(keep, len(g))
        step = max(1, len(g) // k)
        for j in range(k):
            out.append(g[(seed + gi + j * step) % len(g)])
    return out
