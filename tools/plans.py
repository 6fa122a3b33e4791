"""What each property's check runs, what it must have reached, and how the manifest describes it."""
import hashlib, os, re, shutil, subprocess, sys
import catalog, catcheck, oddities

HIST = ("A case is one history of operations (or one driver case, e.g. one table of lengths) on one element type, generated from VERIF_SEED, "
        "executed by the real library and judged step by step against a reference model; it counts as non-trivial if at least one operation changed "
        "library state. Two cases are distinct if the hash of their type, operations, value shapes and element counts differs.")
PROGS = ("A case is one program of the catalogue in one of its two readings, compiled against the library (hostile reading: must be refused; legitimate "
         "reading: must be accepted and is executed natively and under Miri). Programs are distinct by template and type.")

LEVEL = "exploration"
NOTE = ("Bounded exploration: held on every execution observed. Trusted: the reference model, the monitoring allocator and the value registry of "
        "/verif/harness, and rustc, Miri and the sanitizers where named.")


# ------------------------------------------------------------------ kinds of runs

def native(R, prop, tier, merge, quick_ms=16000, thorough_ms=150000, shards=4):
    """Histories on the debug and release-like builds, with the monitoring allocator."""
    kinds = ["dbg", "plain"]
    ms = quick_ms
    if tier == "thorough":
        kinds.append("rel")
        ms = thorough_ms
    b = R.build_all(kinds)
    jobs = []
    for off, k in enumerate(kinds):
        jobs += R.vh_jobs(prop, tier, k, b[k], shards, ms, seed_off=off)
    R.run_jobs(jobs, merge)


def asan(R, prop, tier, merge, ms, shards=4):
    b = R.build("asan")
    R.run_jobs(R.vh_jobs(prop, tier, "asan", b, shards, ms, seed_off=7), merge)


def miri(R, prop, tier, merge, cases, ms, drivers=(), start=0, shards=8, extra_types=()):
    """Histories under Miri; other drivers (name, cases) in the small program."""
    jobs = []
    if cases:
        R.build("miri")
        jobs += R.vh_jobs(prop, tier, "miri", None, shards, ms, extra=["--driver", "history", "--cases", str(cases)], timeout=ms / 1000.0 + 600, seed_off=11, start=start, label="miri")
    if drivers:
        R.build("mirilite")
    for d, n, sh in drivers:
        jobs += R.vh_jobs(prop, tier, "mirilite", None, sh, ms, extra=["--driver", d, "--cases", str(n)], timeout=ms / 1000.0 + 600, seed_off=12, start=0, label="miri " + d)
    R.run_jobs(jobs, merge)


def miri_foreign(R, prop, tier, merge, cases, ms, drivers=(), kinds=("miri32", "miribe"), shards=4):
    """The same under Miri for a 32-bit and for a big-endian machine."""
    jobs = []
    for k in kinds:
        if cases:
            R.build(k)
            jobs += R.vh_jobs(prop, tier, k, None, shards, ms, extra=["--driver", "history", "--cases", str(cases)], timeout=ms / 1000.0 + 600, seed_off=13, start=R.SEED * 48, label=k)
    if drivers:
        R.build("mirilite32")
    for d, n, sh in drivers:
        jobs += R.vh_jobs(prop, tier, "mirilite32", None, sh, ms, extra=["--driver", d, "--cases", str(n)], timeout=ms / 1000.0 + 600, seed_off=14, start=0, label="miri32 " + d)
    R.run_jobs(jobs, merge)


MIRI_DRIVERS = {"C08": [("sizes", 60, 2)], "C13": [("amortized", 6, 1)], "C19": [("texts", 30, 2)], "C20": [("array_init", 60, 2)], "C16": [("interior", 28, 2)],
                "C02": [("texts", 10, 1), ("array_init", 20, 1)], "C03": [("array_init", 20, 1)]}


def standard(quick_ms=16000, thorough_ms=150000, miri_cases=12, quick_foreign=()):
    """Native histories; the thorough tier adds the optimized build, AddressSanitizer and Miri."""
    def run(R, prop, tier, merge):
        native(R, prop, tier, merge, quick_ms, thorough_ms)
        if tier == "thorough":
            asan(R, prop, tier, merge, 60000, 8)
            miri(R, prop, tier, merge, miri_cases, 240000, MIRI_DRIVERS.get(prop, []), start=R.SEED * 96)
            miri_foreign(R, prop, tier, merge, miri_cases, 150000, MIRI_DRIVERS.get(prop, []))
        elif quick_foreign:
            miri_foreign(R, prop, tier, merge, 0, 30000, quick_foreign)
    return run


def c01(R, prop, tier, merge):
    quick = tier != "thorough"
    kinds = ["dbg", "plain", "asan"] + ([] if quick else ["rel"])
    b = R.build_all(kinds)
    ms = 10000 if quick else 150000
    jobs = []
    for off, k in enumerate(kinds):
        jobs += R.vh_jobs(prop, tier, k, b[k], 3, ms, seed_off=off)
    R.run_jobs(jobs, merge)
    if quick:
        miri(R, prop, tier, merge, 8, 60000, [("interior", 14, 1), ("array_init", 12, 1), ("texts", 8, 1)])
    else:
        miri(R, prop, tier, merge, 60, 420000, [("interior", 56, 2), ("array_init", 60, 1), ("texts", 30, 1)], start=R.SEED * 480)
        miri_foreign(R, prop, tier, merge, 30, 300000, [("interior", 28, 1), ("array_init", 60, 1), ("texts", 30, 1)])


def c25(R, prop, tier, merge):
    pairs = catcheck.choose(catalog.c25(), R.SEED, tier, 1, key=lambda n: n.rsplit("/", 1)[0])
    catcheck.check(R, prop, merge, pairs)
    quick = tier != "thorough"
    b = R.build_all(["lite", "tsan"])
    ms = 8000 if quick else 240000
    jobs = R.vh_jobs(prop, tier, "lite", b["lite"], 2, ms, seed_off=0) + R.vh_jobs(prop, tier, "tsan", b["tsan"], 4, ms, seed_off=1)
    R.run_jobs(jobs, merge)
    miri(R, prop, tier, merge, 0, 40000 if quick else 300000, [("threads", 4 if quick else 60, 4 if quick else 8)])


def c24(R, prop, tier, merge):
    catcheck.check(R, prop, merge, catcheck.choose(catalog.c24(), R.SEED, tier, 2))


def c26(R, prop, tier, merge):
    catcheck.check(R, prop, merge, catalog.c26())


def fresh_structs(R, name, seed, count):
    """A crate of newly generated struct definitions with their reference semantics."""
    d = os.path.join(R.TARGET, "gen", name)
    src = os.path.join(d, "src")
    os.makedirs(src, exist_ok=True)
    toml = open(os.path.join(R.VERIF, "app", "Cargo.toml")).read().replace('name = "vhapp"', 'name = "vhgen"').replace('"../harness"', '"%s/harness"' % R.VERIF)
    write(os.path.join(d, "Cargo.toml"), toml)
    write(os.path.join(d, "Cargo.lock"), open(os.path.join(R.VERIF, "app", "Cargo.lock")).read().replace('name = "vhapp"', 'name = "vhgen"'))
    write(os.path.join(src, "main.rs"), """mod structs;
#[cfg(feature = "galloc")]
#[global_allocator]
static GLOBAL: vh::galloc::G = vh::galloc::G;
fn main() { vh::run::main(&|| structs::types()) }
""")
    out = os.path.join(src, "structs.rs")
    tmp = out + ".new"
    subprocess.run([sys.executable, os.path.join(R.VERIF, "tools", "genstructs.py"), "vh", str(seed), str(count), tmp], check=True, stdout=subprocess.DEVNULL)
    write(out, open(tmp).read())
    os.remove(tmp)
    return d


def write(path, text):
    """Only if it differs (cargo looks at modification times)."""
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def c18(R, prop, tier, merge):
    quick = tier != "thorough"
    crates = [("c18-0", 1000 + R.SEED, 14)] if quick else [("c18-%d" % k, 2000 + R.SEED * 10 + k, 40) for k in range(6)]
    catcheck.check(R, prop, merge, oddities.c18())
    jobs = []
    for name, seed, count in crates:
        d = fresh_structs(R, name, seed, count)
        # All share one build directory: they differ in nothing but the definitions.
        b = R.build("dbg", crate_dir=d, target="gen-" + ("q" if quick else name))
        merge.count("fresh struct definitions compiled", count)
        jobs += R.vh_jobs(prop, tier, "dbg", b, 4, 8000 if quick else 60000, seed_off=20 + seed, label="fresh structs %d" % seed)
    R.run_jobs(jobs, merge)
    standard(10000, 120000)(R, prop, tier, merge)


def c23(R, prop, tier, merge):
    catcheck.check(R, prop, merge, oddities.c23())
    standard()(R, prop, tier, merge)


# ------------------------------------------------------------------ the properties

def plan(run=None, rule=HIST, must=(), technique="", assumptions=(), note=NOTE, level=LEVEL):
    return {"level": level, "run": run or standard(), "rule": rule, "must_see": list(must), "assumptions": list(assumptions), "technique": technique, "note": note}


MODEL = "online reference-model monitor over randomized operation histories of the real code"
PLANS = {
    "C01": plan(c01, technique="AddressSanitizer, Miri (Tree Borrows) and a canary/layout-checking allocator watching randomized safe-API histories (debug, release-like, sanitized and interpreted builds)",
                must=["op.push", "op.take", "op.panicking", "init.owned", "interior.shared_writes", "ai.fill_seq", "op.arena_new", "op.at_mut"],
                assumptions=["Miri's and AddressSanitizer's verdicts", "Tree Borrows as the aliasing model"]),
    "C02": plan(technique=MODEL + ": every accessor compared with the model after each step", must=["many.elements_audited", "op.push", "op.box_to_seq", "op.arena_to", "op.at_mut", "init.vclone", "init.vcopy", "texts.accepted"]),
    "C03": plan(technique="value registry (uniquely numbered tokens, drop exactly once) monitoring randomized histories of the real code", must=["op.take", "op.take_forget", "op.box_drop", "op.seq_drop", "op.arena_drop", "clones"]),
    "C04": plan(technique="fault injection (panics at each call of user code) with value registry and reference-model monitors", must=["many.interrupted", "op.panicking", "panics_in_user_code", "leaked_by_panic"]),
    "C05": plan(technique="interposing initializer and allocator monitor comparing predicted and actual layout, red zones around destinations", must=["wide.elements_audited", "op.push", "op.box_new", "op.arena_new"]),
    "C06": plan(technique="addresses of all fields and elements compared online with a reference layout computed from the value", must=["op.push", "op.box_new", "op.arena_new", "op.seq_macro"]),
    "C07": plan(technique="monitoring global allocator: event log checked online against exact expected heap blocks", must=["op.push", "op.box_new", "op.box_clone", "op.take_all"]),
    "C08": plan(standard(quick_foreign=[("sizes", 44, 2)]), technique="boundary-directed workload of lengths and sizes with a 128-bit arithmetic oracle and allocator monitor", must=["sizes.refused", "sizes.push_refused", "sizes.fit", "sizes.at_the_limit", "lens.refused", "lens.built", "huge_refused"]),
    "C09": plan(technique="allocation-fault injection at every allocation of operations, in forked children, judged by model, registry and allocator monitors", must=["af.injected", "af.fired", "af.aborted", "af.survived"],
                rule=HIST + " For injected failures a case is (history, operation, index of the failing allocation)."),
    "C10": plan(technique=MODEL + " (list model)", must=["many.elements_audited", "op.push", "op.extend", "op.collect", "op.iter", "op.iter_mut", "op.take", "op.take_all", "op.seq_macro", "op.iterator_protocol"]),
    "C11": plan(technique=MODEL + " (set of live offsets; whole offset range probed)", must=["many.elements_audited", "offsets_probed", "op.offsets", "op.at_mut", "op.take", "op.panicking"]),
    "C12": plan(technique=MODEL + " (recorded offsets; foreign objects)", must=["many.elements_audited", "op.offsets", "op.offset_of_foreign", "offset_mutations"]),
    "C13": plan(technique="allocator event counting over adversarial push/refill workloads against logarithmic and linear bounds", must=["amortized.pushes", "amortized.refills", "max.reallocations"]),
    "C14": plan(technique=MODEL + " with value registry over all dispositions of taken elements", must=["many.taken", "op.take", "op.take_all", "op.take_forget", "init.owned", "op.arena_to", "op.iterator_protocol"]),
    "C15": plan(technique="value registry (clone events) and reference model over clone/mutate/drop interleavings", must=["many.cloned", "op.box_clone", "op.box_clone_to", "op.arena_clone", "op.seq_clone", "init.vcopy", "op.clone_from"]),
    "C16": plan(technique=MODEL + ": full re-read and extents of live references after each write; writes through shared references to interior-mutable contents in optimized code", must=["many.elements_audited", "op.box_mutate", "op.arena_mutate", "op.iter_mut", "op.all_mut", "op.at_mut", "interior.shared_writes"]),
    "C17": plan(technique=MODEL + " over generated structs with value registry and panicking destructors", must=["ctl_accepted", "ctl_refused", "ctl.panicking_drop"]),
    "C18": plan(c18, technique="randomly generated struct definitions compiled, executed and monitored against the reference semantics generated with them", must=["wide.struct_elements_audited", "fresh struct definitions compiled", "op.push", "ctl_accepted", "ctl_refused"]),
    "C19": plan(technique=MODEL + " with UTF-8 validation over adversarial texts and lengths", must=["texts.accepted", "texts.refused", "op.push"]),
    "C20": plan(technique="event log of calls into user functions and iterators checked online, with value registry", must=["ai.iter_gap", "ai.iter_longer", "ai.iter_shorter", "ai.clone_wrong", "ai.copy_wrong", "ai.fill_seq", "ai.move", "ai.default", "ai.panic"]),
    "C21": plan(technique=MODEL + " with value registry and allocator monitor over raw round trips and leaks", must=["many.boxes", "op.raw_trip", "op.into_raw", "op.from_raw", "op.arena_leak", "op.arena_raw"]),
    "C22": plan(technique=MODEL + " with extents of all live arena objects and value registry", must=["many.arenas", "op.arena_new", "op.arena_mutate", "op.arena_drop", "op.arena_to", "op.arena_clone"]),
    "C23": plan(c23, technique=MODEL + " of wrapper and wrapped type side by side; programs with unusual newtype declarations run natively and under Miri", must=["many.elements_audited", "op.push", "op.box_new", "op.at_mut", "legitimate programs run clean (Miri)"]),
    "C24": plan(c24, rule=PROGS, technique="catalogue of paired hostile and legitimate client programs: compiler verdict, execution under Miri", must=["hostile programs refused", "legitimate programs run clean (native)", "legitimate programs run clean (Miri)"],
                assumptions=["the catalogue's templates stand for all safe programs"]),
    "C25": plan(c25, rule=PROGS + " " + HIST, technique="ThreadSanitizer and Miri race detection over threaded workloads compared with sequential results; catalogue of sharing/sending programs with compiler verdicts",
                must=["hostile programs refused", "legitimate programs run clean (Miri)", "threads.shared_reads", "threads.disjoint_mutations", "threads.increments", "threads.own_containers"]),
    "C26": plan(c26, rule=PROGS, technique="catalogue of malformed definitions paired with well-formed ones: verdict of the macro and compiler, execution of accepted ones under Miri",
                must=["hostile programs refused", "legitimate programs run clean (native)", "legitimate programs run clean (Miri)"]),
}


def in_definition(path, line):
    """Is this line of one of our sources inside a struct under #[define_varlen]?"""
    for root in ("harness", "app", "lite", "generated"):
        for d, _, fs in os.walk(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), root)):
            if os.path.basename(path) in fs and (os.path.join(d, os.path.basename(path))).endswith(path.lstrip("./")):
                ls = open(os.path.join(d, os.path.basename(path))).read().splitlines()
                i = min(int(line), len(ls)) - 1
                while i >= 0:
                    if "define_varlen" in ls[i] and ls[i].lstrip().startswith("#["):
                        return True
                    if i < int(line) - 1 and re.match(r"\s*\}\s*$", ls[i]):
                        break
                    i -= 1
    return False


def judge_build_failure(prop, b):
    """Definitions that compile with the library as it is must keep compiling."""
    errs = re.findall(r"^error[^\n]*\n\s*--> (\S+?):(\d+)", b.out, re.M)
    first = re.search(r"^error.*", b.out, re.M)
    files = {os.path.basename(f) for f, _ in errs}
    if prop == "C18" and ("structs.rs" in files or any(in_definition(f, l) for f, l in errs)):
        return "well-formed struct definitions do not compile (%s): %s" % (b, first.group(0))
    if prop == "C23" and "types.rs" in files:
        return "newtype definitions do not compile (%s): %s" % (b, first.group(0))
    if prop == "C25" and re.search(r"E0277[^\n]*\n\s*--> \S*threads.rs", b.out) and re.search(r"cannot be (shared|sent) between threads", b.out):
        return "objects whose contents may be shared or sent are refused (%s): %s" % (b, first.group(0))
    return None


def setup(R):
    R.build_all(["dbg", "plain", "asan"])
    R.build_all(["lite", "tsan"])
    R.build("miri")
    R.build("mirilite")
    R.build("miri32")
    R.build("mirilite32")
    catcheck.build_snip(R)
    d = fresh_structs(R, "c18-0", 1000 + R.SEED, 14)
    R.build("dbg", crate_dir=d, target="gen-q")


NOT_APPLICABLE = {}
