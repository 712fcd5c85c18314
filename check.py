#!/usr/bin/env python3
"""Decides one property of neon_sim against the TLA+ specification in spec/.

    check.py C04              quick or thorough by VERIF_TIER, seed VERIF_SEED
    check.py replay FILE      repeat a recorded divergence

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Anything else: the check failed.
"""
import collections, concurrent.futures as cf, json, os, re, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NEON_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
MC = os.path.join(VERIF, "mc")
HARN = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
for cand in ("/opt/veriftools/tla",):
    jars = [os.path.join(cand, f) for f in sorted(os.listdir(cand)) if f.endswith(".jar")] if os.path.isdir(cand) else []
    if jars:
        JAR = ":".join(jars)
NCPU = 8
sys.path.insert(0, HARN)
import gen


class CheckError(Exception):
    pass


def sh(cmd, timeout=600, env=None, cwd=None, check=True, inp=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=e, cwd=cwd, input=inp, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("out of time (%s s): %s" % (timeout, cmd))
    if check and p.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (p.returncode, cmd, p.stdout[-4000:]))
    return p


# ---------------------------------------------------------------- TLC
class Tlc:
    """One TLC run; .ok, .states, .distinct, .out"""

    def __init__(self, work, module, cfg, env=None, heap="2g", timeout=700, workers=1, args=(), dirs=(SPEC,)):
        self.module = module
        meta = os.path.join(work, "tlc-" + os.path.basename(cfg) + "-" + str(abs(hash((module, cfg, str(env)))) % 10 ** 9))
        os.makedirs(meta, exist_ok=True)
        lib = ":".join(dirs)
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
               "-DTLA-Library=" + lib, "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
        p = sh(cmd, timeout=timeout, env=env, check=False, cwd=meta)
        self.rc, self.out = p.returncode, p.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", self.out)
        self.states, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = p.returncode == 0
        shutil.rmtree(meta, ignore_errors=True)


def export_catalog(work):
    out = os.path.join(work, "catalog.json")
    t = Tlc(work, os.path.join(SPEC, "Export.tla"), os.path.join(SPEC, "Export.cfg"), env={"OUT": out})
    if not t.ok or not os.path.exists(out):
        raise CheckError("catalogue export failed\n" + t.out[-3000:])
    cat = gen.load(out)
    export_catalog.types = [dict(c=y["c"], t=y["t"], q=y["q"], n=y["v"]) for y in gen.load(out + ".types")]
    return cat


# ---------------------------------------------------------------- builds
def build_lib(work, name, cxx, flags, extra=()):
    """Builds the library from the working tree with /repo's own build files; returns the archive."""
    d = os.path.join(work, "lib-" + name)
    cc = {"g++": "gcc", "clang++": "clang"}[cxx]
    std = re.search(r"-std=\S+", flags)
    if std:                                                       # the build file sets a standard of its own, after the flags
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "std.sh"), "w") as o:
            o.write('#!/bin/bash\na=()\nfor x; do case $x in -std=*) x=%s;; esac; a+=("$x"); done\nexec "${a[@]}"\n' % std[0])
        os.chmod(os.path.join(d, "std.sh"), 0o755)
        extra = list(extra) + ["-DCMAKE_CXX_COMPILER_LAUNCHER=" + os.path.join(d, "std.sh")]
        flags = flags.replace(std[0], "")
    sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_COMPILER=" + cxx,
        "-DCMAKE_C_COMPILER=" + cc, "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_C_FLAGS=" + flags] + list(extra))
    if sh(["ninja", "-C", d, "neon_sim"], check=not std).returncode:
        return None                                               # the tree is not for that standard
    return os.path.join(d, "libneon_sim.a")


def build_guided(work):
    """The library and callbacks for coverage guidance: None when the tree does not build that way."""
    try:
        lib = build_lib(work, "guided", "clang++", "-O0 -g -fsanitize-coverage=trace-pc-guard,trace-cmp", ["-DCMAKE_TRY_COMPILE_TARGET_TYPE=STATIC_LIBRARY"])
        cov = os.path.join(work, "sancov.o")
        sh(["g++", "-O2", "-c", os.path.join(HARN, "sancov.cpp"), "-o", cov])
        return lib, cov
    except CheckError:
        return None


def build_ref(work):
    """The screen's expectations (harness/ref.cpp)."""
    out = os.path.join(work, "ref.o")
    sh(["g++", "-O3", "-std=c++17", "-w", "-ffp-contract=off", "-I" + HARN, "-c", os.path.join(HARN, "ref.cpp"), "-o", out])
    return out


def bodies_in_header(log):
    """Intrinsics a compiler refuses to declare weak because the header defines them."""
    return {m[1] for l in log.split("\n") if "weak" in l and "must be public" in l
            for m in re.finditer(r"\b(v\w+)(?=\(|\W{0,3} must)", l)}


def build_driver_obj(work, cat, flags="-O1 -std=c++17", cxx="g++", tag="", src="driver.cpp", ptr=8):
    """Compiles driver.cpp against /repo's header.  Intrinsics the header does not offer with a usable type are left
    out (they are C18's business); returns (object, names left out)."""
    d = os.path.join(work, "drv" + tag)
    os.makedirs(d, exist_ok=True)
    left, inline = set(), set()
    build_driver_obj.inline = inline
    for _ in range(8):
        where = gen.gen(cat, os.path.join(d, "ops_gen.inc"), left, inline, ptr)
        p = sh([cxx] + flags.split() + ["-w", "-fmax-errors=0" if cxx == "g++" else "-ferror-limit=0", "-I" + d, "-I" + REPO, "-I" + HARN, "-c",
                os.path.join(HARN, src), "-o", os.path.join(d, "driver.o")], check=False)
        if p.returncode == 0:
            build_driver_obj.inline = inline
            return os.path.join(d, "driver.o"), left
        if bodies_in_header(p.stdout) - inline:
            inline |= bodies_in_header(p.stdout)
            continue
        new = set()
        for m in re.finditer(r"ops_gen\.inc:(\d+)", p.stdout):
            if int(m[1]) in where:
                new.add(where[int(m[1])])
        if not new - left:
            raise CheckError("the harness does not compile against neon_sim.h\n" + p.stdout[-4000:])
        left |= new
    raise CheckError("the harness does not compile against neon_sim.h")


def header_text(cxx, flags, lang="c++"):
    """What the header says to a client compiled with these flags."""
    p = sh([cxx] + flags.split() + ["-w", "-E", "-x", lang, os.path.join(REPO, "neon_sim.h")], check=False)
    out, here = [], False
    for l in p.stdout.split("\n"):
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m:
            here = m[1].startswith(REPO)
        elif here and l.strip():
            out.append(l.strip())
    return "\n".join(out)


def link_driver(obj, lib, out, cxx="g++", flags="", more=()):
    sh([cxx] + flags.split() + [obj] + list(more) + ["-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", "-o", out, "-lpthread", "-lm"])
    return out


def dictionary(work):
    """Integer and float literals of the library's sources: interesting operand values for the generator."""
    vals = set()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if not x.startswith((".", "_build", "build", "tests"))]
        for f in files:
            if f.endswith((".cpp", ".h", ".hpp", ".c", ".cc", ".inc", ".inl")):
                try:
                    t = open(os.path.join(root, f), errors="replace").read()
                except OSError:
                    continue
                t = re.sub(r"//[^\n]*", "", t)
                for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|0[bB][01]+|\d+)(?:[uUlL]*)(?![\w.])", t):
                    try:
                        vals.add(int(m[1], 0) if not re.fullmatch(r"0\d+", m[1]) else int(m[1], 8))
                    except ValueError:
                        pass
                import struct
                for m in re.finditer(r"(?<![\w.])(\d+\.\d*(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+|\.\d+)[fF]?", t):
                    try:
                        x = float(m[1])
                        vals.add(struct.unpack("<Q", struct.pack("<d", x))[0])
                        vals.add(struct.unpack("<I", struct.pack("<f", x))[0])
                        vals.add(int(x))
                    except (OverflowError, ValueError, struct.error):
                        pass
    vals = sorted(v & (2 ** 64 - 1) for v in vals if v < 2 ** 64)
    p = os.path.join(work, "dict.txt")
    open(p, "w").write("".join("%d\n" % v for v in vals))
    return p


# ---------------------------------------------------------------- trace validation
def parse_divergences(out):
    res = {}
    for l in out.split("\n"):
        m = re.match(r'"DIVERGENCE (\d+) (.*)"\s*$', l)
        if m:
            try:
                res[int(m[1])] = json.loads(m[2].replace('\\"', '"'))
            except ValueError:
                res[int(m[1])] = {"raw": m[2]}
    return res


def validate(work, shard):
    """Validates one trace file; returns (events, TLC states, [(line number, event, expected)])."""
    n = sum(1 for _ in open(shard))
    if n == 0:
        return 0, 0, []
    t = Tlc(work, os.path.join(SPEC, "NeonTrace.tla"), os.path.join(SPEC, "NeonTrace.cfg"), env={"TRACE": shard}, heap="3g")
    if not t.ok or '"CONSUMED", %d' % n not in t.out:
        raise CheckError("trace validation failed for %s\n%s" % (shard, t.out[-4000:]))
    div = parse_divergences(t.out)
    if not div:
        return n, t.states, []
    res = []
    for i, l in enumerate(open(shard), 1):
        if i in div:
            res.append((i, json.loads(l), div[i]))
    return n, t.states, res


def split(work, path, n=NCPU):
    base = os.path.join(work, "shard_")
    sh(["split", "-n", "r/%d" % n, "-d", "--additional-suffix=.ndjson", path, base])
    return sorted(os.path.join(work, f) for f in os.listdir(work) if f.startswith("shard_"))


def run_pool(jobs):
    """jobs: list of (function, args); returns results in order, raising the first error."""
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fs = [ex.submit(f, *a) for f, a in jobs]
        return [f.result() for f in fs]


def model_check(work, name, expect="ok", args=(), heap="2g", timeout=700):
    """Runs mc/<name>.tla with mc/<name>.cfg."""
    mod = name.split(":")[0]
    cfg = name.replace(":", "-")
    t = Tlc(work, os.path.join(MC, mod + ".tla"), os.path.join(MC, cfg + ".cfg"), dirs=(SPEC, MC), args=args, heap=heap, timeout=timeout)
    if expect == "ok" and not t.ok:
        raise CheckError("model check %s failed: the specification itself is broken\n%s" % (name, t.out[-4000:]))
    if expect == "violation" and "is violated" not in t.out:
        raise CheckError("model check %s was expected to find a counterexample\n%s" % (name, t.out[-4000:]))
    return {"model": name, "states": t.states, "distinct": t.distinct, "expected": expect}


# ---------------------------------------------------------------- context of a run
class Run:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "build", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.events = self.executed = 0
        self.models = []
        self.samples = []
        self.per_op = collections.Counter()
        self.violations = []          # dicts
        self.extra = {}
        self.assumptions = []
        self.times = {}

    def mark(self, what):
        self.times[what] = round(time.time() - self.t0, 1)

    def add_models(self, res):
        for r in res:
            self.models.append(r)
            self.states += r["states"]
            self.transitions += max(0, r["states"] - 1)

    def add_traces(self, res):
        div = []
        for n, st, d in res:
            if n:
                self.traces += 1
                self.events += n
                self.states += st
                self.transitions += max(0, st - 1)
            div += d
        return div

    def violation(self, what, **kw):
        self.violations.append(dict(what=what, **kw))

    def finish(self):
        cov = {
            "states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
            "events_validated": self.events, "calls_executed": self.executed,
            "models": self.models, "samples": self.samples[:8],
            "intrinsics": len(self.per_op), "events_per_intrinsic_min": min(self.per_op.values()) if self.per_op else 0,
            "phase_seconds": self.times,
        }
        cov.update(self.extra)
        known, new = filter_known(self.prop, self.violations)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if new:
            path = os.path.join(VERIF, "build", "replay", self.prop + ".json")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "violations": new[:50]}, open(path, "w"), indent=1)
            for v in new[:5]:
                print("  " + v["what"][:600])
            print("%d violation(s)" % len(new))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s: held; %d events of %d traces validated, %d model states, %.1f s" % (
            self.prop, self.events, self.traces, self.states, time.time() - self.t0))
        return 0


def filter_known(prop, violations):
    """known_findings.txt: lines 'known: property=<id> {json}' where every member of the json must equal the event's."""
    pats = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) (\{.*\})", l)
            if m and m[1] == prop:
                pats.append(json.loads(m[2]))
    known, new = [], []
    for v in violations:
        e = v.get("event", {})
        (known if any(all(e.get(k) == x for k, x in p.items()) for p in pats) else new).append(v)
    return known, new


def describe(e, x):
    s = "%s%s a=%s" % (e["o"], " k=%d" % e["k"] if "k" in e else "", e.get("a"))
    s += " -> %s %s, specification: %s %s" % (e["s"], e.get("r", ""), x.get("s", x), x.get("r", ""))
    if "w" in e and x.get("w") != e["w"]:
        s += "; memory after (offset %s): %s, specification: %s" % (e.get("p"), e["w"], x.get("w"))
    return s


def hexs(b):
    return bytes(b).hex() or "-"


def one_event(driver, e, times=1):
    """Repeats the call of a recorded event in a fresh process; with times > 1 the list of all outcomes there."""
    p = sh([driver, "one", e["o"], str(e.get("k", 0)), str(e.get("p", 0)), hexs(e.get("m", [])), str(e.get("z", 0))] +
           [hexs(a) for a in e["a"]], timeout=60, check=False, env=dict({"NEON_TIMES": str(times)}, **({"NEON_VIA": e["cfg"].split("-")[0]} if "-client" in e.get("cfg", "") else {})))
    ev = [json.loads(l) for l in p.stdout.split("\n") if l.startswith("{")]
    if times > 1:
        return ev
    return ev[0] if ev else None


def confirm(run, drivers, div, rerun=None, one=one_event):
    """Turns divergences into violations.  Each is repeated as a single call in a fresh process; when that call then
    conforms, the outcome depended on the history, and the whole recording is repeated (rerun)."""
    for i, e, x in [d for d in div if d[1]["e"] != "call"]:
        run.violation("%s %s: recorded %s, specification: %s" % (e["e"], e.get("ty", ""), json.dumps({k: v for k, v in e.items() if k != "e"}), json.dumps(x)), event=e, expected=x)
    div = [d for d in div if d[1]["e"] == "call"]
    if not div:
        return
    by = collections.OrderedDict()
    for i, e, x in div:
        by.setdefault((e["o"], e["s"], e.get("cfg", "")), []).append((i, e, x))
    lines_again = None
    for (o, s, cfg), ds in by.items():
        drv = drivers.get(cfg) or next(iter(drivers.values()))
        done = 0
        for i, e, x in ds[:6]:
            r = one(drv, e)
            same = r is not None and r.get("s") == e["s"] and r.get("r") == e.get("r") and r.get("w") == e.get("w")
            kind = "repeats as a single call"
            if not same:
                if lines_again is None:
                    lines_again = rerun() if rerun else set()
                key = json.dumps({k: v for k, v in e.items() if k != "cfg"}, sort_keys=True)
                kind = "repeats only in the recorded history" if key in lines_again else "seen once; depends on uncontrolled state"
                if kind.startswith("seen once") and (e["s"] in ("hang", "sig9", "sig15")):
                    continue
            run.violation(describe(e, x) + " [%s%s; %d such]" % (kind, "; build " + cfg if cfg else "", len(ds)),
                          event=e, expected=x, build=cfg, repeatability=kind)
            done += 1
            if done >= 2:
                break


# ---------------------------------------------------------------- value properties
MAIN = ("gcc-O2", "g++", "-O2 -g")

# cases per intrinsic for each property (quick, thorough), models, exhaustive enumeration
VALUE = {
    "C01": dict(n=(3000, 40000)), "C02": dict(n=(2000, 20000)), "C03": dict(n=(5000, 60000)),
    "C04": dict(n=(3000, 30000)), "C05": dict(n=(3500, 30000)), "C06": dict(n=(6000, 60000)),
    "C07": dict(n=(6000, 60000)), "C08": dict(n=(8000, 80000)), "C09": dict(n=(3000, 30000)),
    "C10": dict(n=(8000, 80000)), "C11": dict(n=(2500, 25000)), "C12": dict(n=(30000, 400000)),
    "C13": dict(n=(4000, 40000)), "C14": dict(n=(2000, 60000)), "C15": dict(n=(40000, 500000)),
    "C16": dict(n=(50000, 500000)), "C17": dict(n=(3000, 30000), imm=True, configs=[("gcc-O2-NDEBUG", "g++", "-O2 -DNDEBUG")]),
}
# the screen: random calls for each intrinsic, for all together, calls for enumerated operand spaces
SCREEN = ((12000000, 300000000, 5 << 30), (300000000, 6000000000, 60 << 30))
# families that another property's statement also speaks about
ALSO = {
    "C02": ("ldlane", "stlane"), "C03": ("dup_n",), "C05": ("qdmull",), "C06": ("qmovn", "qmovun", "qshrn_n", "qshrun_n", "qrshrun_n"),
    "C08": ("shrn_n", "rshrn_n", "shll_n", "qshrn_n", "qshrun_n", "qrshrun_n"), "C11": ("lddup",),
}
# design-level checks of the specification run with each property (module:configuration, expectation)
MODELS = {
    "C01": [("MCMove:C01",)], "C02": [("MCMove:C02",)], "C03": [("MCMove:C03",), ("MCLanes:C03",)],
    "C04": [("MCWords",), ("MCLanes:C04",)], "C05": [("MCLanes:C05",)], "C06": [("MCLanes:C06",)], "C07": [("MCLanes:C07",)],
    "C08": [("MCLanes:C08",)], "C09": [("MCLanes:C09",)], "C10": [("MCLanes:C10",), ("MCFloat:C10-4",), ("MCFloat:C10-8",)],
    "C11": [("MCMove:C11",), ("MCLanes:C11",)], "C12": [("MCTable",)], "C13": [("MCMove:C13",)],
    "C14": [("MCFloat:C14-8",), ("MCFloat:C14-4",), ("MCFloat:C14u-4",), ("MCFloat:C14u-8",)], "C15": [("MCFloat:C15",)],
    "C16": [("MCFloat:C16",), ("MCFloat:C14u-4",)], "C17": [("MCImm",), ("MCMachine:quick",)], "C18": [("MCNames",)],
    "C19": [("MCMachine:quick",), ("MCInterleave:local",), ("MCInterleave:static", "violation"), ("MCInterleave:sticky", "violation")],
    "C20": [("MCMachine:quick",), ("MCMove:C02",)], "C21": [("MCMachine:quick",)],
    "C22": [("MCNames",)], "C23": [("MCMachine:quick",)],
}
MODELS_THOROUGH = {p: [("MCMachine:deep",)] for p in ("C17", "C19", "C20", "C21")}


def prepare(run, configs=(MAIN,), driver_flags="-O1 -std=c++17"):
    """Catalogue, libraries and drivers."""
    jobs = [(export_catalog, (run.work,)), (build_guided, (run.work,)), (build_ref, (run.work,))] + [(build_lib, (run.work,) + c) for c in configs]
    res = run_pool(jobs)
    ref = res.pop(2)
    guided = res.pop(1)
    configs = tuple(c for c, lib in zip(configs, res[1:]) if lib)
    res = [x for x in res if x]
    run.cat = res[0]
    run.byname = {c["name"]: c for c in run.cat}
    run.mark("catalogue and library")
    obj, left = build_driver_obj(run.work, run.cat, driver_flags)
    run.left = left
    drivers = collections.OrderedDict()
    # a client sees the header as its own flags make it: another client for every configuration where that differs
    texts = run_pool([(header_text, ("g++", driver_flags))] + [(header_text, c[1:3]) for c in configs])
    if build_driver_obj.inline:                                   # code in the header is compiled with the client
        texts = [t + f for t, f in zip(texts, ["g++ " + driver_flags] + [c[1] + " " + c[2] for c in configs])]
    objs = {texts[0]: obj}
    new = collections.OrderedDict((t, c) for t, c in zip(texts[1:], configs) if t != texts[0])
    for t, o in zip(new, run_pool([(build_driver_obj, (run.work, run.cat, c[2] + " -std=c++17", c[1], "-" + c[0])) for c in new.values()])):
        objs[t] = o[0]
    run.extra["header_variants"] = len(objs)
    for c, lib, text in zip(configs, res[1:], texts[1:]):
        drivers[c[0]] = link_driver(objs[text], lib, os.path.join(run.work, "driver-" + c[0]), more=[ref],
                                    flags="-fsanitize=address,undefined" if "address" in c[2] else "")
    run.drivers = drivers
    run.guided = link_driver(obj, guided[0], os.path.join(run.work, "driver-guided"), more=[guided[1], "-no-pie"]) if guided else None
    p = sh([next(iter(drivers.values())), "list"])
    run.usable, run.exh = [], {}
    missing = sorted(left)
    for l in p.stdout.split("\n"):
        f = l.split()
        if len(f) == 4:
            if f[1] == "1" and f[2] == "1":
                run.usable.append(f[0])
                run.exh[f[0]] = int(f[3])
            else:
                missing.append(f[0])
    run.missing = missing
    run.mark("driver")
    return drivers


def record(run, drv, plan, tag=""):
    pf = os.path.join(run.work, "plan%s.txt" % tag)
    out = os.path.join(run.work, "events%s.ndjson" % tag)
    open(pf, "w").write("".join("%s %d %d\n" % p for p in plan))
    p = sh([drv, "calls", pf, out, str(run.seed), run.dict], timeout=800)
    m = re.search(r"executed (\d+)", p.stdout)
    if not m:
        raise CheckError("recording failed: " + p.stdout[-2000:])
    run.executed += int(m[1])
    return out


def guide(run, ops, n):
    """Coverage-guided search for calls (op, number of trials, kind of immediates); returns the file of calls found."""
    out = os.path.join(run.work, "guided.txt")
    open(out, "w").close()
    if run.guided is None:
        run.extra["guided_calls"] = 0
        return out
    plan = [(o, n, 2 if run.prop == "C17" else 0) for o in ops]

    def one(i):
        pf, of = os.path.join(run.work, "gplan%d.txt" % i), os.path.join(run.work, "guided%d.txt" % i)
        open(pf, "w").write("".join("%s %d %d\n" % p for p in plan[i::NCPU]))
        p = sh([run.guided, "guided", pf, of, str(run.seed), run.dict], timeout=800, env={"ASAN_OPTIONS": ""})
        run.extra["guided_trials"] = run.extra.get("guided_trials", 0) + int(re.search(r"executed (\d+)", p.stdout)[1])
        return of
    with open(out, "w") as o:
        for f in run_pool([(one, (i,)) for i in range(NCPU)]):
            o.write(open(f).read())
    run.extra["guided_calls"] = sum(1 for _ in open(out))
    run.mark("guided search")
    return out


def recall(run, drv, calls, tag=""):
    out = os.path.join(run.work, "recalled%s.ndjson" % tag)
    p = sh([drv, "recall", calls, out], timeout=800)
    run.executed += int(re.search(r"executed (\d+)", p.stdout)[1])
    return out


LANEWISE = set("""add sub mul mul_n mla mla_n max min cgt clt qadd qsub hsub shr_n shl_n sra_n cvt cvtn addl subl mull mull_n addw subw mlal mlsl
    movl shll_n qdmull subhn rsubhn movn shrn_n rshrn_n qmovn qmovun qshrn_n qshrun_n qrshrun_n div recpe recps and orr eor mvn bsl addl_high
    addw_high addhn_high""".split())


def screen(run, drivers, ops, per_op, total, sweep, bad=0, tag=""):
    """Calls the native screen (harness/screen.inc) objects to, as a file of calls for TLC to judge.  ops get per_op random
    calls each, but no more than total together; operand spaces of at most 32 bits per lane are enumerated, sweep calls in all."""
    imm = lambda c: c["hi"] - c["lo"] + 1 if c["imm"] else 1
    space = {}
    for o in ops:
        c = run.byname[o]
        d = [a for a in c["args"] if a["k"] in ("vec", "scalar")][1 if c["f"] == "addhn_high" else 0:]
        bits = sum(8 * gen.EB[a["t"]] for a in d)
        if c["f"] in LANEWISE and bits <= 32:
            lanes = min(a["n"] // gen.EB[a["t"]] for a in d if a["k"] == "vec")
            space[o] = 2 ** bits // lanes * imm(c)
    # the largest number of calls any one space may take, so that all together stay within sweep
    cap, left = 0, sweep
    for i, x in enumerate(sorted(space.values())):
        if x * (len(space) - i) > left:
            cap = left // (len(space) - i)
            break
        left -= x
        cap = x
    n = min(per_op, total // max(1, len(ops)))
    pf = os.path.join(run.work, "screen%s.txt" % tag)
    lines, whole = [], 0
    for o in ops:
        stride = -(-space[o] // max(1, cap)) if o in space else 0
        whole += stride == 1
        lines.append("%s %d %d %d\n" % (o, n, stride, bad))
    open(pf, "w").write("".join(lines))
    out = os.path.join(run.work, "screened%s.txt" % tag)

    def one(d, i):
        of = os.path.join(run.work, "screened%s-%s-%d.txt" % (tag, d, i))
        p = sh([drivers[d], "screen", pf, of, str(run.seed), run.dict, str(i), str(NCPU), str(450 if run.thorough else 150),
                os.path.join(run.work, "guided.txt")], timeout=800)
        k = int(re.search(r"executed (\d+)", p.stdout)[1])
        if "late" in p.stdout:
            run.extra["screen_cut_short"] = True
        run.executed += k
        run.extra["screened_calls"] = run.extra.get("screened_calls", 0) + k
        return of
    seen = collections.OrderedDict()
    for f in run_pool([(one, (d, i)) for d in drivers for i in range(NCPU)]):
        for l in open(f):
            seen[l] = 1
    with open(out, "w") as o:
        o.write("".join(seen))
    run.extra["operand_spaces_enumerated"] = "%d of %d completely, stride %d at most" % (whole, len(space), max([1] + [-(-x // max(1, cap)) for x in space.values()]))
    run.extra["screen_objections"] = run.extra.get("screen_objections", 0) + len(seen)
    run.mark("screen")
    return out


def join(run, *files):
    out = os.path.join(run.work, "calls.txt")
    with open(out, "w") as o:
        for f in files:
            o.write(open(f).read())
    return out


def norm(l):
    return json.dumps({k: v for k, v in json.loads(l).items() if k != "cfg"}, sort_keys=True)


def merge(run, files, keep_cfg=True):
    """Joins recordings of several configurations, every distinct event once, marked with the configuration."""
    out = os.path.join(run.work, "merged.ndjson")
    seen = set()
    with open(out, "w") as o:
        for cfg, f in files:
            for l in open(f):
                h = hash(l)
                if h in seen:
                    continue
                seen.add(h)
                o.write(l.rstrip()[:-1] + ',"cfg":"%s"}\n' % cfg if keep_cfg else l)
    return out


def count(run, path):
    with open(path) as f:
        for i, l in enumerate(f):
            m = re.search(r'"o":"(\w+)"', l)
            if m:
                run.per_op[m[1]] += 1
            if i in (0, 1000, 20000):
                run.samples.append(json.loads(l))


def corrupt(run, shards, n=240):
    """Recorded calls with one field falsified: the specification must refuse every one of them."""
    import random
    rng = random.Random(run.seed * 31 + 7)
    lines = []
    for s in shards:
        size = os.path.getsize(s)
        with open(s) as f:
            for _ in range(n // len(shards) * 2):
                f.seek(rng.randrange(max(1, size)))
                f.readline()
                l = f.readline()
                if re.match(r'\{"e":"(call|accept|convert)"', l) and l.endswith("}\n"):
                    lines.append(json.loads(l))
    out = []
    for e in lines:
        if len(out) >= n:
            continue
        if e["e"] != "call":
            k = "ty" if e["e"] == "accept" else "to"
            t = rng.choice(["int8x8_t", "uint8x8_t", "float32x4_t", "uint8_t*", "uint64x2x3_t"] if e["e"] == "accept" else ["int8x8_t", "uint8x8_t", "float32x4_t"])
            e[k] = [x for x in e[k] if x != t] if t in e[k] else e[k] + [t]
            e["falsified"] = k
            out.append(e)
            continue
        if e["o"] not in run.byname:
            continue
        c = run.byname[e["o"]]
        kinds = ["s"]
        if e["s"] == "ret" and e.get("r") and not c["fa"]:
            kinds += ["r", "r", "r"]
        if "w" in e and e["w"] and len(e["w"]) == len(e.get("m", e["w"])):
            kinds += ["w", "w"]
        k = rng.choice(kinds)
        if k == "s":
            e["s"] = rng.choice(["abort", "sig11", "hang"]) if e["s"] == "ret" else "ret"
        else:
            x = rng.randrange(len(e[k]))
            e[k][x] ^= 1 << rng.randrange(8)
        e["falsified"] = k
        out.append(e)
    p = os.path.join(run.work, "falsified.ndjson")
    open(p, "w").write("".join(json.dumps(e) + "\n" for e in out))
    return p, len(out)


def validate_all(run, shards):
    fake, nfake = corrupt(run, shards)
    jobs = [(validate, (run.work, s)) for s in shards]
    mjobs = [(model_check, (run.work,) + m) for m in MODELS.get(run.prop, []) + (MODELS_THOROUGH.get(run.prop, []) if run.thorough else [])]
    res = run_pool(mjobs + jobs + [(validate, (run.work, fake))])
    run.add_models(res[:len(mjobs)])
    div = run.add_traces(res[len(mjobs):-1])
    refused = len(res[-1][2])
    run.extra["falsified_events_refused"] = "%d of %d" % (refused, nfake)
    if refused < nfake and not div:
        raise CheckError("the specification accepted falsified events: %d of %d refused" % (refused, nfake))
    run.mark("validation")
    return div


def check_value(run):
    p = VALUE[run.prop]
    n = p["n"][1 if run.thorough else 0]
    configs = (MAIN,) + tuple(p.get("configs", ()))
    drivers = prepare(run, configs)
    run.dict = dictionary(run.work)
    if p.get("imm"):
        ops = [c for c in run.usable if run.byname[c]["imm"]]
        plan = [(o, n, 2) for o in ops] + [(o, n // 2, 1) for o in ops]
    else:
        ops = [c for c in run.usable if run.byname[c]["p"] == run.prop or run.byname[c]["f"] in ALSO.get(run.prop, ())]
        plan = []
        for o in ops:
            plan.append((o, n, 0))
            e = run.exh[o]
            if e and (e <= 33000 or run.thorough):
                plan.append((o, 0, 3))

    calls = guide(run, ops if p.get("imm") else [o for o, _, m in plan if m == 0], p.get("g", (300000, 3000000))[1 if run.thorough else 0])
    objs = screen(run, {MAIN[0]: drivers[MAIN[0]]}, ops, *(SCREEN[1] if run.thorough else SCREEN[0]), bad=(2000000 if run.thorough else 100000) if p.get("imm") else 0)
    calls = join(run, calls, objs)

    def record_all(tag=""):
        fs = run_pool([(record, (run, d, plan, tag + "-" + c)) for c, d in drivers.items()] + [(recall, (run, d, calls, tag + "-" + c)) for c, d in drivers.items()])
        return merge(run, list(zip(list(drivers) * 2, fs)), len(drivers) > 1)
    out = record_all()
    run.mark("recording")
    shards = split(run.work, out)
    count(run, out)
    if run.prop == "C13":
        shards.append(layouts(run))
    div = validate_all(run, shards)
    confirm(run, drivers, div, lambda: set(norm(l) for l in open(record_all("again"))))
    run.extra["not_callable_here"] = [m for m in run.missing if run.byname[m]["p"] == run.prop]
    if not ops:
        raise CheckError("no intrinsic of %s is callable" % run.prop)


def layouts(run):
    """Images of every vector type as a C and as a C++ program sees them."""
    out = os.path.join(run.work, "layout.ndjson")
    types = export_catalog.types
    with open(out, "w") as o:
        for lang, cxx, ext, std in (("c", "gcc", "c", "-std=c99"), ("cc", "g++", "cpp", "-std=c++11"), ("cc", "clang++", "cpp", "-std=c++17")):
            src = os.path.join(run.work, "layout_%s.%s" % (cxx.replace("+", "p"), ext))
            left = set()
            for _ in range(5):
                where = gen.gen_layout(types, lang, src, left)
                p = sh([cxx, std, "-w", "-O1", "-I" + REPO, src, "-o", src + ".exe", "-fmax-errors=0" if cxx[0] == "g" else "-ferror-limit=0"], check=False)
                if p.returncode == 0:
                    break
                new = {where[int(m[1])] for m in re.finditer(re.escape(os.path.basename(src)) + r":(\d+):", p.stdout) if int(m[1]) in where}
                if not new - left:
                    raise CheckError("the layout probe does not compile\n" + p.stdout[-3000:])
                left |= new
            o.write(sh([src + ".exe"]).stdout)
            for t in sorted(left):
                o.write(json.dumps({"e": "layout", "lang": lang, "ty": t, "size": 0, "lanes": [], "nested": [], "flat": [], "assigned": [], "read": []}) + "\n")
    run.extra["layout_events"] = sum(1 for _ in open(out))
    return out


# ---------------------------------------------------------------- C18: clients
CLIENTS = [("c", "gcc", "-std=c99 -O1"), ("cc", "g++", "-std=c++14 -O1"), ("c", "gcc", "-std=c11 -O2 -DNDEBUG"), ("cc", "g++", "-std=c++20 -O3 -DNDEBUG"),
           ("c", "clang", "-std=c17 -O0 -DDEBUG -D_DEBUG"), ("cc", "clang++", "-std=c++17 -O0 -DDEBUG -D_DEBUG"), ("cc", "g++", "-std=c++11 -O2")]


def build_client(run, lang, cxx, flags, tag):
    ext = "c" if lang == "c" else "cpp"
    src = os.path.join(run.work, "client_%s.%s" % (tag, ext))
    gen.gen_typenames(run.cat, [t["c"] for t in export_catalog.types], os.path.join(run.work, "typenames.hpp"))
    left, inline = set(), set()
    log = ""
    for _ in range(10):
        where = gen.gen_client(run.cat, lang, src, left, inline)
        p = sh([cxx] + flags.split() + ["-w", *(["-Werror=implicit-function-declaration"] if lang == "c" else []), "-ferror-limit=0" if "clang" in cxx else "-fmax-errors=0", "-I" + REPO, "-I" + run.work, "-c", src, "-o", src + ".o"], check=False)
        if p.returncode == 0:
            return src + ".o", left
        log = p.stdout
        if bodies_in_header(log) - inline:
            inline |= bodies_in_header(log)
            continue
        new = {where[int(m[1])] for m in re.finditer(re.escape(os.path.basename(src)) + r":(\d+):", p.stdout) if int(m[1]) in where}
        if not new - left:
            break
        left |= new
    return None, log


UNITS = [("c", "gcc", "c99"), ("c", "gcc", "c11"), ("c", "gcc", "gnu17"), ("c", "clang", "c99"), ("c", "clang", "c17"),
         ("cc", "g++", "c++11"), ("cc", "g++", "c++17"), ("cc", "clang++", "c++11"), ("cc", "clang++", "c++20")]


def check_C18(run):
    n = 400 if run.thorough else 40
    evs = []
    # translation units that only include the header (twice)
    for lang, cxx, std in UNITS:
        src = os.path.join(run.work, "unit." + ("c" if lang == "c" else "cpp"))
        open(src, "w").write('#include "neon_sim.h"\n#include "neon_sim.h"\nint f_%s(void) { return 0; }\n' % std.replace("+", "p"))
        p = sh([cxx, "-std=" + std, "-pedantic", "-w", "-I" + REPO, "-c", src, "-o", src + "." + cxx + std + ".o"], check=False)
        evs.append({"e": "unit", "lang": lang, "std": cxx + " -std=" + std, "ok": p.returncode == 0})
        if p.returncode:
            evs[-1]["log"] = p.stdout[-600:]
    f0 = os.path.join(run.work, "shard_units.ndjson")
    objs = {}
    run.cat = export_catalog(run.work)
    run.byname = {c["name"]: c for c in run.cat}
    lib = build_lib(run.work, *MAIN)
    # one client for each way the header reads to one
    texts = run_pool([(header_text, (c[1], c[2], "c" if c[0] == "c" else "c++")) for c in CLIENTS])
    configs = [(c, t) for i, (c, t) in enumerate(zip(CLIENTS, texts)) if (c[0], t) not in [(d[0], u) for d, u in zip(CLIENTS[:i], texts[:i])]]
    run.extra["client_configurations"] = [" ".join(c[1:]) for c, _ in configs]
    for (c, t), (obj, left) in zip(configs, run_pool([(build_client, (run, c[0], c[1], c[2], "%s%d" % (c[0], i))) for i, (c, t) in enumerate(configs)])):
        if obj is None:
            evs.append({"e": "unit", "lang": c[0], "std": "client of every intrinsic " + " ".join(c[1:]), "ok": False, "log": left[-600:]})
            continue
        objs[c] = obj
        for o in sorted(left):
            evs.append({"e": "decl", "lang": c[0], "std": " ".join(c[1:]), "o": o, "linked": False, "same": False, "args": [], "res": ""})
    run.mark("clients")
    shards = [f0]
    drivers = {}
    rounds = []                                                   # programs: a C and a C++ client each, and the harness
    byl = {l: [c for c in objs if c[0] == l] for l in ("c", "cc")}
    for i in range(max(len(byl["c"]), len(byl["cc"]))):
        rounds.append([byl[l][min(i, len(byl[l]) - 1)] for l in ("c", "cc") if byl[l]])
    files = []
    seen = set()
    run.dict = dictionary(run.work)
    plan = [(c["name"], n, 0) for c in run.cat]
    for i, cs in enumerate(rounds):
        try:
            if i == 0:
                dobj, dleft = build_driver_obj(run.work, run.cat)
            exe = os.path.join(run.work, "driver-clients%d" % i)
            # several translation units with the header in one program
            p = sh(["g++", dobj] + [objs[c] for c in cs] + ["-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", "-o", exe, "-lpthread"], check=False)
            evs.append({"e": "unit", "lang": "cc", "std": "C and C++ units linked into one program: " + "; ".join(" ".join(c[1:]) for c in cs), "ok": p.returncode == 0})
            if p.returncode:
                evs[-1]["log"] = p.stdout[-600:]
                continue
        except CheckError as e:
            evs.append({"e": "unit", "lang": "cc", "std": "g++ harness", "ok": False, "log": str(e)[-600:]})
            break
        for l in sh([exe, "decls"]).stdout.split("\n"):
            if l.startswith("{"):
                e = json.loads(l)
                c = [c for c in cs if c[0] == e["lang"]][0]
                if (c, e["o"]) not in seen:
                    seen.add((c, e["o"]))
                    evs.append(dict(e, std=" ".join(c[1:])))
        for c in cs:
            tag = "%s-client%d" % (c[0], i)
            os.environ["NEON_VIA"] = c[0]
            try:
                files.append((tag, record(run, exe, plan, "-" + tag)))
            finally:
                del os.environ["NEON_VIA"]
            drivers[tag] = exe
    if files:
        out = merge(run, files)
        count(run, out)
        shards += split(run.work, out)
    open(f0, "w").write("".join(json.dumps(e) + "\n" for e in evs))
    shards = list(dict.fromkeys(shards))
    run.mark("recording")
    div = validate_all(run, shards)
    for i, e, x in [d for d in div if d[1]["e"] in ("unit", "decl")]:
        run.violation("%s: recorded %s, specification: %s" % (e.get("o", e["e"]), json.dumps({k: v for k, v in e.items() if k != "e"}), json.dumps(x)), event=e, expected=x)
    calls = [d for d in div if d[1]["e"] == "call"]
    if calls:
        confirm(run, drivers, calls)
    run.extra["declarations_validated"] = sum(1 for e in evs if e["e"] == "decl")
    run.extra["units_compiled"] = sum(1 for e in evs if e["e"] == "unit")


# ---------------------------------------------------------------- C22: what the compiler takes
PROBES = [("g++", "-std=c++11"), ("g++", "-std=c++20 -O2 -DNDEBUG"), ("clang++", "-std=c++17")]


WARN = {"gcc": "-fmax-errors=0 -fno-diagnostics-show-caret -Werror=incompatible-pointer-types -Werror=discarded-qualifiers -Werror=pointer-sign -Werror=implicit-function-declaration".split(),
        "clang": "-ferror-limit=0 -fno-caret-diagnostics -Werror=incompatible-pointer-types -Werror=incompatible-pointer-types-discards-qualifiers -Werror=pointer-sign -Werror=implicit-function-declaration".split()}


def check_C22(run):
    run.cat = export_catalog(run.work)
    run.byname = {c["name"]: c for c in run.cat}
    types = export_catalog.types
    if run.thorough:
        PROBES.extend([("g++", "-std=c++14 -DDEBUG -D_DEBUG"), ("g++", "-std=gnu++17 -fpermissive"), ("clang++", "-std=c++11 -O3 -DNDEBUG"), ("clang++", "-std=c++20")])

    def cc(i, part, parts=4):
        cxx, flags = PROBES[i]
        src = os.path.join(run.work, "accept%d_%d.cpp" % (i, part))
        left = set()
        for _ in range(6):
            where = gen.gen_accept(run.cat, types, "cc", src, part, parts, left)
            p = sh([cxx] + flags.split() + ["-w", "-I" + REPO, src, "-o", src + ".exe", "-fmax-errors=0" if cxx == "g++" else "-ferror-limit=0"], check=False)
            if p.returncode == 0:
                return [json.loads(l) for l in sh([src + ".exe"]).stdout.split("\n") if l], left
            new = {where[int(m[1])] for m in re.finditer(re.escape(os.path.basename(src)) + r":(\d+):", p.stdout) if int(m[1]) in where}
            new |= {t["c"] for t in types if re.search(r"\b%s\b[^\n]*(was not declared|does not name a type|unknown type|undeclared)" % t["c"], p.stdout)}
            new |= {m for m in re.findall(r"(?:unknown type name|undeclared identifier) '(\w+)'", p.stdout)} & {t["c"] for t in types}
            if not new - left:
                raise CheckError("the probe does not compile\n" + p.stdout[-3000:])
            left |= new
        raise CheckError("the probe does not compile")

    def c(cxx):
        src = os.path.join(run.work, "convert_%s.c" % cxx)
        gen.gen_accept(run.cat, types, "c", src)
        p = sh([cxx, "-std=c11", "-w", "-I" + REPO, src, "-o", src + ".exe"], check=False)
        return ([json.loads(l) for l in sh([src + ".exe"]).stdout.split("\n") if l] if p.returncode == 0 else []), set()
    def c_operands(cc, std, part, parts=4):
        """The same operands asked of a C compiler: what it diagnoses is refused."""
        src = os.path.join(run.work, "accept_%s_%d.c" % (cc + std.replace("=", "").replace(" ", ""), part))
        where = gen.gen_accept_c(run.cat, types, src, part, parts)
        p = sh([cc] + std.split() + ["-pedantic-errors", "-fsyntax-only", "-I" + REPO, src] + WARN[cc], check=False)
        refused = {int(m[1]) for m in re.finditer(re.escape(src) + r":(\d+):\d+: (?:fatal )?error", p.stdout)}
        ev = collections.OrderedDict()
        for l, (o, j, t) in where.items():
            ev.setdefault((o, j), [])
            if l not in refused:
                ev[o, j].append(t)
        return [{"e": "accept", "o": o, "j": j, "ty": ty} for (o, j), ty in ev.items()], set()
    seen, absent = collections.OrderedDict(), set()
    CC = [("gcc", "-std=c99"), ("clang", "-std=c17")] + ([("gcc", "-std=gnu2x -O2 -DNDEBUG"), ("clang", "-std=c11 -DDEBUG")] if run.thorough else [])
    res = run_pool([(c_operands, (y, z, k)) for y, z in CC for k in range(4)] + [(cc, (i, k)) for i in range(len(PROBES)) for k in range(4)] + [(c, ("gcc",)), (c, ("clang",))])
    probed = 0
    for evs, left in res:
        probed += len(evs)
        absent |= left
        ops = collections.Counter(e["o"] for e in evs if e["e"] == "accept" and e["ty"])
        for e in evs:
            if e["e"] == "accept" and not ops[e["o"]]:            # not callable at all: what C18 is about
                absent.add(e["o"])
                continue
            seen[json.dumps(e, separators=(",", ":"))] = 1
    out = os.path.join(run.work, "probes.ndjson")
    open(out, "w").write("".join(l + "\n" for l in seen))
    run.mark("probes")
    for l in seen:
        e = json.loads(l)
        run.per_op[e.get("o", e.get("ty"))] += 1
        if len(run.samples) < 6 and len(seen) // 6 * len(run.samples) <= len(run.per_op):
            run.samples.append(e)
    for i, e, x in validate_all(run, split(run.work, out)):
        if e["e"] == "accept":
            what = "%s operand %d: the compiler takes %s, specification: %s" % (e["o"], e["j"], ", ".join(e["ty"]) or "nothing", ", ".join(x["ty"]))
        else:
            what = "a value of type %s (%s) is taken for %s, specification: %s" % (e["ty"], e["lang"], ", ".join(e["to"]) or "nothing", ", ".join(x["to"]))
        run.violation(what, event=e, expected=x)
    run.extra["probes"] = probed
    run.extra["not_callable_here"] = sorted(absent)


# ---------------------------------------------------------------- C19: histories, repetition, threads, preemption
def check_C19(run):
    drivers = prepare(run)
    drv = drivers[MAIN[0]]
    run.dict = dictionary(run.work)
    T = run.thorough
    steps, nh = (40000, 16) if T else (5000, 8)
    rounds, burst = (20000, 20000000) if T else (2000, 1200000)
    iters = 400000 if T else 50000
    cases = 40 if T else 4

    def cmd(*a):
        env = {"NEON_ENV_ALL": "1"} if a[0] == "hist" and a[1] % 2 else {"LD_BIND_NOW": "1"} if a[0] == "cold" else {"NEON_FOUND": found}
        p = sh([drv] + [str(x) for x in a], timeout=800, check=False, env=env)
        if p.returncode:
            raise CheckError("recording failed: " + p.stdout[-2000:])
        m = re.search(r"executed (\d+)", p.stdout)
        if m:
            run.executed += int(m[1])

    progs = simulate(run)
    found = guide(run, run.usable, 200000 if T else 15000)
    # native histories; those with an outcome the native transcription objects to are walked again and recorded
    trails = lambda i: os.path.join(run.work, "trails%d.txt" % i)
    run_pool([(cmd, ("trails", trails(i), run.seed, run.dict, i, NCPU, 400 if T else 60, found, 6000000000 if T else 150000000)) for i in range(NCPU)])
    run.mark("native histories")
    walked = sum(l == "@\n" for i in range(NCPU) for l in open(trails(i)))
    run.extra["native_histories_objected_to"] = walked

    def rec(tag=""):
        f = lambda k, i: os.path.join(run.work, "rec_%s%d%s.ndjson" % (k, i, tag))
        out = []
        jobs = []
        for i in range(nh):
            out.append(f("hist", i))
            jobs.append((cmd, ("hist", run.seed * 1000 + i, steps, out[-1], run.dict)))
        for i, prog in enumerate(progs):
            out.append(f("prog", i))
            jobs.append((cmd, ("prog", prog, out[-1])))
        for i in range(NCPU):
            out.append(f("repeat", i))
            jobs.append((cmd, ("repeat", run.seed, rounds, burst, i, 8, out[-1], run.dict)))
            out.append(f("preempt", i))
            jobs.append((cmd, ("preempt", run.seed, cases, i, 8, out[-1], run.dict)))
            out.append(f("cold", i))
            jobs.append((cmd, ("cold", run.seed, i, 8, out[-1], run.dict)))
            if os.path.getsize(trails(i)):
                out.append(f("walk", i))
                jobs.append((cmd, ("walk", trails(i), out[-1])))
        run_pool(jobs)
        out.append(f("life", 0))
        if os.path.exists(out[-1]):
            os.unlink(out[-1])
        p = sh([drv, "life"], timeout=120, check=False, env={"NEON_LIFE": out[-1], "VERIF_SEED": str(run.seed)})
        with open(out[-1], "a") as o:
            if p.returncode:
                o.write('{"e":"end","s":"%s"}\n' % ("sig%d" % -p.returncode if p.returncode < 0 else "exit%d" % p.returncode))
        out.append(f("crowd", 0))
        cmd("crowd", run.seed, 150, 6 if T else 2, out[-1], run.dict)
        out.append(f("threads", 0))
        cmd("threads", run.seed, iters, 8, out[-1], run.dict)
        return out
    files = rec()
    run.mark("recording")
    for f in files:
        count(run, f)
    big = [f for f in files if "threads" in f]
    for b in big:
        for j, s in enumerate(split(run.work, b, 4)):
            os.rename(s, os.path.join(run.work, "rec_threads_%d.ndjson" % (100 + j)))
            files.append(os.path.join(run.work, "rec_threads_%d.ndjson" % (100 + j)))
        files.remove(b)
    run.extra["histories"] = nh
    # join small files: one JVM per group (registers and arenas are set at the start of every recording)
    groups = [[] for _ in range(NCPU)]
    for f in sorted(files, key=os.path.getsize, reverse=True):
        min(groups, key=lambda g: sum(os.path.getsize(x) for x in g)).append(f)
    shards = []
    for i, g in enumerate(groups):
        s = os.path.join(run.work, "group_%d.ndjson" % i)
        with open(s, "w") as o:
            for f in g:
                o.write(open(f).read())
        shards.append(s)
    div = validate_all(run, shards)
    seen = collections.Counter()
    again = None
    elsewhere = collections.Counter()
    for i, e, x in div:
        key = (e.get("o", e["e"]), e.get("s"))
        if seen[key] >= 2 or elsewhere[key[0]] >= 20:
            continue
        # The same wrong outcome whenever the call is made, alone in a fresh process and again after itself, is a
        # wrong function of the arguments: the business of the other properties.
        if "c" in x and not e.get("s", "").startswith("effect"):
            c = dict(x["c"], m=x["m"], z=1)
            alone = one_event(drv, c, 4)
            if alone and all((y.get("s"), y.get("r"), y.get("w", [])) == (e.get("s"), e.get("r"), e.get("w", y.get("w", []))) for y in alone):
                elsewhere[key[0]] += 1
                continue
        seen[key] += 1
        if again is None:
            again = {}
            for f in rec("again"):
                for l in open(f):
                    k = json.loads(l)
                    again[(k.get("o", k["e"]), k.get("s"))] = again.get((k.get("o", k["e"]), k.get("s")), 0) + 1
        if e.get("s") in ("hang", "sig9", "sig15") and key not in again:
            continue
        run.violation("%s in a recorded history: outcome %s %s, specification: %s" % (
            e.get("o", "end of the process" if e["e"] == "end" else "preempted call"), e.get("s"), e.get("r", ""), json.dumps(x)), event=e, expected=x)
    if elsewhere:
        run.extra["wrong_but_history_independent"] = dict(elsewhere)


def simulate(run):
    """Programs that are behaviours of the specification (TLC -simulate), for the driver to replay."""
    n, steps = (16, 20000) if run.thorough else (8, 3500)

    def one(i):
        t = Tlc(run.work, os.path.join(SPEC, "NeonSim.tla"), os.path.join(SPEC, "NeonSim.cfg"), env={"SIM": str(i)},
                args=("-simulate", "num=1", "-depth", str(steps), "-seed", str(run.seed * 100 + i)))
        lines = [l[6:-1] for l in t.out.split("\n") if l.startswith('"PROG ')]
        if not t.ok or len(lines) < steps - 2:
            raise CheckError("simulation failed\n" + t.out[-3000:])
        p = os.path.join(run.work, "prog_%d.txt" % i)
        open(p, "w").write("\n".join(lines) + "\n")
        return p
    files = run_pool([(one, (i,)) for i in range(n)])
    run.extra["simulated_behaviours"] = n
    run.extra["simulated_steps"] = n * steps
    run.mark("simulation")
    return files


# ---------------------------------------------------------------- C20: memory
ASAN = "-fsanitize=address,bounds -fno-sanitize-recover=bounds -g"


def check_C20(run):
    n = (3000, 300)[0 if run.thorough else 1]
    configs = (("gcc-asan", "g++", "-O0 " + ASAN), ("gcc-O2", "g++", "-O2 -g"))
    os.environ["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:handle_abort=0:handle_segv=0:handle_sigbus=0:verify_asan_link_order=0"
    os.environ["UBSAN_OPTIONS"] = "exitcode=78:halt_on_error=1"
    drivers = prepare(run, configs)
    run.dict = dictionary(run.work)
    plan = []
    for o in run.usable:
        c = run.byname[o]
        k = n * (3 if c["mem"] or c["f"] in ("tbl", "qtbl") else 1)
        plan.append((o, max(k, 2 * (c["hi"] - c["lo"] + 1)), 0))

    def record_all(tag=""):
        parts = [plan[i::4] for i in range(4)]
        jobs = [(record, (run, d, pl, "%s-%s-%d" % (tag, c, i))) for c, d in drivers.items() for i, pl in enumerate(parts)]
        fs = run_pool(jobs)
        fs += run_pool([(recall, (run, d, calls, tag + "-" + c)) for c, d in drivers.items()])
        return merge(run, [(c, fs[j * 4 + i]) for j, c in enumerate(drivers) for i in range(4)] + list(zip(drivers, fs[4 * len(drivers):])))
    calls = guide(run, run.usable, 300000 if run.thorough else 25000)
    objs = screen(run, drivers, run.usable, *((8000000, 1 << 31, 1 << 30) if run.thorough else (400000, 100000000, 1 << 26)))
    calls = join(run, calls, objs)
    out = record_all()
    run.mark("recording")
    count(run, out)
    div = validate_all(run, split(run.work, out))
    # values are the business of the other properties: what counts here is memory
    def about_memory(e, x):
        return e["s"] != "ret" or e.get("w") != x.get("w", e.get("w")) if "w" in e or e["s"] != "ret" else False
    div = [d for d in div if about_memory(d[1], d[2]) or run.byname[d[1]["o"]]["rd"]]
    confirm(run, drivers, div, lambda: set(norm(l) for l in open(record_all("again"))))


# ---------------------------------------------------------------- C21: build matrix
MATRIX = [("gcc-O2", "g++", "-O2 -g"), ("gcc-O0", "g++", "-O0 -g"), ("gcc-O1", "g++", "-O1"), ("gcc-O3", "g++", "-O3"), ("gcc-Os", "g++", "-Os"),
          ("gcc-O2-NDEBUG", "g++", "-O2 -DNDEBUG"), ("gcc-O1-pattern", "g++", "-O1 -ftrivial-auto-var-init=pattern"),
          ("clang-O0", "clang++", "-O0"), ("clang-O2", "clang++", "-O2"), ("clang-O3-NDEBUG", "clang++", "-O3 -DNDEBUG"),
          ("clang-O0-zero", "clang++", "-O0 -ftrivial-auto-var-init=zero -std=c++14"), ("clang-O1-pattern", "clang++", "-O1 -ftrivial-auto-var-init=pattern"),
          ("gcc-Og-DEBUG", "g++", "-Og -DDEBUG -D_DEBUG -D_GLIBCXX_DEBUG"), ("gcc-O2-unsigned-char", "g++", "-O2 -funsigned-char -fno-strict-aliasing -std=c++17"),
          ("clang-Os-strict", "clang++", "-Os -fstrict-enums -fPIC -std=c++20"), ("gcc-O3-v3", "g++", "-O3 -march=x86-64-v3 -ffp-contract=off"),
          ("clang-O3-v3", "clang++", "-O3 -march=x86-64-v3 -ffp-contract=off"), ("gcc-O2-fortify", "g++", "-O2 -D_FORTIFY_SOURCE=2 -D_GLIBCXX_ASSERTIONS -fstack-protector-strong -std=gnu++23")]
MATRIX_THOROUGH = [("gcc-Og", "g++", "-Og"), ("gcc-O2-wrapv", "g++", "-O2 -fwrapv"), ("gcc-O2-zero", "g++", "-O2 -ftrivial-auto-var-init=zero"), ("gcc-O3-NDEBUG", "g++", "-O3 -DNDEBUG"),
                   ("clang-O1", "clang++", "-O1"), ("clang-O3", "clang++", "-O3"), ("clang-Os", "clang++", "-Os"), ("clang-Oz", "clang++", "-Oz"),
                   ("gcc-O2-17", "g++", "-O2 -std=c++17"), ("clang-O2-20", "clang++", "-O2 -std=c++20")]


def runs_here(c):
    """Builds for newer processors run only where the processor is one."""
    try:
        return "x86-64-v3" not in c[2] or {"avx2", "fma", "bmi2", "movbe", "f16c"} <= set(open("/proc/cpuinfo").read().split())
    except OSError:
        return False


def check_C21(run):
    n = 3000 if run.thorough else 250
    drivers = prepare(run, tuple(c for c in MATRIX + (MATRIX_THOROUGH if run.thorough else []) if runs_here(c)))
    run.dict = dictionary(run.work)
    plan = []
    for o in run.usable:
        c = run.byname[o]
        plan.append((o, max(n, 2 * (c["hi"] - c["lo"] + 1)), 0))
        if c["imm"]:
            plan.append((o, 12, 1))

    def record_all(tag=""):
        fs = run_pool([(record, (run, d, plan, tag + "-" + c)) for c, d in drivers.items()] + [(recall, (run, d, calls, tag + "-" + c)) for c, d in drivers.items()])
        return merge(run, list(zip(list(drivers) * 2, fs)))
    calls = guide(run, run.usable, 100000 if run.thorough else 4000)
    objs = screen(run, drivers, run.usable, *((4000000, 1000000000, 1 << 32) if run.thorough else (100000, 40000000, 1 << 27)))
    calls = join(run, calls, objs)
    out = record_all()
    run.mark("recording")
    count(run, out)
    run.extra["builds"] = list(drivers)
    div = validate_all(run, split(run.work, out))
    confirm(run, drivers, div, lambda: set(norm(l) for l in open(record_all("again"))))


# ---------------------------------------------------------------- C23: platforms
INC32 = "-isystem /usr/include/x86_64-linux-gnu -isystem /usr/include/x86_64-linux-gnu/c++/13"
I386 = "-m32 -msse2 -mfpmath=sse -fno-pie -isystem %s " + INC32
CLANG386 = "-m32 -march=pentium4 -fno-pie -isystem %s -isystem /usr/include/c++/13 " + INC32
WASM = "--target=wasm32 -fno-exceptions -isystem %s -isystem /usr/include/c++/13 " + INC32 + " -isystem /usr/include"
PLATFORMS = [("i386-gcc-O2", "g++", I386 + " -O2", "i386"), ("i386-gcc-O0", "g++", I386 + " -O0", "i386"), ("i386-clang-O2", "clang++", CLANG386 + " -O2", "i386"),
             ("i386-gcc-O3-unsigned-char", "g++", I386 + " -O3 -funsigned-char", "i386"),
             ("wasm32-O2", "clang++", WASM + " -O2", "wasm"), ("wasm32-O0", "clang++", WASM + " -O0 -funsigned-char", "wasm"),
             ("x86_64-gcc-unsigned-char", "g++", "-O2 -funsigned-char", "native"), ("x86_64-clang-unsigned-char", "clang++", "-O1 -funsigned-char", "native")]


def signalling(r):
    """Is this image of a float or double (or of any scalar of their size) a signalling NaN?"""
    if not r or len(r) not in (4, 8):
        return False
    x, m = int.from_bytes(bytes(r), "little"), 23 if len(r) == 4 else 52
    return (x >> m) & (2 ** (8 * len(r) - 1 - m) - 1) == 2 ** (8 * len(r) - 1 - m) - 1 and x & (2 ** m - 1) != 0 and not x >> (m - 1) & 1


class Platform:
    """The library built for another platform and a process (or WebAssembly machine) that makes recorded calls there."""
    def __init__(self, run, name, cxx, flags, kind):
        self.run, self.name, self.kind = run, name, kind
        inc = os.path.join(run.work, "inc32")
        os.makedirs(os.path.join(inc, "gnu"), exist_ok=True)
        open(os.path.join(inc, "gnu", "stubs-32.h"), "a").close()
        flags = flags % inc if "%s" in flags else flags
        cmake = ["-DCMAKE_TRY_COMPILE_TARGET_TYPE=STATIC_LIBRARY"] + (["-DCMAKE_SYSTEM_NAME=Generic", "-DCMAKE_AR=" + shutil.which("llvm-ar"), "-DCMAKE_RANLIB=" + shutil.which("llvm-ranlib")] if kind == "wasm" else [])
        lib = build_lib(run.work, name, cxx, flags, cmake)
        o = re.search(r"-O\d( -funsigned-char)?", flags)[0]
        obj, left = build_driver_obj(run.work, run.cat, flags.replace(o, "-O1") + " -std=c++17" + (" -funsigned-char" if "unsigned" in flags else ""), cxx,
                                     "-" + name, "platform.cpp", 8 if kind == "native" else 4)
        self.exe = os.path.join(run.work, "platform-" + name)
        if kind == "wasm":
            self.exe += ".wasm"
            names = ["plat_call", "plat_arena", "plat_count", "plat_name", "plat_ok", "plat_in", "plat_out", "__wasm_call_ctors", "__stack_pointer"]
            rt = os.path.join(run.work, "wasmlib-%s.o" % name)
            sh(["clang", "--target=wasm32", "-O1", "-w", "-ffreestanding", "-fno-builtin", "-c", os.path.join(HARN, "wasmlib.c"), "-o", rt])
            sh(["wasm-ld", "--no-entry", "--allow-undefined", "-z", "stack-size=262144", obj, rt, "--whole-archive", lib, "-o", self.exe] + ["--export=" + n for n in names])
            self.cmd = ["node", os.path.join(HARN, "platform.js"), self.exe]
        elif kind == "i386":
            d = "/usr/lib32/"
            sh(["ld", "-m", "elf_i386", "-dynamic-linker", "/lib/ld-linux.so.2", "-z", "noexecstack", obj, "--whole-archive", lib, "--no-whole-archive", d + "libstdc++.so.6",
                d + "libm.so.6", d + "libc.so.6", d + "libgcc_s.so.1", "-o", self.exe])
            self.cmd = [self.exe]
        else:
            sh([cxx, obj, "-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", "-o", self.exe, "-lm"])
            self.cmd = [self.exe]
        p = sh(self.cmd, timeout=60)
        ls = [l.split() for l in p.stdout.split("\n") if l.strip()]
        self.index = {l[0]: i for i, l in enumerate(ls) if l[1] == "1"}
        self.fit = [l[0] for l in ls if l[1] == "1"]
        self.unfit = [l[0] for l in ls if l[1] != "1"]
        if not self.fit:
            raise CheckError("nothing can be called")

    def make(self, evs, tag=""):
        """The events of these calls, as they happen here; None for a call that cannot be made."""
        ins, outs = (os.path.join(self.run.work, "%s-%s%s" % (x, self.name, tag)) for x in ("calls", "outcomes"))
        made = []
        with open(ins, "wb") as f:
            for j, e in enumerate(evs):
                if e["o"] not in self.index:
                    continue
                m = bytes(e.get("m", ()))
                data = b"".join(bytes(a) for a in e["a"])
                rec = struct.pack("<HiHH", self.index[e["o"]], e.get("k", 0), e.get("p", 0), len(m)) + data + m
                f.write(struct.pack("<H", len(rec)) + rec)
                made.append(j)
        p = sh(self.cmd + [ins, outs], timeout=300, check=False)
        if p.returncode:
            raise CheckError("%s: %s" % (self.name, p.stdout[-2000:]))
        b, at = open(outs, "rb").read(), 0
        res = [None] * len(evs)
        for j in made:
            s, n = struct.unpack_from("<BH", b, at)
            v = b[at + 3:at + 3 + n]
            at += 3 + n
            if s == 255:
                continue
            e = {k: x for k, x in evs[j].items() if k not in ("s", "r", "w", "cfg")}
            ml = len(e.get("m", ()))
            if self.kind == "i386" and s == 0 and self.run.byname[e["o"]]["res"]["c"].startswith("float") and signalling(evs[j].get("r")):
                continue                                          # the calling convention quiets it in an x87 register
            e["s"] = {0: "ret", 6: "abort", 14: "hang", 254: "wrote-outside"}.get(s, "sig%d" % s)
            if s == 0:
                e["r"] = list(v[:n - ml])
            if "w" in evs[j] and s != 14:
                e["w"] = list(v[n - ml:])
            res[j] = e
        if at != len(b):
            raise CheckError(self.name + ": outcomes and calls do not match")
        return res


KEYS = ("e", "o", "a", "k", "z", "p", "m", "w", "s", "r")


def check_C23(run):
    n = 3000 if run.thorough else 250
    drivers = prepare(run)
    drv = drivers[MAIN[0]]
    run.dict = dictionary(run.work)
    plan = [(o, max(n, 2 * (run.byname[o]["hi"] - run.byname[o]["lo"] + 1)), 0) for o in run.usable] + [(o, 12, 1) for o in run.usable if run.byname[o]["imm"]]
    calls = guide(run, run.usable, 100000 if run.thorough else 4000)
    evs = [json.loads(l) for f in run_pool([(record, (run, drv, plan)), (recall, (run, drv, calls))]) for l in open(f)]
    run.mark("recording")

    def build(*a):
        try:
            return Platform(run, *a)
        except (CheckError, subprocess.TimeoutExpired, OSError) as x:
            return a[0] + ": " + str(x)[-300:]
    built = run_pool([(build, p) for p in PLATFORMS])
    run.extra["platforms_not_available"] = [b for b in built if isinstance(b, str)]
    plats = collections.OrderedDict((b.name, b) for b in built if not isinstance(b, str))
    run.extra["platforms"] = list(plats)
    run.mark("platforms")
    out = os.path.join(run.work, "merged.ndjson")

    def everywhere(tag=""):
        text = lambda e: json.dumps(e, separators=(",", ":"))
        seen = collections.OrderedDict((text({k: e[k] for k in KEYS if k in e}), MAIN[0]) for e in evs)
        for p, es in zip(plats.values(), run_pool([(p.make, (evs, tag)) for p in plats.values()])):
            for e in es:
                if e is not None:
                    run.executed += 1
                    seen.setdefault(text({k: e[k] for k in KEYS if k in e}), p.name)
        return seen
    seen = everywhere()
    with open(out, "w") as f:
        for l, cfg in seen.items():
            f.write('%s,"cfg":"%s"}\n' % (l[:-1], cfg))
    # operand and result sizes: an intrinsic that fits the catalogue here has to fit it there
    for p in plats.values():
        for o in sorted(set(p.unfit) & set(run.usable)):
            run.violation("%s on %s: operands or result do not have the architectural size, or it is not there" % (o, p.name), build=p.name)
    run.mark("platform calls")
    count(run, out)
    div = validate_all(run, split(run.work, out))
    confirm(run, drivers, div, lambda: set(norm(l) for l in everywhere("again")), lambda drv, e: plats[e["cfg"]].make([e], "-one")[0] if e.get("cfg") in plats else one_event(drv, e))


def replay(path):
    """Repeats the violations of a replay file against the current tree."""
    rp = json.load(open(path))
    run = Run("replay")
    drivers = prepare(run)
    drv = drivers[MAIN[0]]
    f = os.path.join(run.work, "one.ndjson")
    evs = []
    for v in rp["violations"]:
        if v.get("event", {}).get("e") == "call":
            r = one_event(drv, v["event"])
            if r and r.get("e") == "call":
                evs.append(r)
    open(f, "w").write("".join(json.dumps(e) + "\n" for e in evs))
    n, _, div = validate(run.work, f)
    for i, e, x in div:
        print(describe(e, x))
    print("%d calls repeated, %d diverge" % (n, len(div)))
    return 1 if div else 0


CHECKS = {"C18": check_C18, "C19": check_C19, "C20": check_C20, "C21": check_C21, "C22": check_C22, "C23": check_C23}


def setup():
    """Checks that the toolchain is there and the specification parses."""
    work = os.path.join(VERIF, "build", "setup")
    os.makedirs(work, exist_ok=True)
    n = len(export_catalog(work))
    for tool in ("g++", "clang++", "cmake", "ninja"):
        if not shutil.which(tool):
            raise CheckError(tool + " is missing")
    shutil.rmtree(work, ignore_errors=True)
    print("specification parses; %d intrinsics catalogued" % n)
    return 0


def main():
    if sys.argv[1:2] == ["setup"]:
        return setup()
    if sys.argv[1:2] == ["replay"]:
        return replay(sys.argv[2])
    prop = sys.argv[1]
    run = Run(prop)
    if prop in VALUE:
        check_value(run)
    elif prop in CHECKS:
        CHECKS[prop](run)
    else:
        raise CheckError("unknown property " + prop)
    rc = run.finish()
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(run.work, ignore_errors=True)
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:
        if not isinstance(e, CheckError):
            import traceback
            traceback.print_exc()
        print("CHECK ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
