#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a description (a Python file with SEEDS = [...]) and confirms each in /repo:
applies, builds, passes the stable tests, demo 0 without and nonzero with the patch.  /repo is restored.
usage: mkseed.py DESC.py [id...]"""
import json, os, re, subprocess, sys, shutil
REPO, OUT = "/repo", "/verif/seeded"
DEMO = """#!/bin/bash
# Exit 0 if the behaviour is right, nonzero otherwise.  Run in /repo after the build.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -r "$t"' EXIT
%s
"""
STD = '''g++ -std=c++11 -O1 %s -I"$PWD" "$here/demo.cpp" "$PWD/_build/libneon_sim.a" -lpthread -o "$t/demo" || exit 2
timeout 120 "$t/demo"'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def func(src, name):
    m = re.search(r"^[a-z][\w \t\*]*[ \*]%s\s*\([^)]*\)\s*\{.*?^\}" % name, src, re.M | re.S)
    assert m, name
    return m.span()
def apply(seed):
    for e in seed["edits"]:
        p = os.path.join(REPO, e.get("file", "neon_sim.cpp")); s = open(p).read()
        if "fn" in e:
            a, b = func(s, e["fn"]); body = s[a:b]
            assert e["old"] in body, (seed["id"], e["fn"], e["old"], body)
            s = s[:a] + body.replace(e["old"], e["new"], e.get("count", -1)) + s[b:]
        else:
            assert s.count(e["old"]) == 1, (seed["id"], e["old"], s.count(e["old"]))
            s = s.replace(e["old"], e["new"])
        open(p, "w").write(s)
def restore(): assert sh("git -C /repo checkout -- . ").returncode == 0
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns); ids = sys.argv[2:]
    want = set(json.load(open("/opt/vp/BASELINE.json"))["passed"]) if "passed" in json.load(open("/opt/vp/BASELINE.json")) else None
    restore(); bad = 0
    for s in ns["SEEDS"]:
        if ids and s["id"] not in ids: continue
        d = os.path.join(OUT, s["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/demo.cpp", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(DEMO % s.get("run", STD % s.get("cxxflags", "")))
        os.chmod(d + "/demo.sh", 0o755)
        for k, v in s.get("files", {}).items(): open(d + "/" + k, "w").write(v)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        b0 = sh("bash /opt/vp/build.sh"); r0 = sh("bash %s/demo.sh" % d, cwd=REPO)
        try:
            apply(s)
            df = sh("git -C /repo diff").stdout; open(d + "/patch.diff", "w").write(df)
            t = sh("bash /opt/vp/test.sh /tmp/w/seed/out.json"); o = json.load(open("/tmp/w/seed/out.json"))
            r1 = sh("bash %s/demo.sh" % d, cwd=REPO)
        finally:
            restore()
        ok = r0.returncode == 0 and r1.returncode not in (0, 2, 3) and not o["failed"] and len(o["passed"]) >= 46 and (want is None or want <= set(o["passed"]))
        print(s["id"], s["property"], "OK" if ok else "BAD", "clean", r0.returncode, "patched", r1.returncode, "passed", len(o["passed"]), "failed", o["failed"], "" if ok else r0.stdout + r0.stderr + r1.stdout + r1.stderr[-500:])
        bad += not ok
    sh("bash /opt/vp/build.sh")
    sys.exit(bad != 0)
main()
