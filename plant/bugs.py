#!/usr/bin/env python3
"""Planted bugs: writes seeded/<id>/ for each, relative to /repo's HEAD.
   bugs.py write [id...]   |   bugs.py try id... [--all]   apply to /repo, build, tests, demo, checks, undo"""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
B = []

def bug(id, prop, edits, demo, needs, breaks, np=0):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, np=np))

PRE = '#include "host.hpp"\nint main(int argc, char** argv)\n{\n  init(argc, argv);\n'
POST = '\n  return done();\n}\n'
def main(body): return PRE + body + POST

exec(open(os.path.join(HERE, "bugs1.py")).read())
for f in ("bugs2.py", "bugs3.py", "bugs4.py"):
    if os.path.exists(os.path.join(HERE, f)):
        exec(open(os.path.join(HERE, f)).read())

def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, errors="replace", **k)

def apply(b, root="/repo"):
    for f, old, new in b["edits"]:
        p = os.path.join(root, f)
        s = open(p).read()
        n = s.count(old)
        assert n == 1, (b["id"], f, "matches", n)
        open(p, "w").write(s.replace(old, new))

def undo(): sh("git", "-C", "/repo", "checkout", "--", ".")

def write(b):
    d = os.path.join(V, "seeded", b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip()
    try:
        apply(b)
        diff = sh("git", "-C", "/repo", "diff").stdout
    finally:
        undo()
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(b["demo"])
    for f in ("demo.sh", "host.hpp"): shutil.copy(os.path.join(HERE, f), d)
    if b["np"]: open(d + "/np", "w").write(str(b["np"]))
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)

def demo(b):
    r = sh("bash", os.path.join(V, "seeded", b["id"], "demo.sh"), cwd="/repo")
    return r.returncode, r.stderr.strip()[-300:]

def main_():
    a = sys.argv[2:]
    al = "--all" in a
    nochk = "--nocheck" in a
    ids = [x for x in a if not x.startswith("--")]
    sel = [b for b in B if not ids or b["id"] in ids]
    if sys.argv[1] == "write":
        for b in sel: write(b)
        return
    base = json.load(open("/opt/vp/BASELINE.json"))
    for b in sel: write(b)
    if "--nobase" not in a:
        sh("bash", "/opt/vp/build.sh")
        for b in sel: print(b["id"], "demo on HEAD:", demo(b), flush=True)
    for b in sel:
        t = time.time()
        try:
            apply(b)
            r = sh("bash", "/opt/vp/build.sh")
            if r.returncode:
                print(b["id"], "BUILD FAILED", (r.stdout + r.stderr)[-1500:]); continue
            r = sh("bash", "/opt/vp/test.sh", "/tmp/t.json")
            tj = json.load(open("/tmp/t.json"))
            fails = tj.get("failed", "?")
            d = demo(b)
            res = []
            if not nochk:
                props = ["C%02d" % i for i in range(1, 29)] if al else [b["prop"]]
                for p in props:
                    c = sh("python3", "check.py", p, cwd=V)
                    v = "VIOLATION" in c.stdout
                    if p == b["prop"] or v or c.returncode not in (0, 1):
                        res.append(f"{p}:{c.returncode}{'!' if v else ''} {c.stdout.strip().splitlines()[0][:160] if c.stdout.strip() else c.stderr[-200:]}")
            print(b["id"], b["prop"], "failed tests:", fails, "demo:", d, "checks:", res, f"{time.time()-t:.0f}s", flush=True)
        finally:
            undo()
    sh("bash", "/opt/vp/build.sh")

main_()
