#!/usr/bin/env python3
"""Decides one property: builds /repo's current tree with the harness, explores, replays what it found,
writes evidence/<id>.json.  Exit 0: held on everything explored.  Exit 1: VIOLATION line printed."""
import argparse, concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NLCG_REPO", "/repo")
H = os.path.join(HERE, "harness")
MPI = "/usr/lib/x86_64-linux-gnu/openmpi/include"
FLAGS = ["-std=c++17", "-O1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-DOMPI_SKIP_MPICXX", "-w",
         "-I" + H, f"-I{REPO}/include", f"-I{REPO}/src", "-isystem", "/usr/include/trilinos",
         "-isystem", MPI, "-isystem", MPI + "/openmpi",
         "-isystem", "/usr/include/x86_64-linux-gnu/openblas-pthread"]
FLAGS += os.environ.get("NLCG_CXXFLAGS", "").split()  # for robustness trials
LIBS = ["-ltrilinos_kokkoscore", "-llapacke", "-lopenblas", "-ldl", "-lpthread"]
ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", LC_ALL="C")
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:max_malloc_fill_size=65536:malloc_fill_byte=127:handle_abort=0:allocator_may_return_null=1"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=0:abort_on_error=1"
ENV.pop("NLCGLIB_DISABLE_NEWTON_EFERMI", None)

# binary -> (harness sources, needs the library object, extra compiler flags, optional component)
SAN = ["-fsanitize=address,bounds,null,return,unreachable,signed-integer-overflow,integer-divide-by-zero,shift,bool,enum", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"]
BINS = {
    "wasan": (["wrun.cpp", "mpi_shim.cpp", "count.cpp"], True, SAN, False),
    "masan": (["mrun.cpp", "mpi_shim.cpp", "files.cpp", "count.cpp"], True, SAN, False),
    "cmvasan": (["cmv.cpp", "mpi_shim.cpp"], False, SAN, True),
    "cmpiasan": (["cmpi.cpp", "mpi_shim.cpp"], False, SAN, True),
    "cla10asan": (["cla10.cpp", "mpi_shim.cpp"], False, SAN, True),
    "cla11asan": (["cla11.cpp", "mpi_shim.cpp"], False, SAN, True),
    "csmearasan": (["csmear.cpp", "mpi_shim.cpp"], False, SAN, True),
    "cls": (["cls.cpp", "mpi_shim.cpp"], False, [], True),
    "clog": (["clog.cpp", "mpi_shim.cpp"], False, SAN, True),
    "cop": (["cop.cpp", "mpi_shim.cpp"], False, SAN, True),
    "wrun": (["wrun.cpp", "mpi_shim.cpp", "count.cpp"], True, [], False),
    "mrun": (["mrun.cpp", "mpi_shim.cpp", "files.cpp", "count.cpp"], True, [], False),
    "cmpi": (["cmpi.cpp", "mpi_shim.cpp"], False, [], True),
    "cla10": (["cla10.cpp", "mpi_shim.cpp"], False, [], True),
    "cla11": (["cla11.cpp", "mpi_shim.cpp"], False, [], True),
    "csmear": (["csmear.cpp", "mpi_shim.cpp"], False, [], True),
    "cmv": (["cmv.cpp", "mpi_shim.cpp"], False, [], True),
}
# property -> binaries that decide it
PLAN = {p: ["wrun"] for p in "C01 C02 C03 C04 C05 C06 C07 C12 C13 C14 C15 C16 C17 C18 C20 C21 C22 C23".split()}
PLAN["C09"] = ["cmpi"]
PLAN["C05"] = PLAN["C04"] = ["wrun", "csmear"]
PLAN["C19"] = ["cmv"]
PLAN["C10"] = ["cla10"]
PLAN["C11"] = ["cla11"]
PLAN["C24"] = PLAN["C25"] = ["cop"]
PLAN["C08"] = ["mrun"]
for _p in "C01 C02 C03 C04 C06 C07 C12 C14 C15 C17 C18 C20 C21 C23".split():
    PLAN[_p] = PLAN[_p] + ["mrun"]
PLAN["C26"] = ["wrun"]
PLAN["C28"] = ["clog"]
PLAN["C27"] = ["wrun", "mrun"]
PLAN["C02"].append("cls")
PLAN["C04"].append("cls")
PLAN["C22"] = ["wrun", "wasan", "masan", "cmpiasan"]
THOROUGH = {"C22": ["cmvasan", "cla10asan", "cla11asan", "csmearasan"]}
# component explorers under the sanitizers: which exploration they run; only crashes count
ASPROP = {"cmvasan": "C19", "cmpiasan": "C09", "cla10asan": "C10", "cla11asan": "C11", "csmearasan": "C04"}
# a component explorer uses internal interfaces; if the tree no longer offers them the property is decided on
# whole runs instead: binary, and the whole-run exploration (oracles on every evaluation) to use
FALLBACK = {"C09": ("mrun", "C08"), "C10": ("wrun", "C14"), "C11": ("wrun", "C14"), "C19": ("wrun", "C20"), "C24": ("wrun", "C12"), "C25": ("wrun", "C12"), "C28": ("wrun", "C15")}


def sha(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def tree(d):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if not x.startswith(".") and x != "_build"]
        out += [os.path.join(r, f) for f in fs if f.endswith((".hpp", ".cpp", ".h", ".cc", ".cxx", ".hh", ".ipp", ".inl", ".cu", ".txt", ".in"))]
    return out


class BuildError(Exception):
    pass


def build(bins, flags=None, tag=""):
    flags = flags or FLAGS
    srcs = tree(REPO + "/src") + tree(REPO + "/include") + [os.path.join(H, f) for f in os.listdir(H)]
    key = sha(srcs, " ".join(flags) + tag)
    base = os.path.join(HERE, "build")
    d = os.path.join(base, key)
    if os.path.isdir(base):  # keep only a few generations
        old = sorted((x for x in os.listdir(base) if x != key), key=lambda x: os.path.getmtime(os.path.join(base, x)))
        for x in old[:-3]:
            shutil.rmtree(os.path.join(base, x), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    objs = {}  # object name -> (source, extra flags)
    want = {}  # binary -> object names
    for b in bins:
        hs, lib, extra, _ = BINS[b]
        tag = hashlib.sha256(" ".join(extra).encode()).hexdigest()[:6] + "." if extra else ""
        want[b] = []
        for n, src in [(s, os.path.join(H, s)) for s in hs] + ([("nlcglib.cpp", REPO + "/src/nlcglib.cpp"), ("acc.cpp", REPO + "/src/gpu/acc.cpp")] if lib else []):
            objs[tag + n] = (src, extra)
            want[b].append(tag + n)

    def comp(item):
        name, (src, extra) = item
        o = os.path.join(d, name.replace("/", "_") + ".o")
        if os.path.exists(o):
            return name, None
        if name.endswith("acc.cpp") and not os.path.exists(src):
            return name, "missing"
        r = subprocess.run(["g++"] + flags + extra + ["-c", src, "-o", o + f".{os.getpid()}"], capture_output=True, text=True, env=ENV)
        if r.returncode:
            return name, (r.stderr or "compiler error")[-4000:]
        os.rename(o + f".{os.getpid()}", o)
        return name, None

    order = sorted(objs.items(), key=lambda kv: (not kv[0].endswith("nlcglib.cpp"), not kv[1][1]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        err = dict(ex.map(comp, order))
    res, notes = {}, {}
    for b in bins:
        need = want[b]
        bad = [f"{n}: {err[n]}" for n in need if err.get(n) and not (n.endswith("acc.cpp") and err[n] == "missing")]
        if not bad:
            exe = os.path.join(d, b)
            if not os.path.exists(exe):
                os_ = [os.path.join(d, n + ".o") for n in need if not err.get(n)]
                r = subprocess.run(["g++", "-rdynamic", "-o", exe + f".{os.getpid()}"] + [f for f in BINS[b][2] if f.startswith("-fsanitize")] + os_ + LIBS, capture_output=True, text=True, env=ENV)
                if r.returncode:
                    bad = ["link: " + r.stderr[-4000:]]
                else:
                    os.rename(exe + f".{os.getpid()}", exe)
            res[b] = exe
        if bad:
            res.pop(b, None)
            notes[b] = bad[0]
    return res, notes


def replay(exe, prop, case, scratch):
    d = tempfile.mkdtemp(dir=scratch)
    try:
        r = subprocess.run([exe, "--prop", prop, "--scratch", d, "--replay", case], capture_output=True, text=True, env=ENV, timeout=240, errors="replace")
    except subprocess.TimeoutExpired:
        return ["no termination"]
    msgs = [l[8:] for l in r.stdout.splitlines() if l.startswith("FINDING ")]
    if not msgs and r.returncode != 0:
        msgs = [f"process ended with status {r.returncode}: " + r.stderr[-300:]]
    return msgs


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding:"):  # finding: property=<id> case=<case> <text>
                f = dict(x.split("=", 1) for x in l[8:].split() if "=" in x)
                out.append((f.get("property"), f.get("case"), l[8:].strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="build everything once")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay", help="replay file written by an earlier run")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        exes, notes = build(sorted({b for v in PLAN.values() for b in v}))
        for b, n in notes.items():
            print(f"{b}: {n}", file=sys.stderr)
        print("built:", " ".join(sorted(exes)))
        return 1 if notes else 0
    prop, tier = a.prop, "thorough" if a.tier == "thorough" else "quick"
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    plan = PLAN[prop] + (THOROUGH.get(prop, []) if tier == "thorough" else [])
    exes, notes = build(plan)
    missing = [b for b in plan if b not in exes]
    asprop = {b: ASPROP.get(b, prop) for b in plan}
    for b in missing:
        print(f"harness {b} does not build with this tree: {notes[b][:3000]}", file=sys.stderr)
        if not BINS[b][3]:
            print("cannot decide: the whole-run harness does not build", file=sys.stderr)
            return 2
    if len(missing) == len(plan):
        b, fp = FALLBACK[prop]
        e2, n2 = build([b])
        if b not in e2:
            print(f"cannot decide: {n2[b][:3000]}", file=sys.stderr)
            return 2
        plan = plan + [b]
        exes.update(e2)
        asprop[b] = fp
    scratch = tempfile.mkdtemp(prefix="nlcgmc_")
    try:
        if a.replay:
            j = json.load(open(a.replay))
            msgs = replay(exes[j["binary"]], asprop[j["binary"]], j["case"], scratch)
            for m in msgs:
                print("FINDING", m)
            return 1 if msgs else 0
        tb = time.time()
        budget = float(os.environ.get("NLCG_BUDGET", 420 if tier == "quick" else 3600))
        parts = {}
        for b in plan:
            if b not in exes:
                continue
            d = os.path.join(scratch, b)
            os.mkdir(d)
            out = os.path.join(d, "out.json")
            r = subprocess.run([exes[b], "--prop", asprop[b], "--tier", tier, "--out", out, "--scratch", d, "--budget", str(budget)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", env=ENV)
            if not os.path.exists(out) or r.returncode != 0:
                print(f"{b} failed with status {r.returncode}: {r.stderr[-2000:]}", file=sys.stderr)
                return 2
            parts[b] = json.load(open(out))
        # confirm every finding alone before reporting it
        viol, unconf, listed = [], [], []
        kn = [k for k in known() if k[0] == prop]
        for b, r in parts.items():
            for f in r["findings"]:
                if b in ASPROP and not f["msg"].startswith(("crash", "process exit")):
                    continue
                if any(k[1] == f["case"] for k in kn):
                    listed.append(f["case"])
                    continue
                if len(viol) >= 3:
                    break
                msgs = replay(exes[b], asprop[b], f["case"], scratch)
                if not msgs and f.get("task"):  # depends on what ran before it in the same process
                    msgs = replay(exes[b], asprop[b], f["task"], scratch)
                    if msgs:
                        f = dict(f, case=f["task"])
                (viol if msgs else unconf).append((b, f["case"], msgs or [f["msg"]]))
        lines = []
        for i, (b, case, msgs) in enumerate(viol):
            p = os.path.join("evidence", f"{prop}.replay{i}.json")
            with open(os.path.join(HERE, p), "w") as fo:
                json.dump({"property": prop, "binary": b, "case": case, "messages": msgs, "command": f"python3 check.py {prop} --replay {p}"}, fo, indent=1)
            print(f"{prop}: {msgs[0]}\n   case {case}")
            lines.append(f"VIOLATION property={prop} replay={p}")
        for k in kn:
            if k[1] in listed:
                print("KNOWN-FINDING: " + k[2])
        cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": True, "harnesses": {}}
        for b, r in parts.items():
            cov["states"] += r["states"]
            cov["transitions"] += r.get("transitions", r["counters"].get("evaluations", 0) + r["counters"].get("operator_applications", 0))
            cov["traces_validated_against_impl"] += r.get("traces", r["counters"].get("runs", 0))
            cov["samples"] += r["samples"][:6]
            cov["exhaustive"] &= bool(r["complete"])
            cov["harnesses"][b] = {"tasks": r["tasks"], "complete": r["complete"], "time_cap_hit": r["capped"], "wall_s": round(r["wall"], 1), "counters": {k: v for k, v in r["counters"].items() if v}, "bounds": r.get("bounds", "")}
            if r.get("unconfirmed"):
                cov["harnesses"][b]["not_reproduced_alone"] = r["unconfirmed"]
        if unconf:
            cov["findings_not_reproduced_alone"] = [{"case": c, "msg": m[0]} for _, c, m in unconf]
        if missing:
            cov["not_covered"] = {b: "component harness does not build with this tree" for b in missing}
        if not cov["samples"]:
            cov["samples"] = [{"note": "first case explored", "tasks": [r["tasks"] for r in parts.values()]}]
        ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
              "assumptions": ["exploration is exhaustive within the bounds given in DESIGN.md; no random choices are made (the seed is not used)",
                              "the library is compiled from the current tree with g++ -O1 -DNDEBUG against the model host and the model MPI of /verif/harness"],
              "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
        ev["coverage"]["build_s"] = round(tb - t0, 1)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fo:
            json.dump(ev, fo, indent=1)
        for l in lines:
            print(l)
        if not lines:
            print(f"{prop} held: {cov['states']} states, {cov['transitions']} transitions, {cov['traces_validated_against_impl']} runs, exhaustive={cov['exhaustive']}, {ev['wall_s']} s")
        return 1 if lines else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
