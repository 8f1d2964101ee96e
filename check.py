#!/usr/bin/env python3
"""Runner: build a driver from /repo's working tree, exhaust its spaces for one property, write evidence.

usage: check.py <property> [--replay FILE]      (VERIF_TIER selects quick / thorough, VERIF_SEED is recorded)
Exit 0: held on everything explored (known findings are printed).  Exit 1: VIOLATION line(s) printed.
Exit 3: error of the check itself (build failure, flaky case, incomplete exploration).
"""
import sys, os, json, subprocess, hashlib, time, glob, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CHECKS = json.load(open(os.path.join(HERE, "harness", "checks.json")))
WARN = ["-w"]
BASEFLAGS = ["-g1", "-fPIC", "-DBIN_WRITE_PLUGIN", "-Wno-nonnull-compare", "-fno-omit-frame-pointer",
             "-fno-delete-null-pointer-checks", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I/usr/include/libxml2"]
VARIANTS = {
    # null 'this' tests are part of the library's style, hence -fno-delete-null-pointer-checks
    "asan": {"cc": "clang", "cxx": "clang++", "flags": ["-O1", "-fsanitize=address"], "link": ["-fsanitize=address"]},
    "fast": {"cc": "clang", "cxx": "clang++", "flags": ["-O2"], "link": []},
}
ASAN = "detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:" \
       "detect_stack_use_after_return=0:handle_abort=0:max_allocation_size_mb=3000:quarantine_size_mb=16:malloc_context_size=6"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sources():
    return sorted(glob.glob(REPO + "/src/*.cpp")) + sorted(glob.glob(REPO + "/src/jsmn/*.c"))


def tree_hash():
    h = hashlib.sha256()
    files = sources() + sorted(glob.glob(REPO + "/include/**/*", recursive=True)) + sorted(glob.glob(REPO + "/src/**/*.h", recursive=True))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


def compile_one(job):
    cmd, out = job
    if os.path.exists(out):
        return None
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    r = sh(cmd + ["-o", tmp])
    if r.returncode != 0:
        return " ".join(cmd) + "\n" + r.stdout
    os.rename(tmp, out)
    return None


def build(drv):
    spec = CHECKS["drivers"][drv]
    var = VARIANTS[spec.get("variant", "asan")]
    extra = spec.get("flags", [])
    th = tree_hash()
    hh = hashlib.sha256()
    hh.update(repr((var, extra, BASEFLAGS, spec)).encode())
    key = hashlib.sha256((th + hh.hexdigest()).encode()).hexdigest()[:20]
    odir = os.path.join(BUILD, spec.get("variant", "asan") + "-" + key)
    jobs, objs = [], []
    libflags = spec.get("libflags", [])
    for s in sources():
        o = os.path.join(odir, os.path.relpath(s, REPO).replace("/", "_") + ".o")
        cc = [var["cc"], "-c", s] if s.endswith(".c") else [var["cxx"], "-std=c++17", "-c", s]
        jobs.append((cc + BASEFLAGS + WARN + var["flags"] + extra + libflags, o))
        objs.append(o)
    # harness sources are keyed by their own content too
    hd = hashlib.sha256()
    for f in sorted(glob.glob(HERE + "/harness/*")):
        if os.path.isfile(f):
            hd.update(open(f, "rb").read())
    hk = hd.hexdigest()[:12]
    for f in ["mc.cpp"] + spec["src"]:
        o = os.path.join(odir, hk + "_" + f + ".o")
        comp = [var["cc"]] if f.endswith(".c") else [var["cxx"], "-std=c++17"]
        jobs.append((comp + ["-c", os.path.join(HERE, "harness", f)] + BASEFLAGS + WARN + var["flags"] + extra, o))
        objs.append(o)
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        raise RuntimeError("build failed:\n" + "\n".join(errs)[:6000])
    exe = os.path.join(odir, hk + "_" + drv)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh([var["cxx"]] + objs + var["link"] + spec.get("link", []) + ["-lxml2", "-lpthread", "-o", tmp])
        if r.returncode != 0:
            raise RuntimeError("link failed:\n" + r.stdout[:6000])
        os.rename(tmp, exe)
    return exe


def known_findings(prop):
    res = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    res.append(d)
    return res


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ASAN
    e["TZ"] = "UTC"; e["LANG"] = e["LC_ALL"] = "C.UTF-8"
    return e


def run_driver(exe, args, limit):
    p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env())
    try:
        out, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill(); out, err = p.communicate()
        raise RuntimeError("driver exceeded its time limit of %d s" % limit)
    rows = []
    for l in out.splitlines():
        if l.startswith("{"):
            rows.append(json.loads(l))
    return p.returncode, rows, err


def replay(path):
    d = json.load(open(path))
    exe = build(d["driver"])
    args = ["--from", str(d["from"]), str(d["step"]), "--replay", d["space"], str(d["index"])] + (["--thorough"] if d.get("tier") == "thorough" else [])
    rc, rows, err = run_driver(exe, args, 700)
    for r in rows:
        print(json.dumps(r))
    return rc


def main():
    if sys.argv[1] == "--prebuild":
        for d in CHECKS["drivers"]:
            build(d)
        sys.exit(0)
    if len(sys.argv) > 2 and sys.argv[2] == "--replay":
        sys.exit(replay(sys.argv[3]))
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS["properties"][prop]
    t0 = time.time()
    known = known_findings(prop)
    rows, total, viol, seen_known = [], {}, [], []
    problems = []
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for f in glob.glob(os.path.join(HERE, "replays", prop + "-*.json")):
        os.unlink(f)
    budget = 700 if tier == "quick" else 10800
    for drv in spec["drivers"]:
        exe = build(drv)
        args = ["--only", prop + "."] + (["--thorough"] if tier == "thorough" else [])
        args += ["--budget", str(budget), "--hang", str(spec.get("hang", 20))]
        rc, rs, err = run_driver(exe, args, budget + 150)
        if rc not in (0, 1):
            raise RuntimeError("driver %s ended with %s: %s" % (drv, rc, err[-2000:]))
        for r in rs:
            r["driver"] = drv
        rows += rs
    spaces = [r for r in rows if "space" in r]
    if not spaces:
        raise RuntimeError("no space was explored for " + prop)
    for r in rows:
        if "flaky" in r and "space" not in r:
            problems.append("case not reproduced when replayed alone: %s #%d %s" % (r["flaky"], r["idx"], r["msg"]))
        if "finding" not in r:
            continue
        k = None
        for d in known:
            if d["space"] == r["finding"] and d["case"] == r["case"] and d["kind"] == r["kind"] and (d.get("msg") is None or r["msg"].startswith(d["msg"])):
                k = d
        if k is not None:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            seen_known.append(k)
            continue
        n = len(viol)
        path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, n))
        json.dump({"property": prop, "driver": r["driver"], "space": r["finding"], "index": r["idx"], "from": r["from"], "step": r["step"], "tier": tier, "kind": r["kind"], "case": r["case"],
                   "msg": r["msg"], "replay_cmd": "python3 check.py %s --replay %s" % (prop, path)}, open(path, "w"), indent=1)
        viol.append((path, r))
    shown = sorted(viol, key=lambda v: [w[1]["finding"] for w in viol[:viol.index(v)]].count(v[1]["finding"]))  # one per space first
    for path, r in shown[:8]:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s #%d [%s] case: %s" % (r["finding"], r["idx"], r["kind"], r["case"][:600]))
        print("  %s" % r["msg"][:900])
    incomplete = [s for s in spaces if s["aborted"] or (s["done"] < s["count"] and not any(r.get("finding") == s["space"] for r in rows))]
    for s in incomplete:
        if not viol:
            problems.append("space %s not completed: %d of %d cases" % (s["space"], s["done"], s["count"]))
    lost = [s for s in spaces if s["findings"] and not any(r.get("finding") == s["space"] for r in rows)]
    for s in lost:
        problems.append("space %s: findings that could not be replayed" % s["space"])
    level = spec["level"]
    ev = sum(max(s["done"], s["nontrivial"]) for s in spaces); nt = sum(s["nontrivial"] for s in spaces)
    st = sum(s["states"] for s in spaces); tr = sum(s["transitions"] for s in spaces)
    samples = []
    for s in spaces:
        samples += ["%s: %s" % (s["space"], x) for x in s["samples"][:3]]
    cov = {"evaluations": ev, "distinct_nontrivial": nt, "rule": spec["rule"], "samples": samples[:24],
           "exhaustive": not incomplete and not problems,
           "spaces": [{k: s[k] for k in ("space", "count", "done", "states", "transitions", "nontrivial", "outcomes", "wall")} for s in spaces]}
    if level == "model_checking":
        cov["states"] = st
        cov["transitions"] = tr
        cov["traces_validated_against_impl"] = ev   # every explored history is executed on the implementation itself
    doc = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
           "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(doc, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d cases (%d nontrivial), %d states, %d transitions, %d spaces, %.1f s, %d violations, %d known" %
          (prop, tier, ev, nt, st, tr, len(spaces), time.time() - t0, len(viol), len(seen_known)))
    if viol:
        sys.exit(1)
    if problems:
        print("\n".join(problems)); sys.exit(3)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except RuntimeError as e:
        print("ERROR: %s" % e)
        sys.exit(3)
