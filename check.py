#!/usr/bin/env python3
"""Builds the harness of one property against /repo's working tree and explores it.

usage: check.py C01 [--tier quick|thorough] [--scenario NAME] [--replay FILE] [--full] [--build-only]
exit 0: held on everything explored; 1: VIOLATION line printed; other: error of the check.
"""
import sys, os, re, json, subprocess, time, hashlib, shutil, glob, argparse

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("OXSX_REPO", "/repo")
B = os.path.join(V, "build")
EXCLUDE = {"ROOTMultiPlot.cpp"}
CXX = "g++"
BASEFLAGS = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-w"]
LIBS = ["-L/usr/lib/x86_64-linux-gnu", "-lhdf5_serial_cpp", "-lhdf5_serial", "-larmadillo", "-lgsl", "-lgslcblas", "-lm", "-lpthread"]
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:handle_abort=1:abort_on_error=0:max_malloc_fill_size=8192:malloc_fill_byte=190:exitcode=99:quarantine_size_mb=32:detect_stack_use_after_return=0:malloc_context_size=5"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99:abort_on_error=1"
ENV["OMP_NUM_THREADS"] = "1"
ENV["OPENBLAS_NUM_THREADS"] = "1"
ENV["TMPDIR"] = "/tmp"


def die(msg):
    print("check.py: error: " + msg, flush=True)
    sys.exit(2)


def mirror():
    """copy /repo/src, rewriting only what differs in content, so that time stamps follow content"""
    src, dst = os.path.join(R, "src"), os.path.join(B, "src")
    want = set()
    for d, _, fs in os.walk(src):
        for f in fs:
            if not f.endswith((".h", ".hpp", ".cpp", ".cc", ".hh", ".tpp", ".icc", ".inl")):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, src)
            want.add(rel)
            q = os.path.join(dst, rel)
            data = open(p, "rb").read()
            if os.path.exists(q) and open(q, "rb").read() == data:
                continue
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "wb").write(data)
    for d, _, fs in os.walk(dst):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), dst)
            if rel not in want:
                os.remove(os.path.join(d, f))
    return dst, sorted(want)


def closure(harness, files, dst):
    """library sources the harness can need, by following includes and same-named sources"""
    byname = {}
    for rel in files:
        byname.setdefault(os.path.basename(rel), []).append(rel)
    seen, todo, cpps = set(), [harness], set()
    inc = re.compile(r'^\s*#\s*include\s*[<"]([^>"]+)[>"]', re.M)
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        for name in inc.findall(open(p, encoding="utf-8", errors="replace").read()):
            b = os.path.basename(name)
            for rel in byname.get(b, []):
                todo.append(os.path.join(dst, rel))
            stem = os.path.splitext(b)[0]
            for ext in (".cpp", ".cc"):
                for rel in byname.get(stem + ext, []):
                    if b not in byname or os.path.basename(rel) in EXCLUDE:
                        continue
                    cpps.add(rel)
                    todo.append(os.path.join(dst, rel))
    return cpps


def build(pid, full):
    """one ninja file for all harnesses (library objects are shared); builds that of pid, or all of them"""
    os.makedirs(B, exist_ok=True)
    harnesses = {os.path.basename(h)[2:-4]: h for h in sorted(glob.glob(os.path.join(V, "harness", "h_*.cpp")))}
    if pid != "ALL" and pid not in harnesses:
        die("no harness for " + pid)
    dst, files = mirror()
    dirs = sorted({os.path.dirname(f) for f in files})
    allcpp = sorted(f for f in files if f.endswith((".cpp", ".cc")) and os.path.basename(f) not in EXCLUDE)
    incs = ["-I" + os.path.join(V, "mc"), "-I" + os.path.join(V, "harness"), "-isystem", os.path.join(V, "rootstub")]
    incs += ["-I" + os.path.join(dst, d) for d in dirs] + ["-isystem", "/usr/include/hdf5/serial"]
    pch_h = os.path.join(V, "mc", "prefix.h")
    n = ["builddir = " + os.path.join(B, "nj"),
         "flags = " + " ".join(BASEFLAGS + incs),
         "rule cxx", "  command = %s $flags -MMD -MF $out.d -c $in -o $out" % CXX, "  depfile = $out.d", "  deps = gcc",
         "rule link", "  command = %s -fsanitize=address,undefined $in -o $out %s" % (CXX, " ".join(LIBS))]
    obj = lambda rel: os.path.join(B, "obj", rel.replace("/", "__") + ".o")
    for rel in allcpp:
        n.append("build %s: cxx %s" % (obj(rel), os.path.join(dst, rel)))
    main = os.path.join(B, "obj", "h__mc.cpp.o")
    n.append("build %s: cxx %s" % (main, os.path.join(V, "mc", "mc.cpp")))
    cpps, exe, want = [], None, []
    for h, p in harnesses.items():
        o = os.path.join(B, "obj", "h__" + os.path.basename(p) + ".o")
        n.append("build %s: cxx %s" % (o, p))
        if pid in (h, "ALL"):
            cpps = allcpp if full else sorted(closure(p, files, dst) & set(allcpp))
            exe = os.path.join(B, "bin", "mc_" + h)
            want.append(exe)
            n.append("build %s: link %s" % (exe, " ".join([obj(c) for c in cpps] + [o, main])))
    nf = os.path.join(B, "build.ninja")
    open(nf, "w").write("\n".join(n) + "\n")
    p = subprocess.run(["ninja", "-f", nf, "-j", "8"] + want, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
    return p.returncode, p.stdout, exe, len(cpps)


def run_worker(exe, args, out, limit):
    return subprocess.Popen([exe] + args + ["--out", out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)


def replay_once(exe, v, tier, seed, hang):
    out = os.path.join(B, "run", "replay.json")
    if os.path.exists(out):
        os.remove(out)
    a = ["--scenario", v["scenario"], "--replay", ",".join(map(str, v["choices"])) or "0", "--tier", tier, "--seed", str(seed), "--hang", str(hang), "--out", out]
    try:
        p = subprocess.run([exe] + a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=hang + 60)
    except subprocess.TimeoutExpired:
        return v["kind"] == "hang", "timed out"
    err = p.stderr.decode(errors="replace")
    if v["kind"] == "check":
        try:
            r = json.load(open(out))
            return any(x["sig"] == v["sig"] for x in r["violations"]) or p.returncode not in (0, 1), err
        except Exception:
            return p.returncode not in (0, 1), err
    if v["kind"] == "hang":
        return p.returncode == 5, err
    return p.returncode not in (0, 1), err


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--scenario")
    ap.add_argument("--replay")
    ap.add_argument("--full", action="store_true")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    pid, tier = a.pid, a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    rc, log, exe, nsrc = build(pid, a.full)
    if rc and not a.full:
        log1 = log
        rc, log, exe, nsrc = build(pid, True)
        if not rc:
            print("note: built from all library sources")
        else:
            log = log1 + log
    if rc:
        ls = [l[:400] for l in log.splitlines() if not l.startswith("[") and CXX + " -std" not in l]
        print("\n".join(ls[:60]))
        die("build failed")
    tb = time.time() - t0
    if a.build_only:
        print("built %s in %.1fs from %d library sources" % (exe, tb, nsrc))
        return 0
    run = os.path.join(B, "run", pid)
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run, exist_ok=True)
    if a.replay:
        v = json.load(open(a.replay))
        ok, err = replay_once(exe, v, v.get("tier", tier), seed, 60)
        print("reproduced" if ok else "did not reproduce")
        print(err[-3000:])
        return 1 if ok else 0
    kf = json.load(open(os.path.join(V, "known_findings.json")))
    known = {(f["scenario"], f["sig"]): f for f in kf["findings"] if f["property"] == pid}
    W = a.workers
    deadline = 480 if tier == "quick" else 10800
    wargs = []
    for w in range(W):
        x = ["--worker", str(w), "--workers", str(W), "--tier", tier, "--seed", str(seed), "--deadline", str(deadline), "--states", os.path.join(run, "s%d" % w)]
        for (s, g) in known:
            x += ["--known", s + "|" + g]
        if a.scenario:
            x += ["--scenario", a.scenario]
        wargs.append(x)
    procs = [run_worker(exe, wargs[w], os.path.join(run, "o%d" % w), deadline) for w in range(W)]
    outs = []
    for w, p in enumerate(procs):
        try:
            so, se = p.communicate(timeout=deadline + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
        outs.append((p.returncode, se.decode(errors="replace")))
    scen, viols, samples, errors = {}, [], [], []
    for w in range(W):
        f = os.path.join(run, "o%d" % w)
        if not os.path.exists(f):
            errors.append("worker %d left no result, exit %s: %s" % (w, outs[w][0], outs[w][1][-1500:]))
            continue
        r = json.load(open(f))
        if r["status"] == "running" and outs[w][0] not in (0, 1):
            errors.append("worker %d ended early, exit %s: %s" % (w, outs[w][0], outs[w][1][-1500:]))
        for s in r["scenarios"]:
            t = scen.setdefault(s["name"], {"executions": 0, "transitions": 0, "states": 0, "pruned": 0, "max_depth": 0, "complete": True, "wall": 0})
            for k in ("executions", "transitions", "states", "pruned"):
                t[k] += s[k]
            t["max_depth"] = max(t["max_depth"], s["max_depth"])
            t["complete"] = t["complete"] and s["complete"]
            t["wall"] = max(t["wall"], s["wall"])
        for v in r["violations"]:
            v["worker"] = w
            v["stderr"] = outs[w][1][-3000:]
            viols.append(v)
        samples += r["samples"]
        if r["status"] != "done":
            for t in scen.values():
                t["complete"] = False
    # one per kind of breakage: shortest
    byk = {}
    for v in sorted(viols, key=lambda v: (len(v["choices"]), v["choices"])):
        byk.setdefault((v["scenario"], v["sig"]), v)
    reported, knownseen, unrep = [], [], []
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    for old in glob.glob(os.path.join(V, "replays", pid + "-*.json")):
        os.remove(old)
    for (s, g), v in byk.items():
        if (s, g) in known:
            knownseen.append(known[(s, g)])
            continue
        if len(reported) >= 5:
            continue
        ok, err = replay_once(exe, v, tier, seed, 60)
        how = "trace"
        if not ok:
            # perhaps the breakage needs the executions before it: run that worker again
            out = os.path.join(run, "again")
            if os.path.exists(out):
                os.remove(out)
            try:
                p = subprocess.run([exe] + wargs[v["worker"]] + ["--out", out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=300 if tier == "quick" else 4000)
                err = p.stderr.decode(errors="replace")
                ok = os.path.exists(out) and any(x["scenario"] == s and x["sig"] == g for x in json.load(open(out))["violations"])
            except subprocess.TimeoutExpired:
                ok = False
            how = "worker"
        if not ok:
            unrep.append({"scenario": s, "sig": g, "msg": v["msg"]})
            continue
        v["replay_by"], v["tier"], v["property"], v["worker_args"] = how, tier, pid, wargs[v["worker"]]
        v["stderr"] = err[-3000:]
        path = os.path.join(V, "replays", "%s-%d.json" % (pid, len(reported)))
        json.dump(v, open(path, "w"), indent=1)
        reported.append((path, v))
    if not os.path.isdir(run):
        errors.append("run directory vanished")
    nstates = 0
    fs = [os.path.join(run, "s%d" % w) for w in range(W) if os.path.exists(os.path.join(run, "s%d" % w))]
    if fs:
        nstates = int(subprocess.run([exe, "--merge"] + fs, stdout=subprocess.PIPE, text=True, env=ENV).stdout.strip() or 0)
    ex = sum(t["executions"] for t in scen.values())
    tr = sum(t["transitions"] for t in scen.values())
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": nstates, "transitions": tr, "traces_validated_against_impl": ex,
                       "exhaustive": bool(scen) and all(t["complete"] for t in scen.values()) and not errors,
                       "rule": "every sequence of choices (operations, operands, configurations, injected random numbers) within each scenario's bound is run once on the real library, compiled with address and undefined-behaviour sanitizers, in lock step with a reference model; states are distinct canonical observable states, transitions are operations executed, traces are complete executions compared with the model",
                       "scenarios": scen, "library_sources_built": nsrc,
                       "samples": [{"scenario": s["scenario"], "trace": s["trace"][:60]} for s in samples[:12]],
                       "known_findings_observed": [k["sig"] for k in knownseen], "unreproduced": unrep},
          "assumptions": ["the C++ compiler, standard library, HDF5, Armadillo and GSL are correct", "bounds named in DESIGN.md"],
          "wall_s": round(time.time() - t0, 1), "violations": len(reported)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: build %.1fs, %d states, %d transitions, %d executions, %s, %.1fs" % (pid, tier, tb, nstates, tr, ex, "complete" if ev["coverage"]["exhaustive"] else "INCOMPLETE", time.time() - t0))
    for n, t in scen.items():
        print("   %-36s exec %d trans %d states<=%d depth %d pruned %d %s %.1fs" % (n, t["executions"], t["transitions"], t["states"], t["max_depth"], t["pruned"], "complete" if t["complete"] else "INCOMPLETE", t["wall"]))
    for k in knownseen:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["description"]))
    for u in unrep:
        print("note: seen once but not reproduced: %s [%s] %s" % (u["scenario"], u["sig"], u["msg"]))
    for path, v in reported:
        print("  %s [%s] %s" % (v["scenario"], v["sig"], v["msg"]))
        for t in v["trace"][-25:]:
            print("      " + t)
        if v["kind"] != "check":
            print("\n".join("      | " + l for l in v["stderr"].splitlines()[:12]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    sys.stdout.flush()
    if reported:
        return 1
    if errors:
        for e in errors:
            print("error: " + e)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
