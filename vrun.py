#!/usr/bin/env python3
"""Runs the check of one property: builds its drivers from /repo's working tree
with sanitizers, runs their workloads in parallel shards, collects what the
oracles saw, writes evidence/<id>.json, and reports violations.

usage: vrun.py ID [--tier quick|thorough] [--seed N] [--only workload:index]
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

SAN = {
    # behaviour oracle plus memory and UB oracles
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS",
             "-ftrivial-auto-var-init=pattern"],
    "tsan": ["-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"],
    "ubsan": ["-fsanitize=undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "plain": ["-ftrivial-auto-var-init=pattern"],
    # container and iterator validity
    "debug": ["-D_GLIBCXX_DEBUG", "-ftrivial-auto-var-init=pattern", "-fsanitize=undefined", "-fno-sanitize-recover=all"],
}
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=0:max_allocation_size_mb=4096:handle_abort=1:symbolize=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99",
           TSAN_OPTIONS="exitcode=99:halt_on_error=1:second_deadlock_stack=1",
           LC_ALL="C")

class HarnessError(Exception):
    pass

def compile_one(prop, exe, tier, build):
    src = os.path.join(HERE, "harness", exe["src"])
    out = os.path.join(build, exe["name"])
    opt = exe.get("opt", "-O0") if tier == "quick" else exe.get("topt", "-O1")
    cmd = [exe.get("cxx", "clang++"), "-std=" + exe.get("std", "c++17"), "-w", opt, "-gline-tables-only" if exe.get("cxx", "clang++") == "clang++" else "-g1"]
    cmd += SAN[exe.get("san", "asan")]
    cmd += ["-DVERIF_REPO=\"%s\"" % REPO, "-DVERIF_HARNESS=\"%s\"" % os.path.join(HERE, "harness")]
    cmd += ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness")]
    cmd += exe.get("flags", []) + [src, "-o", out, "-pthread"] + exe.get("libs", [])
    t = time.time()
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=800)
    if p.returncode:
        raise HarnessError("cannot build %s:\n%s" % (exe["name"], (p.stdout + p.stderr)[-4000:]))
    return exe["name"], out, time.time() - t

def classify(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return "asan-" + m.group(1)
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|'[^']*'|\d+", "", m.group(1).lower()))[:60].strip("-")
    if "WARNING: ThreadSanitizer" in err:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w ]+)", err)
        return "tsan-" + m.group(1).strip().replace(" ", "-")
    if "Assertion" in err:
        return "assertion"
    if "terminate called" in err:
        return "terminate"
    if rc == -27 or rc == 155:
        return "hang"
    return "died-rc%d" % rc

def run_one(prop, exe, path, wl, cases, shard, shards, seed, tier, outdir, only=None, fixed=None):
    tag = "%s-%s-%s-%d" % (exe, wl, fixed or "", shard)
    out = os.path.join(outdir, re.sub(r"[^\w-]", "_", tag) + ".json")
    scratch = tempfile.mkdtemp(prefix="verif-", dir=outdir)
    cmd = [path, "--seed", str(seed), "--workload", wl, "--cases", str(cases), "--shard", str(shard),
           "--shards", str(shards), "--tier", tier, "--out", out, "--scratch", scratch]
    if only is not None:
        cmd += ["--only", str(only)]
    if fixed:
        cmd += ["--fixed", fixed]
    try:
        p = subprocess.run(cmd, capture_output=True, timeout=840, env=ENV, cwd=scratch, errors="replace", text=True)
        rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, err = -27, "wall time limit"
    shutil.rmtree(scratch, ignore_errors=True)
    res = None
    if rc in (0, 1) and os.path.exists(out):
        res = json.load(open(out))
    elif rc == 2:
        raise HarnessError("%s: %s" % (" ".join(cmd), err[-2000:]))
    else:
        kase, note = "?", ""
        try:
            pr = open(out + ".progress", errors="replace").read()
            kase = pr[:200].strip() or "?"
            note = pr[201:].strip()
        except OSError:
            pass
        frames = [l.strip() for l in err.splitlines() if re.match(r"\s*#\d+ .*(/repo/|harness)", l)][:6]
        head = [l.strip() for l in err.splitlines() if "ERROR:" in l or "runtime error" in l or "Assertion" in l or "WARNING: Thread" in l or "terminate" in l or "what()" in l][:3]
        res = {"evaluations": 0, "counters": {}, "samples": [], "failures": [
            {"sig": classify(rc, err), "case": kase, "detail": " | ".join(head + frames) + " || " + note[:3000]}]}
        res["died"] = True
    res["cmd"] = " ".join(cmd)
    hs = set()
    try:
        b = open(out + ".hashes", "rb").read()
        hs = set(struct.unpack("<%dQ" % (len(b) // 8), b))
    except OSError:
        pass
    return exe, wl, res, hs

def known_findings(prop):
    f = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) case=(\S+) sig=(\S+) :: (.*)", l)
            if m and m.group(1) == prop:
                f.append(m.groups()[1:])
    except OSError:
        pass
    return f

def main():
    a = sys.argv[1:]
    prop = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    while a:
        k = a.pop(0)
        if k == "--tier": tier = a.pop(0)
        elif k == "--seed": seed = int(a.pop(0))
        elif k == "--only": only = a.pop(0)
        else: sys.exit("unknown option " + k)
    spec = CHECKS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "out", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rdir, f))
    build = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(HERE, "build"))
    try:
        rc = check(prop, spec, tier, seed, only, build, rdir, t0)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(build, ignore_errors=True)
    sys.exit(rc)

def check(prop, spec, tier, seed, only, build, rdir, t0):
    paths, compile_s = {}, 0.0
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    with cf.ThreadPoolExecutor(jobs) as ex:
        for name, path, s in ex.map(lambda e: compile_one(prop, e, tier, build), spec["exes"]):
            paths[name] = path
            compile_s = max(compile_s, s)
    if "prepare" in spec:  # further build steps (generated lexers)
        spec["prepare"](paths, tier, seed, build, SAN, ENV, REPO)
    tasks = []
    for e in spec["exes"]:
        for wl in e["loads"]:
            name, q, t = wl[:3]
            cases = q if tier == "quick" else t
            shards = min(jobs, max(1, cases)) if name != "fixed" else e.get("fixed_shards", 1)
            if only is not None:
                if not only.startswith(name + ":"):
                    continue
                v = only[len(name) + 1:]
                if name == "fixed":
                    tasks.append((e["name"], "fixed", 1, 0, 1, None, v))
                else:
                    tasks.append((e["name"], name, int(v) + 1, 0, 1, int(v), None))
                continue
            for s in range(shards):
                tasks.append((e["name"], name, cases, s, shards, None, None))
        for fx in e.get("isolated", []):
            if only is None or only == "fixed:" + fx:
                tasks.append((e["name"], "fixed", 1, 0, 1, None, fx))
    ev, counters, samples, fails, distinct = 0, {}, [], [], set()
    per = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        fut = [ex.submit(run_one, prop, t[0], paths[t[0]], t[1], t[2], t[3], t[4], seed, tier, build, t[5], t[6]) for t in tasks]
        for f in fut:
            exe, wl, res, hs = f.result()
            ev += res["evaluations"]
            w = per.setdefault(wl, {"cases": 0})
            w["cases"] += res["evaluations"]
            for k, v in res["counters"].items():
                if k.startswith("max_"):
                    counters[k] = max(counters.get(k, 0), v)
                else:
                    counters[k] = counters.get(k, 0) + v
            samples += res["samples"][:2]
            distinct |= hs
            for x in res["failures"]:
                x["exe"] = exe
                x["cmd"] = res["cmd"]
                fails.append(x)
    known = known_findings(prop)
    seen_known, viol = set(), []
    for f in fails:
        k = [x for x in known if x[0] == f["case"] and x[1] == f["sig"]]
        if k:
            seen_known.add(k[0])
        else:
            viol.append(f)
    # workloads that must have exercised something
    for k, least in spec.get("expect", {}).items():
        if only is None and not viol and counters.get(k, 0) < least:
            raise HarnessError("%s: expected at least %d of %s, saw %d" % (prop, least, k, counters.get(k, 0)))
    wall = time.time() - t0
    if only is None:
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": ev, "distinct_nontrivial": len(distinct), "rule": spec["rule"],
                "samples": samples[:8], "observed": counters, "workload_cases": {k: v["cases"] for k, v in per.items()},
                "compile_s": round(compile_s, 1), "known_findings_seen": len(seen_known),
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(wall, 2), "violations": len(viol),
        }
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    done = set()
    n = 0
    for v in viol:
        key = (v["sig"], v["case"].split(":")[0])
        if key in done and n >= 5:
            continue
        done.add(key)
        n += 1
        if n > 10:
            break
        rp = os.path.join(rdir, "%s-%d.txt" % (prop, n))
        with open(rp, "w") as f:
            f.write("property: %s\nsignature: %s\ncase: %s (driver %s, seed %d)\nre-run: python3 %s %s --tier %s --seed %d --only %s\n\n%s\n" % (
                prop, v["sig"], v["case"], v["exe"], seed, os.path.join(HERE, "vrun.py"), prop, tier, seed, v["case"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("  %s %s: %s" % (v["case"], v["sig"], v["detail"][:700]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %d known, compile %.0fs, wall %.0fs; observed %s" % (
        prop, tier, seed, ev, len(distinct), len(viol), len(seen_known), compile_s, wall, json.dumps(counters)))
    return 1 if viol else 0

if __name__ == "__main__":
    try:
        main()
    except HarnessError as e:
        print("HARNESS ERROR: %s" % e)
        sys.exit(3)
