#!/usr/bin/env python3
"""run.py <PROPERTY> [quick|thorough]   decide one property on /repo's current tree
   run.py --setup                       build every variant and driver
Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Exit 2: the check itself failed."""
import sys, os, json, time, subprocess, concurrent.futures, shutil, signal, tempfile, resource
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build
from props import PROPS, DRIVERS, VARIANT_DRIVERS

VERIF = build.VERIF
OUT = os.path.join(VERIF, "out")


def load_known():
    p = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                res.append(json.loads(line))
    return res


def limits(variant):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if variant == "plain":
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    return f


SAN = {"ASAN_OPTIONS": "exitcode=99:detect_stack_use_after_return=1:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_odr_violation=0",
       "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99:halt_on_error=1",
       "TSAN_OPTIONS": "exitcode=98:halt_on_error=1:second_deadlock_stack=1",
       "LSAN_OPTIONS": "exitcode=99:suppressions=" + os.path.join(VERIF, "lib", "lsan.supp")}


def run_shard(job, exe, tier, seed, shard, shards, work):
    out = os.path.join(work, "%s_%d.jsonl" % (job["id"], shard))
    tmp = os.path.join(work, "t_%s_%d" % (job["id"], shard))
    os.makedirs(tmp, exist_ok=True)
    cap = job["cap"][tier]
    cmd = [exe, "--seed", str(seed), "--cases", str(job["cases"][tier]), "--shard", str(shard), "--shards", str(shards),
           "--seconds", str(cap), "--out", out, "--tmp", tmp, "--mode", job.get("mode", ""), "--case-cpu", str(job.get("case_cpu", 90))]
    if job.get("family"):
        cmd += ["--family", job["family"]]
    e = dict(os.environ)
    e.update(SAN)
    for k in list(e):
        if k.startswith("GCS_"):
            del e[k]
    envs = job.get("envs")
    if envs:
        e.update(envs[shard % len(envs)])
    if job.get("only_crashes"):
        e["VERIF_MAX_VIOLATIONS"] = "1000000"
    e["VERIF_DRIVERS"] = os.path.join(VERIF, "drivers")
    e["VERIF_REPO"] = build.REPO
    e["VERIF_BIN"] = os.path.dirname(exe)
    err = out + ".err"
    t0 = time.time()
    with open(err, "w") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=subprocess.STDOUT, cwd=tmp, env=e, preexec_fn=limits(job["variant"]))
        try:
            rc = p.wait(timeout=cap + job.get("case_cpu", 90) * 2 + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
    shutil.rmtree(tmp, ignore_errors=True)
    res = {"job": job["id"], "shard": shard, "rc": rc, "cmd": cmd, "violations": [], "summary": None, "error": None, "wall": time.time() - t0,
           "env": dict(envs[shard % len(envs)]) if envs else {}}
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if r["type"] == "violation":
                if job.get("only_crashes") and not r["key"].startswith("crash"):
                    continue  # other properties' business
                res["violations"].append(r)
            elif r["type"] == "summary":
                res["summary"] = r
    cur = ""
    case = None
    try:
        raw = open(out + ".cur", errors="replace").read()
        cur = raw[21:].split("\0")[0]
        case = int(raw[:20])
    except (OSError, ValueError):
        pass
    tail = ""
    try:
        tail = open(err, errors="replace").read()
    except OSError:
        pass
    if rc in (0, 1) and res["summary"] is not None:
        return res
    if rc == 77 and os.path.exists(out + ".hang"):
        res["violations"].append({"case": case, "key": "no-termination", "text": "a case did not finish within %ss of CPU time" % job.get("case_cpu", 90), "desc": cur})
    elif rc == 98 or rc == 99 or (isinstance(rc, int) and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGTRAP)):
        key = "crash"
        for line in tail.splitlines():
            if "runtime error:" in line or "ERROR: AddressSanitizer" in line or "WARNING: ThreadSanitizer" in line or "ERROR: LeakSanitizer" in line or "Assertion" in line:
                key = "crash: " + line.strip()[-200:]
                break
        res["violations"].append({"case": case, "key": key, "text": "the process died (status %s)\n%s" % (rc, tail[:6000]), "desc": cur})
    elif rc == 1 and "LeakSanitizer" in tail:
        res["violations"].append({"case": None, "key": "leak", "text": tail[:6000], "desc": ""})
    else:
        res["error"] = "driver ended with %s: %s" % (rc, tail[-2000:])
    return res


def evidence(prop, spec, tier, seed, results, wall, violations, known):
    cov = {}
    distinct = set()
    evals = 0
    counters = {}
    samples = []
    cases = 0
    per_job = {}
    for r in results:
        s = r["summary"]
        if not s:
            continue
        evals += s["evaluations"]
        cases += s["cases"]
        distinct.update((r["job"], h) for h in s["distinct"])
        for k, v in s["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for x in s["samples"][:3]:
            if len(samples) < 12:
                samples.append(x)
        j = per_job.setdefault(r["job"], {"cases": 0, "evaluations": 0})
        j["cases"] += s["cases"]
        j["evaluations"] += s["evaluations"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": spec["rule"], "samples": samples,
                       "cases": cases, "counters": counters, "jobs": per_job},
          "wall_s": round(wall, 2), "violations": len(violations), "known_findings": known}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return ev


def main():
    if sys.argv[1] == "--setup":
        t0 = time.time()
        for v, names in VARIANT_DRIVERS.items():
            build.build(v, {n: DRIVERS[n] for n in names})
            print("built", v, round(time.time() - t0, 1), "s", flush=True)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[prop]
    t0 = time.time()
    # 1. build
    need = {}
    for i, j in enumerate(spec["jobs"]):
        j["id"] = "%s_%d_%s" % (prop, i, j["driver"])
        need.setdefault(j["variant"], set()).add(j["driver"])
        for extra in j.get("also", ()):
            need[j["variant"]].add(extra)
    exes = {}
    try:
        for v, names in need.items():
            exes[v] = build.build(v, {n: DRIVERS[n] for n in names})
    except build.BuildError as e:
        print("BUILD-ERROR\n" + str(e))
        return 2
    tb = time.time() - t0
    # 2. run
    work = tempfile.mkdtemp(prefix="vrun_%s_" % prop)
    results = []
    try:
        with concurrent.futures.ThreadPoolExecutor(build.JOBS) as ex:
            futs = []
            for j in spec["jobs"]:
                shards = j.get("shards", build.JOBS)
                for s in range(shards):
                    futs.append(ex.submit(run_shard, j, exes[j["variant"]][j["driver"]], tier, seed, s, shards, work))
            for f in futs:
                results.append(f.result())
    finally:
        shutil.rmtree(work, ignore_errors=True)
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
    viol, hit = [], {}
    for r in results:
        for v in r["violations"]:
            v["cmd"] = ["env"] + ["%s=%s" % kv for kv in r["env"].items()] + r["cmd"] if r["env"] else r["cmd"]
            k = next((k for k in known if k["key"] == v["key"] and (k.get("match", "") in (v["text"] + v["desc"]))), None)
            if k:
                hit.setdefault(k["what"], 0)
                hit[k["what"]] += 1
            else:
                viol.append(v)
    wall = time.time() - t0
    ev = evidence(prop, spec, tier, seed, results, wall, viol, hit)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    errs = [r for r in results if r["error"]]
    c = ev["coverage"]
    print("%s %s seed=%d: %d cases, %d evaluations, %d distinct, build %.1fs, wall %.1fs" % (prop, tier, seed, c["cases"], c["evaluations"], c["distinct_nontrivial"], tb, wall))
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(c["counters"], indent=1))
        for r in results:
            print("  ", r["job"], r["shard"], "rc", r["rc"], "%.1fs" % r["wall"])
    if viol:
        os.makedirs(OUT, exist_ok=True)
        keys = {}
        for v in viol:
            keys.setdefault(v["key"], v)
        for n, (k, v) in enumerate(keys.items()):
            if n >= (40 if os.environ.get("VERIF_VERBOSE") else 3):
                break
            path = os.path.join(OUT, "replay_%s_%d.txt" % (prop, n))
            cmd = list(v["cmd"])
            for opt in ("--out", "--tmp"):
                i = cmd.index(opt)
                del cmd[i:i + 2]
            if v["case"] is not None:
                cmd += ["--case", str(v["case"])]
            with open(path, "w") as f:
                f.write("property: %s\nkey: %s\nreplay: %s\n\ncase:\n%s\n\n%s\n" % (prop, v["key"], " ".join("'%s'" % c if c == "" else c for c in cmd), v["desc"], v["text"]))
            print("  key: %s\n  case: %s\n  %s" % (k, v["desc"][:1500], v["text"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errs:
        print("CHECK-ERROR " + errs[0]["error"])
        return 2
    vac = spec.get("min_distinct", 2)
    if c["distinct_nontrivial"] < vac:
        print("CHECK-ERROR vacuous: only %d distinct non-trivial observations" % c["distinct_nontrivial"])
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        print("CHECK-ERROR the check itself failed")
        rc = 2
    sys.exit(rc)
