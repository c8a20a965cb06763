#!/usr/bin/env python3
"""Runs the check of one property.

  check.py C07 [quick|thorough]   (without: VERIF_TIER, default quick)
  check.py replay DIR     re-runs a saved failure
  check.py setup          builds the harness once (fills the build cache)

Exit 0: the property held on everything explored. Exit 1 and a line
"VIOLATION property=<id> replay=<dir>": it is broken. Exit 2: no answer (the
harness does not build, ran out of time or memory, ...).
"""
import concurrent.futures, fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from table import TABLE  # noqa: E402

CACHE = os.path.join(ROOT, ".cache")
HARNESS = os.path.join(ROOT, "harness")
DRIVER = "github.com/johnnadratowski/golang-neo4j-bolt-driver"


def env():
    e = {k: v for k, v in os.environ.items()
         if k not in ("NEO4J_BOLT", "ENSURE_NEO4J_BOLT", "RECORD_OUTPUT", "BOLT_DRIVER_LOG", "GOFLAGS", "GOROOT", "GOWORK", "GORACE", "GODEBUG", "GOMAXPROCS")}
    e.update(HOME=e.get("HOME", "/root"), GOPATH=HARNESS, GO111MODULE="off", GOENV="off", GOTOOLCHAIN="local", GOPROXY="off",
             GOCACHE=os.path.join(CACHE, "gocache"), PATH="/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin"),
             VERIF_KNOWN=os.path.join(ROOT, "known_findings.jsonl"))
    return e


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build(kind, out):
    """kind: plain, race, inpkg (in-package tests through an overlay)."""
    os.makedirs(CACHE, exist_ok=True)
    args = ["go", "test", "-c", "-vet=off", "-o", out]
    e = env()
    if kind.startswith("race"):
        args.append("-race")
        e["CGO_ENABLED"] = "1"
    if kind.startswith("inpkg"):
        ov = {"Replace": {}}
        d = os.path.join(HARNESS, "inpkg")
        for f in sorted(os.listdir(d)):
            if f.endswith(".go"):
                # GOPATH resolves the package through the link, so name it that way
                ov["Replace"][os.path.join(HARNESS, "src", DRIVER, f)] = os.path.join(d, f)
        # the repository's own tests are not part of the check binary
        for f in sorted(os.listdir("/repo")):
            if f.endswith("_test.go"):
                ov["Replace"][os.path.join(HARNESS, "src", DRIVER, f)] = ""
        p = out + ".overlay.json"
        with open(p, "w") as fh:
            json.dump(ov, fh)
        args += ["-overlay", p, DRIVER]
    else:
        args.append("verif/checks")
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_SH)
        r = subprocess.run(args, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        die("the harness does not build against /repo:\n" + r.stdout[-4000:])


def run_one(job):
    os.makedirs(job["dir"], exist_ok=True)
    e = env()
    e.update(VERIF_STATS=os.path.join(job["dir"], "stats.json"), VERIF_LAST=os.path.join(job["dir"], "last.txt"), VERIF_TIER=job["tier"],
             GOTRACEBACK="all", TMPDIR=job["dir"], VERIF_SHARD=str(job["shard"]))
    e.update(job.get("env", {}))
    if job["race"]:
        e["GORACE"] = "halt_on_error=1 exitcode=66"
    if job.get("procs"):
        e["GOMAXPROCS"] = str(job["procs"])
    args = [job["bin"], "-test.run", "^" + job["test"] + "$", "-test.timeout", "%ds" % job["timeout"], "-test.count=1"]
    if job.get("failfile"):
        args += ["-rapid.failfile", job["failfile"], "-rapid.v"]
    else:
        args += ["-rapid.checks=%d" % job["n"], "-rapid.seed=%d" % job["seed"], "-rapid.shrinktime=%s" % job.get("shrink", "20s")]
        if job.get("steps"):
            args += ["-rapid.steps=%d" % job["steps"]]
    log = os.path.join(job["dir"], "log.txt")
    with open(log, "wb") as fh:
        try:
            r = subprocess.run(args, cwd=job["dir"], env=e, stdout=fh, stderr=subprocess.STDOUT, timeout=job["timeout"] + 60)
            job["rc"] = r.returncode
        except subprocess.TimeoutExpired:
            job["rc"] = -1000
    with open(log, "rb") as fh:
        job["log"] = fh.read().decode("utf-8", "replace")
    return job


def classify(job):
    """ok / violation / error, and a one-line reason"""
    rc, log = job["rc"], job["log"]
    if rc == 0:
        if "no tests to run" in log:
            return "error", "no test named " + job["test"]
        return "ok", ""
    first = ""
    m = re.search(r"\[rapid\] (failed after.*|panic after.*|flaky.*)", log)
    if m:
        first = m.group(1)[:400]
    if "HARNESS:" in log:
        m = re.search(r"HARNESS:.*", log)
        return "error", m.group(0)[:300]
    if rc == -1000 or "panic: test timed out" in log:
        return "error", "time limit"
    if "only generated" in log and "valid tests" in log:
        return "error", "generator produced too few valid cases"
    if re.search(r"fatal error: (runtime: )?(out of memory|cannot allocate)|cannot allocate memory", log) or rc in (-9, 137):
        return "error", "out of memory"
    if "WARNING: DATA RACE" in log:
        i = log.index("WARNING: DATA RACE")
        if DRIVER in log[i:i + 6000]:
            return "violation", "data race in the driver"
        return "error", "data race outside the driver"
    if "[rapid] flaky test" in log:
        return "flaky", first
    if "--- FAIL" in log and (first or rc == 1):
        return "violation", first or "test failed"
    if "stack overflow" in log or "fatal error: concurrent map" in log:
        return "violation", "fatal error: process ended"
    m = re.search(r"^panic: .*", log, re.M)
    if m:
        if DRIVER in log[m.start():m.start() + 8000]:
            return "violation", "panic in a driver goroutine: " + m.group(0)[:200]
        return "error", m.group(0)[:300]
    if rc == 1 and os.path.exists(os.path.join(job["dir"], "last.txt")):
        # e.g. log.Fatal in the driver
        return "violation", "the process ended: " + log.strip()[-300:]
    return "error", "exit status %s" % rc


def settle(job):
    """A failure that the shrinker could not reproduce (schedule-dependent, or
    a hiccup of the machine) counts when the same cases fail again."""
    verdict, why = classify(job)
    if verdict != "flaky":
        job["verdict"] = (verdict, why)
        return job
    logs = job["log"]
    for i in range(3):
        left = job["until"] - time.time()
        if left < 30:
            break
        again = dict(job, dir=job["dir"] + "-again%d" % i, timeout=int(min(job["timeout"], left)))
        run_one(again)
        v, w = classify(again)
        if v in ("violation", "flaky"):
            keep = dict(again, log=logs + "\n\n==== run again ====\n\n" + again["log"])
            job.update(dir=keep["dir"], log=keep["log"])
            job["verdict"] = ("violation", w)
            return job
    job["verdict"] = ("ok", "a failure that did not come back in three further runs: " + why)
    return job


def run_settled(job):
    return settle(run_one(job))


def save_replay(pid, job, reason):
    d = os.path.join(ROOT, "replays", pid, "%s-s%d-%d" % (job["test"], job["seed"], job["shard"]))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, "log.txt"), "w") as fh:
        fh.write(job["log"][-400000:])
    last = os.path.join(job["dir"], "last.txt")
    if os.path.exists(last):
        shutil.copy(last, os.path.join(d, "last_case.txt"))
    ff = None
    td = os.path.join(job["dir"], "testdata", "rapid", job["test"])
    if os.path.isdir(td):
        for f in sorted(os.listdir(td)):
            ff = "case.fail"
            shutil.copy(os.path.join(td, f), os.path.join(d, ff))
    meta = {"property": pid, "test": job["test"], "kind": job["kind"], "seed": job["seed"], "n": job["n"], "failfile": ff, "reason": reason,
            "rerun": "python3 /verif/check.py replay " + d}
    with open(os.path.join(d, "meta.json"), "w") as fh:
        json.dump(meta, fh, indent=1)
    return d


def main_check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = TABLE[pid]
    os.makedirs(CACHE, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-", dir=CACHE)
    try:
        bins = {}
        for t in spec["tests"]:
            k = t.get("kind", "plain")
            if k not in bins:
                bins[k] = os.path.join(work, k + ".test")
                build(k, bins[k])
        jobs = []
        for ti, t in enumerate(spec["tests"]):
            n = t["quick"] if tier == "quick" else t["thorough"]
            shards = t.get("shards", 1) if tier == "quick" else t.get("tshards", 8)
            k = t.get("kind", "plain")
            for sh in range(shards):
                s = (seed * 1000003 + ti * 7919 + sh * 104729 + 1) & 0x7FFFFFFFFFFFFFFF
                if s == 0:
                    s = 1
                jobs.append(dict(dir=os.path.join(work, "%s-%d" % (t["test"], sh)), bin=bins[k], test=t["test"], n=max(1, n // shards), seed=s, shard=sh,
                                 kind=k, race=k.startswith("race"), tier=tier, steps=t.get("steps"), env=t.get("env", {}), procs=t.get("procs"),
                                 timeout=740 if tier == "quick" else 3000, until=t0 + (800 if tier == "quick" else 6000), shrink=t.get("shrink", "20s")))
        bad, errors = [], []
        par = spec.get("par", 8)
        with concurrent.futures.ThreadPoolExecutor(par) as ex:
            done = list(ex.map(run_settled, jobs))
        agg = dict(evaluations=0, nontrivial=0, classes={}, samples=[])
        keys = set()
        known = set()
        for j in done:
            verdict, why = j["verdict"]
            if verdict == "ok" and why:
                print("NOTE: %s (seed %d): %s" % (j["test"], j["seed"], why))
            if verdict == "violation":
                bad.append((j, why))
            elif verdict == "error":
                errors.append((j, why))
            sp = os.path.join(j["dir"], "stats.json")
            if os.path.exists(sp):
                with open(sp) as fh:
                    st = json.load(fh)
                for name, v in st.items():
                    if not name.startswith(pid):
                        continue
                    pre = name[len(pid):]
                    agg["evaluations"] += v["evaluations"]
                    agg["nontrivial"] += v["nontrivial"]
                    keys.update(v["keys"] or [])
                    for c, k in (v["classes"] or {}).items():
                        agg["classes"][pre + c] = agg["classes"].get(pre + c, 0) + k
                        if c.startswith("known:"):
                            known.add(c[6:])
                    agg["samples"] += (v["samples"] or [])[:3]
        wall = time.time() - t0
        ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"],
              "coverage": {"evaluations": agg["evaluations"], "distinct_nontrivial": len(keys), "rule": spec["rule"],
                           "samples": agg["samples"][:12], "classes": dict(sorted(agg["classes"].items())),
                           "tests": [{"test": j["test"], "kind": j["kind"], "cases_requested": j["n"], "rapid_seed": j["seed"], "outcome": j["verdict"][0]} for j in done]},
              "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(bad)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for f in load_known():
            if f["property"] == pid and f.get("status") == "known" and f["id"] in known:
                print("KNOWN-FINDING: property=%s %s: %s" % (pid, f["id"], f["what"]))
        if bad:
            for j, why in bad:
                d = save_replay(pid, j, why)
                print("%s (seed %d): %s" % (j["test"], j["seed"], why))
                print("VIOLATION property=%s replay=%s" % (pid, d))
            return 1
        if errors:
            for j, why in errors:
                d = save_replay(pid, j, "no answer: " + why)
                print("ERROR: %s (seed %d): %s (log in %s)" % (j["test"], j["seed"], why, d))
            return 2
        if agg["evaluations"] == 0 or not keys:
            print("ERROR: the check generated no non-trivial case")
            return 2
        print("OK property=%s tier=%s cases=%d distinct_nontrivial=%d wall=%.1fs" % (pid, tier, agg["evaluations"], len(keys), wall))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def load_known():
    out = []
    with open(os.path.join(ROOT, "known_findings.jsonl")) as fh:
        for line in fh:
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def main_replay(d):
    with open(os.path.join(d, "meta.json")) as fh:
        meta = json.load(fh)
    os.makedirs(CACHE, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-", dir=CACHE)
    try:
        b = os.path.join(work, "t.test")
        build(meta["kind"], b)
        job = dict(dir=os.path.join(work, "r"), bin=b, test=meta["test"], n=meta["n"], seed=meta["seed"], shard=0, kind=meta["kind"],
                   race=meta["kind"].startswith("race"), tier="quick", timeout=780, until=time.time() + 800)
        if meta["failfile"]:
            job["failfile"] = os.path.join(os.path.abspath(d), meta["failfile"])
        run_one(job)
        print(job["log"][-6000:])
        v, why = settle(job)["verdict"]
        if v == "violation":
            print("VIOLATION property=%s replay=%s" % (meta["property"], d))
            return 1
        return 0 if v == "ok" else 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(main_replay(sys.argv[2]))
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        os.makedirs(CACHE, exist_ok=True)
        work = tempfile.mkdtemp(prefix="run-", dir=CACHE)
        try:
            for k in sorted({t.get("kind", "plain") for s in TABLE.values() for t in s["tests"]}):
                build(k, os.path.join(work, k + ".test"))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print("setup done")
        sys.exit(0)
    if len(sys.argv) not in (2, 3) or sys.argv[1] not in TABLE or sys.argv[2:] not in ([], ["quick"], ["thorough"]):
        die("usage: check.py <property id> [quick|thorough] | replay DIR | setup")
    if len(sys.argv) == 3:
        os.environ["VERIF_TIER"] = sys.argv[2]
    sys.exit(main_check(sys.argv[1]))


if __name__ == "__main__":
    main()
