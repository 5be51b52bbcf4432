#!/usr/bin/env python3
"""Runs one property's check against /repo's working tree.

  check.py ID [--tier quick|thorough]   exit 0: held on everything explored
                                        exit 1: VIOLATION line on stdout
                                        exit 2: the check could not decide
  check.py ID --replay FILE             runs one saved case
  check.py --setup                      fills the build cache
  check.py --all [--tier T]             every property, one after another
"""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ZKV_REPO", "/repo")
WORK = os.path.join(HERE, ".work")
FINDINGS = os.path.join(HERE, "known-findings.txt")
SHARDS = 8
RACE = {"C29"}          # built with the race detector
FIELD = {"C01", "C03"}  # built with the overlay that exports the field type and the Jacobian formulas
CRASH = re.compile(r"^(panic: |fatal error: |WARNING: DATA RACE|ZKV-HANG|SIGSEGV|runtime: goroutine stack exceeds)", re.M)


class Inconclusive(Exception):
    pass


def sh_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("ZKV_", "GO"))}
    gp = os.path.join(WORK, "gp")
    link = os.path.join(gp, "src/github.com/mit-dci/zksigma")
    os.makedirs(os.path.dirname(link), exist_ok=True)
    if not (os.path.islink(link) and os.readlink(link) == REPO):
        tmp = link + ".%d" % os.getpid()
        os.symlink(REPO, tmp)
        os.replace(tmp, link)
    e.update(GO111MODULE="off", GOPATH=os.path.join(HERE, "harness") + ":" + gp, GOPROXY="off",
             GOTOOLCHAIN="local", GOFLAGS="", GOWORK="off", GOCACHE=os.path.join(WORK, "gocache"))
    e.setdefault("HOME", "/root")
    return e, link


def build(prop, out):
    env, link = sh_env()
    cmd = ["go", "test", "-c", "-o", out]
    if prop in RACE:
        cmd.append("-race")
    if prop in FIELD:
        ov = out + ".overlay.json"
        with open(ov, "w") as f:
            json.dump({"Replace": {os.path.join(d, "btcec", n): os.path.join(HERE, "harness/overlay", n)
                                   for d in (link, REPO) for n in ("zkv_field.go", "zkv_curve.go")}}, f)
        cmd += ["-overlay", ov, "-tags", "zkvfield"]
    def go(cmd):
        return subprocess.run(cmd + ["."], cwd=os.path.join(HERE, "harness/src/zkv/props"), env=env,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r = go(cmd)
    if r.returncode and prop in FIELD:
        r = go(cmd[:5])
    if r.returncode or not os.path.exists(out):
        raise Inconclusive("the harness does not build:\n" + r.stdout[-4000:])


def counts(binary):
    env, _ = sh_env()
    r = subprocess.run([binary, "-test.run", "TestList", "-test.v"], env=dict(env, ZKV_LIST="1"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    m = re.search(r"ZKV-LIST (.*)", r.stdout)
    if not m:
        raise Inconclusive("no list of properties:\n" + r.stdout[-2000:])
    return json.loads(m.group(1))


def start(binary, prop, rundir, shard, shards, extra_env, args):
    env, _ = sh_env()
    env.update(ZKV_PROP=prop, ZKV_DIR=rundir, ZKV_SHARD=str(shard), ZKV_SHARDS=str(shards),
               GOMAXPROCS="4" if prop in RACE else "1", GOTRACEBACK="all",
               GORACE="halt_on_error=1 exitcode=66")
    env.update(extra_env)
    log = open(os.path.join(rundir, "log-%d" % shard), "wb")
    return subprocess.Popen([binary, "-test.run", "TestProp", "-test.timeout=0", "-rapid.nofailfile"] + args,
                            cwd=rundir, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def outcome(rundir, shard, rc):
    """The shard's result, or a violation made from how it died."""
    f = os.path.join(rundir, "result-%d.json" % shard)
    with open(os.path.join(rundir, "log-%d" % shard), errors="replace") as h:
        log = h.read()
    if rc == 0 and os.path.exists(f):
        with open(f) as h:
            return json.load(h)
    m = CRASH.search(log)
    if m and rc != -9 and "out of memory" not in log[m.start():m.start() + 300]:
        try:
            with open(os.path.join(rundir, "inflight-%d.json" % shard)) as h:
                case = json.load(h)
        except (OSError, ValueError):
            case = None
        return {"died": True, "error": log[m.start():m.start() + 3000], "case": case}
    raise Inconclusive("shard %d ended with %s:\n%s" % (shard, rc, log[-3000:]))


def run(prop, tier, seed):
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    rundir = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=WORK)
    procs = []
    try:
        binary = os.path.join(rundir, "props.test")
        build(prop, binary)
        n = counts(binary)[prop]["Quick" if tier == "quick" else "Thorough"]
        shards = 4 if prop in RACE else SHARDS
        budget = 240 if tier == "quick" else 1500
        extra = {"ZKV_BUDGET": str(budget), "ZKV_SAVED": os.path.join(HERE, "saved", prop), "ZKV_TIER": tier}
        for i in range(shards):
            s = ((seed & 0x7fffffff) * 1000003 + i + 1) & (2**63 - 1)
            procs.append(start(binary, prop, rundir, i, shards, extra,
                               ["-rapid.seed=%d" % s, "-rapid.checks=%d" % n, "-rapid.shrinktime=15s"]))
        limit = t0 + (840 if tier == "quick" else 3600)
        results, fail = {}, None
        while len(results) < shards:
            for i, p in enumerate(procs):
                if i not in results and p.poll() is not None:
                    results[i] = outcome(rundir, i, p.returncode)
                    if results[i].get("error"):
                        fail = i
                        break
            if fail is not None:
                break
            if time.time() > limit:
                raise Inconclusive("not finished after %d s" % (limit - t0))
            time.sleep(0.02)
        for p in procs:
            stop(p)
        return report(prop, tier, seed, t0, rundir, results, fail, n)
    finally:
        for p in procs:
            stop(p)
        shutil.rmtree(rundir, ignore_errors=True)


def listed():
    """Known findings: {property: {id: text}}."""
    r = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
            if m:
                r.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return r


def report(prop, tier, seed, t0, rundir, results, fail, n):
    ok = [r for r in results.values() if not r.get("died")]
    if fail is None:
        for i, r in results.items():
            if r.get("generator_panic"):
                raise Inconclusive("the generator of shard %d panicked: %s" % (i, r["generator_panic"]))
            want = n + r["enumerated"] + r["saved"]
            if r["evaluations"] + r["not_run_for_time"] < want:
                raise Inconclusive("shard %d ran %d of %d cases" % (i, r["evaluations"], want))
    classes, findings, samples, hashes = {}, {}, [], set()
    for i, r in sorted(results.items()):
        if r.get("died"):
            continue
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
        findings.update(r["findings"])
        samples += (r["samples"] or [])[:1]
        try:
            with open(os.path.join(rundir, "hashes-%d" % i)) as h:
                hashes.update(h.read().split())
        except OSError:
            pass
    error = case = None
    if fail is not None:
        error, case = results[fail]["error"], results[fail]["case"]
    known = listed().get(prop, {})
    fresh = {k: v for k, v in findings.items() if k not in known}
    if error is None and fresh:
        k = sorted(fresh)[0]
        error, case = "finding %s: %s" % (k, fresh[k]), None
    notes = []
    for k in sorted(findings):
        if k in known:
            notes.append("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known[k]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in ok),
            "distinct_nontrivial": len(hashes),
            "rule": ok[0]["rule"] if ok else "no shard finished",
            "samples": samples,
            "enumerated": sum(r["enumerated"] for r in ok),
            "saved_cases": sum(r["saved"] for r in ok),
            "not_run_for_time": sum(r["not_run_for_time"] for r in ok),
            "shards": len(results),
            "classes": dict(sorted(classes.items())),
            "known_findings_seen": sorted(k for k in findings if k in known),
        },
        "assumptions": (ok[0].get("assumptions") or []) if ok else [],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if error is not None else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    for x in notes:
        print(x)
    if error is None:
        c = ev["coverage"]
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall_s=%.1f" % (
            prop, tier, seed, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"]))
        return 0
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    path = os.path.join(HERE, "replay", "%s-%s-%d.json" % (prop, tier, seed))
    with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "error": error, "case": case}, f, indent=1)
    print(error[:3000])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    case = d["case"] if isinstance(d, dict) and "case" in d else d
    os.makedirs(WORK, exist_ok=True)
    rundir = tempfile.mkdtemp(prefix="replay-", dir=WORK)
    try:
        binary = os.path.join(rundir, "props.test")
        build(prop, binary)
        cf = os.path.join(rundir, "case.json")
        with open(cf, "w") as f:
            json.dump(case, f)
        p = start(binary, prop, rundir, 0, 1, {"ZKV_REPLAY": cf, "ZKV_REPEAT": "20" if prop in RACE else "1"}, [])
        try:
            p.wait(timeout=800)
        except subprocess.TimeoutExpired:
            stop(p)
            raise Inconclusive("replay did not finish")
        r = outcome(rundir, 0, p.returncode)
        known = listed().get(prop, {})
        err = r.get("error") or "; ".join(v for k, v in (r.get("findings") or {}).items() if k not in known)
        if err:
            print(err[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("OK property=%s replayed %s" % (prop, path))
        return 0
    finally:
        shutil.rmtree(rundir, ignore_errors=True)


def setup():
    os.makedirs(WORK, exist_ok=True)
    for d in os.listdir(WORK):
        if d.startswith(("run-", "replay-", "setup-")):
            shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)
    d = tempfile.mkdtemp(prefix="setup-", dir=WORK)
    try:
        for p in ("C01", "C03", "C29"):
            build(p, os.path.join(d, p))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print("setup done")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--all", action="store_true")
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        if a.setup:
            return setup()
        if a.all:
            rc = 0
            with open(os.path.join(HERE, "MANIFEST.json")) as f:
                ids = [c["property"] for c in json.load(f)["checks"]]
            for p in ids:
                try:
                    rc = max(rc, run(p, a.tier, seed))
                except Inconclusive as e:
                    print("ERROR property=%s %s" % (p, e))
                    rc = 2
                sys.stdout.flush()
            return rc
        if not a.property:
            ap.error("a property id is needed")
        if a.replay:
            return replay(a.property, a.replay)
        return run(a.property, a.tier, seed)
    except Inconclusive as e:
        print("ERROR property=%s %s" % (a.property, e))
        return 2


sys.exit(main())
