#!/usr/bin/env python3
"""Runs one check:  run.py C07 [quick|thorough]
Replays a failure: run.py replay <file>

Builds the test binary from /repo's current working tree into a scratch
directory, runs the property's sub-checks in parallel shards (every random
choice derives from VERIF_SEED), writes evidence/<id>.json and prints
`VIOLATION property=<id> replay=<path>` (exit 1) when the property was broken.
Exit 0: held on everything explored. Anything else: the check could not run.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "replays")

ENV = dict(os.environ)
ENV.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"))
ENV["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + ENV.get("PATH", "")


def error(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


RACE = {"C14"}  # properties about concurrent use run under the race detector


def overlay(scratch):
    """Adds the hook files of harness/overlay to packages of /repo, for this build only."""
    path = os.path.join(scratch, "overlay.json")
    with open(path, "w") as f:
        json.dump({"Replace": {"/repo/recast/zz_verif_hook.go": os.path.join(HARNESS, "overlay", "recast_hook.go")}}, f)
    return "-overlay=" + path


def build(scratch, race=False):
    out = os.path.join(scratch, "props.test")
    ov = overlay(scratch)
    if race:
        p = subprocess.run(["go", "test", "-c", "-race", ov, "-vet=off", "-o", out, "./props"], cwd=HARNESS,
                           env=dict(ENV, CGO_ENABLED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        race = p.returncode == 0 and os.path.exists(out)
    if not race:
        p = subprocess.run(["go", "test", "-c", ov, "-vet=off", "-o", out, "./props"], cwd=HARNESS, env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        print(p.stdout)
        error("building the harness against /repo failed")
    # the command line tool, for the properties that drive it
    cli = os.path.join(scratch, "recast")
    p = subprocess.run(["go", "build", "-o", cli, "github.com/arl/go-detour/cmd/recast"], cwd=HARNESS, env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout)
        error("building cmd/recast failed")
    return out


def known_findings(prop):
    res = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    res.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return res


def launch(binary, prop, scratch, idx, n, extra_env=None, args=()):
    d = os.path.join(scratch, "shard%d" % idx)
    os.makedirs(d, exist_ok=True)
    env = dict(ENV)
    env.update(HX_SHARD="%d/%d" % (idx, n), HX_STATS=os.path.join(d, "stats.json"), HX_SCRATCH=d,
               HX_CLI=os.path.join(scratch, "recast"), HX_KNOWN=",".join(k for k, _ in known_findings(prop)),
               GOMAXPROCS=os.environ.get("GOMAXPROCS", "2"), TMPDIR=d, GORACE="halt_on_error=1")
    env.update(extra_env or {})
    log = open(os.path.join(d, "log"), "wb")
    p = subprocess.Popen([binary, "-test.run", "^Test%s$" % prop, "-test.timeout", "0", "-test.failfast",
                          "-test.count", "1", *args],
                         cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    return p, d


def classify(code, log):
    """-> None (ok), ('violation', sub, text) or ('error', text)"""
    if code == 0:
        return None
    if "HX-RUNAWAY" in log:
        m = re.search(r"HX-RUNAWAY sub=(\S+) seed=(\d+) case=(\d+) (.*)", log)
        return ("violation", m.group(1), m.group(4), m.group(2))
    starts = re.findall(r"HX-START sub=(\S+) seed=(\d+)", log)
    sub, seed = starts[-1] if starts else ("?", "0")
    if "WARNING: DATA RACE" in log:
        return ("violation", sub, "data race between concurrent queries", seed)
    if "only generated" in log:
        return ("error", "generator could not produce enough valid cases")
    if "[rapid] failed after" in log or "[rapid] panic after" in log or "[rapid] flaky test" in log:
        m = re.search(r"\[rapid\] (failed|panic) after \d+ tests: (.*)", log) or re.search(r"\[rapid\] (flaky) (.*)", log)
        return ("violation", sub, m.group(2) if m else "failed", seed)
    if "stack overflow" in log or "goroutine stack exceeds" in log:
        return ("violation", sub, "the code under test overflowed the stack", seed)
    if "fatal error: all goroutines are asleep" in log or "fatal error: concurrent map" in log:
        return ("violation", sub, "fatal runtime error", seed)
    return ("error", "test process ended with code %s" % code)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        scratch = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            build(scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        print("setup: harness builds against /repo")
        return
    if len(sys.argv) < 2:
        error("usage: run.py <property> [quick|thorough]")
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ENV["VERIF_SEED"] = str(seed)
    ENV["VERIF_TIER"] = tier
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    procs = []

    def cleanup(*_):
        for p, _d in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)

    def onterm(*_):
        cleanup()
        sys.exit(3)
    signal.signal(signal.SIGTERM, onterm)
    try:
        binary = build(scratch, prop in RACE)
        n = int(os.environ.get("VERIF_SHARDS", "8"))
        for i in range(n):
            procs.append(launch(binary, prop, scratch, i, n))
        violations, errors = [], []
        pending = set(range(n))
        deadline = t0 + float(os.environ.get("VERIF_DEADLINE", "840" if tier == "quick" else "86400"))
        first = None
        while pending:
            for i in sorted(pending):
                p, d = procs[i]
                code = p.poll()
                if code is None:
                    continue
                pending.discard(i)
                with open(os.path.join(d, "log"), errors="replace") as f:
                    log = f.read()
                r = classify(code, log)
                if r is None:
                    if "HX-START" not in log and "no tests to run" in log:
                        errors.append("no test for %s" % prop)
                    continue
                if r[0] == "violation":
                    violations.append((i, d, log) + r[1:])
                    if first is None:
                        first = time.time()
                else:
                    errors.append(r[1] + "\n" + log[-4000:])
            if first is not None and time.time() - first > 60:
                break  # one shrunk failure is enough
            if time.time() > deadline:
                errors.append("time budget exhausted: inconclusive")
                break
            time.sleep(0.05)
        for i in pending:
            try:
                os.killpg(procs[i][0].pid, signal.SIGKILL)
            except OSError:
                pass
        evidence(prop, tier, seed, procs, violations, time.time() - t0)
        for k, text in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        if violations:
            report(prop, violations, tier, seed)
            sys.exit(1)
        if errors:
            print(errors[0])
            error("%d shard(s) ended abnormally" % len(errors))
        print("OK property=%s tier=%s seed=%d (%.1f s)" % (prop, tier, seed, time.time() - t0))
        sys.exit(0)
    finally:
        cleanup()


def report(prop, violations, tier, seed):
    os.makedirs(os.path.join(REPLAYS, prop), exist_ok=True)
    for i, d, log, sub, text, subseed in violations[:1]:
        fail = None
        for root, _, files in os.walk(os.path.join(d, "testdata", "rapid")):
            for f in files:
                if f.endswith(".fail"):
                    fail = open(os.path.join(root, f), errors="replace").read()
        path = os.path.join(REPLAYS, prop, "%s-%s.json" % (re.sub(r"\W", "_", sub), subseed))
        with open(path, "w") as f:
            json.dump({"property": prop, "sub": sub, "shard_seed": subseed, "verif_seed": seed, "tier": tier,
                       "shard": i, "message": text, "failfile": fail, "log": log[-20000:],
                       "replay_cmd": "python3 /verif/run.py replay " + path}, f, indent=1)
        print("--- failing case (property %s, sub-check %s) ---" % (prop, sub))
        print(log[-6000:])
        print("VIOLATION property=%s replay=%s" % (prop, path))


def evidence(prop, tier, seed, procs, violations, wall):
    subs = {}
    for p, d in procs:
        try:
            with open(os.path.join(d, "stats.json")) as f:
                st = json.load(f)
        except (OSError, ValueError):
            continue
        for name, s in st.items():
            o = subs.setdefault(name, {"evaluations": 0, "nontrivial": set(), "labels": {}, "samples": [], "rule": s["rule"]})
            o["evaluations"] += s["evaluations"]
            o["nontrivial"] |= set(s["nontrivial"] or [])
            for k, v in (s["labels"] or {}).items():
                o["labels"][k] = o["labels"].get(k, 0) + v
            o["samples"] += s["samples"] or []
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": sum(o["evaluations"] for o in subs.values()),
              "distinct_nontrivial": sum(len(o["nontrivial"]) for o in subs.values()),
              "rule": " | ".join("%s: %s" % (k, o["rule"]) for k, o in sorted(subs.items())),
              "samples": [{"sub": k, "case": s} for k, o in sorted(subs.items()) for s in o["samples"][:2]],
              "per_sub_check": {k: {"evaluations": o["evaluations"], "distinct_nontrivial": len(o["nontrivial"]),
                                    "classes": dict(sorted(o["labels"].items()))} for k, o in sorted(subs.items())},
          },
          "assumptions": ["rapid v1.3.0 generates and shrinks the cases; the oracles in /verif/harness are trusted"],
          "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))


def replay(path):
    with open(path) as f:
        r = json.load(f)
    ENV["VERIF_SEED"] = str(r["verif_seed"])
    ENV["VERIF_TIER"] = r["tier"]
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        binary = build(scratch, r["property"] in RACE)
        env = {"HX_SUB": r["sub"]}
        args = []
        if r.get("failfile"):
            ff = os.path.join(scratch, "case.fail")
            with open(ff, "w") as f:
                f.write(r["failfile"])
            args = ["-rapid.failfile", ff]
            env["HX_SCALE"] = "0.000001"
        else:
            env["HX_SEED"] = r["shard_seed"]
        p, d = launch(binary, r["property"], scratch, 0, 1 if r.get("failfile") else 8, env, args)
        p.wait()
        log = open(os.path.join(d, "log"), errors="replace").read()
        c = classify(p.returncode, log)
        print(log[-8000:])
        if c is None:
            print("replay: the case no longer fails")
            return 0
        if c[0] == "violation":
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            return 1
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
