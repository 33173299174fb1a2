#!/usr/bin/env python3
"""run.py ID [--replay FILE] : decide one property by generated-input search.

Builds the property's Go test binary from /repo's working tree (outside /repo), runs it in
parallel shards with seeds derived from VERIF_SEED, writes evidence/ID.json and exits
0 (held on everything explored), 1 (VIOLATION line printed) or 2 (the check itself could not
run: build error, out of memory, timeout of the run)."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
CONF = json.load(open(os.path.join(VERIF, "checks.json")))

def env():
    e = dict(os.environ)
    e.update(HOME=os.environ.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off",
             CGO_ENABLED="1", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), GOFLAGS="", GODEBUG="")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    return e

def findings():
    known, fixed = [], []
    p = os.path.join(VERIF, "known-findings.txt")
    for line in open(p):
        line = line.strip()
        if line.startswith("finding: "):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
            known.append(m.groups())
    return known

def main():
    pid = sys.argv[1]
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        replay = os.path.abspath(sys.argv[3])
    cfg = CONF[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return work(pid, cfg, tier, seed, replay, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def shrink(h, how, d):
    """The smallest part of a failing history that still fails in a process of its own."""
    args, ee = how
    until = time.time() + 60
    def fails(steps):
        f = os.path.join(d, "try.history")
        json.dump({"test": h["test"], "steps": steps}, open(f, "w"))
        a = list(args)
        a[2] = "^%s$" % h["test"]
        try:
            p = subprocess.run(a, cwd=d, env=dict(ee, VERIF_HISTORY_REPLAY=f, VERIF_STATS=os.path.join(d, "try.json")), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=max(5, until - time.time()))
        except subprocess.TimeoutExpired:
            return False
        return p.returncode != 0
    steps = h["steps"]
    if not fails(steps):
        return dict(h, note="needs the calls before this history too: rerun the check with the same seed")
    i = 0
    while i < len(steps) and time.time() < until:
        if fails(steps[:i] + steps[i + 1:]):
            steps = steps[:i] + steps[i + 1:]
        else:
            i += 1
    return dict(h, steps=steps)

def work(pid, cfg, tier, seed, replay, scratch, t0):
    e = env()
    race = cfg.get("race", False)
    exe = {}
    for kind in (["plain"] + (["race"] if race else [])):
        exe[kind] = os.path.join(scratch, kind)
        os.makedirs(exe[kind])
        cmd = ["go", "test", "-c", "-vet=off", "-mod=readonly", "-overlay", os.path.join(HARNESS, "overlay.json")]
        cmd += (["-race", "-gcflags=all=-d=checkptr=0"] if kind == "race" else []) + ["-o", exe[kind] + "/"] + ["./" + p for p in cfg["pkg"].split()]
        b = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode != 0 or not os.listdir(exe[kind]):
            print(b.stdout)
            print("ERROR property=%s build failed" % pid)
            return 2
    tests = cfg.get("run", "^Test%s_" % pid)
    shards = cfg.get("shards", 4)
    scale = cfg.get("scale", 1.0)
    limit = 700
    if tier == "thorough":
        shards, scale, limit = 8, scale * cfg.get("thorough", 12), 3300
    # jobs: (directory, binary, tests, number, extra environment, extra arguments, share of the machine)
    jobs = []
    hist = scale * cfg.get("history", 0.5)
    for i, name in enumerate(cfg["pkg"].split()):
        w = cfg.get("weights", {}).get(name, 1.0)
        binary = os.path.join(exe["plain"], name + ".test")
        if race:
            jobs.append((name, os.path.join(exe["race"], name + ".test"), "^Test", i,
                         {"VERIF_CONCURRENT": "1", "GOMAXPROCS": "4", "VERIF_SCALE": str(scale * w)}, ["-test.parallel", "64"], 2))
            jobs.append((name + "-history", binary, "^Test", i, {"VERIF_HISTORY": "1", "GOMAXPROCS": "2", "VERIF_SCALE": str(hist * w)}, [], 1))
        else:
            for k in range(shards):
                jobs.append(("s%d" % k, binary, tests, k, {"GOMAXPROCS": "2", "VERIF_SCALE": str(scale)}, [], 1))
            jobs.append(("history", binary, tests, 100, {"VERIF_HISTORY": "1", "GOMAXPROCS": "2", "VERIF_SCALE": str(hist)}, [], 1))
    if replay:
        name = open(replay + ".pkg").read().strip()
        jobs = [j for j in jobs if j[0] == name][:1]
    par = 8 if race else len(jobs)
    running, procs = [], []
    for name, binary, pattern, i, extra, more, share in jobs:
        while True:
            running = [r for r in running if r[0].poll() is None]
            if sum(r[1] for r in running) + share <= par:
                break
            if time.time() - t0 > limit:
                for p, _ in running:
                    p.kill()
            time.sleep(0.05)
        d = os.path.join(scratch, name)
        os.makedirs(d)
        ee = dict(e)
        ee.update(VERIF_STATS=os.path.join(d, "stats.json"), VERIF_TIER=tier, VERIF_SHARD=str(i))
        ee.update(extra)
        s = (seed * 1000003 + i * 7919 + 12345) % (1 << 62) or 1
        args = [binary, "-test.run", pattern, "-test.timeout", "%ds" % limit, "-rapid.seed", str(s), "-rapid.shrinktime", "20s", "-rapid.log=false"] + more
        if replay and replay.endswith(".history"):
            ee["VERIF_HISTORY_REPLAY"] = replay
            args += ["-test.v"]
        elif replay and "-concurrent" not in name and replay.endswith(".fail"):
            tname = open(replay + ".test").read().strip() if os.path.exists(replay + ".test") else None
            if tname:
                args[2] = "^%s$" % tname
            args += ["-rapid.failfile", replay, "-test.v"]
        out = open(os.path.join(d, "out.txt"), "wb")
        p = subprocess.Popen(args, cwd=d, env=ee, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        procs.append((d, p, (args, ee)))
        running.append((p, share))
    bad, err = [], []
    for d, p, how in procs:
        try:
            rc = p.wait(timeout=max(1, limit + 60 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            rc = 124
        txt = open(os.path.join(d, "out.txt"), errors="replace").read()
        if rc == 0:
            continue
        if rc == 7 and "--- HANG" in txt:
            bad.append((d, txt, how))
        elif "WARNING: DATA RACE" in txt and "/repo/" in txt:
            bad.append((d, txt, how))
        elif "WARNING: DATA RACE" in txt and "[rapid] failed" not in txt:
            err.append((d, rc, txt))   # a race inside the harness says nothing about /repo
        elif "--- FAIL" in txt and "panic: test timed out" not in txt and "fatal error: runtime: out of memory" not in txt:
            bad.append((d, txt, how))
        elif re.search(r"^(fatal error: (stack overflow|all goroutines|concurrent map))|^runtime: goroutine stack exceeds", txt, re.M):
            bad.append((d, txt, how))   # the code under test brought the process down
        else:
            err.append((d, rc, txt))
    if replay:
        print(open(os.path.join(procs[0][0], "out.txt"), errors="replace").read()[-20000:])
        return 1 if bad else (2 if err else 0)
    tests_stat, distinct, found = {}, set(), set()
    for d, p, how in procs:
        try:
            st = json.load(open(os.path.join(d, "stats.json")))
        except Exception:
            continue
        for k, v in st["tests"].items():
            a = tests_stat.setdefault(k, {"cases": 0, "evals": 0, "nontrivial": 0, "classes": {}, "samples": []})
            for f in ("cases", "evals", "nontrivial"):
                a[f] += v[f]
            for c, n in (v["classes"] or {}).items():
                a["classes"][c] = a["classes"].get(c, 0) + n
            for s in v["samples"] or []:
                if len(a["samples"]) < 4:
                    a["samples"].append(s)
        distinct.update(st["distinct"] or [])
        found.update(st["findings"] or [])
    violations = []
    if bad:
        rdir = os.path.join(VERIF, "replays", pid)
        os.makedirs(rdir, exist_ok=True)
        d, txt, how = bad[0]
        m = re.search(r"--- FAIL: (\S+)", txt)
        name = m.group(1) if m else "unknown"
        path = os.path.join(rdir, "%s-seed%d.txt" % (name.replace("/", "_"), seed))
        ff = None
        for root, _, files in os.walk(os.path.join(d, "testdata")):
            for f in files:
                if f.endswith(".fail") and (name in root or ff is None):
                    ff = os.path.join(root, f)
        hf = os.path.join(d, "stats.json.history")
        if os.path.exists(hf):
            path = os.path.join(rdir, "%s-seed%d.history" % (name.replace("/", "_"), seed))
            json.dump(shrink(json.load(open(hf)), how, d), open(path, "w"))
            open(path + ".log", "w").write(txt[:200000])
            open(path + ".pkg", "w").write(os.path.basename(d) + "\n")
        elif ff:
            path = os.path.join(rdir, "%s-seed%d.fail" % (name.replace("/", "_"), seed))
            shutil.copyfile(ff, path)
            open(path + ".test", "w").write(name + "\n")
            open(path + ".log", "w").write(txt[:200000])
            open(path + ".pkg", "w").write(os.path.basename(d) + "\n")
        else:
            open(path, "w").write(txt[:200000])
            open(path + ".pkg", "w").write(os.path.basename(d) + "\n")
        print(txt[:6000])
        violations.append({"test": name, "replay": path})
    samples = []
    for k, v in sorted(tests_stat.items()):
        for s in v["samples"][:3]:
            samples.append({"test": k, "case": s})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "evaluations": sum(v["evals"] for v in tests_stat.values()),
            "distinct_nontrivial": len(distinct),
            "rule": cfg["rule"],
            "samples": samples[:24],
            "generated_cases": sum(v["cases"] for v in tests_stat.values()),
            "per_test": {k: {"cases": v["cases"], "evaluations": v["evals"], "nontrivial": v["nontrivial"],
                             "classes": dict(sorted(v["classes"].items(), key=lambda x: -x[1])[:60])} for k, v in sorted(tests_stat.items())},
            "shards": shards,
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
        "assumptions": cfg.get("assumptions", []),
    }
    if violations:
        ev["violation_details"] = violations
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for p, fid, what in findings():
        if p == pid and fid in found:
            print("KNOWN-FINDING: property=%s %s: %s" % (p, fid, what))
    if violations:
        print("VIOLATION property=%s replay=%s" % (pid, violations[0]["replay"]))
        return 1
    if err:
        d, rc, txt = err[0]
        print(txt[:3000], "\n...\n", txt[-3000:])
        print("ERROR property=%s shard exit %s" % (pid, rc))
        return 2
    print("OK property=%s cases=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        pid, ev["coverage"]["generated_cases"], ev["coverage"]["evaluations"], len(distinct), time.time() - t0))
    return 0

sys.exit(main())
