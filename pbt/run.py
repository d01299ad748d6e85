"""python -m pbt.run C01 [--replay FILE]: builds, searches, replays, reports. Exit 0 quiet, 1 violation, 2 harness/build error."""
import sys, os, json, time, subprocess, hashlib, importlib, tempfile, shutil
from . import core

ROOT = "/verif"
PY = sys.executable


def log(*a):
    print(*a, flush=True)


def modof(pid):
    return "pbt.props.p" + pid.lower()


def known():
    f = os.path.join(ROOT, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else []


def replay_once(mod, sub, case, timeout):
    fd, fn = tempfile.mkstemp(suffix=".json")
    os.write(fd, json.dumps(case).encode())
    os.close(fd)
    try:
        p = subprocess.run([PY, "-m", "pbt.shard", mod, "--replay", sub, fn], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout + 60, env=dict(os.environ, LD_PRELOAD=core.preload()))
        lines = p.stdout.decode().strip().splitlines()
        if not lines:
            raise RuntimeError("replay produced nothing: " + p.stderr.decode()[-2000:])
        r = json.loads(lines[-1])
        return r
    finally:
        os.unlink(fn)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = modof(pid)
    m = importlib.import_module(mod)
    asan = getattr(m, "ASAN", False)
    if asan: core.use_asan()
    if not os.environ.get("PBT_NOBUILD"):
        r = subprocess.run(["bash", os.path.join(ROOT, "bin/build"), "asan" if asan else "full"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            log(r.stdout.decode()[-6000:])
            log("BUILD FAILED")
            return 2
    tb = time.time() - t0
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        d = json.load(open(sys.argv[3]))
        r = replay_once(mod, d["sub"], d["pbt_case"], 300)
        if r is None:
            log("replay: holds")
            return 0
        log("replay: %s: %s" % (r["kind"], r["msg"]))
        log("VIOLATION property=%s replay=%s" % (pid, sys.argv[3]))
        return 1
    ncpu = os.cpu_count() or 8
    tmp = tempfile.mkdtemp(prefix="pbt-")
    # budget: quick must end well within 900 s, build included
    total = float(os.environ.get("PBT_BUDGET", 420 if tier == "quick" else 5400))
    jobs = []
    only = os.environ.get("PBT_ONLY")
    for si, s in enumerate(m.SUBS):
        if only and s.name not in only.split(","):
            continue
        n = s.quick if tier == "quick" else s.thorough
        sh = s.shards
        for k in range(sh):
            jobs.append(dict(sub=s, k=k, n=max(1, (n + sh - 1) // sh), seed=seed * 100003 + si * 1009 + k,
                             out=os.path.join(tmp, "%s-%d.json" % (s.name, k)),
                             w=(max(s.nps(None) if callable(s.nps) else s.nps) if s.nps else 1)))
    jobs.sort(key=lambda j: -j["w"])
    running, done, failed_early = [], [], None
    tstart = time.time()
    queue = list(jobs)
    first_fail = None
    while queue or running:
        load = sum(j["w"] for j in running)
        i = 0
        while i < len(queue):
            j = queue[i]
            if load + j["w"] <= max(ncpu, j["w"]) or not running:
                left = max(5.0, total - (time.time() - tstart))
                err = open(j["out"] + ".err", "w")
                env = dict(os.environ, LD_PRELOAD=core.preload(), PBT_ERR=j["out"] + ".caseerr")
                j["p"] = subprocess.Popen([PY, "-m", "pbt.shard", mod, j["sub"].name, str(j["seed"]), str(j["n"]), str(left), j["out"]],
                                          stdout=err, stderr=err, env=env, start_new_session=True)
                running.append(j)
                queue.pop(i)
                load += j["w"]
            else:
                i += 1
        for j in list(running):
            if j["p"].poll() is not None:
                running.remove(j)
                done.append(j)
                if j["p"].returncode == 0 and os.path.exists(j["out"]):
                    j["rep"] = json.load(open(j["out"]))
                    if "failure" in j["rep"] and first_fail is None:
                        first_fail = time.time()
                else:
                    j["rep"] = dict(error="shard ended with %s: %s" % (j["p"].returncode, open(j["out"] + ".err").read()[-3000:]))
        if first_fail and time.time() > first_fail + 20:
            for j in running:
                try:
                    os.killpg(j["p"].pid, 15)
                except ProcessLookupError:
                    pass
            for j in running:
                j["p"].wait()
                subprocess.run(["true"])
            queue = []
            running = []
        time.sleep(0.02)
    per, classes, samples, errors, fails = {}, {}, [], [], []
    keys = set()
    ev = 0
    stopped = []
    for j in done:
        r = j["rep"]
        if "error" in r:
            errors.append((j["sub"].name, r["error"]))
            if "evaluations" not in r:
                continue
        q = per.setdefault(j["sub"].name, dict(evaluations=0, distinct_nontrivial=0, rejected=0, rule=j["sub"].rule, cpu_s=0.0))
        q["evaluations"] += r["evaluations"]
        ks = set(j["sub"].name + ":" + x for x in r["distinct"])
        q["distinct_nontrivial"] += len(ks - keys)
        keys |= ks
        q["rejected"] += r["rejected"]
        q["cpu_s"] = round(q["cpu_s"] + r["wall"], 1)
        if r["stopped"]:
            stopped.append(j["sub"].name)
        ev += r["evaluations"]
        for c, v in r["classes"].items():
            cc = j["sub"].name + "/" + c
            classes[cc] = classes.get(cc, 0) + v
        for s in r["samples"][:2]:
            if sum(1 for x in samples if x["sub"] == j["sub"].name) < 2:
                samples.append(dict(sub=j["sub"].name, case=s))
        if "failure" in r:
            fails.append((j["sub"], r["failure"]))
    shutil.rmtree(tmp, ignore_errors=True)
    # ---- known findings: each is re-run, reported, and never suppresses anything else
    for k in known():
        if k.get("property") == pid and k.get("status") == "known":
            r = replay_once(mod, k["sub"], k["case"], 300)
            if r is not None:
                log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            else:
                log("note: known finding %s no longer fails" % k["id"])
    viol = 0
    shown = set()
    for sub, f in fails:
        if sub.name in shown:
            continue
        ok = 0
        last = None
        for _ in range(3):
            r = replay_once(mod, sub.name, f["case"], sub.timeout)
            if r is not None:
                ok += 1
                last = r
        if ok < 3:
            log("not reproducible (%d/3), ignored: sub=%s %s: %s" % (ok, sub.name, f["kind"], f["msg"][:300]))
            log("  case=%s" % core.canon(f["case"])[:3000])
            continue
        shown.add(sub.name)
        viol += 1
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        h = hashlib.sha1((sub.name + core.canon(f["case"])).encode()).hexdigest()[:10]
        fn = os.path.join(ROOT, "replays", "%s-%s.json" % (pid, h))
        json.dump(dict(property=pid, sub=sub.name, kind=last["kind"], msg=last["msg"], pbt_case=f["case"]), open(fn, "w"), indent=1)
        log("%s [%s] %s: %s" % (pid, sub.name, last["kind"], last["msg"][:1500]))
        log("VIOLATION property=%s replay=%s" % (pid, fn))
    rule = "; ".join("%s: %s" % (s.name, s.rule) for s in m.SUBS)
    evid = dict(property=pid, tier=tier, seed=seed, level="exploration",
                coverage=dict(evaluations=ev, distinct_nontrivial=len(keys), rule=rule, samples=samples,
                              per_sub=per, classes=classes, stopped_by_budget=sorted(set(stopped))),
                assumptions=getattr(m, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(evid, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    log("%s: %d cases, %d distinct non-trivial, %d violation(s), build %.0fs, total %.0fs" % (pid, ev, len(keys), viol, tb, time.time() - t0))
    for n, q in per.items():
        log("   %-22s evals %6d nontrivial %6d rejected %5d cpu %.1fs" % (n, q["evaluations"], q["distinct_nontrivial"], q["rejected"], q["cpu_s"]))
    if os.environ.get("PBT_CLASSES"):
        for c in sorted(classes):
            log("      %6d %s" % (classes[c], c))
    if viol:
        return 1
    if errors:
        for e in errors:
            log("HARNESS ERROR %s: %s" % e)
        return 2
    for s in m.SUBS:
        if only and s.name not in only.split(","):
            continue
        if per.get(s.name, {}).get("distinct_nontrivial", 0) < s.min_nontrivial:
            log("HARNESS ERROR: %s explored too little" % s.name)
            return 2
    return 0


sys.exit(main())
