#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Proves the contracts of one property against /repo's current source with gowp
(deductive verifier, /verif/gowp), then executes the same contracts on the real
code with generated inputs (replay).  Exit 0: every obligation discharged and no
run of a contract failed.  Exit 1 with a VIOLATION line otherwise."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.environ.get("VERIF_SRC", "/repo/src")
PKGS = ["./core", "./helena_dialect", "./picol_dialect", "./native/go_regexp"]


def env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off",
             GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))


def packages():
    return [p for p in PKGS if os.path.isdir(os.path.join(HERE, "contracts", p[2:]))]


def build(tmp):
    exe = os.path.join(tmp, "gowp")
    subprocess.run(["go", "build", "-o", exe, "."], cwd=os.path.join(HERE, "gowp"), env=env(), check=True)
    return exe


def pools(results):
    ints, strs = set(), set()
    for r in results:
        cur = {}
        for s in r.get("seeds") or []:
            for m in re.finditer(r"\(- (\d+)\)|(?<![\w.!#])(\d+)(?![\w.])", s):
                v = -int(m.group(1)) if m.group(1) else int(m.group(2))
                if -(1 << 63) <= v < (1 << 63):
                    ints.add(v)
            m = re.match(r"(.*)\[(\d+)\]=(\d+)$", s)
            if m and int(m.group(3)) < 256:
                cur.setdefault(m.group(1), {})[int(m.group(2))] = int(m.group(3))
        for d in cur.values():
            strs.add("".join(chr(d[i]) for i in sorted(d) if d[i] < 128))
    return sorted(ints)[:400], sorted(strs)[:50]


def replay(tmp, contracts, millis, seed, ints, strs):
    """run the contracts on the real code; returns (reports, errors)"""
    reps, errs = [], []
    left = set(contracts)
    for p in packages():
        exe = os.path.join(tmp, "replay_" + p[2:].replace("/", "_"))
        b = subprocess.run(["go", "test", "-c", "-vet=off", "-overlay", os.path.join(tmp, "emit", "overlay.json"),
                            "-o", exe, p], cwd=SRC, env=env(), capture_output=True, text=True)
        if b.returncode != 0:
            errs.append("replay build %s: %s" % (p, (b.stdout + b.stderr)[:2000]))
            continue
        if not os.path.exists(exe):
            continue
        todo = sorted(left)
        for _ in range(20):
            cfg = os.path.join(tmp, "replay.json")
            out = os.path.join(tmp, "replay.out")
            for f in (out, out + ".progress"):
                if os.path.exists(f):
                    os.unlink(f)
            json.dump(dict(contracts=todo, millis=millis, seed=seed, ints=ints, strs=strs, out=out), open(cfg, "w"))
            e = env()
            e["VERIF_REPLAY"] = cfg
            work = os.path.join(tmp, "work")
            os.makedirs(work, exist_ok=True)
            try:
                r = subprocess.run([exe, "-test.run", "^TestVerifReplay$", "-test.timeout", "0"], cwd=work, env=e,
                                   capture_output=True, text=True, errors="replace", preexec_fn=limit,
                                   timeout=60 + len(todo) * (millis / 1000.0 + 12))
                rc, text = r.returncode, r.stdout + r.stderr
            except subprocess.TimeoutExpired as x:
                rc, text = 1, "replay timed out"
            got = json.load(open(out)) if os.path.exists(out) else []
            reps += got
            if rc == 0:
                break
            # the process died: the input under way is the failing one
            done = {g["contract"] for g in got}
            pr = open(out + ".progress").read().split() if os.path.exists(out + ".progress") else []
            if len(pr) == 2 and pr[0] not in done:
                reps.append(dict(contract=pr[0], runs=int(pr[1]) + 1, skipped=0, iter=int(pr[1]),
                                 failed="process died", input="replay iteration %s, seed %d" % (pr[1], seed),
                                 trace=text[:6000]))
                done.add(pr[0])
            else:
                errs.append("replay %s: %s" % (p, text[:2000]))
                break
            todo = [t for t in todo if t not in done]
            if not todo:
                break
    return reps, errs


def known(pid):
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) contract=(\S+) obligation=\"([^\"]*)\" (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        rc = run(pid, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(pid, tier, seed, tmp, t0):
    exe = build(tmp)
    repf = os.path.join(tmp, "report.json")
    cmd = [exe, "-src", SRC, "-contracts", os.path.join(HERE, "contracts"), "-pkgs", ",".join(packages()),
           "-property", pid, "-json", repf, "-emit", os.path.join(tmp, "emit")]
    if tier == "thorough":
        cmd += ["-t", "10000", "-T", "120"]
    try:
        p = subprocess.run(cmd, cwd=HERE, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=6 * 3600 if tier == "thorough" else 640)
        text = p.stdout
    except subprocess.TimeoutExpired as x:
        text = (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        text += "\nverifier timed out"
    rep = json.load(open(repf)) if os.path.exists(repf) else {"errors": ["verifier gave no report: " + text[-2000:]]}
    results = rep.get("results") or []
    errors = rep.get("errors") or []
    dropped = rep.get("dropped") or []
    fails = []  # (contract, obligation, detail)
    nobl = ndone = 0
    by = {}
    for r in results:
        if r.get("error"):
            fails.append((r["contract"], "verification of " + r["target"], r["error"]))
        for o in r.get("obls") or []:
            nobl += 1
            if o["status"] == "proved":
                ndone += 1
                by[o.get("by", "?")] = by.get(o.get("by", "?"), 0) + 1
            else:
                fails.append((r["contract"], o["name"] + (" at " + o["pos"] if o.get("pos") else ""), o.get("model", "")))
    for e in errors:
        fails.append(("-", "loading the source", e))
    for d in dropped:
        fails.append((d["name"], "contract does not fit the source", d["reason"]))
    kn = known(pid)
    listed = [f for f in fails if any(k[0] == f[0] and f[1].startswith(k[1]) for k in kn)]
    unlisted = [f for f in fails if f not in listed]
    names = [r["contract"] for r in results] + [d["name"] for d in dropped]
    ints, strs = pools(results)
    bad = sorted({f[0] for f in unlisted})
    reps, rerrs = [], []
    if not errors:
        ms = 400 if tier == "quick" else 5000
        reps, rerrs = replay(tmp, names, ms, seed, ints, strs)
        if unlisted and not any(r.get("failed") for r in reps):
            # look harder: first at the failing contracts, then at everything that depends on them
            r2, e2 = replay(tmp, [b for b in bad if b in names], min(30000, 120000 // max(1, len(bad))), seed + 1000, ints, strs)
            if not any(r.get("failed") for r in r2):
                r3, e3 = replay(tmp, names, min(10000, 80000 // max(1, len(names))), seed + 2000, ints, strs)
                r2 += r3
            reps += r2
    hits = [r for r in reps if r.get("failed") and not any(k[0] == r["contract"] and r["failed"].endswith(k[1]) for k in kn)]
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    viol = bool(unlisted or hits)
    for e in rerrs:
        print("note:", e[:400])
    replay_path = os.path.join("evidence", "replay_%s.json" % pid)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    full = os.path.join(HERE, replay_path)
    if os.path.exists(full):
        os.unlink(full)
    if viol:
        json.dump(dict(property=pid, seed=seed,
                       failed_obligations=[dict(contract=c, obligation=o, verifier_output=m) for c, o, m in unlisted],
                       failing_inputs=hits, verifier_log=text[-8000:],
                       rerun="python3 /verif/check.py %s %s" % (pid, tier)), open(full, "w"), indent=1)
    trusted = sorted(set(rep.get("trusted") or []))
    assumes = sorted({a for r in results for a in r.get("assumes") or []})
    runs = sum(r["runs"] for r in reps)
    ev = dict(property=pid, tier=tier, seed=seed, level="proof",
              coverage=dict(obligations=nobl, discharged=ndone,
                            checker_cmd="gowp -property %s (weakest-precondition style symbolic execution of go/ssa, obligations to z3-5.3.2; z3-4.8.12 and cvc5-1.1.2 on timeouts)" % pid,
                            trusted_base=["gowp (/verif/gowp)", "golang.org/x/tools/go/ssa and the Go compiler", "z3, cvc5"] +
                                         ["trusted contract: " + t for t in trusted],
                            functions_under_contract=[dict(contract=r["contract"], target=r["target"], obligations=len(r.get("obls") or []),
                                                           solver_s=round(r.get("solver_secs", 0), 2), terminates=r.get("terminates", False),
                                                           inlined=r.get("inlined") or [], used_contracts=r.get("used") or [],
                                                           loops_without_variant=r.get("partial_loops") or []) for r in results],
                            discharged_by=by, solver_s=round(sum(r.get("solver_secs", 0) for r in results), 2),
                            dropped=dropped,
                            contract_executions=runs,
                            contract_executions_note="run-time checks of the same contracts on the real code with generated arguments whose preconditions held; not counted as proof",
                            samples=[dict(contract=r["contract"], runs=r["runs"], skipped=r["skipped"]) for r in reps][:40]),
              assumptions=assumes, wall_s=round(time.time() - t0, 1), violations=len(unlisted) + len(hits))
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d contracts, %d/%d obligations discharged, %d contract executions, %.1f s" % (pid, len(results), ndone, nobl, runs, time.time() - t0))
    for c, o, m in unlisted[:20]:
        print("  failed obligation: %s: %s %s" % (c, o, m.split("\n")[0][:200]))
    for h in hits[:10]:
        print("  failing input: %s: %s\n    %s" % (h["contract"], h["failed"], h.get("input", "").replace("\n", "\n    ")[:800]))
    if viol:
        print("VIOLATION property=%s replay=%s%s" % (pid, replay_path, "" if hits else " no-failing-input-found"))
        return 1
    if not results:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay_path))
        return 1
    return 0


if __name__ == "__main__":
    main()
