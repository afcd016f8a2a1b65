#!/usr/bin/env python3
"""Driver: check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the property's harness against /repo's working tree (through a go build
overlay, so /repo is never written to), runs it, writes evidence/<ID>.json and
prints VIOLATION / KNOWN-FINDING lines.

exit 0  the property held on everything generated
exit 1  violated ("VIOLATION property=<id> replay=<path>" on stdout)
exit 2  no answer (build failure, harness error, time budget)
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
RAPID = "pgregory.net/rapid v1.3.0"
RAPID_SUM = [
    "pgregory.net/rapid v1.3.0 %s",
    "pgregory.net/rapid v1.3.0/go.mod %s",
]
PROPS = json.load(open(os.path.join(VERIF, "harness", "props.json")))


def go_env():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                         stdout=subprocess.PIPE).stdout.decode(errors="replace")
    for kv in out.split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            if k == "PATH" or k.startswith("GO"):
                env[k] = v
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
               GOSUMDB="off", GONOSUMDB="*", GONOSUMCHECK="1")
    return env


def err(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def build(pid, cfg, scratch, env, extra=()):
    repl = {}
    pkg = pid.lower()
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "vh", "*.go"))):
        repl[f"{REPO}/zzverif/vh/{os.path.basename(f)}"] = f
    src = sorted(glob.glob(os.path.join(VERIF, "harness", pkg, "*_test.go")))
    if not src:
        err("no harness sources for " + pid)
    for f in src:
        repl[f"{REPO}/zzverif/{pkg}/{os.path.basename(f)}"] = f
    overlay = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": repl}, open(overlay, "w"))
    mod = os.path.join(scratch, "go.mod")
    shutil.copy(f"{REPO}/go.mod", mod)
    shutil.copy(f"{REPO}/go.sum", os.path.join(scratch, "go.sum"))
    with open(mod, "a") as f:
        f.write(f"\nrequire {RAPID}\n")
    binp = os.path.join(scratch, "h.test")
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", overlay, "-modfile", mod, "-o", binp]
    if cfg.get("race"):
        cmd.append("-race")
    cmd += list(extra) + [f"./zzverif/{pkg}"]
    t0 = time.time()
    cmds = [cmd]
    if cfg.get("bin"):  # the check runs a program of the repository: built as it is, with no overlay
        cmds.append(["go", "build", "-race", "-buildvcs=false", "-o", os.path.join(scratch, "prog"), cfg["bin"]])
        cmds.append(["go", "build", "-buildvcs=false", "-o", os.path.join(scratch, "prog-plain"), cfg["bin"]])
    for cmd in cmds:
        p = subprocess.run(cmd, cwd=REPO, env=dict(env, GOFLAGS="-mod=mod" if "-modfile" in cmd else "-mod=readonly"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            sys.stdout.write(p.stdout.decode(errors="replace")[-4000:])
            err("harness does not build against the current tree")
    return binp, time.time() - t0


def setup():
    env = go_env()
    bad = 0
    for pid, cfg in PROPS.items():
        scratch = tempfile.mkdtemp(prefix=f"verif-setup-{pid}-")
        try:
            build(pid, cfg, scratch, env)
        except SystemExit:
            bad = 1
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(bad)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="compile every harness once, warming the build cache")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--run", default="")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.setup:
        return setup()
    pid = a.prop
    cfg = PROPS[pid]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    rseed = (seed * 1000003 + 7) % (1 << 62) or 1
    env = go_env()
    env["VERIF_TIER"] = tier
    env["VERIF_QUICK"] = str(cfg.get("quick", 1))
    env["VERIF_SEED"] = str(seed)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    rc = 2
    try:
        rc = run(a, pid, cfg, tier, seed, rseed, env, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(a, pid, cfg, tier, seed, rseed, env, scratch, t0):
    binp, bt = build(pid, cfg, scratch, env)
    rundir = os.path.join(scratch, "run")
    os.mkdir(rundir)
    stats = os.path.join(scratch, "stats.json")
    env["VERIF_STATS"] = stats
    env["VERIF_BIN"] = os.path.join(scratch, "prog")
    env["GORACE"] = "halt_on_error=1 exitcode=66"
    budget = 780 if tier == "quick" else 5400
    cmd = [binp, f"-rapid.seed={rseed}", f"-test.timeout={budget}s",
           "-rapid.shrinktime=%ds" % (15 if tier == "quick" else 60)]
    if a.run:
        cmd.append("-test.run=" + a.run)
    if a.v:
        cmd.append("-test.v")
    if a.replay:
        m = re.search(r"^# test: (\S+)", open(a.replay).read(), re.M)
        if m:
            cmd.append("-test.run=^" + m.group(1).replace("/", "$/^") + "$")
        cmd.append("-rapid.failfile=" + os.path.abspath(a.replay))
    try:
        p = subprocess.run(cmd, cwd=rundir, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=budget + 60)
        out, code = p.stdout.decode(errors="replace"), p.returncode
    except subprocess.TimeoutExpired as e:
        out, code = (e.stdout or b"").decode(errors="replace"), None
    if a.v or a.replay:
        sys.stdout.write(out[-20000:])
    for line in out.splitlines():
        if line.startswith("KNOWN-FINDING:"):
            print(line)

    violated = False
    why = ""
    if code == 0:
        pass
    elif code is None or "panic: test timed out" in out:
        sys.stdout.write(out[-3000:])
        err("time budget exhausted")
    elif "VERIF-HARNESS-ERROR" in out or "[rapid] only generated" in out:
        sys.stdout.write(out[-3000:])
        err("harness error")
    elif code < 0:
        sys.stdout.write(out[-3000:])
        err(f"harness killed by signal {-code}")
    elif re.search(r"out of memory|cannot allocate memory", out):
        err("out of memory")
    elif code in (1, 2, 66) and ("PROPERTY-VIOLATED" in out or "DATA RACE" in out
                                 or "[rapid] panic" in out or "\npanic:" in out
                                 or out.startswith("panic:") or "fatal error:" in out):
        violated = True
    else:
        sys.stdout.write(out[-3000:])
        err(f"unexpected harness ending (exit {code})")

    st = {"tests": [], "findings": {}}
    if os.path.exists(stats):
        st = json.load(open(stats))
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "per_test": {}}
    rules = []
    for t in st["tests"] or []:
        cov["evaluations"] += t["evaluations"]
        cov["distinct_nontrivial"] += t["distinct_nontrivial"]
        rules.append(t["name"] + ": " + t["rule"])
        cov["per_test"][t["name"]] = {k: t[k] for k in ("evaluations", "nontrivial", "distinct_nontrivial", "labels")}
        for s in (t["samples"] or [])[:2]:
            cov["samples"].append({"test": t["name"], "case": s})
    cov["rule"] = " | ".join(rules) or "no case completed"
    cov["build_s"] = round(bt, 2)
    if not a.replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration",
                   "coverage": cov, "assumptions": cfg.get("assumptions", []),
                   "wall_s": round(time.time() - t0, 2), "violations": 1 if violated else 0},
                  open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)

    if not violated:
        print(f"OK property={pid} tier={tier} seed={seed} evaluations={cov['evaluations']} "
              f"distinct_nontrivial={cov['distinct_nontrivial']} wall={time.time()-t0:.1f}s")
        return 0

    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    fails = sorted(glob.glob(os.path.join(rundir, "testdata", "rapid", "*", "*.fail")))
    replay = os.path.join(rdir, f"{pid}-seed{seed}.fail")
    if fails:
        body = open(fails[0], errors="replace").read()
        tname = os.path.basename(os.path.dirname(fails[0]))
        open(replay, "w").write(f"# property: {pid}\n# test: {tname}\n" + body)
        extra = fails[1:]
        for i, f in enumerate(extra):
            tname = os.path.basename(os.path.dirname(f))
            open(os.path.join(rdir, f"{pid}-seed{seed}-{i+2}.fail"), "w").write(
                f"# property: {pid}\n# test: {tname}\n" + open(f, errors="replace").read())
    else:
        open(replay, "w").write(f"# property: {pid}\n# rerun: python3 check.py {pid} --tier {tier} --seed {seed}\n"
                                + "".join("# " + l + "\n" for l in out[-12000:].splitlines()))
    for line in [l for l in out.splitlines() if "PROPERTY-VIOLATED" in l][:5]:
        print("  " + line.strip())
    if not a.v and "PROPERTY-VIOLATED" not in out:
        sys.stdout.write(out[-2500:] + "\n")
    print(f"VIOLATION property={pid} replay={replay}", flush=True)
    return 1


if __name__ == "__main__":
    main()
