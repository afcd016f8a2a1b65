#!/usr/bin/env python3
"""seed.py save ID PROPERTY NEEDS BREAKS   take /repo's uncommitted diff + /tmp/demo_test.go as seeded/ID, verify, revert
   seed.py verify ID [check]               apply, build, tests, demo, its property's check (or given), revert
   seed.py checks [ID...]                  only apply + the property's check + revert"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def revert(): sh("git -C /repo checkout -- .")
RES = f"{V}/tools/seed_results.json"
def rec(i, txt):
    d = json.load(open(RES)) if os.path.exists(RES) else {}
    d[i] = txt; json.dump(d, open(RES, "w"), indent=1, sort_keys=True)
def demo(i):
    d = f"/tmp/demo-{i}"; shutil.rmtree(d, ignore_errors=True); shutil.copytree(f"{V}/seeded/{i}", d)
    r = sh(f"bash {d}/demo.sh", cwd="/repo"); shutil.rmtree(d); return r
def full(i, props=None):
    m = json.load(open(f"{V}/seeded/{i}/meta.json")); ok = True
    revert()
    r = demo(i)
    if r.returncode: print("DEMO FAILS ON CLEAN TREE\n", r.stdout[-1500:]); ok = False
    r = sh(f"git -C /repo apply {V}/seeded/{i}/patch.diff")
    if r.returncode: print("NO APPLY", r.stdout); return False
    try:
        r = sh("bash /opt/vp/build.sh", cwd="/repo")
        if r.returncode: print("NO BUILD", r.stdout); ok = False
        sh("bash /opt/vp/test.sh /tmp/seedtest.json", cwd="/repo")
        base = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open("/tmp/seedtest.json"))
        want = set(base.get("passed") or base.get("stable") or base); got = set(res["passed"])
        if want - got: print("TESTS FAIL:", sorted(want - got)[:5]); ok = False
        r = demo(i)
        if r.returncode == 0: print("DEMO PASSES WITH PATCH"); ok = False
        for p in props or [m["property"]]:
            r = sh(f"python3 check.py {p}", cwd=V)
            if p == m["property"]: rec(i, p if r.returncode == 1 else "missed")
            print(i, p, "CAUGHT" if r.returncode == 1 else f"MISSED rc={r.returncode}", "|", " ".join(r.stdout.split())[:160])
    finally: revert()
    print(i, "valid" if ok else "INVALID"); return ok
def checks(ids):
    for i in ids or sorted(os.listdir(f"{V}/seeded")):
        m = json.load(open(f"{V}/seeded/{i}/meta.json")); revert()
        r = sh(f"git -C /repo apply {V}/seeded/{i}/patch.diff")
        if r.returncode: print(i, "NO APPLY"); continue
        try:
            r = sh(f"python3 check.py {m['property']}", cwd=V)
            rec(i, m["property"] if r.returncode == 1 else "missed")
            print(i, m["property"], "CAUGHT" if r.returncode == 1 else f"MISSED rc={r.returncode}", flush=True)
        finally: revert()
a = sys.argv[1:]
if a[0] == "save":
    d = f"{V}/seeded/{a[1]}"; os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout); revert()
    shutil.copy("/tmp/demo_test.go", f"{d}/demo_test.go"); shutil.copy(f"{V}/tools/demo.sh", f"{d}/demo.sh")
    json.dump({"property": a[2], "needs": a[3], "what_it_breaks": a[4]}, open(f"{d}/meta.json", "w"), indent=1)
    full(a[1])
elif a[0] == "verify": full(a[1], a[2:])
else: checks(a[1:])
