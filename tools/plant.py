#!/usr/bin/env python3
"""Planted bugs.  plant.py verify ID...   builds, tests and demo with and without each patch, in a scratch copy
                  plant.py catch ID... [-- PROP...]   runs the checks on /repo with the patch applied, and undoes it
"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def verify(i):
    d = f"{V}/seeded/{i}"
    assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
    ok = r0.returncode == 0
    out = [f"clean demo {r0.returncode}"]
    if not ok: out.append(r0.stdout[-800:] + r0.stderr[-800:])
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode: return False, "does not apply: " + a.stderr
    try:
        b = sh("bash /opt/vp/build.sh", cwd="/repo")
        if b.returncode: return False, "does not build: " + b.stdout[-500:] + b.stderr[-1500:]
        with tempfile.NamedTemporaryFile(suffix=".json") as f:
            sh(f"bash /opt/vp/test.sh {f.name}", cwd="/repo")
            j = json.load(open(f.name))
        passed = set(j.get("passed", []))
        lost = [t for t in stable() if t not in passed]
        out.append(f"{len(lost)} tests lost {lost[:3]}")
        r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
        out.append(f"planted demo {r1.returncode}: {(r1.stdout + r1.stderr).strip()[-160:]}")
        ok = ok and not lost and r1.returncode != 0
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh", cwd="/repo")
    return ok, "; ".join(out)
def stable():
    j = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests", "stable_pass"):
        if k in j: return j[k]
    raise SystemExit(f"BASELINE keys {list(j)}")
def catch(i, props):
    d = f"{V}/seeded/{i}"
    own = json.load(open(f"{d}/meta.json"))["property"]
    assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
    assert sh(f"git -C /repo apply {d}/patch.diff").returncode == 0
    try:
        for p in props or [own]:
            t = time.time()
            r = sh(f"./check.sh {p} quick", cwd=V, env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            lines = [l for l in r.stdout.splitlines() if l.strip()]
            v = [l for l in lines if l.startswith("  ")] or lines[-1:] or [r.stderr[-300:]]
            runs = next((l.split(' runs')[0] for l in lines if ' runs (' in l), '')
            print(f"{i} {p}: {'CAUGHT' if r.returncode == 1 and f'VIOLATION property={p}' in r.stdout else 'missed' if r.returncode == 0 else 'ERROR'} {time.time()-t:.0f}s {runs} {v[0].strip()[:200]}", flush=True)
    finally:
        sh("git -C /repo checkout -- .")
args = sys.argv[2:]
props = []
if "--" in args:
    k = args.index("--"); args, props = args[:k], args[k+1:]
args = args or sorted(os.listdir(f"{V}/seeded"))
for i in args:
    if sys.argv[1] == "verify":
        ok, why = verify(i)
        print(f"{i}: {'COUNTS' if ok else 'NO'} {why}", flush=True)
    else:
        catch(i, props)
