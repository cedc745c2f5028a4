#!/usr/bin/env python3
"""Development tool (no check uses it): confirms planted changes and runs checks against them.
  seeded.py confirm [ids]            builds, stable tests, demo on clean and patched tree   (uses /repo, restores it)
  seeded.py catch [ids] [--all]      runs the property's check (or all checks) against each planted change in a scratch copy"""
import os, sys, json, subprocess, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + "/seeded"
def sh(c, t=1200, **k):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(c, 124, "timeout", "")
def ids(a): return [x for x in a if not x.startswith("-")] or sorted(os.listdir(S))
def confirm(i):
    d = f"{S}/{i}"; base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])
    lay = f"/tmp/seeddemo/{i}"; shutil.rmtree(lay, ignore_errors=True); shutil.copytree(d, lay, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    if sh("git -C /repo status --porcelain").stdout.strip(): sys.exit("/repo is dirty")
    out = []
    try:
        sh("bash /opt/vp/build.sh"); r = sh(f"bash {lay}/demo.sh", 300, cwd="/repo"); out.append(("clean demo 0", r.returncode == 0, r.stdout[-300:]))
        r = sh(f"git -C /repo apply {d}/patch.diff"); out.append(("applies", r.returncode == 0, r.stdout))
        r = sh("bash /opt/vp/test.sh /tmp/seeddemo/o.json"); o = json.load(open("/tmp/seeddemo/o.json")); miss = base - set(o["passed"]); out.append(("tests", bool(o["passed"]) and not miss, f"{len(o['passed'])} passed, missing {sorted(miss)[:4]}"))
        r = sh(f"bash {lay}/demo.sh", 300, cwd="/repo"); out.append(("patched demo !=0", r.returncode not in (0,), f"rc {r.returncode} " + r.stdout[-300:]))
    finally:
        sh("git -C /repo checkout -- ."); shutil.rmtree(lay, ignore_errors=True)
    ok = all(x[1] for x in out); print(i, "OK" if ok else "NOT CONFIRMED", "" if ok else out, flush=True)
    if ok: print("    ", out[3][2].strip().replace("\n", " | ")[:200], flush=True)
    return ok
def catch(i, props):
    d = f"{S}/{i}"; meta = json.load(open(d + "/meta.json")); w = f"/tmp/seedrun/{i}"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    sh(f"git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q . && git apply {d}/patch.diff")
    for p in props or [meta["property"]]:
        r = sh(f"python3 {V}/run_check.py {p}", env=dict(os.environ, VERIF_REPO=w, VERIF_BUILD=w + "/vb", VERIF_SEED=os.environ.get("VERIF_SEED", "1")), cwd=V)
        v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "  64-bit", "  32-bit", "harness"))]
        print(f"{i:28} {p} rc={r.returncode}", {0: "quiet", 1: "CAUGHT"}.get(r.returncode, "ERROR"), "" if r.returncode == 0 else (v[1] if len(v) > 1 else r.stdout[-300:])[:170], r.stdout.splitlines()[-1].split("total")[-1] if r.stdout else "", flush=True)
    shutil.rmtree(w, ignore_errors=True)
a = sys.argv[1:]
if a[0] == "confirm": [confirm(i) for i in ids(a[1:])]
else:
    sys.path.insert(0, V + "/tools"); from checks import CHECKS
    for i in ids(a[1:]): catch(i, list(CHECKS) if "--all" in a else None)
