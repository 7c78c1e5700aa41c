#!/usr/bin/env python3
"""Developer tool (not a check): run checks against the planted bugs in scratch copies.
run_seeded.py [--all-checks] [bug ids...]"""
import json, os, subprocess, sys, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allc = "--all-checks" in args
bugs = [a for a in args if not a.startswith("-")] or sorted(os.listdir(f"{V}/seeded"))
man = json.load(open(f"{V}/MANIFEST.json"))
for b in bugs:
    meta = json.load(open(f"{V}/seeded/{b}/meta.json"))
    d = tempfile.mkdtemp(prefix="seeded_", dir="/tmp")
    try:
        subprocess.check_call(["cp", "-a", "/repo", f"{d}/repo"])
        subprocess.check_call(["git", "apply", f"{V}/seeded/{b}/patch.diff"], cwd=f"{d}/repo")
        props = [c["property"] for c in man["checks"]] if allc else [meta["property"]]
        res = []
        for p in props:
            t = time.time()
            r = subprocess.run([sys.executable, f"{V}/check.py", "run", p], cwd=V, capture_output=True, text=True,
                               env={**os.environ, "DST_REPO": f"{d}/repo", "VERIF_TIER": "quick", "VERIF_SEED": "1"})
            viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            if r.returncode or not allc:
                res.append(f"{p}:rc{r.returncode}{'V' if viol else ''}({time.time()-t:.0f}s)")
            if r.returncode and not viol:
                print(r.stdout[-1500:], r.stderr[-1500:])
        print(b, meta["property"], " ".join(res), flush=True)
    finally:
        shutil.rmtree(d)
