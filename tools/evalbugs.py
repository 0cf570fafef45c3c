#!/usr/bin/env python3
"""Runs the check of each seeded bug's property (or of ALL properties with -a) on a scratch copy of /repo with the bug applied.
usage: evalbugs.py [-a] [ID...]"""
import json, os, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; allp = "-a" in args; ids = [a for a in args if a[0] != "-"] or sorted(os.listdir(f"{VERIF}/seeded"))
BIN = os.environ.get("EC", f"{VERIF}/bin/edtfcheck")
claimed = [c["property"] for c in json.load(open(f"{VERIF}/MANIFEST.json"))["checks"]]
def one(i):
    d = f"{VERIF}/seeded/{i}"; S = f"/tmp/eval_{i}"; H = f"/tmp/evalhome_{i}"
    if os.path.exists(S): shutil.rmtree(S)
    subprocess.run(["cp", "-a", "/repo", S], check=True); os.makedirs(H, exist_ok=True)
    shutil.copy(f"{VERIF}/known-findings.txt", H)
    r = subprocess.run(["git", "apply", f"{d}/patch.diff"], cwd=S)
    env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off"); env.pop("GOFLAGS", None)
    p = json.load(open(f"{d}/meta.json"))["property"]
    out = []
    for q in (claimed if allp else [p]):
        if q not in claimed: out.append(f"{q} not claimed"); continue
        t = time.time()
        r = subprocess.run([BIN, "-root", S, "-home", H, "-prop", q, "-tier", "quick"], cwd=H, env=env, capture_output=True, text=True)
        v = [l for l in (r.stdout + r.stderr).split("\n") if "VIOLATION" in l]
        if r.returncode or not allp or q == p: out.append(f"{q}{'*' if q==p else ''} rc={r.returncode} {len(v)} viol {time.time()-t:.0f}s " + ((r.stdout + r.stderr).strip().split("\n")[0][:160] if not allp else ""))
    shutil.rmtree(S); shutil.rmtree(H)
    return i, out
with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
    for i, o in ex.map(one, ids): print(i, "|", "; ".join(o), flush=True)
