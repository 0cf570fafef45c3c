#!/usr/bin/env python3
"""Runs checks on scratch copies of /repo with behaviour-preserving changes applied; every check has to stay quiet.
Reports violations, undecided units and time.  usage: evalrefactors.py [-p C01,C02] [NAME...]"""
import json, os, subprocess, sys, shutil, time, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
args = sys.argv[1:]; props = None
if args and args[0] == "-p": props = args[1].split(","); args = args[2:]
BIN = os.environ.get("EC", f"{VERIF}/bin/edtfcheck")
claimed = [c["property"] for c in json.load(open(f"{VERIF}/MANIFEST.json"))["checks"]]
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off"); ENV.pop("GOFLAGS", None)
REF = {}
def refactor(name, edits): REF[name] = edits
for f in sorted(glob.glob(HERE + "/refactors/*.py")): exec(open(f).read())
for n in args or sorted(REF):
    S = f"/tmp/ref_{n}"; H = f"/tmp/refhome_{n}"
    if os.path.exists(S): shutil.rmtree(S)
    subprocess.run(["cp", "-a", "/repo", S], check=True); os.makedirs(H, exist_ok=True); shutil.copy(f"{VERIF}/known-findings.txt", H)
    ok = True
    for e in REF[n]:
        f, old, new = e; p = f"{S}/{f}"; s = open(p).read() if os.path.exists(p) else ""
        if old is None: s = new
        elif isinstance(old, tuple):  # from the first text up to the second one
            a = s.find(old[0]); b = s.find(old[1], a) if old[1] else len(s)
            if a < 0 or b < 0: print(n, "EDIT", f, old); ok = False; break
            s = s[:a] + new + s[b:]
        else:
            if s.count(old) != 1: print(n, "EDIT", f, s.count(old), repr(old[:60])); ok = False; break
            s = s.replace(old, new)
        open(p, "w").write(s)
    if ok:
        r = subprocess.run("go build ./... && go vet ./... && go test -vet=off ./... 2>&1 | grep -v 'no test files'; GOOS=js GOARCH=wasm go build -tags wasmjs -o /dev/null ./cmd/parse-wasm && GOOS=wasip1 GOARCH=wasm go build -o /dev/null ./cmd/parse-wasi", shell=True, cwd=S, env=ENV, capture_output=True, text=True)
        bad = [l for l in (r.stdout + r.stderr).split("\n") if l and not l.startswith("ok") and "should have signature" not in l and not l.startswith("#")]
        if bad: print(n, "BUILD/TEST", "\n".join(bad[:15]))
        def check(q):
            h = f"{H}/{q}"; os.makedirs(h, exist_ok=True); shutil.copy(f"{VERIF}/known-findings.txt", h)
            t = time.time()
            r = subprocess.run([BIN, "-root", S, "-home", h, "-prop", q, "-tier", "quick"], cwd=h, env=ENV, capture_output=True, text=True)
            out = (r.stdout + r.stderr).strip().split("\n")
            last = [l for l in out if l.startswith(q + " quick")]
            if r.returncode or time.time() - t > 250 or not last or ", 0 undecided" not in last[0]:
                print(n, q, f"rc={r.returncode} {time.time()-t:.0f}s", "|".join(l for l in out if "KNOWN" not in l)[:700], flush=True)
        with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex: list(ex.map(check, [] if props == ["none"] else props or claimed))
    print(n, "done", flush=True)
    shutil.rmtree(S); shutil.rmtree(H)
