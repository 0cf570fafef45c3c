#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/bugs/*.py descriptions, in a scratch copy of /repo, keeping a bug only
if it builds, passes the stable tests, and its demonstration passes without it and fails with it.
usage: plant.py [ID...]"""
import json, os, subprocess, sys, glob, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
S = "/tmp/plant_scratch"
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=readonly")
BUGS = {}
def bug(id, prop, edits, main, needs, breaks, sh=None):
    BUGS[id] = dict(prop=prop, edits=edits, main=main, needs=needs, breaks=breaks, sh=sh)
for f in sorted(glob.glob(HERE + "/bugs/*.py")):
    exec(open(f).read())
DEMO = '''#!/bin/bash
# Runs main.go against the library in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
go run -overlay <(printf '{"Replace":{"%s/cmd/seeded_demo/main.go":"%s/main.go"}}' "$PWD" "$here") ./cmd/seeded_demo
'''
SHHEAD = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
'''
def run(cmd, **k):
    return subprocess.run(cmd, cwd=S, env=ENV, capture_output=True, text=True, **k)
def reset():
    run(["git", "checkout", "-q", "--", "."]); run(["git", "clean", "-fdq"])
def main():
    if os.path.exists(S): shutil.rmtree("/tmp/plant_scratch")
    subprocess.run(["cp", "-a", "/repo", S], check=True)
    want = sys.argv[1:] or sorted(i for i in BUGS if not os.path.exists(f"{VERIF}/seeded/{i}/patch.diff"))
    for i in want:
        b = BUGS[i]; reset(); ok = True; why = ""
        for f, old, new in b["edits"]:
            p = f"{S}/{f}"; s = open(p).read()
            if s.count(old) != 1: ok = False; why = f"{f}: {s.count(old)} matches of {old[:40]!r}"; break
            open(p, "w").write(s.replace(old, new))
        if not ok: print(i, "EDIT", why); continue
        d = f"{VERIF}/seeded/{i}"; os.makedirs(d, exist_ok=True)
        diff = run(["git", "diff"]).stdout
        open(f"{d}/patch.diff", "w").write(diff)
        if b["main"]: open(f"{d}/main.go", "w").write(b["main"])
        open(f"{d}/demo.sh", "w").write(SHHEAD + b["sh"] if b["sh"] else DEMO); os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        r = run(["go", "vet", "-vettool=/bin/true", "./..."]) if False else run(["go", "build", "./..."])
        if r.returncode: why = "BUILD " + r.stderr[:400]
        for g in (("js", "./cmd/parse-wasm", "wasmjs"), ("wasip1", "./cmd/parse-wasi", "wasip1")):
            r = subprocess.run(["go", "build", "-tags", g[2], "-o", "/dev/null", g[1]], cwd=S, env=dict(ENV, GOOS=g[0], GOARCH="wasm"), capture_output=True, text=True)
            if r.returncode: why = "WASM " + r.stderr[:400]
        if not why:
            r = run(["go", "test", "-vet=off", "./..."])
            if r.returncode: why = "TESTS " + "\n".join(l for l in r.stdout.split("\n") if "FAIL" in l or "_test.go" in l)[:500]
        if not why:
            r = run(["bash", f"{d}/demo.sh"]); out = (r.stdout + r.stderr)[-300:]
            if r.returncode == 0: why = "DEMO passes with the bug"
            reset()
            if not why:
                r = run(["bash", f"{d}/demo.sh"])
                if r.returncode: why = "DEMO fails without: " + (r.stdout + r.stderr)[-300:]
        if why:
            for n in os.listdir(d): os.unlink(f"{d}/{n}")
            os.rmdir(d); print(i, "REJECTED", why)
        else: print(i, "ok:", out.strip().split("\n")[0][:150])
    shutil.rmtree("/tmp/plant_scratch")
if __name__ == "__main__": main()
