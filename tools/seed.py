#!/usr/bin/env python3
"""seed.py mk <defs.py> [id...]: writes /verif/seeded/<id>/ from definitions and
confirms each (builds, tests pass, demo passes without and fails with the patch).
seed.py check [id...]: runs the property's check on each seeded change (in a copy).
Definitions: SEEDS = [dict(id, property, edits=[(file, old, new)], demo=go main source, needs, breaks)]."""
import json, os, shutil, subprocess, sys, tempfile, runpy, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
DEMO = '''#!/bin/bash
# Exits 0 if the property holds for this case, nonzero otherwise.  Run in the repository.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/zzdemo/main.go": "%s/demo.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build RACE-overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 3
timeout 120 "$tmp/demo"
'''

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def copy():
    d = tempfile.mkdtemp(prefix="seed-")
    subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    return d

def mk(x):
    d = copy(); r = d + "/repo"; out = os.path.join(S, x["id"])
    try:
        for f, old, new in x["edits"]:
            t = open(os.path.join(r, f)).read()
            if t.count(old) != 1:
                print(x["id"], "edit matches", t.count(old), "times in", f); return False
            open(os.path.join(r, f), "w").write(t.replace(old, new))
        g = sh("go vet ./... 2>&1 | grep -v '^#' | head -3", r).stdout
        b = sh("go build ./...", r)
        if b.returncode: print(x["id"], "no build", b.stdout); return False
        t = sh("go test -vet=off -count=1 -timeout 60s ./...", r)
        if t.returncode: print(x["id"], "tests FAIL", t.stdout[-800:]); return False
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(sh("git diff", r).stdout)
        open(out + "/demo.go.txt", "w").write(x["demo"])
        sh_ = DEMO.replace("RACE", "-race " if x.get("race") else "")
        if "inside" in x:   # a file that the demonstration adds to a package
            pkg, src = x["inside"]
            open(out + "/inside.go.txt", "w").write(src)
            sh_ = sh_.replace('demo.go.txt"}}\' "$PWD" "$here"', 'demo.go.txt", "%%s/%s/zzinside.go": "%%s/inside.go.txt"}}\' "$PWD" "$here" "$PWD" "$here"' % pkg)
        open(out + "/demo.sh", "w").write(sh_)
        json.dump({"property": x["property"], "needs": x["needs"], "what_it_breaks": x["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        bad = sh("bash %s/demo.sh" % out, r)
        sh("git checkout -q -- .", r)
        good = sh("bash %s/demo.sh" % out, r)
        if good.returncode != 0 or bad.returncode in (0, 3):
            print(x["id"], "demo: unchanged", good.returncode, "changed", bad.returncode, good.stdout[-500:], bad.stdout[-500:]); shutil.rmtree(out); return False
        print(x["id"], "ok", g.strip())
        return True
    finally:
        shutil.rmtree(d)

def check(i, seed="1"):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    d = copy()
    try:
        p = sh("git apply %s/patch.diff" % os.path.join(S, i), d + "/repo")
        if p.returncode: print(i, "DOES NOT APPLY", p.stdout); return
        t = time.time()
        v = tempfile.mkdtemp(prefix="seedv-")
        for s in ("bin", "spec", "harness", "known_findings.txt"):
            subprocess.run(["cp", "-r", os.path.join(V, s), v], check=True)
        q = subprocess.run(["python3", v + "/bin/check.py", m["property"]], env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED=seed),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        shutil.rmtree(v)
        ok = q.returncode == 1 and "VIOLATION property=" + m["property"] in q.stdout
        print("%-28s %s %s rc=%d %.0fs %s" % (i, m["property"], "caught" if ok else "MISSED", q.returncode, time.time() - t,
              "" if q.returncode in (0, 1) else q.stderr[-400:]), flush=True)
        if os.environ.get("SHOW"): print(q.stdout[:1500])
    finally:
        shutil.rmtree(d)

if sys.argv[1] == "mk":
    for x in runpy.run_path(sys.argv[2])["SEEDS"]:
        if len(sys.argv) == 3 or x["id"] in sys.argv[3:]:
            mk(x)
else:
    for i in (sys.argv[2:] or sorted(os.listdir(S))):
        check(i, os.environ.get("VERIF_SEED", "1"))
