#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from tools-side descriptions: plant.py FILE.py  (a list BUGS of dicts).
Checks in a scratch copy of /repo that the change builds, passes the tests, and that the demonstration
fails with it and passes without it."""
import json, os, re, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off")
ROOT = "/verif/seeded"
def sh(cmd, cwd, t=300):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return p.returncode, p.stdout + p.stderr
DEMO = '''#!/bin/bash
# Runs the test beside this file in package %(pkg)s (cwd: the repository).
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo.txt"}}' "$PWD" "$here" > "$tmp/o.json"
timeout 250 go test -vet=off -count=1 %(flags)s -timeout 60s -overlay "$tmp/o.json" -run '^TestDemo$' ./%(pkg)s
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    d = tempfile.mkdtemp(prefix="plant")
    repo = d + "/repo"
    shutil.copytree("/repo", repo, symlinks=True)
    sh("git checkout -q -- .", repo)
    ok = True
    for f, old, new in b["edits"]:
        s = open(repo + "/" + f).read()
        if s.count(old) != 1:
            print(b["id"], "edit does not apply:", f, s.count(old), repr(old[:60])); ok = False; break
        open(repo + "/" + f, "w").write(s.replace(old, new))
    if not ok: shutil.rmtree(d); continue
    rc, patch = sh("git diff", repo)
    rc, o = sh("go build ./... && go vet ./... ; go test ./...", repo)
    rc, o = sh("go build ./... && go test -count=1 ./...", repo)
    if rc: print(b["id"], "tests fail:", o[-800:]); shutil.rmtree(d); continue
    out = os.path.join(ROOT, b["id"])
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(out + "/patch.diff", "w").write(patch)
    open(out + "/demo.txt", "w").write(b["demo"])
    open(out + "/demo.sh", "w").write(DEMO % {"pkg": b.get("pkg", "."), "flags": b.get("flags", "")})
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1, ensure_ascii=False)
    r1, o1 = sh("bash %s/demo.sh" % out, repo)
    sh("git checkout -q -- .", repo)
    r0, o0 = sh("bash %s/demo.sh" % out, repo)
    print(b["id"], "OK" if r0 == 0 and r1 != 0 else "BAD DEMO", r0, r1, "" if r0 == 0 and r1 != 0 else o0[-500:] + o1[-500:])
    if not (r0 == 0 and r1): shutil.rmtree(out)
    shutil.rmtree(d)
