#!/usr/bin/env python3
"""seed.py new ID  : turns /tmp/seed/ID (files: edit.py patching cwd, demo_test.go, pkg, meta.json) into seeded/ID
   seed.py check ID: confirms a planted bug in a scratch copy (builds, tests pass, demo 0 without / nonzero with)
   seed.py hit ID [quick]  : applies it to /repo, runs the property's check, undoes it"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
ENV = dict(os.environ, GOENV="off", GOWORK="off", GO111MODULE="on", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", HOME="/root")

DEMO = '''#!/bin/bash
# Runs the demonstration test beside this file inside package PKG of the tree in cwd.
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOENV=off GOWORK=off GO111MODULE=on GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
o=$(mktemp -d) || exit 3
trap 'rm -rf "$o"' EXIT
printf '{"Replace": {"%s/PKG/zz_seeded_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$d" > "$o/overlay.json"
go test -overlay "$o/overlay.json" -vet=off -count=1 -timeout 120s -run 'TestSeededDemo' ./PKG
'''

def sh(cmd, cwd="/repo", timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def copy():
    t = tempfile.mkdtemp(prefix="seedcopy")
    sh("cp -a /repo %s/repo" % t)
    return t, t + "/repo"

def check(i):
    d = "%s/seeded/%s" % (V, i)
    t, r = copy()
    try:
        rc, out = sh("bash %s/demo.sh" % d, r)
        if rc != 0: print(out[-3000:]); return "demo fails on the unchanged tree"
        rc, out = sh("git apply %s/patch.diff" % d, r)
        if rc != 0: print(out); return "patch does not apply"
        rc, out = sh("go build ./...", r)
        if rc != 0: print(out); return "does not build"
        rc, out = sh("bash %s/demo.sh" % d, r)
        if rc == 0: return "demo passes with the patch"
        print("demo with patch:\n", out[-900:])
        base = json.load(open("/opt/vp/BASELINE.json"))
        sed = open("/opt/vp/test.sh").read()
        script = sed.replace("cd /repo", "cd " + r)
        open(t + "/test.sh", "w").write(script)
        for attempt in range(2):
            rc, out = sh("bash %s/test.sh %s/out.json" % (t, t), r)
            res = json.load(open(t + "/out.json"))
            if rc == 0: break
        if rc != 0: print(out[-2500:]); return "tests fail"
        rc, out = sh("git diff --stat", r)
        print(out)
        return "OK"
    finally:
        shutil.rmtree(t)

def hit(i, tier="quick"):
    d = "%s/seeded/%s" % (V, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    rc, out = sh("git apply %s/patch.diff" % d, "/repo")
    if rc: print(out); return
    try:
        rc, out = sh("python3 run_check.py %s %s" % (prop, tier), V, 1000)
    finally:
        sh("git checkout -- .", "/repo")
    print(i, prop, "rc", rc); print("\n".join([l for l in out.splitlines() if "VIOL" in l or "fail" in l.lower()][-12:]))

if sys.argv[1] == "new":
    for i in sys.argv[2:]:
        s = "/tmp/seed/" + i; d = "%s/seeded/%s" % (V, i)
        t, r = copy()
        try:
            rc, out = sh("python3 %s/edit.py" % s, r)
            if rc: print(out); continue
            rc, out = sh("gofmt -l $(git diff --name-only)", r)
            if out.strip(): print("not gofmt'd", out)
            rc, diff = sh("git diff", r)
        finally:
            shutil.rmtree(t)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        shutil.copy(s + "/demo_test.go", d + "/demo_test.go")
        shutil.copy(s + "/meta.json", d + "/meta.json")
        open(d + "/demo.sh", "w").write(DEMO.replace("PKG", open(s + "/pkg").read().strip()))
        print(i, check(i))
elif sys.argv[1] == "check":
    for i in sys.argv[2:]: print(i, check(i))
elif sys.argv[1] == "hit":
    for i in sys.argv[2:]: hit(i)
