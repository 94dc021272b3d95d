#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the list of planted bugs in bugs.py, and verifies each one in a scratch copy of /repo:
it applies, builds, passes the stable tests, and its demonstration fails with it and passes without it.
usage: make.py [id ...]"""
import json, os, subprocess, sys, shutil, tempfile, difflib
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from bugs import BUGS
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", HOME="/root", GOWORK="off")
DEMO = '''#!/bin/bash
# exit 0: the property holds for the input of this demonstration
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp "$here/demo.go.txt" "$t/main.go"
printf 'module demo\\n\\ngo 1.21\\n\\nrequire github.com/twuillemin/modes v0.0.0\\n\\nreplace github.com/twuillemin/modes => %s\\n' "$repo" >"$t/go.mod"
cd "$t" || exit 3
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=__CGO__
__RUN__
'''
RUN = 'go build -o "$t/demo" . || exit 3\nREPO="$repo" "$t/demo"\n'
def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def tests(cwd):
    out = sh("go test -json -vet=off -count=1 ./...", cwd).stdout
    p = set()
    for l in out.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): p.add(e["Package"] + "/" + e["Test"])
    return p
want = sys.argv[1:]
scratch = tempfile.mkdtemp(prefix="seed")
try:
    sh("git clone -q /repo r", scratch)
    r = scratch + "/r"
    base = tests(r)
    print("tests on the unchanged tree:", len(base))
    ids = [b["id"] for b in BUGS]
    assert len(set(ids)) == len(ids)
    for b in BUGS:
        if want and b["id"] not in want: continue
        sh("git checkout -q -- . && git clean -qfd", r)
        problems = []
        for f, old, new in b["edits"]:
            s = open(os.path.join(r, f)).read()
            if s.count(old) != 1: problems.append(f"{f}: text found {s.count(old)} times: {old[:50]}")
            s = s.replace(old, new)
            open(os.path.join(r, f), "w").write(s)
        d = "/verif/seeded/" + b["id"]
        os.makedirs(d, exist_ok=True)
        sh("git diff > " + d + "/patch.diff", r)
        gone = [l[1:] for l in open(d + "/patch.diff", errors="replace") if l.startswith("-") and not l.startswith("---")]
        orig = "".join(sh("git show 971606d:" + f, r).stdout for f in {e[0] for e in b["edits"]}).splitlines(True)
        if not any(l in orig for l in gone): problems.append("changes no line of the original repository")
        fmt = sh("gofmt -l $(git diff --name-only)", r).stdout.strip()
        clean = sh("git stash -q; gofmt -l .; git stash pop -q", r).stdout.split()
        fmt = " ".join(x for x in fmt.split() if x not in clean)
        if fmt: problems.append("gofmt: " + fmt)
        open(d + "/demo.go.txt", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO.replace("__CGO__", "1" if "-race" in b.get("run", "") else "0").replace("__RUN__", b.get("run", RUN)))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        x = sh("go build ./...", r)
        if x.returncode: problems.append("build: " + x.stdout[:500])
        t = tests(r)
        if base - t: problems.append("tests fail: " + str(sorted(base - t)[:5]))
        y = sh("bash " + d + "/demo.sh", r)
        if y.returncode in (0, 3): problems.append(f"demo with the change: {y.returncode} {y.stdout[-300:]}")
        sh("git checkout -q -- .", r)
        z = sh("bash " + d + "/demo.sh", r)
        if z.returncode: problems.append(f"demo on the unchanged tree: {z.returncode} {z.stdout[-400:]}")
        print(b["id"], b["property"], "OK" if not problems else "PROBLEM " + "; ".join(problems), "|", y.stdout.strip()[-110:].replace("\n", " / "))
finally:
    shutil.rmtree(scratch)
