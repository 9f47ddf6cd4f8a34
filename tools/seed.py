#!/usr/bin/env python3
"""seed.py DIR: (re)creates and validates a planted bug.
DIR holds edit.py-style 'edits.json' ([file, old, new]...) or patch.diff, demo_test.go, meta.json.
Checks in a scratch copy: builds, stable tests pass, demo passes without / fails with the patch."""
import json, os, shutil, subprocess, sys, tempfile

DEMO = '''#!/bin/bash
# run in /repo: exit 0 if the property holds in this scenario
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off%s
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go" "$tmp/demo_test.go"
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%s/zz_demo_test.go" "$tmp/demo_test.go" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo' %s ./%s
'''


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)


def main(d):
    d = os.path.abspath(d)
    meta = json.load(open(os.path.join(d, "meta.json")))
    pkg = meta.pop("_pkg", None)
    if pkg:
        flags = "-race" if meta.pop("_race", False) else ""
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(DEMO % ("" if not meta.pop("_synctest", False) else " GOEXPERIMENT=synctest", pkg, flags, pkg))
        json.dump(meta, open(os.path.join(d, "meta.json"), "w"), indent=1)
    w = tempfile.mkdtemp(prefix="seedwt")
    try:
        r = os.path.join(w, "repo")
        sh("git clone -q /repo %s" % r, "/")
        env = dict(os.environ, PATH="/opt/veriftools/go1.24.13/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
        ed = os.path.join(d, "edits.json")
        if os.path.exists(ed):
            for f, old, new in json.load(open(ed)):
                p = os.path.join(r, f)
                s = open(p).read()
                assert s.count(old) == 1, (f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            sh("gofmt -l . > /dev/null", r, env)
            diff = sh("git diff", r).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            sh("git checkout -- .", r)
            os.remove(ed)
        x = sh("bash %s/demo.sh" % d, r, env)
        if x.returncode != 0:
            print("DEMO FAILS ON UNCHANGED TREE\n", x.stdout[-3000:])
            return 1
        y = sh("git apply %s/patch.diff" % d, r)
        if y.returncode:
            print("PATCH DOES NOT APPLY", y.stdout)
            return 1
        y = sh("go build ./... && go vet ./srpc ./rpcstream && go test -count=1 ./...", r, env)
        if y.returncode:
            print("BUILD/TESTS FAIL WITH PATCH\n", y.stdout[-3000:])
            return 1
        x = sh("bash %s/demo.sh" % d, r, env)
        if x.returncode == 0:
            print("DEMO PASSES WITH PATCH")
            return 1
        print("ok", os.path.basename(d), meta["property"], "|", [l for l in x.stdout.splitlines() if "demo" in l or "panic" in l][:2])
        return 0
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(max(main(x) for x in sys.argv[1:]))
