#!/usr/bin/env python3
"""Plant a bug: tools/seed.py ID PROPERTY TESTDIR  (development aid)

Takes the uncommitted change in the scratch copy /tmp/w (made with
tools/seed.py new), confirms that it builds, passes the stable tests and that
the demonstration /tmp/demo_test.go (package directory TESTDIR) passes without
and fails with it, and stores it under /verif/seeded/ID.  meta.json's needs and
what_it_breaks come from the first two comment lines of the demonstration.
"""
import json, os, shutil, subprocess, sys

W = os.environ.get("SEED_W", "/tmp/w")


def sh(cmd, cwd=W, **kw):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, **kw)


def new():
    shutil.rmtree(W, ignore_errors=True)
    sh("cp -a /repo /tmp/w", cwd="/")


DEMO = """#!/bin/bash
# Runs demo_test.go beside this script as a test of %(pkg)s of the tree in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
r=$PWD
printf '{"Replace":{"%%s/%(dir)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$r" "$d" > "$t/o.json"
cd "%(mod)s" && go test -vet=off -overlay "$t/o.json" -count=1 -run '^TestZZDemo$' "%(pkg)s"
"""


def main():
    if sys.argv[1] == "new":
        return new()
    id, prop, d = sys.argv[1:4]
    mod = "."
    pkg = "./" + d
    for m in ("cmd/tachograph", "tools"):
        if d == m or d.startswith(m + "/"):
            mod, pkg = m, "./" + os.path.relpath(d, m)
    out = "/verif/seeded/" + id
    diff = sh("git diff").stdout
    assert diff, "no change"
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    src = open("/tmp/demo_test.go").read()
    open(out + "/demo_test.go", "w").write(src)
    ls = [l[2:].strip() for l in src.split("\n") if l.startswith("//")][:2]
    json.dump({"property": prop, "needs": ls[0], "what_it_breaks": ls[1]}, open(out + "/meta.json", "w"), indent=1)
    open(out + "/demo.sh", "w").write(DEMO % dict(pkg=pkg, dir=d, mod=mod))
    os.chmod(out + "/demo.sh", 0o755)
    ok = True
    try:
        r = sh("go build ./... && (cd cmd/tachograph && go build -o /dev/null ./...) && (cd tools && go build -o /dev/null ./...)")
        assert r.returncode == 0, "build: " + r.stderr
        r = sh("bash %s/demo.sh" % out)
        assert r.returncode != 0, "demo passes with the change:\n" + r.stdout
        assert "FAIL" in r.stdout and "build failed" not in r.stdout, r.stdout + r.stderr
        print(r.stdout[:600])
        r = sh("bash %s/demo.sh" % out, cwd="/repo")
        assert r.returncode == 0, "demo fails on /repo:\n" + r.stdout + r.stderr
        # stable tests, on a copy of the module tree
        fails = []
        for m in (".", "cmd/tachograph", "tools"):
            r = sh("go test -vet=off -count=1 ./... 2>&1 | grep -E '^(---|\\s+---) FAIL|^FAIL' ", cwd=os.path.join(W, m))
            fails += r.stdout.split("\n") if r.stdout.strip() else []
        assert not fails, "tests fail: %s" % fails
        r = sh("git apply --check %s/patch.diff" % out, cwd="/repo")
        assert r.returncode == 0, r.stderr
    except AssertionError as e:
        ok = False
        print("REJECTED", e)
        shutil.rmtree(out)
    sh("git checkout -- .")
    if ok:
        print("planted", id)
    return 0 if ok else 1


sys.exit(main())
