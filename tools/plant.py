#!/usr/bin/env python3
"""Make a planted bug from a spec and confirm it.

  plant.py SPEC.py...    SPEC sets ID, PROP, NEEDS, BREAKS, EDITS, PKG, TEST
  plant.py --check ID... run the property's check against an existing one

The spec's edits become patch.diff, its Go test becomes the demonstration (run
as an extra test file of the package PKG through an overlay). Confirms: builds,
stable tests pass, demo passes without and fails with the patch; then tells
whether the property's check catches it. Works in a worktree under /tmp.
"""
import json, os, re, shutil, subprocess, sys, tempfile

V = "/verif"
DEMO = """#!/bin/bash
# Runs the demonstration as a test of %(pkg)s; the cwd is the repository.
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=$PATH:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/planted_demo_test.go" "$d/demo_test.go" >"$t/overlay.json"
%(pre)sgo test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestDemo' ./%(pkg)s
"""


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GO111MODULE="on")
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)


def worktree():
    w = tempfile.mkdtemp(prefix="plant-")
    sh("git -C /repo archive HEAD | tar x -C %s; cp /repo/go.mod /repo/go.sum %s/; cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (w, w, w), "/")
    return w


def stable(w):
    r = sh("go test -json -vet=off -count=1 -cpu 1 -timeout 10m ./... >/%s.json" % w, w)
    p = set()
    for l in open("/%s.json" % w):
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("Action") in ("fail",):
            p.add(d.get("Package", "") + " " + d.get("Test", ""))
    os.remove("/%s.json" % w)
    return sorted(p)


def run_check(w, prop, seed=1):
    o = tempfile.mkdtemp(prefix="plant-out-")
    r = sh("./check %s" % prop, V, dict(VERIF_REPO=w, VERIF_OUT=o, VERIF_SEED=str(seed), VERIF_TIER="quick"))
    shutil.rmtree(o, ignore_errors=True)
    caught = r.returncode == 1 and ("VIOLATION property=" + prop) in r.stdout
    return caught, r


def main():
    args = sys.argv[1:]
    if args and args[0] == "--check":
        ids = args[1:] or sorted(os.listdir(V + "/seeded"))
        for i in ids:
            d = V + "/seeded/" + i
            prop = json.load(open(d + "/meta.json"))["property"]
            w = worktree()
            r = sh("git apply %s/patch.diff" % d, w)
            if r.returncode:
                print(i, "DOES NOT APPLY", r.stdout)
            else:
                c, r = run_check(w, prop)
                print(i, prop, "caught" if c else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:] if r.returncode not in (0, 1) else ""), flush=True)
            shutil.rmtree(w)
        return
    for spec in args:
        s = {"PRE": ""}
        exec(open(spec).read(), s)
        w = worktree()
        try:
            d = V + "/seeded/" + s["ID"]
            for f, old, new in s["EDITS"]:
                t = open(w + "/" + f).read()
                if t.count(old) != 1:
                    print(s["ID"], "EDIT matches %d times in %s: %r" % (t.count(old), f, old))
                    raise SystemExit(1)
                open(w + "/" + f, "w").write(t.replace(old, new))
            sh("gofmt -l . ", w)
            diff = sh("git diff", w).stdout
            sh("git stash -q", w)
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.sh", "w").write(DEMO % dict(pkg=s["PKG"], pre=s["PRE"]))
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo_test.go", "w").write(s["TEST"].lstrip())
            json.dump(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]),
                      open(d + "/meta.json", "w"), indent=1)
            ok = True
            orig = False
            for f, old, new in s["EDITS"]:
                b = sh("git -C /repo blame -s -- %s" % f, "/").stdout.splitlines()
                lines = set(old.splitlines()) - set(new.splitlines())
                for x in b:
                    m = re.match(r"(\^?)([0-9a-f]+) +\d+\) ?(.*)", x)
                    if m and m.group(3) in lines and (m.group(1) or m.group(2).startswith("baedfed")):
                        orig = True
            r = sh("bash %s/demo.sh" % d, w)
            if r.returncode:
                ok = False
                print(s["ID"], "DEMO FAILS ON CLEAN TREE", r.stdout[-1500:])
            sh("git apply %s/patch.diff" % d, w)
            r = sh("go build ./... && go vet ./... 2>/dev/null; go build ./...", w)
            if r.returncode:
                ok = False
                print(s["ID"], "DOES NOT BUILD", r.stdout[-1500:])
            bad = stable(w)
            if bad:
                ok = False
                print(s["ID"], "TESTS FAIL", bad[:5])
            r = sh("bash %s/demo.sh" % d, w)
            if r.returncode == 0:
                ok = False
                print(s["ID"], "DEMO PASSES WITH THE PATCH", r.stdout[-800:])
            elif "FAIL" not in r.stdout:
                ok = False
                print(s["ID"], "DEMO ODD", r.stdout[-800:])
            if not ok:
                shutil.rmtree(d)
                continue
            c, r = run_check(w, s["PROP"])
            if not orig:
                shutil.rmtree(d)
                print(s["ID"], "(changes no original line, not kept)", end=" ")
            print(s["ID"], s["PROP"], "CAUGHT" if c else "MISSED rc=%d %s" % (r.returncode, r.stdout[-400:]), flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
