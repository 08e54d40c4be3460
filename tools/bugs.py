#!/usr/bin/env python3
"""Makes and tries planted bugs (development tool; no check uses it).

  bugs.py make FILE.py [ID...]   FILE.py calls B(...) per bug: writes seeded/<id>/,
                                 confirms each in a scratch worktree (builds, stable tests pass, demo)
  bugs.py try ID...|all          applies each to /repo, runs the property's check, undoes it
"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", LANG="C.UTF-8", LC_ALL="C.UTF-8")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
BUGS = {}

DEMO = """#!/bin/bash
# usage: demo.sh, run in the repository; exit 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'find "$t" -depth -delete' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off LANG=C.UTF-8 LC_ALL=C.UTF-8
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo.go.txt"}}' "$PWD" "$d" > "$t/overlay.json"
go test%(flags)s -overlay "$t/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%(pkg)s
"""

# package uax14 lacks a generated file
DEMO14 = """#!/bin/bash
# usage: demo.sh, run in the repository; exit 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'find "$t" -depth -delete' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off LANG=C.UTF-8 LC_ALL=C.UTF-8
mkdir "$t/etc" && cp "$d/LineBreak.txt" "$t/etc/" || exit 3
go build -o "$t/gen" ./uax14/internal/generator && (cd "$t" && GOPATH=$t ./gen > log) || exit 3
printf '{"Replace":{"%%s/uax14/zz_demo_test.go":"%%s/demo.go.txt","%%s/uax14/uax14classes.go":"%%s/uax14classes.go"}}' "$PWD" "$d" "$PWD" "$t" > "$t/overlay.json"
go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./uax14
"""


def linebreak(f):
    n = {}
    for line in open(os.path.join(VERIF, "harness/ref/data/Lb.txt")):
        a, b, c = line.split()
        n[c] = n.get(c, 0) + 1
        if c != "XX" and n[c] <= 60:
            f.write("%04X..%04X;%s\n" % (int(a, 16), int(b, 16), c))


def B(id, prop, pkg, edits, demo, needs, breaks):
    BUGS[id] = (prop, pkg, edits, demo, needs, breaks)


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def stable(wt):
    pk = [p for p in sh(["go", "list", "-e", "./..."], wt).stdout.split() if not p.endswith("/uax14")]
    b = sh(["go", "build"] + pk, wt)
    if b.returncode:
        return "does not build\n" + b.stdout[-2000:]
    ok = set()
    for l in sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "3m"] + pk, wt).stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add(e["Package"] + "/" + e["Test"])
    return "" if STABLE <= ok else "fails stable tests %s" % sorted(STABLE - ok)


def make(ids):
    wt = tempfile.mkdtemp(prefix="bugwt-")
    os.rmdir(wt)
    sh(["git", "-C", "/repo", "worktree", "add", "--detach", wt, "HEAD"], "/")
    try:
        for id, (prop, pkg, edits, demo, needs, breaks) in BUGS.items():
            if ids and id not in ids:
                continue
            sh(["git", "checkout", "-q", "--", "."], wt)
            msg = ""
            for f, old, new in edits:
                p = os.path.join(wt, f)
                s = open(p).read()
                if s.count(old) != 1:
                    msg = "%d matches in %s for %r" % (s.count(old), f, old)
                    break
                open(p, "w").write(s.replace(old, new))
            if msg:
                print(id, "BAD:", msg)
                continue
            d = os.path.join(SEEDED, id)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(sh(["git", "diff"], wt).stdout)
            open(os.path.join(d, "demo.sh"), "w").write((DEMO14 if pkg == "uax14" else DEMO) % {"pkg": pkg, "flags": " -race" if "//RACE" in demo else ""})
            if pkg == "uax14":
                with open(os.path.join(d, "LineBreak.txt"), "w") as f:
                    linebreak(f)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo.go.txt"), "w").write(demo.strip() + "\n")
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            msg = stable(wt) and stable(wt) and stable(wt)  # bidi's tests are flaky
            bad = sh([os.path.join(d, "demo.sh")], wt)
            sh(["git", "checkout", "-q", "--", "."], wt)
            good = sh([os.path.join(d, "demo.sh")], wt)
            if bad.returncode == 0:
                msg += " demo passes with the bug"
            if good.returncode != 0:
                msg += " demo fails without the bug\n" + good.stdout[-1500:]
            if not msg and "--- FAIL" not in bad.stdout and "DATA RACE" not in bad.stdout and "panic" not in bad.stdout:
                msg = "demo fails for another reason\n" + bad.stdout[-1500:]
            print(id, "ok" if not msg else "BAD: " + msg, flush=True)
            if msg:
                shutil.rmtree(d)
    finally:
        sh(["git", "-C", "/repo", "worktree", "remove", "--force", wt], "/")


def tryall(ids):
    missed = []
    for id in ids:
        d = os.path.join(SEEDED, id)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        a = sh(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], "/")
        if a.returncode:
            print(id, "DOES NOT APPLY", a.stdout)
            continue
        try:
            c = subprocess.run(["python3", "check.py", prop, "quick"], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."], "/")
        caught = c.returncode == 1 and "VIOLATION property=%s " % prop in c.stdout
        print(id, prop, "caught" if caught else "MISSED rc=%d" % c.returncode, "|", " ".join(c.stdout.split("\n")[:3])[:250], flush=True)
        if not caught:
            missed.append(id)
    print("missed:", missed)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        exec(compile(open(sys.argv[2]).read(), sys.argv[2], "exec"), {"B": B, "BUGS": BUGS})
        make(sys.argv[3:])
    else:
        tryall(sorted(os.listdir(SEEDED)) if sys.argv[2:] == ["all"] else sys.argv[2:])
