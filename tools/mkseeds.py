#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py and confirms each planted
change in a scratch copy: it builds, the stable tests pass, and its demo fails
with the change and passes without it.
usage: mkseeds.py [id...]"""
import glob, json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
S = []
def seed(id, prop, needs, breaks, edits, demo):
    S.append((id, prop, needs, breaks, edits, demo))
for f in sorted(glob.glob(here + "/seeds/*.py")):
    exec(compile(open(f).read(), f, "exec"))
DEMO = '''#!/bin/bash
# Runs demo_test.go as a test of the package in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
timeout 120 go test -overlay "$t/overlay.json" -vet=off -count=1 -run '^TestDemo$' .
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
want = sys.argv[1:]
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
env = ". /opt/vp/env.sh >/dev/null 2>&1; "
bad = 0
for id, prop, needs, breaks, edits, demo in S:
    if want and id not in want: continue
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        w = tmp + "/repo"
        sh("git -C /repo worktree prune; cp -a /repo " + w, "/")
        out = os.path.join(root, "seeded", id)
        os.makedirs(out, exist_ok=True)
        body = demo if demo.lstrip().startswith("package") else demo
        open(out + "/demo_test.go", "w").write(body)
        sh("gofmt -w demo_test.go", out)
        open(out + "/demo.sh", "w").write(DEMO)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % out, w)
        msgs = []
        if r0.returncode != 0: msgs.append("demo fails on the unchanged tree:\n" + r0.stdout[-1500:])
        for fn, old, new in edits:
            p = w + "/" + fn
            s = open(p).read()
            if s.count(old) != 1: msgs.append("%s: %d matches of %r" % (fn, s.count(old), old)); continue
            open(p, "w").write(s.replace(old, new))
        sh("gofmt -l .", w)
        d = sh("git diff", w).stdout
        open(out + "/patch.diff", "w").write(d)
        # the lines the change removes are lines of the original repository
        base = sh("git rev-list --max-parents=0 HEAD", w).stdout.split()[0]
        for fn in {e[0] for e in edits}:
            hunks = sh("git diff -U0 -- " + fn, w).stdout
            import re as _re
            n = o = 0
            for m in _re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hunks, _re.M):
                a, c = int(m.group(1)), int(m.group(2) or 1)
                if c == 0: continue
                bl = sh("git blame -s -l -L %d,%d HEAD -- %s" % (a, a + c - 1, fn), w).stdout.splitlines()
                n += len(bl); o += sum(1 for l in bl if l.lstrip("^").startswith(base[:39]) or l.startswith("^"))
            if n and o < n: msgs.append("%s: only %d of %d removed lines are original" % (fn, o, n))
        b = sh(env + "go build ./... && go vet . >/dev/null 2>&1; go build ./...", w)
        if b.returncode: msgs.append("does not build: " + b.stdout[-800:])
        t = sh(env + "go test -vet=off -count=1 ./... 2>&1 | tail -30", w)
        if "FAIL" in t.stdout: msgs.append("tests: " + t.stdout[-1500:])
        r1 = sh("bash %s/demo.sh" % out, w)
        if r1.returncode == 0: msgs.append("demo passes with the change")
        print(id, prop, "OK" if not msgs else "BAD")
        for m in msgs: print("   ", m); bad = 1
        if msgs: shutil.rmtree(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
sys.exit(bad)
