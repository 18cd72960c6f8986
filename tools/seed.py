#!/usr/bin/env python3
"""Make and confirm one planted bug: seed.py SPEC.json
SPEC: {"id","property","needs","what_it_breaks","edits":[{"file","old","new"}],"main": go source of the demonstration}
Confirms in a scratch copy: applies, builds, stable tests pass, demo 0 without and nonzero with the patch."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds on this tree; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src/github.com/vipally" "$t/src/demo"
ln -s "$repo" "$t/src/github.com/vipally/gx"
cp "$here/main.go" "$t/src/demo/"
cd "$t/src/demo" || exit 2
unset GOFLAGS
export GOPATH=$t GO111MODULE=off GOTOOLCHAIN=local
timeout 200 go run %s.
'''
def run(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr
def stable(repo):
    base = json.load(open("/opt/vp/BASELINE.json"))
    return base
def main():
    for spec in sys.argv[1:]:
        one(json.load(open(spec)))
def one(s):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/main.go", "w").write(s["main"])
    open(d + "/demo.sh", "w").write(DEMO % s.get("goflags", ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
    w = tempfile.mkdtemp(prefix="gxseed.")
    try:
        run("git clone -q /repo %s/gx" % w)
        g = w + "/gx"
        rc, out = run("bash %s/demo.sh" % d, cwd=g)
        if rc != 0:
            print(s["id"], "DEMO FAILS ON CLEAN TREE", out[-1500:]); return
        base = run("git rev-list --max-parents=0 HEAD", cwd=g)[1].strip()
        for e in s["edits"]:
            p = g + "/" + e["file"]
            t = open(p).read()
            if t.count(e["old"]) != 1:
                print(s["id"], "edit matches %d times in %s" % (t.count(e["old"]), e["file"])); return
            open(p, "w").write(t.replace(e["old"], e["new"]))
            rc, o = run("git show %s:'%s'" % (base, e["file"]), cwd=g)
        rc, diff = run("git diff", cwd=g)
        open(d + "/patch.diff", "w").write(diff)
        # are removed lines original?
        for line in diff.splitlines():
            if line.startswith("-") and not line.startswith("---") and line[1:].strip():
                f = s["edits"][0]["file"]
                ok = any(line[1:] in run("git show %s:'%s'" % (base, e["file"]), cwd=g)[1].split("\n") for e in s["edits"])
                if not ok:
                    print(s["id"], "NOTE: removed line is not an original line:", line)
        rc, out = run("bash %s/demo.sh" % d, cwd=g)
        if rc == 0:
            print(s["id"], "DEMO PASSES WITH THE BUG"); return
        # build and tests on /repo itself with the patch applied, undone straight afterwards
        rc, o = run("git -C /repo apply %s/patch.diff" % d)
        if rc != 0:
            print(s["id"], "does not apply", o); return
        try:
            rb, ob = run("bash /opt/vp/build.sh")
            rt, ot = run("bash /opt/vp/test.sh %s/out.json" % w)
            res = json.load(open(w + "/out.json"))
        finally:
            run("git -C /repo checkout -- .")
            run("bash /opt/vp/build.sh")
        base = json.load(open("/opt/vp/BASELINE.json"))
        bad = missing(base, res)
        print(s["id"], "OK" if rb == 0 and not bad else "BUILD/TEST PROBLEM %s %s" % (rb, bad), "| demo says:", out.strip().splitlines()[-1][:160] if out.strip() else rc)
    finally:
        shutil.rmtree(w, ignore_errors=True)
def missing(base, res):
    def names(x):
        for k in ("stable", "passed", "pass", "tests"):
            if isinstance(x, dict) and k in x:
                return set(x[k])
        return set()
    return sorted(names(base) - names(res))
main()
