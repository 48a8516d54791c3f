#!/usr/bin/env python3
"""Plants bugs: plant.py SPECS.py [id...] builds /verif/seeded/<id>/ from each
spec, confirms it (builds, stable tests pass, demo passes without and fails
with it) and runs the property's quick check against it.
plant.py --recheck [id...] only runs the quick checks of the planted bugs again.
A spec is plant(id, prop, needs, breaks, [(file, old, new)...], demo_go)."""
import json, os, subprocess, sys, shutil, tempfile
REPO, SEED = "/repo", "/verif/seeded"
GO_PRE = 'package main\n\nimport (\n\t"fmt"\n\t"os"\n%s)\n\nfunc fail(f string, a ...interface{}) {\n\tfmt.Printf(f+"\\n", a...)\n\tos.Exit(1)\n}\n\n'
DEMO = '''#!/bin/bash
# Run in /repo: exit 0 if the property holds, nonzero if it is broken.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
dir="$(mktemp -d)" || exit 0
cp "$here"/main.go.txt "$dir"/main.go
cat >"$dir"/go.mod <<E
module demo

go 1.21

require github.com/google/licensecheck v0.0.0

replace github.com/google/licensecheck => $repo
E
cd "$dir" || exit 0
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
exec go run %s .
'''
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
specs = {}
def plant(id, prop, needs, breaks, edits, demo, imports=(), flags="", sh=None, files=None):
    assert id not in specs, id
    specs[id] = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, imports=imports, flags=flags, sh=sh, files=files or {})
def run(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", **kw)
def clean():
    run(["git", "-C", REPO, "checkout", "--", "."])
    assert run(["git", "-C", REPO, "status", "--short"]).stdout == "", "repo not clean"
def demo(id):
    with tempfile.TemporaryDirectory() as t:
        d = os.path.join(t, "elsewhere")
        shutil.copytree(os.path.join(SEED, id), d, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        env = dict(os.environ, TMPDIR=t)
        try:
            r = run(["bash", d + "/demo.sh"], cwd=REPO, env=env, timeout=300)
        except subprocess.TimeoutExpired:
            return -1, "timeout"
        run(["chmod", "-R", "u+w", t])
        return r.returncode, r.stdout + r.stderr
def check(prop):
    r = run(["./check.sh", prop, "quick"], cwd="/verif", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % prop)]
    if r.returncode == 1 and viol:
        kinds = [l for l in r.stdout.splitlines() if l.startswith("  ")]
        return "caught", (kinds or [""])[0][:150]
    return ("MISSED" if r.returncode == 0 else "BROKEN%d" % r.returncode), (r.stdout + r.stderr)[-300:] if r.returncode else ""
def one(s):
    d = os.path.join(SEED, s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    clean()
    for (f, old, new) in s["edits"]:
        p = os.path.join(REPO, f)
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            return "edit of %s matches %d times: %r" % (f, n, old[:60])
        open(p, "w").write(t.replace(old, new))
    patch = run(["git", "-C", REPO, "diff"]).stdout
    clean()
    open(d + "/patch.diff", "w").write(patch)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if s["sh"]:
        open(d + "/demo.sh", "w").write(s["sh"])
    else:
        open(d + "/demo.sh", "w").write(DEMO % s["flags"])
        body = s["demo"]
        if "package main" not in body:
            imp = "".join('\t%s\n' % (i if '"' in i else '"%s"' % i) for i in s["imports"])
            if "lc." in body:
                imp += '\n\tlc "github.com/google/licensecheck"\n'
            body = GO_PRE % imp + body
        open(d + "/main.go.txt", "w").write(body)
    for n, c in s["files"].items():
        open(d + "/" + n, "w").write(c)
    os.chmod(d + "/demo.sh", 0o755)
    rc, out = demo(s["id"])
    if rc != 0:
        return "demo fails on the clean tree: %s" % out[-1500:]
    return confirm(s["id"], s["prop"], True)
def confirm(id, prop, full):
    clean()
    try:
        r = run(["git", "-C", REPO, "apply", os.path.join(SEED, id, "patch.diff")])
        if r.returncode:
            return "patch does not apply: " + r.stderr
        if full:
            r = run(["bash", "/opt/vp/build.sh"])
            if r.returncode:
                return "build fails: " + (r.stdout + r.stderr)[-800:]
            run(["bash", "/opt/vp/test.sh", "/tmp/p/o.json"])
            o = json.load(open("/tmp/p/o.json"))
            bad = STABLE - set(o["passed"])
            if bad:
                return "existing tests fail: %s" % sorted(bad)[:5]
            rc, out = demo(id)
            if rc == 0:
                return "demo passes with the patch: " + out[-500:]
            open("/tmp/p/%s.demo" % id, "w").write(out)
        st, msg = check(prop)
        return "%s %s" % (st, msg)
    finally:
        clean()
def record(id, prop, res):
    f = "/verif/tools/detected.json"
    t = json.load(open(f)) if os.path.exists(f) else {}
    t[id] = {"property": prop, "result": res.split(" ", 1)[0], "how": res.split(" ", 1)[-1].strip().split(": ")[0][:90]}
    json.dump({k: t[k] for k in sorted(t) if os.path.isdir(os.path.join(SEED, k))}, open(f, "w"), indent=1, ensure_ascii=False)
def main():
    args = sys.argv[1:]
    if args[0] == "--recheck":
        ids = args[1:] or sorted(os.listdir(SEED))
        for id in ids:
            m = json.load(open(os.path.join(SEED, id, "meta.json")))
            res = confirm(id, m["property"], False)
            record(id, m["property"], res)
            print(id, m["property"], res, flush=True)
        return
    exec(open(args[0]).read(), globals())
    ids = args[1:] or list(specs)
    for id in ids:
        res = one(specs[id])
        ok = res.startswith(("caught", "MISSED", "BROKEN"))
        print(id, specs[id]["prop"], res, flush=True)
        if ok:
            record(id, specs[id]["prop"], res)
        else:
            shutil.rmtree(os.path.join(SEED, id), ignore_errors=True)
main()
