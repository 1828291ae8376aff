#!/usr/bin/env python3
"""Author / verify planted bugs.
  seed.py make SPEC   SPEC: python file defining id, property, needs, breaks, edits=[(file, old, new)], pkg, demo (Go test source), race(optional)
  seed.py verify [ID..]  check every seeded bug: builds, stable tests pass, demo ok on clean tree, fails with patch, checks catch it
"""
import sys, os, re, json, shutil, subprocess
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
DEMO = '''#!/bin/bash
# demonstration: fails when the property is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cat > "$t/overlay.json" <<J
{"Replace": {"$PWD/%(pkg)s/zz_seed_demo_test.go": "$d/demo_test.go"%(more)s}}
J
timeout 250 go test -vet=off -count=1 %(flags)s -overlay "$t/overlay.json" -run '^TestSeedDemo$' ./%(pkg)s
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, shell=isinstance(cmd, str), **k)
def scratch():
    d = "/tmp/seedscratch.%d" % os.getpid()
    if os.path.exists(d): shutil.rmtree(d)
    shutil.copytree("/repo", d)
    return d
def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = scratch()
    try:
        for f, o, n in ns["edits"]:
            p = os.path.join(d, f); s = open(p).read()
            assert s.count(o) == 1, (f, s.count(o), o)
            open(p, "w").write(s.replace(o, n))
        out = os.path.join(root, "seeded", ns["id"]); os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(sh("git diff", cwd=d).stdout)
    finally:
        shutil.rmtree(d)
    open(os.path.join(out, "demo_test.go"), "w").write(ns["demo"].lstrip())
    open(os.path.join(out, "demo.sh"), "w").write(DEMO % dict(pkg=ns["pkg"], more=', "$PWD/waiter/waiter_test.go": ""' if ns["pkg"] == "waiter" else "", flags=ns.get("flags", "")))
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    verify([ns["id"]])
def verify(ids):
    base = json.load(open("/opt/vp/BASELINE.json"))
    for i in ids:
        s = os.path.join(root, "seeded", i); d = scratch()
        try:
            res = []
            r = sh(["bash", os.path.join(s, "demo.sh")], cwd=d); res.append("clean-demo:%s" % ("ok" if r.returncode == 0 else "BAD"))
            if r.returncode: print(r.stdout[-1500:], r.stderr[-1500:])
            r = sh(["git", "apply", os.path.join(s, "patch.diff")], cwd=d); res.append("apply:%s" % ("ok" if r.returncode == 0 else "BAD " + r.stderr))
            r = sh("go build ./delivery ./transports ./waiter && go vet ./delivery 2>/dev/null; go test -count=1 ./delivery ./transports ./waiter 2>&1 | tail -30", cwd=d)
            bad = re.findall(r"--- FAIL: (\S+)", r.stdout) + (["build"] if "build failed" in r.stdout or "cannot" in r.stderr else [])
            res.append("tests:%s" % ("ok" if not bad else "BAD " + " ".join(bad)))
            fails = 0
            for _ in range(3):
                r = sh(["bash", os.path.join(s, "demo.sh")], cwd=d); fails += r.returncode != 0
            res.append("patched-demo fails %d/3" % fails)
            if "panic: test timed out" in r.stdout: res.append("(timeout)")
            if "[build failed]" in r.stdout: res.append("BUILD FAILED " + r.stdout[:800])
            o = d + ".out"; os.makedirs(o, exist_ok=True)
            if os.path.exists(root + "/known_findings.txt"): shutil.copy(root + "/known_findings.txt", o)
            r = sh([root + "/.bin/chk", "-prop", os.environ.get("PROP", "all"), "-repo", d, "-out", o])
            want = json.load(open(os.path.join(s, "meta.json")))["property"]
            hits = re.findall(r"^VIOLATION property=(\S+)", r.stdout, re.M)
            res.append("checks: %s%s" % (" ".join(hits) or "-", "" if want in hits else "  MISSED " + want))
            shutil.rmtree(o)
            print(i, "|", " | ".join(res))
        finally:
            shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    if sys.argv[1] == "make":
        for s in sys.argv[2:]: make(s)
    else:
        ids = sys.argv[2:] or sorted(x for x in os.listdir(os.path.join(root, "seeded")) if os.path.isdir(os.path.join(root, "seeded", x)))
        verify(ids)
