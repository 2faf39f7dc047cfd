#!/usr/bin/env python3
"""mkseed.py <id>: turn the current uncommitted change in /repo into seeded/<id>/patch.diff and
confirm it (builds, stable tests pass, demo fails with it and passes without it); demo.sh and
meta.json must already be in seeded/<id>.  --notest skips the test run."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid = sys.argv[1]
D = V + "/seeded/" + sid
meta = json.load(open(D + "/meta.json"))


def run(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def fail(m):
    print("REJECT", sid, m)
    sys.exit(1)


if "--recheck" not in sys.argv:
    d = run("git -C /repo diff").stdout
    if not d.strip():
        fail("no change in /repo")
    open(D + "/patch.diff", "wb").write(d)
else:
    r = run("git -C /repo apply %s/patch.diff" % D)
    if r.returncode:
        fail("does not apply: " + r.stdout.decode()[:300])
try:
    r = run("bash /opt/vp/build.sh")
    if r.returncode:
        fail("does not build\n" + r.stdout.decode()[-1500:])
    r = run("bash %s/demo.sh" % D, cwd="/repo", timeout=300)
    print("demo with:", r.returncode, r.stdout.decode(errors="replace")[-200:])
    if r.returncode == 0:
        fail("demo passes with the change")
    if "--notest" not in sys.argv:
        r = run("bash /opt/vp/test.sh /tmp/seed-out.json")
        o = json.load(open("/tmp/seed-out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("passed") or base.get("stable") or base.get("tests")
        miss = set(stable) - set(o["passed"])
        if miss:
            fail("tests fail: %d %s" % (len(miss), sorted(miss)[:6]))
    c = run("cd %s && python3 engine/check.py %s" % (V, meta["property"]))
    print("check:", c.returncode, c.stdout.decode(errors="replace")[-700:])
finally:
    run("git -C /repo checkout -- .")
    run("bash /opt/vp/build.sh")
r = run("bash %s/demo.sh" % D, cwd="/repo", timeout=300)
print("demo without:", r.returncode, r.stdout.decode(errors="replace")[-300:] if r.returncode else "")
if r.returncode:
    fail("demo fails without the change")
print("OK", sid, "CAUGHT" if c.returncode == 1 else "MISSED")
