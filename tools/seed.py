#!/usr/bin/env python3
"""seed.py NAME...: makes and verifies planted bugs from tools/seeds/NAME.py (prop, needs, breaks, edits, demo).

Works in a scratch clone; writes seeded/NAME/{patch.diff,demo.sh,main.rs,meta.json}."""
import json, os, runpy, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/seed/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


if not os.path.isdir(R):
    os.makedirs("/tmp/seed", exist_ok=True)
    sh("git clone -q /repo %s" % R)
for n in sys.argv[1:]:
    sh("cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % R)
    s = runpy.run_path(os.path.join(V, "tools/seeds", n + ".py"))
    d = os.path.join(V, "seeded", n)
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(V, "tools/demo.sh"), os.path.join(d, "demo.sh"))
    if s.get("demo_sh"):
        open(os.path.join(d, "demo.sh"), "w").write(s["demo_sh"])
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "main.rs"), "w").write(s["demo"])
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    t = time.time()
    c = sh("bash %s/demo.sh" % d, cwd=R)
    t1 = time.time() - t
    for f, o, new in s["edits"]:
        p = os.path.join(R, f)
        x = open(p).read()
        assert x.count(o) >= 1, (n, "pattern", o)
        if x.count(o) > 1:
            print(n, "pattern x%d, first one" % x.count(o))
        open(p, "w").write(x.replace(o, new, 1))
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE, text=True).stdout)
    b = sh("bash %s/demo.sh" % d, cwd=R)
    e = dict(os.environ, KF_REPO=R, KF_BUILD="/tmp/mut/build")
    k = sh("./check %s" % s["prop"], cwd=V, env=e)
    print("%-24s clean %d (%.0fs)  patched %d   check %s" % (n, c.returncode, t1, b.returncode, {0: "quiet", 1: "CAUGHT"}.get(k.returncode, "ERR")), flush=True)
    if c.returncode != 0:
        print(c.stdout[-1500:])
    if b.returncode in (0, 3):
        print(b.stdout[-1500:])
    elif "-v" in os.environ.get("V", ""):
        print(b.stdout[-600:])
    sh("cd %s && git checkout -q -- ." % R)
