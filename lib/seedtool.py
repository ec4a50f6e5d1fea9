#!/usr/bin/env python3
"""Development tool for /verif/seeded (no check uses it).
   seedtool.py add SPEC.py     SPEC defines S = [dict(id, prop, needs, breaks, edits=[(file, old, new)...], demo=C text)]
   seedtool.py test [ID...]    applies each patch to /repo, builds, runs the stable tests, the demo and the property's check, and reverts"""
import json, os, shutil, subprocess, sys
R, V = os.environ.get("SEED_REPO", "/repo"), "/verif"
HELP = os.path.join(V, "lib", "seed_demo")
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def revert(): sh("git -C %s checkout -- ." % R)
def add(spec):
    g = {}; exec(open(spec).read(), g)
    assert not sh("git -C %s status --porcelain" % R).stdout.strip()
    ids = []
    for s in g["S"]:
        d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(R, f); t = open(p).read(); assert t.count(old) == 1, (s["id"], f, t.count(old), old); open(p, "w").write(t.replace(old, new))
            open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % R).stdout)
        finally: revert()
        open(os.path.join(d, "demo.c"), "w").write('#include "demo.h"\nstatic void test(void)\n{\n' + s["demo"].strip("\n") + "\n}\n" if "static void test" not in s["demo"] else '#include "demo.h"\n' + s["demo"])
        x = "_oom" if s.get("oom") else ""
        for f, e in (("demo", ".h"), ("demo", ".sh")): shutil.copy(os.path.join(HELP, f + x + e), os.path.join(d, f + e))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        ids.append(s["id"])
    test(ids)
def test(ids):
    base = json.load(open("/opt/vp/BASELINE.json"))
    for i in ids:
        d = os.path.join(V, "seeded", i); m = json.load(open(d + "/meta.json")); out = [i, m["property"]]
        a = sh("bash %s/demo.sh" % d, cwd=R); out.append("demo(base)=%d" % a.returncode)
        if a.returncode: print(a.stdout[-800:])
        try:
            p = sh("git -C %s apply %s/patch.diff" % (R, d))
            if p.returncode: print(i, "does not apply", p.stdout); continue
            t = sh("bash /opt/vp/test.sh /tmp/seed.json" if R == "/repo" else "bash /tmp/t2.sh")
            o = json.load(open("/tmp/seed.json" if R == "/repo" else "/tmp/o2.json")); out.append("tests=%d/%d" % (len(o["passed"]), len(o["failed"])))
            b = sh("bash %s/demo.sh" % d, cwd=R); out.append("demo(patch)=%d %s" % (b.returncode, b.stdout.strip().splitlines()[:1]))
            c = sh("VP_REPO=%s python3 check.py %s" % (R, m["property"]), cwd=V); v = [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "counterexample", "error"))]
            out.append("check=%d %s" % (c.returncode, v[0][:150] if v else ""))
            if c.returncode == 2: print(c.stdout[-1500:])
        finally: revert()
        print("BAD " if a.returncode or len(o["passed"]) < 62 or not b.returncode else "MISS" if c.returncode != 1 else "ok  ", *out, flush=True)
    if R == "/repo": sh("bash /opt/vp/build.sh")
if sys.argv[1] == "add": add(sys.argv[2])
else: test(sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded"))))
