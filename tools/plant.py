#!/usr/bin/env python3
"""plant.py ID... | @SPECS.py:ID,.. | @SPECS.py:all: make /verif/seeded/<id> from a spec (edits + demo) and confirm it:
builds, stable tests pass, demo 0 without / nonzero with the patch; then run the property's check.
The change is applied to /repo and undone straight afterwards."""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): return sh("git -C /repo status --porcelain").stdout.strip() == ""
def confirm(d, prop, others=False):
    assert clean(), "/repo is dirty"
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    if r.returncode: return "DEMO FAILS UNPATCHED: " + r.stdout[-1500:]
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode: return "PATCH " + r.stdout
        r = sh("bash /opt/vp/build.sh")
        if r.returncode: return "BUILD " + r.stdout[-2500:]
        sh("bash /opt/vp/test.sh /tmp/plant.json")
        o = json.load(open("/tmp/plant.json"))
        bad = base - set(o["passed"])
        if bad: return "TESTS " + str(sorted(bad)[:5])
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        if r.returncode == 0: return "DEMO PASSES PATCHED"
        out = "demo: " + r.stdout.strip()[-200:].replace("\n", " | ")
        r = sh("./check " + prop, cwd=HERE)
        out += "\n  CHECK %s rc=%d %s" % (prop, r.returncode, " // ".join(l for l in r.stdout.splitlines() if "VIOL" in l or "viol" in l)[:400])
        if r.returncode != 1: out += "\n  MISSED: " + r.stdout[-300:]
        if others:
            for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]:
                if c["property"] != prop:
                    q = sh("./check " + c["property"], cwd=HERE)
                    if q.returncode: out += "\n  also %s rc=%d" % (c["property"], q.returncode)
        return out
    finally:
        sh("git -C /repo checkout -- .")
def make(g):
    d = os.path.join(HERE, "seeded", g["ID"])
    os.makedirs(d, exist_ok=True)
    assert clean()
    for f, a, b in g["EDITS"]:
        s = open("/repo/" + f).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open("/repo/" + f, "w").write(s.replace(a, b))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    sh("git -C /repo checkout -- .")
    shutil.copy(HERE + "/tools/seed_template.sh", d + "/demo.sh")
    open(d + "/demo.rs", "w").write(g["DEMO"])
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    return d, g["PROP"]
if __name__ == "__main__":
    for x in sys.argv[1:]:
        if x == "--others": continue
        if x.startswith("@"):
            f, i = x[1:].rsplit(":", 1)
            G = {}
            exec(open(f).read(), G)
            for sp in G["SPECS"]:
                if i == "all" or sp["ID"] in i.split(","):
                    try:
                        d, p = make(sp)
                    except AssertionError as e:
                        sh("git -C /repo checkout -- ."); print(sp["ID"], "SPEC", e); continue
                    print(sp["ID"], confirm(d, p, "--others" in sys.argv), flush=True)
            continue
        d = os.path.join(HERE, "seeded", x); p = json.load(open(d + "/meta.json"))["property"]
        print(os.path.basename(d), confirm(d, p, "--others" in sys.argv), flush=True)
