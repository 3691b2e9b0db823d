#!/usr/bin/env python3
"""refactor.py FILE[:ID,..] [PROP..]: apply behaviour-preserving edits to /repo one at a time and report every check that is not quiet.

FILE defines RF, a list of (name, [(file, old, new), ..]).  /repo is restored after each one."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f, _, ids = sys.argv[1].partition(":")
ns = {}
exec(open(f).read(), ns)
props = sys.argv[2:] or [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]


def run(p):
    r = subprocess.run([VERIF + "/check", p], capture_output=True, text=True)
    return p, r.returncode, r.stdout + r.stderr


for name, edits in ns["RF"]:
    if ids and name not in ids.split(","):
        continue
    try:
        bad = False
        for file, old, new in edits:
            p = "/repo/" + file
            s = open(p).read()
            if s.count(old) < 1:
                print(name, "NO MATCH", file, old[:80])
                bad = True
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            continue
        p0, rc, out = run(props[0])     # builds the facts
        if rc == 2:
            print(name, "BUILD/CRASH", out[-1500:])
            continue
        with ThreadPoolExecutor(6) as ex:
            res = list(ex.map(run, props))
        loud = [(p, rc, o) for p, rc, o in res if rc != 0]
        print(name, "quiet" if not loud else "LOUD %s" % [p for p, _, _ in loud], flush=True)
        for p, rc, o in loud:
            print("\n".join("    " + l[:300] for l in o.splitlines()[-8:] if "KNOWN" not in l))
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
