#!/usr/bin/env python3
"""Writes /verif/DESIGN.md."""
import glob, json, os, re, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
exec(open("tools/design_notes.py").read())
man = json.load(open("MANIFEST.json"))
tech = {c["property"]: c for c in man["checks"]}
na = {c["property"]: c["reason"] for c in man["not_applicable"]}
props = [json.loads(l) for l in open("properties.jsonl")]
kf = json.load(open("known_findings.json"))["findings"]
rule = {}
for f in sorted(glob.glob("analysis/checks/*.py")):
    for m in re.finditer(r'@prop\("(\w+)"\)\ndef \w+\([^)]*\):\n    """(.*?)"""', open(f).read(), re.S):
        rule[m.group(1)] = (f, re.sub(r"\s+", " ", m.group(2)).strip())
seeds = {}
for f in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(f))
    seeds.setdefault(d["property"], []).append((f.split("/")[1], d))
try:
    cross = json.load(open("tools/caught.json"))
except FileNotFoundError:
    cross = {}
out = [open("tools/design_head.md").read().rstrip("\n")]
for p in props:
    if p["id"] in na:
        out.append("- **%s** %s. %s" % (p["id"], p["title"], na[p["id"]]))
out.append("\n## 4. Properties\n")
for p in props:
    i = p["id"]
    if i not in tech:
        continue
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("%s\n" % p["statement"])
    out.append("*Rule* (`%s`): %s\n" % (rule[i][0], rule[i][1]))
    out.append("*Method*: %s.\n" % tech[i]["technique"])
    try:
        ev = json.load(open("evidence/%s.json" % i))["coverage"]
        out.append("*Analysed on the unchanged tree*: %d obligations (%s)%s.\n" % (ev["obligations"], ", ".join("%s %s" % (v, k) for k, v in ev["analysed"].items()),
                   "; %d undecided" % len(ev["undecided"]) if ev["undecided"] else ""))
    except FileNotFoundError:
        pass
    if i in N:
        out.append("*Bounds and remarks*: %s\n" % N[i])
    fixed = [x for x in kf if x["property"] == i and x["status"] == "fixed"]
    opn = [x for x in kf if x["property"] == i and x["status"] == "open"]
    if fixed:
        out.append("*Defects found and repaired*:\n" + "\n".join("- `%s` %s" % (x["commit"], re.sub(r"^fixed: property=\w+ \w+ ", "", x["what"])) for x in fixed) + "\n")
    if opn:
        out.append("*Known findings (open)*:\n" + "\n".join("- `%s`: %s" % (x["key"], x["what"]) for x in opn) + "\n")
    if i in seeds:
        out.append("*Planted bugs*:\n" + "\n".join("- `%s`: %s (needs: %s). Caught by %s." % (n, d["what_it_breaks"], d["needs"], ", ".join(cross.get(n, [i]))) for n, d in seeds[i]) + "\n")
out.append(open("tools/design_tail.md").read())
open("DESIGN.md", "w").write("\n".join(out) + "\n")
