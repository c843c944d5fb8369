#!/usr/bin/env python3
"""Writes DESIGN.md from design/*.md and from the checks (bounds, assumptions). Run with the Python of the module: tools/gen_design.sh"""
import glob, importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from vf import core
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
out = [open(R + "/design/head.md").read().rstrip(), "",
       "## 3. Properties", "",
       "For each: what is enumerated, the oracle, the bounds of both tiers (the thorough one contains the quick one), the assumptions.", ""]
notes = {}
for block in open(R + "/design/notes.md").read().split("\n## ")[1:]:
    k, _, v = block.partition("\n")
    notes[k.strip()] = v.strip()
for p in props:
    pid = p["id"]
    out += ["### %s. %s" % (pid, p["title"]), ""]
    if not os.path.exists(R + "/checks/%s.py" % pid.lower()):
        out += [notes.get(pid, ""), ""]
        continue
    m = importlib.import_module("checks." + pid.lower())
    doc = " ".join((m.__doc__ or "").split())
    doc = doc[len(pid) + 1:].strip() if doc.startswith(pid) else doc
    out += [doc, ""]
    if pid in notes:
        out += [notes[pid], ""]
    q = {g.name: g.bound for g in core.all_groups(m, "quick")}
    t = {g.name: g.bound for g in core.all_groups(m, "thorough")}
    for n in t:
        b = q.get(n)
        if b is None:
            out.append("* *%s* (thorough only): %s" % (n, t[n]))
        elif b == t[n]:
            out.append("* *%s*: %s" % (n, b or "a fixed table"))
        else:
            out.append("* *%s*: %s; thorough: %s" % (n, b, t[n]))
    for a in m.ASSUMPTIONS:
        out.append("* assumed: " + a)
    out.append("")
fixed = sum(1 for l in open(R + "/known_findings.txt") if l.startswith("fixed:"))
out += [open(R + "/design/tail.md").read().replace("%FIXED%", str(fixed)).rstrip(), ""]
out += ["| planted bug (seeded/) | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    j = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (d.split("/")[-2], j["property"], j["needs"], j["property"]))
out += ["", open(R + "/design/mutants.md").read().rstrip(), ""]
open(R + "/DESIGN.md", "w").write("\n".join(out))
