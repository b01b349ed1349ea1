#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_body.md, the property modules, the findings and the planted bugs."""
import glob
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
props = {}
for l in open("properties.jsonl"):
    d = json.loads(l)
    props[d["id"]] = d


def joined(m):
    return re.sub(r'"\s*\n?\s*"', "", m).strip().strip('"')


out = []
oracle = json.load(open("tools/oracles.json"))
for pid, d in props.items():
    path = "sim/props/%s.py" % pid
    if not os.path.exists(path):
        continue
    s = open(path).read()
    rule = joined(re.search(r'RULE = \((.*?)"\)\n', s, re.S).group(1))
    runs = re.search(r'RUNS = \{"quick": (\d+), "thorough": (\d+)', s).groups()
    a = re.search(r'^ASSUME = \[(.*?)\]\n', s, re.S | re.M)
    out.append("**%s %s** (%s / %s runs). %s *Oracle:* %s%s" % (pid, d["title"], runs[0], runs[1], rule, oracle[pid],
               " *Assumed:* " + " ".join(joined(x) for x in re.findall(r'"(?:[^"]|"\s*\n\s*")*"', a.group(1))) if a else ""))
find = ["- %s `%s`: %s" % (f["property"], f["class"], f["what"]) for f in json.load(open("known_findings.json"))["findings"]]
rows = ["| planted bug | property (its check catches it) | needs |", "|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[1], m["property"], m["needs"].replace("|", "/")))
t = open("tools/design_body.md").read()
t = t.replace("@PROPS@", "\n\n".join(out)).replace("@FINDINGS@", "\n".join(find)).replace("@SEEDED@", "\n".join(rows))
open("DESIGN.md", "w").write(t)
