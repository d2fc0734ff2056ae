#!/usr/bin/env python3
"""DESIGN.md = design_head.md + per-property section (harness directives) + table of planted bugs."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(f"{V}/tools/design_head.md").read()]
props = {json.loads(l)["id"]: json.loads(l) for l in open(f"{V}/properties.jsonl")}
desc = {l.split("\t")[0]: l.rstrip("\n").split("\t") for l in open(f"{V}/tools/design_props.txt") if l.strip()}
na = {x["property"]: x["reason"] for x in json.load(open(f"{V}/MANIFEST.json"))["not_applicable"]}
out.append("## 3 Properties\n\nFor each: how it is decided and the oracle, the bounds, what is assumed or replaced, and what is outside.\n")
for i in sorted(props):
    out.append(f"### {i} {props[i]['title']}\n")
    if i in na:
        out.append(f"Not applicable: {na[i]}\n")
        continue
    f = glob.glob(f"{V}/harness/{i}_*.cc")[0]
    t = open(f).read()
    d = desc[i]
    out.append(f"`{os.path.relpath(f, V)}`. {d[1]}")
    for k, n in (("bounds", "Bounds"), ("assume", "Assumed"), ("stub", "Replaced")):
        for m in re.findall(r"^// *@%s (.*)$" % k, t, re.M):
            out.append(f"- {n}: {m}")
    if d[2] != "-":
        out.append(f"- Outside: {d[2]}")
    out.append("")
out.append(open(f"{V}/tools/design_tail.md").read())
out.append("| planted bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|")
miss = json.load(open(f"{V}/tools/strengthened.json"))
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    out.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {miss.get(n, 'yes')} |")
open(f"{V}/DESIGN.md", "w").write("\n".join(out) + "\n")
