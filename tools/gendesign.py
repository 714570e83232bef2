#!/usr/bin/env python3
# Regenerates DESIGN.md from tools/design_template.md, design_props.md, BOUNDS.md files, known_findings.jsonl and seeded/.
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda p: open(os.path.join(root, p)).read()
claimed = json.loads(R("tools/claimed.json"))
props = [json.loads(l) for l in R("properties.jsonl").splitlines()]
how = dict(l.split(": ", 1) for l in R("tools/design_props.md").splitlines() if ": " in l)
where = lambda i: "pysym" if i == "C18" else ("harness_mbt/" if i == "C25" else "harness/") + i.lower()
out = []
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i in claimed["checks"]:
        out.append(f"Check: `./check.sh {i}` ({where(i)}). {how.get(i,'').strip()}\n")
        b = os.path.join(where(i), "BOUNDS.md")
        if os.path.exists(os.path.join(root, b)):
            out.append(R(b).replace("# Bounds", "Bounds:\n").replace("# Assumptions", "\nAssumptions:\n").strip() + "\n")
    else:
        out.append("Not claimed: " + claimed["na"].get(i, "no check built yet") + ". Intended decision: " + how.get(i, "").strip() + "\n")
find = []
for l in R("known_findings.jsonl").splitlines():
    d = json.loads(l)
    find.append("* " + (d["fixed"] if "fixed" in d else f"open: property={d['property']} ({d['harness']}: {d['label']}) {d['what']}"))
seeds = ["| seed | property | needs | what it breaks | caught by |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    seeds.append(f"| {n} | {d['property']} | {d['needs']} | {d['what_it_breaks']} | {d.get('caught_by', d['property'])} |")
t = R("tools/design_template.md")
t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@FINDINGS@@", "\n".join(find)).replace("@@SEEDS@@", "\n".join(seeds))
open(os.path.join(root, "DESIGN.md"), "w").write(t)
