#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_intro.md, the properties, the techniques, the rules of the last run (evidence/) and the planted bugs."""
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import techniques as T
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = json.load(open(V + "/MANIFEST.json"))
claimed = {c["property"]: c for c in m["checks"]}
na = {x["property"]: x["reason"] for x in m["not_applicable"]}
out = [open(V + "/tools/design_intro.md").read().rstrip(), "", "## The properties and how each is decided", ""]
for p in props:
    i = p["id"]
    if i not in claimed:
        continue
    out += [f"### {i}: {p['title']}", "", (p.get("statement") or "").strip(), "", f"*Method.* {claimed[i]['technique']}. *Bounds.* {claimed[i]['level_note']}", ""]
    try:
        e = json.load(open(f"{V}/evidence/{i}.json"))
        c = e["coverage"]
        out += [f"*Rules* ({c['obligations']} obligations in {len(c['functions_analysed'])} functions on the quick tier, {e['wall_s']:.0f} s):", ""]
        for r, text in c["rules"].items():
            out.append(f"- `{r}` {text} ({c['per_rule'].get(r, {}).get('generated', 0)})")
        out.append("")
        if e.get("assumptions"):
            out += ["*Assumptions*: " + "; ".join(a if isinstance(a, str) else json.dumps(a) for a in e["assumptions"]), ""]
    except FileNotFoundError:
        pass
out += ["## Properties that static analysis does not decide here (not_applicable)", ""]
for p in props:
    if p["id"] in na:
        out += [f"- **{p['id']} {p['title']}**: {na[p['id']]}"]
out += ["", "## Planted bugs", "", "Each was written from a property's text and the code, kept after its demonstration failed with the change and passed without it, and the existing tests passed. `vcheck` runs the property's own check against it.", "",
        "| bug | property | what it breaks | what it needs | caught by |", "|---|---|---|---|---|"]
caught = json.load(open(V + "/tools/caught.json"))
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f)); n = f.split("/")[-2]
    out.append(f"| {n} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {caught.get(n, 'not recorded')} |")
out += ["", open(V + "/tools/design_outro.md").read().rstrip().replace("FIXES", "\n".join("- " + l[len("fixed: property="):].strip() for l in open(V + "/known_findings.txt") if l.startswith("fixed:"))), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
print(len(out))
