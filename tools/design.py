"""Regenerate the parts of DESIGN.md that follow from tables: properties, findings, planted bugs.

`tools/costs.json` has the cost of the last measured runs, `tools/caught.json` which checks catch
which planted bugs."""
import ast
import glob
import importlib.util
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("props", os.path.join(ROOT, "tools", "props.py"))
props = importlib.util.module_from_spec(spec)
spec.loader.exec_module(props)


def load(name):
    path = os.path.join(ROOT, "tools", name)
    return json.load(open(path)) if os.path.exists(path) else {}


def meta(id):
    tree = ast.parse(open(os.path.join(ROOT, "harness", id.lower() + ".py")).read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) == "META":
            return {k.arg: ast.literal_eval(k.value) for k in node.value.keywords}


costs, caught = load("costs.json"), load("caught.json")
out = ["## Properties", ""]
for p in props.PROPS:
    out += [f"### {p['id']}: {p['title']}", "", p["statement"], ""]
    if p.get("na"):
        out += [f"Not applicable: {p['na']}", ""]
        continue
    m = meta(p["id"])
    out += [f"* How it is decided: {m['explanation']}"]
    out += [f"* Bounds: {m['bounds']}."]
    out += ["* Assumptions: " + "; ".join(m["assumptions"]) + "."]
    out += [f"* Why tests do not settle it: {p['why']}"]
    out += ["* Code: " + ", ".join(f"`{f}`" for f in p["files"]) + "."]
    for tier, c in costs.get(p["id"], {}).items():
        out += [f"* Cost ({tier}): {c}."]
    out += [""]
out += ["## Findings", "", "Genuine defects that the checks found in the original repository.", "", "Repaired:", ""]
known = []
for line in open(os.path.join(ROOT, "known_findings.jsonl")):
    if line.startswith("fixed: "):
        _, prop, commit, what = line.strip().split(" ", 3)
        out += [f"* {prop.split('=')[1]}, `{commit}`: {what}."]
    elif line.strip():
        known.append(json.loads(line))
out += ["", "Recorded in `known_findings.jsonl` (the check prints `KNOWN-FINDING` for exactly these cases):", ""]
for k in known:
    out += [f"* {k['id']} ({k['property']}): {k['what']}."]
out += ["", "## Planted bugs", "", "Which checks report each planted change (`seeded/`), by the quick tier.", ""]
out += ["| Change | Property | Caught by | Needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m, id = json.load(open(d)), os.path.basename(os.path.dirname(d))
    out += [f"| {id} | {m['property']} | {', '.join(caught.get(id, [])) or 'not caught'} | {m['needs']} |"]
path = os.path.join(ROOT, "DESIGN.md")
head = open(path).read().split("<!-- generated by tools/design.py -->")[0].rstrip()
open(path, "w").write(head + "\n\n<!-- generated by tools/design.py -->\n\n" + "\n".join(out) + "\n")
