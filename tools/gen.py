"""Regenerate properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import importlib.util
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("props", os.path.join(ROOT, "tools", "props.py"))
props = importlib.util.module_from_spec(spec)
spec.loader.exec_module(props)

RUN = "/opt/venv/bin/python -W ignore engine/run.py"
TECH = (
    "symbolic execution of the real Python code (z3 terms carried through unmodified "
    "dispatch and NumPy code) with z3 deciding every obligation; counterexamples replayed in floating point"
)
LEVEL_NOTE = (
    "For every case within the stated bounds (sizes, batch shapes, representations), z3 shows the "
    "assertion for all real values of the entries on every feasible path of the real code, or returns "
    "a counterexample that is replayed on the unpatched code before it is reported. Trusted: z3, "
    "NumPy's indexing and object arithmetic, and the stand-ins for LAPACK kernels in engine/stubs.py; "
    "floating-point rounding is outside."
)

lines, checks, na = [], [], []
for p in props.PROPS:
    built = os.path.exists(os.path.join(ROOT, "harness", p["id"].lower() + ".py"))
    if not built and not p.get("na"):
        continue
    lines.append(
        dict(
            id=p["id"],
            title=p["title"],
            statement=p["statement"],
            quantifier=dict(over=p.get("over", ["inputs", "configurations"]), text=p["quant"]),
            why_tests_cant=p["why"],
            anchors=dict(
                files=p["files"],
                mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                observe_at=p.get("observe", ["the dense value of the result of the public operation"]),
                hook_needed=None,
            ),
        )
    )
    if p.get("na"):
        na.append(dict(property=p["id"], reason=p["na"]))
    else:
        checks.append(
            dict(
                property=p["id"],
                quick_cmd=f"{RUN} {p['id']} --tier quick",
                thorough_cmd=f"{RUN} {p['id']} --tier thorough",
                evidence_file=f"evidence/{p['id']}.json",
                technique=p.get("technique", TECH),
                level=p.get("level", "other"),
                level_note=p.get("level_note", LEVEL_NOTE),
            )
        )
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in lines:
        f.write(json.dumps(x) + "\n")
man = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -W ignore engine/selftest.py",
    checks=checks,
    not_applicable=na,
    notes="The checks read /repo's working tree directly (no build step) and need no hooks. Known findings are in known_findings.jsonl.",
)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(lines), "properties,", len(checks), "checks,", len(na), "not applicable")
