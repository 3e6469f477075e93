"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from the PROPS table below.

Run:  python3 /verif/spec/gen.py      (only needed after editing this file; the outputs are committed)
"""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
S = "pkm/src/pkm/"
C = "pkm-cli/src/pkm_cli/"

RM = "runtime monitoring: "

# id, title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)], technique, level, note
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", claimed=True,
         reason=""):
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=text, why=why,
                      files=files, mech=mech, technique=RM + technique, note=note, level=level, claimed=claimed,
                      reason=reason))


exec((ROOT / "spec" / "props_table.py").read_text())

for p in PROPS:
    if not (ROOT / "vmon" / "props" / f"{p['id'].lower()}.py").exists():
        p["claimed"], p["reason"] = False, p["reason"] or "its check is not built yet"

ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids))

with (ROOT / "properties.jsonl").open("w") as out:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        out.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {
        "guard": "VMON",
        "enable": "no hooks were added to /repo: the monitors attach from outside (wrapped public calls, audit hooks, "
                  "fault-injecting stand-ins), so the checks run the working tree as it is",
        "source_commits": [],
    },
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"bash check.sh {p['id']} quick",
            "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["note"],
        } for p in PROPS if p["claimed"]],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in PROPS if not p["claimed"]],
    "notes": "see DESIGN.md; known findings and repaired defects are in known_findings.txt",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(PROPS), "properties,", len(manifest["checks"]), "checks")

# ---- DESIGN.md from spec/design.md + spec/design_parts.py + seeded/*/meta.json
ns = {}
exec((ROOT / "spec" / "design_parts.py").read_text(), ns)
txt = (ROOT / "spec" / "design.md").read_text()
sect, na = [], []
for p in PROPS:
    if p["claimed"]:
        sect.append(f"### {p['id']} — {p['title']}\n\n{ns['D'].get(p['id'], p['technique'])}\n\n"
                    f"*Beyond tests:* {p['why']}. *Strength:* {p['note']}.\n")
    else:
        na.append(f"* {p['id']} ({p['title']}): {p['reason']}")
seeds = ["| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    caught = ns.get("CAUGHT", {}).get(d.name, m["property"] + " quick")
    seeds.append(f"| {d.name} | {m['property']} | {' '.join(m['needs'].split())[:160]} | {caught} |")
for k, v in (("PROPS", "\n".join(sect)), ("NA", "\n".join(na) or "Every listed property is claimed."), ("SEEDS", "\n".join(seeds)),
             ("FINDINGS", ns.get("FINDINGS", "")), ("FALSE", ns.get("FALSE", "")), ("COST", ns.get("COST", ""))):
    txt = txt.replace(f"@@{k}@@", v)
(ROOT / "DESIGN.md").write_text(txt)
