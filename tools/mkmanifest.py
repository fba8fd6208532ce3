"""Regenerate MANIFEST.json from properties.jsonl and the property modules present."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
ids = [json.loads(l)["id"] for l in open(V / "properties.jsonl")]
notes = json.load(open(V / "tools" / "levels.json"))
py = "/opt/venv/bin/python /verif/harness/check.py"
checks, na = [], []
for i in ids:
    if (V / "harness" / "props" / f"{i.lower()}.py").exists():
        checks.append(dict(property=i, quick_cmd=f"{py} {i} quick", thorough_cmd=f"{py} {i} thorough",
                           evidence_file=f"evidence/{i}.json", level="model_checking",
                           technique=notes[i]["technique"], level_note=notes[i]["note"]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import coreax'", checks=checks, not_applicable=na,
         notes="TLA+ specifications in /verif/spec checked with TLC; conformance by replaying TLC-enumerated instances "
               "into the code and by validating records of real runs against trace specifications. No hooks in /repo.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed;", [x["property"] for x in na], "not yet")
