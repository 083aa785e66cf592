"""Writes /verif/MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
SL = "stateless model checking of the real code"
XS = "explicit-state exploration of the real code against a reference model"
NOTE = {}
exec((V / "tools" / "notes.py").read_text())
props = [json.loads(l)["id"] for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    if p in NOTE:
        tech, note = NOTE[p]
        checks.append({"property": p, "quick_cmd": f"./run.sh {p} quick",
                       "thorough_cmd": f"./run.sh {p} thorough", "technique": tech,
                       "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Pure Python; nothing to build. Each check imports kd from /repo's working tree, runs in a scratch directory, and refuses cached bytecode of /repo."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
print(len(checks), "claimed", len(na), "not")
