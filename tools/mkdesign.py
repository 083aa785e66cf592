"""Writes /verif/DESIGN.md from tools/design_text.py, properties.jsonl, known_findings.txt and seeded/."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
TXT = {}
exec((V / "tools" / "design_text.py").read_text())
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
fixed, found = {}, {}
for l in (V / "known_findings.txt").read_text().splitlines():
    if l.startswith("fixed: property="):
        p, c, w = l[len("fixed: property="):].split(" ", 2)
        fixed.setdefault(p, []).append((c, w))
    elif l.startswith("finding: property="):
        p, k, w = l[len("finding: property="):].split(" ", 2)
        found.setdefault(p, []).append((k[4:], w))
out = [INTRO.strip(), "", "## The properties, one by one", ""]
for d in props:
    p = d["id"]
    t = TXT[p]
    out += [f"### {p} {d['title']}", ""]
    for h, k in (("Explored", "explored"), ("Judged against", "oracle"), ("Bounds and cost", "bounds"),
                 ("Beyond the tests because", "reach"), ("Not covered", "not")):
        if t.get(k):
            out.append(f"- **{h}.** {t[k]}")
    for c, w in fixed.get(p, []):
        out.append(f"- *Repaired ({c})*: {w}")
    for k, w in found.get(p, []):
        out.append(f"- *Known finding* `{k}`: {w}")
    out.append("")
out += ["## Planted bugs", "", PLANTED.strip(), "",
        "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for s in sorted((V / "seeded").iterdir()):
    m = json.loads((s / "meta.json").read_text())
    out.append(f"| {s.name} | {m['property']} | {m['needs']} | {CAUGHT.get(s.name, m['property'])} |")
out += ["", SURVEY.strip(), ""]
(V / "DESIGN.md").write_text("\n".join(out))
missing = [d["id"] for d in props if d["id"] not in TXT]
print(len(out), "lines; missing", missing)
