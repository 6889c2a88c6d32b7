"""assembles DESIGN.md from the hand-written parts, the rules' docstrings and the planted bugs"""
import json
import pathlib
import re
import subprocess

R = pathlib.Path(__file__).resolve().parent.parent
out = [(R / "tools/design_head.md").read_text()]
props = [json.loads(x) for x in (R / "properties.jsonl").read_text().splitlines()]
man = json.loads((R / "MANIFEST.json").read_text())
notes = {c["property"]: c["level_note"] for c in man["checks"]}
src = {f.name: f.read_text() for f in (R / "sa").glob("rules_*.py")}
seeded = {}
for d in sorted((R / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    seeded.setdefault(m["property"], []).append((d.name, m))
mut = {}
for f in (R / "tools/mutants").glob("*.txt"):
    for ids, kind in re.findall(r"(?m)^=== (\S+) (bug|same)", f.read_text()):
        for i in ids.split(","):
            mut.setdefault(i, {"bug": 0, "same": 0})[kind] += 1
out.append("\n## 2. The properties and how each is decided\n")
for p in props:
    pid = p["id"]
    if pid.startswith("N"):
        continue
    for fn, s in src.items():
        m = re.search(rf'^def {pid}\(ctx\):\n    """(.*?)"""', s, re.S | re.M)
        if m:
            break
    ev = json.loads((R / f"evidence/{pid}.json").read_text())["coverage"] if (R / f"evidence/{pid}.json").exists() else {}
    out.append(f"### {pid} {p['title']}\n\n{p['statement']}\n\n*Decided by* (`sa/{fn}`): " + re.sub(r"\s+", " ", m.group(1)) + "\n")
    out.append("*Bounds*: " + notes[pid] + "\n")
    if ev:
        out.append(f"*Size (quick tier)*: {ev['scenarios']} scenarios, {ev['abstract_runs']} abstract runs, {ev['obligations']} obligations, {len(ev['functions_analysed'])} functions of the package interpreted; self-test mutants: {mut.get(pid, {}).get('bug', 0)} bug, {mut.get(pid, {}).get('same', 0)} same.\n")
    if pid in seeded:
        out.append("*Planted bugs*: " + "; ".join(f"`{n}`" for n, _ in seeded[pid]) + ".\n")
out.append("### Not applicable\n\n" + "\n".join(f"* **{n['property']}** {next(p['title'] for p in props if p['id'] == n['property'])}: {n['reason']}" for n in man["not_applicable"]) + "\n")
out.append("\n## 3. Planted bugs (`seeded/`) and what catches them\n\nAll were confirmed with `tools/plant.py` (build, stable tests pass, demo passes without and fails with the patch); all are caught by the check of their property (`tools/seedcheck.py`).\n\n| bug | check | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(
    f"| {n} | {pid} | {m['what_it_breaks']} | {m['needs']} |".replace("\n", " ") for pid in sorted(seeded) for n, m in seeded[pid]) + "\n")
out.append("\n## 4. Defects found and repaired (`fix:` commits in /repo)\n\n" + "\n".join("* " + x[7:] for x in (R / "known_findings.txt").read_text().splitlines() if x.startswith("fixed:")) + "\n")
out.append((R / "tools/design_tail.md").read_text())
(R / "DESIGN.md").write_text("\n".join(out))
print(len("\n".join(out)))
