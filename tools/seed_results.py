"""Writes seed_results.json: every bug in seeded/ with what is known about it (tools/missed_first.txt lists those a check missed at first)."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parents[1]
missed = set((V / "tools/missed_first.txt").read_text().split())
still = {l.split()[0] for l in (V / "tools/missed.txt").read_text().splitlines() if l.strip()} if (V / "tools/missed.txt").exists() else set()
out = {}
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    out[d.name] = {"property": m["property"], "caught": d.name not in still, "first": d.name not in missed}
(V / "tools/seed_results.json").write_text(json.dumps(out, indent=0) + "\n")
print(len(out), "bugs;", len(missed), "missed at first")
