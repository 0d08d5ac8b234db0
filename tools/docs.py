"""Writes properties.jsonl and MANIFEST.json (development helper: run by hand)."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
TRUST = ("Exhaustive over the finite instances of the run (seeded); small sizes. Trusts TLC, the 60-digit evaluation of Dec.tla, numpy, "
         "and that the sampled instances are representative of the larger ones.")

P = []


def prop(id, title, statement, over, text, tests, files, technique, note=TRUST, symbols=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, technique=technique, note=note, symbols=symbols))


exec((ROOT / "tools" / "props.py").read_text())

with open(ROOT / "properties.jsonl", "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in (p["symbols"] or [])]}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["tests"], "anchors": a}) + "\n")

checks, na = [], []
for p in P:
    if (ROOT / "harness" / (p["id"].lower() + ".py")).exists():
        checks.append({"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick", "thorough_cmd": f"bin/check {p['id']} thorough",
                       "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "no check yet"})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; conformance harnesses in harness/. No hooks in /repo."},
          open(ROOT / "MANIFEST.json", "w"), indent=1)
print(len(P), "properties", len(checks), "checks")
