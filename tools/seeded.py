"""Writes the table of planted bugs at the end of DESIGN.md."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = json.load(open(f"{ROOT}/tools/missed.json"))
MARK = "<!-- seeded table: tools/seeded.py -->\n"
rows = []
for d in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {MISSED.get(d, '')} |")
s = open(f"{ROOT}/DESIGN.md").read()
s = s[:s.index(MARK)] + MARK + "| id | caught by | needs | missed at first; the check was given |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(f"{ROOT}/DESIGN.md", "w").write(s)
