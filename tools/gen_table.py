"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = ["<!-- table -->", "| planted change | property | needs |", "|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
  m = json.load(open(f))
  rows.append(f"| {f.split('/')[1]} | {m['property']}{'' if m.get('caught', True) else ' (missed)'} | {m['needs'].replace('|', '/')} |")
rows.append("<!-- /table -->")
s = open("DESIGN.md").read()
t = "\n".join(rows)
s = re.sub(r"<!-- table -->.*<!-- /table -->", lambda m: t, s, flags=re.S) if "<!-- table -->" in s else s.replace("@@TABLE@@", "@@HEAD@@\n\n" + t)
open("DESIGN.md", "w").write(s)
print(len(rows) - 4, "planted changes")
