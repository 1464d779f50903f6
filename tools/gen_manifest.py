"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist in pbt/checks."""
import json, os, importlib.util, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
  path = f"pbt/checks/{p['id']}.py"
  if os.path.exists(path):
    src = open(path).read()
    def const(name, default):
      m = re.search(rf'^{name} = "(.*)"$', src, re.M)
      return m.group(1) if m else default
    checks.append({
      "property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"./check {p['id']} --tier thorough",
      "evidence_file": f"evidence/{p['id']}.json",
      "technique": const("TECHNIQUE", "property-based testing (Hypothesis): generated histories against a reference model, with shrinking"),
      "level": "exploration",
      "level_note": const("NOTE", "Random search with shrinking over the stated cases; trusts the harness model in pbt/ and the virtual-time event loop."),
    })
  else:
    na.append({"property": p["id"], "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
  "hooks": {"guard": "STREAMTASKS_VERIF (unused: no hooks were needed)", "enable": "nothing to enable; the checks import /repo as it is", "source_commits": []}}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
