#!/usr/bin/env python3
"""usage: tools/mkbug.py < SPEC

SPEC:
  id: NAME
  property: ID
  needs: ...
  breaks: ...
  --- FILE
  <<<<
  old text
  ====
  new text
  >>>>
  --- demo
  python source of demo.py (run with cwd /repo)
Creates seeded/NAME/{patch.diff,demo.sh,demo.py,meta.json}; verify with tools/plant.sh NAME."""
import sys, os, json, re, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = sys.stdin.read()
head, *parts = re.split(r"^--- ", spec, flags=re.M)
meta = {}
for l in head.strip().splitlines():
  k, v = l.split(":", 1); meta[k.strip()] = v.strip()
d = f"{V}/seeded/{meta['id']}"
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp(prefix="mkbug-")
try:
  subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
  subprocess.run(f"git -C /repo archive HEAD | tar x -C {tmp} && cd {tmp} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, check=True)
  for p in parts:
    name, body = p.split("\n", 1)
    name = name.strip()
    if name == "demo":
      open(f"{d}/demo.py", "w").write(body)
      continue
    f = f"{tmp}/{name}"
    s = open(f).read()
    for old, new in re.findall(r"^<<<<\n(.*?)^====\n(.*?)^>>>>", body, flags=re.M | re.S):
      assert s.count(old) == 1, (name, s.count(old), old)
      s = s.replace(old, new)
    open(f, "w").write(s)
  diff = subprocess.run(["git", "diff"], cwd=tmp, capture_output=True, text=True, check=True).stdout
  assert diff
  open(f"{d}/patch.diff", "w").write(diff)
  open(f"{d}/demo.sh", "w").write('#!/bin/bash\n# exits 0 if the property holds\nhere=$(dirname "$(realpath "$0")")\nexport DATA_DIR=$(mktemp -d)\ntrap \'rm -rf "$DATA_DIR"\' EXIT\nPYTHONPATH=$PWD timeout 120 /opt/venv/bin/python -B "$here/demo.py"\n')
  os.chmod(f"{d}/demo.sh", 0o755)
  json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
finally: shutil.rmtree(tmp)
