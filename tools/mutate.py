"""Mutation campaign: python3 tools/mutate.py OUT.jsonl N_PER_FILE SEED [FILE...]
Plants small syntactic changes (one at a time) in scratch copies of /repo and runs the quick
checks of the properties anchored in the changed file until one reports it. Survivors are the
places to look at by hand (equivalent change, or a check to strengthen)."""
import ast, copy, json, os, random, shutil, subprocess, sys, threading, queue, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")
out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
only = sys.argv[4:]
SLOTS, JOBS = int(os.environ.get("MUT_SLOTS", 4)), os.environ.get("MUT_JOBS", "2")
byfile = {}
for l in open(VERIF + "/properties.jsonl"):
  p = json.loads(l)
  for f in p["anchors"]["files"] if "anchors" in p else p["anchor"]["files"]: byfile.setdefault(f, []).append(p["id"])
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Mod: ast.Mult}

def sites(tree):
  """list of (description, apply(tree_copy_node)) as paths"""
  res = []
  def visit(node, path, infn, parent_list):
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
      if node.name in ("__repr__", "__str__"): return
      infn = True
    if infn:
      if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
          if type(op) in CMP: res.append((path, "cmp", i, node.lineno))
      if isinstance(node, ast.BoolOp):
        res.append((path, "bool", 0, node.lineno))
        for i in range(len(node.values)): res.append((path, "booldrop", i, node.lineno))
      if isinstance(node, ast.BinOp) and type(node.op) in BIN: res.append((path, "bin", 0, node.lineno))
      if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not): res.append((path, "not", 0, node.lineno))
      if isinstance(node, ast.Constant) and isinstance(node.value, bool): res.append((path, "constbool", 0, node.lineno))
      elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)): res.append((path, "const", 0, node.lineno)); res.append((path, "const-", 0, node.lineno))
      if isinstance(node, (ast.If, ast.While, ast.IfExp)):
        res.append((path, "condtrue", 0, node.lineno)); res.append((path, "condfalse", 0, node.lineno))
      if isinstance(node, ast.Expr) and not isinstance(node.value, ast.Constant) and "logging" not in ast.unparse(node): res.append((path, "delstmt", 0, node.lineno))
      if isinstance(node, (ast.Assign, ast.AugAssign)): res.append((path, "delstmt", 0, node.lineno))
      if isinstance(node, ast.Break): res.append((path, "pass", 0, node.lineno))
      if isinstance(node, ast.Continue): res.append((path, "pass", 0, node.lineno))
      if isinstance(node, ast.Raise): res.append((path, "delstmt", 0, node.lineno))
      if isinstance(node, ast.Return) and node.value is not None: res.append((path, "retnone", 0, node.lineno))
      if isinstance(node, ast.Try) and node.handlers: res.append((path, "tryhandler", 0, node.lineno))
      if isinstance(node, ast.Try) and node.finalbody: res.append((path, "finally", 0, node.lineno))
      if isinstance(node, ast.Call) and len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args): res.append((path, "swapargs", 0, node.lineno))
      if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("min", "max"): res.append((path, "minmax", 0, node.lineno))
    for name, val in ast.iter_fields(node):
      if name in ("annotation", "returns", "decorator_list"): continue
      if isinstance(val, list):
        for i, c in enumerate(val):
          if isinstance(c, ast.AST): visit(c, path + [(name, i)], infn, None)
      elif isinstance(val, ast.AST): visit(val, path + [(name, None)], infn, None)
  visit(tree, [], False, None)
  return res

def get(tree, path):
  for name, i in path:
    tree = getattr(tree, name) if i is None else getattr(tree, name)[i]
  return tree
def put(tree, path, new):
  p = get(tree, path[:-1]); name, i = path[-1]
  if i is None: setattr(p, name, new)
  else: getattr(p, name)[i] = new

def mutate(src, site):
  path, kind, i, line = site
  t = ast.parse(src)
  n = get(t, path)
  before = ast.unparse(n).split("\n")[0]
  if kind == "cmp": n.ops[i] = CMP[type(n.ops[i])]()
  elif kind == "bool": n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
  elif kind == "booldrop":
    n.values.pop(i)
    if len(n.values) == 1: put(t, path, n.values[0])
  elif kind == "bin": n.op = BIN[type(n.op)]()
  elif kind == "not": put(t, path, n.operand)
  elif kind == "constbool": n.value = not n.value
  elif kind == "const": n.value = n.value + 1
  elif kind == "const-": n.value = n.value - 1 if n.value else -1
  elif kind in ("condtrue", "condfalse"):
    n.test = ast.Constant(kind == "condtrue")
    if isinstance(n, ast.While) and kind == "condtrue" and before.startswith("while True"): return None
  elif kind in ("delstmt", "pass"): put(t, path, ast.Pass())
  elif kind == "retnone": n.value = None
  elif kind == "tryhandler":
    n.handlers = []
    if not n.finalbody: n.finalbody = [ast.Pass()]
    n.orelse = []
  elif kind == "finally":
    if n.handlers: n.finalbody = []
    else: n.finalbody = [ast.Pass()]
  elif kind == "swapargs": n.args[0], n.args[1] = n.args[1], n.args[0]
  elif kind == "minmax": n.func.id = "max" if n.func.id == "min" else "min"
  new = ast.unparse(ast.fix_missing_locations(t))
  if new == ast.unparse(ast.parse(src)): return None
  try: after = ast.unparse(get(t, path)).split("\n")[0]
  except Exception: after = "?"
  return new, f"{kind}: {before[:110]} -> {after[:110]}"

EXTRA = {"streamtasks/utils.py": ["S02", "N02", "N07", "S01", "C03"], "streamtasks/client/topic.py": ["S01", "S03", "N02", "N06", "N07"],
  "streamtasks/system/configurators.py": ["K01"], "streamtasks/message/utils.py": ["S04", "K06"], "streamtasks/net/messages.py": ["N08", "N01"]}
SKIP = ("inference", "__main__", "bin.py", "debugging", "pa_utils", "audioinput", "audiooutput", "videoinput", "screencapture", "textrenderer", "builder.py")
work = queue.Queue()
rng = random.Random(seed)
done = set()
if os.path.exists(out):
  for l in open(out): d = json.loads(l); done.add((d["file"], d["line"], d["what"]))
files = []
for root, _d, fs in os.walk(REPO + "/streamtasks"):
  for f in fs:
    if f.endswith(".py"): files.append(os.path.relpath(os.path.join(root, f), REPO))
jobs = []
for f in sorted(files):
  if any(s in f for s in SKIP): continue
  if only and not any(o in f for o in only): continue
  ids = list(dict.fromkeys(byfile.get(f, []) + EXTRA.get(f, [])))
  if not ids: continue
  src = open(REPO + "/" + f).read()
  ss = sites(ast.parse(src))
  rng.shuffle(ss)
  got = 0
  for s in ss:
    if got >= n: break
    try: m = mutate(src, s)
    except Exception as e: continue
    if m is None: continue
    got += 1
    if (f, s[3], m[1]) in done: continue
    jobs.append((f, s[3], m[0], m[1], ids))
rng.shuffle(jobs)
print(len(jobs), "mutants")
for j in jobs: work.put(j)
lock = threading.Lock()
deadline = time.time() + float(os.environ.get("MUT_HOURS", 2)) * 3600
def slot(k):
  d = f"/tmp/mutslot{os.getpid()}_{k}"
  shutil.rmtree(d, ignore_errors=True)
  shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns(".git", "node_modules", "build"))
  env = dict(os.environ, VERIF_REPO=d, VERIF_JOBS=JOBS, VERIF_SHRINK_S="1")
  while time.time() < deadline:
    try: f, line, new, what, ids = work.get_nowait()
    except queue.Empty: break
    orig = open(REPO + "/" + f).read()
    open(f"{d}/{f}", "w").write(new)
    rec = {"file": f, "line": line, "what": what, "checks": {}, "killed": None}
    for c in ids:
      t0 = time.time()
      try:
        r = subprocess.run(["./check", c], cwd=VERIF, env=env, capture_output=True, text=True, timeout=600)
        rc, txt = r.returncode, (r.stdout + r.stderr)
      except subprocess.TimeoutExpired: rc, txt = "timeout", ""
      rec["checks"][c] = rc
      if rc == 1: rec["killed"] = c; break
      if rc != 0: rec["err"] = txt[-400:]
    open(f"{d}/{f}", "w").write(orig)
    with lock:
      with open(out, "a") as fd: fd.write(json.dumps(rec) + "\n")
  shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=slot, args=(k,)) for k in range(SLOTS)]
[t.start() for t in ts]; [t.join() for t in ts]
