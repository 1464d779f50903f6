"""W01 Editing a task spreads a value to every linked field or changes nothing (browser code)."""
from ..core import *
from ..gen import *
from ..front import front, FrontError

TECHNIQUE = "property-based testing (Hypothesis): the bundled TypeScript runs in Node, judged against a Python model"
NOTE = "Random search with shrinking; the browser code of web-packages is bundled unchanged and run in Node."

BASES = ["a", "b", "l.0", "l.1", "l.10", "ab"]
FIELDS = ["x", "y", "z"]
LEAVES = [f"{b}.{f}" for b in BASES for f in FIELDS]
values = st.one_of(st.integers(-2, 5), st.sampled_from(["", "0", "p", "q"]), st.booleans())

def rec(): return st.dictionaries(st.sampled_from(FIELDS), values, max_size=3)
def leaf(): return st.sampled_from(LEAVES)
def graphs():
  return st.fixed_dictionaries({
    "a": rec(), "b": rec(), "ab": rec(), "l": st.tuples(rec(), rec(), rec()).map(list),
    "edges": st.lists(st.tuples(leaf(), leaf()).map(list), max_size=6),
    "mirrors": st.lists(st.tuples(st.sampled_from(BASES), st.sampled_from(BASES), st.lists(st.sampled_from(FIELDS), max_size=2)).map(list), max_size=4),
    "validators": st.lists(st.one_of(
      st.tuples(leaf(), st.sampled_from(["never", "int", "max"]), st.just(2)).map(list),
      st.tuples(st.sampled_from(BASES), st.just("sub"), st.lists(st.sampled_from(FIELDS), max_size=3)).map(list)), max_size=4),
    "ops": st.lists(st.one_of(
      st.tuples(st.just("set"), leaf(), values).map(list), st.tuples(st.just("set"), leaf(), values).map(list), st.tuples(st.just("set"), leaf(), values).map(list),
      st.just(["apply"]), st.just(["apply"]), st.just(["apply"]), st.just(["reset"]),
      st.tuples(st.just("disabled"), leaf()).map(list),
      st.tuples(st.just("paths"), st.sampled_from(["a", "b", "l", "l.0", "l.10"]), st.booleans()).map(list)), min_size=3, max_size=16),
  })

def same(a, b): return type(a) is type(b) and a == b
MISSING = object()

class Graph:
  def __init__(self, data, case):
    self.data, self.case, self.pending = data, case, {}
  def get(self, path):
    at = self.data
    for p in path.split("."):
      if isinstance(at, list): at = at[int(p)] if int(p) < len(at) else MISSING
      elif isinstance(at, dict): at = at.get(p, MISSING)
      else: return MISSING
      if at is MISSING or at is None: return MISSING
    return at
  def put(self, path, v):
    at, ps = self.data, path.split(".")
    for p in ps[:-1]: at = at[int(p)] if isinstance(at, list) else at[p]
    at[ps[-1]] = v
  def linked(self, path):
    seen, todo = {path}, [path]
    while todo:
      p = todo.pop()
      base, f = p.rsplit(".", 1)
      out = [b if p == a else a for a, b in self.case["edges"] if p in (a, b)]
      out += [f"{q}.{f}" for b, q, skip in self.case["mirrors"] if b == base and f not in skip]
      for o in out:
        if o not in seen: seen.add(o); todo.append(o)
    return seen
  def valid(self, path, v):
    base, f = path.rsplit(".", 1)
    for p, kind, arg in self.case["validators"]:
      if kind == "sub":
        if p == base and f not in arg: return False
      elif p == path:
        num = isinstance(v, int) and not isinstance(v, bool)
        if kind == "never" or kind == "int" and not num or kind == "max" and num and v > arg: return False
    return True
  def set(self, path, v):
    for p in self.linked(path): self.pending[p] = v
  def apply(self):
    todo = {p: v for p, v in self.pending.items() if not same(self.get(p), v)}
    if not all(self.valid(p, v) for p, v in todo.items()): return "refused"
    for p, v in todo.items(): self.put(p, v)
  def disabled(self, path): return any(not self.valid(p, self.get(p)) for p in self.linked(path))
  def paths(self, root, strip):
    out = set()
    def walk(o, at):
      if isinstance(o, dict):
        for k, v in o.items(): walk(v, f"{at}.{k}")
      elif isinstance(o, list):
        for k, v in enumerate(o): walk(v, f"{at}.{k}")
      elif at.count(".") >= 1 and self.disabled(at): out.add(at[len(root) + 1:] if strip else at)
    walk(self.get(root), root)
    return sorted(out)

def run_graph(case, ctx):
  def data():
    l = [{} for _ in range(11)]
    l[0], l[1], l[10] = (dict(x) for x in case["l"])
    return {"a": dict(case["a"]), "b": dict(case["b"]), "ab": dict(case["ab"]), "l": l}
  model = Graph(data(), case)
  front.page()
  got = front.do("graph", data=data(), edges=case["edges"], mirrors=case["mirrors"], validators=case["validators"], ops=case["ops"])
  for op, (r, after) in zip(case["ops"], got):
    before = dumps(model.data)
    if op[0] == "set": want = model.set(op[1], op[2])
    elif op[0] == "apply":
      want = model.apply()
      ctx.label("refused" if want else "applied")
      ctx.hit(want is not None or dumps(model.data) != before)
    elif op[0] == "reset": want = model.pending.clear()
    elif op[0] == "disabled": want = model.disabled(op[1])
    else: want = model.paths(op[1], op[2])
    if not same(r, want) and r != want: raise Violation(f"{op} gives {r}, not {want}")
    if dumps(after) != dumps(model.data) and _diff(after, model.data): raise Violation(f"after {op} the data is {_diff(after, model.data)}")

def _diff(a, b, at=""):
  if isinstance(a, dict) and isinstance(b, dict):
    return [x for k in sorted(set(a) | set(b)) for x in _diff(a.get(k, "(none)"), b.get(k, "(none)"), f"{at}.{k}")]
  if isinstance(a, list) and isinstance(b, list) and len(a) == len(b): return [x for i in range(len(a)) for x in _diff(a[i], b[i], f"{at}.{i}")]
  return [] if same(a, b) else [f"{at}: {a!r}, not {b!r}"]

# ---------------------------------------------------------------- helpers
word = st.text("ab.", min_size=1, max_size=5)
trees = st.recursive(values, lambda s: st.one_of(st.lists(s, max_size=3), st.dictionaries(st.sampled_from(["k", "m", "n"]), s, max_size=3)), max_leaves=6)
key = st.sampled_from(["f", "f", "g"])
numberish = st.integers(-6, 12).map(lambda x: x / 2 if x % 2 else x // 2)
number_fields = st.fixed_dictionaries({"type": st.just("number"), "label": st.just("L"), "key": key}, optional={"min": st.integers(-2, 3), "max": st.sampled_from([0, 0, 1, 4]), "integer": st.booleans()})
fields = st.one_of(
  number_fields,
  st.fixed_dictionaries({"type": st.just("number"), "label": st.just("L"), "key": key}, optional={"min": st.integers(-2, 3), "max": st.sampled_from([0, 0, 1, 4]), "integer": st.booleans()}),
  st.fixed_dictionaries({"type": st.just("slider"), "label": st.just("L"), "key": key, "min": st.integers(-2, 1), "max": st.integers(2, 4), "pow": st.just(1)}),
  st.fixed_dictionaries({"type": st.just("select"), "label": st.just("L"), "key": key, "items": st.lists(st.one_of(st.integers(-1, 3), st.sampled_from(["0", "p"])).map(lambda v: {"value": v, "label": str(v)}), min_size=2, max_size=4)}),
  st.fixed_dictionaries({"type": st.sampled_from(["boolean", "text", "kvoptions", "secret"]), "label": st.just("L"), "key": key}),
  st.fixed_dictionaries({"type": st.just("dynamicselect"), "label": st.just("L"), "key": key, "path": st.just("p")}),
  st.fixed_dictionaries({"type": st.just("multiselect"), "items": st.lists(st.fixed_dictionaries({"f": st.integers(0, 2), "g": st.sampled_from(["p", "q"])}), min_size=2, max_size=4)}),
)
metas = st.dictionaries(st.sampled_from(["type", "codec", "label", "key", "topic_id", "rate"]), values, max_size=5)
def helper_cases():
  return st.fixed_dictionaries({
    "match": st.lists(st.tuples(word, word, st.booleans()), max_size=3).map(lambda l: [[(b + w if j else w), b] for w, b, j in l]),
    "objects": st.lists(trees, max_size=2),
    "models": st.lists(st.tuples(st.lists(fields, min_size=1, max_size=2), key, st.one_of(numberish, numberish, values, st.dictionaries(st.sampled_from("pq"), values, max_size=2))).map(list), min_size=3, max_size=9),
    "diff": st.lists(st.tuples(metas, metas).map(list), max_size=3),
  })

def leaves(o, at):
  if isinstance(o, dict): return [x for k, v in o.items() for x in leaves(v, at + [k])]
  if isinstance(o, list): return [x for k, v in enumerate(o) for x in leaves(v, at + [str(k)])]
  return [(".".join(at), o)]

def js_number(v): return isinstance(v, (int, float)) and not isinstance(v, bool)
def js_same(a, b): return js_number(a) and js_number(b) and a == b or same(a, b)
def accepts(fs, k, v):
  r = None
  for f in fs:
    t = f["type"]
    if t == "multiselect":
      if k in f["items"][0]: r = any(js_same(i[k], v) for i in f["items"])
    elif f["key"] != k: pass
    elif t == "number": r = js_number(v) and (not f.get("integer") or float(v).is_integer()) and v >= f.get("min", v) and v <= f.get("max", v)
    elif t == "slider": r = js_number(v) and f["min"] <= v <= f["max"]
    elif t == "select": r = any(js_same(i["value"], v) for i in f["items"])
    elif t == "boolean": r = isinstance(v, bool)
    elif t == "text": r = isinstance(v, str)
    elif t == "kvoptions": r = isinstance(v, dict) and all(isinstance(x, str) for x in v.values())
  return r

def run_helpers(case, ctx):
  front.page()
  got = front.do("helpers", **case)
  for (p, b), r in zip(case["match"], got["match"]):
    want = "" if p == b else p[len(b) + 1:] if p.startswith(b + ".") else None
    if r != want: raise Violation(f"{p!r} below {b!r} is {want!r}, not {r!r}")
  for o, ps, vs in zip(case["objects"], got["paths"], got["values"]):
    want = leaves(o, [])
    if sorted(ps) != sorted(p for p, _ in want): raise Violation(f"the leaves of {o} are {want}, not {ps}")
    wv = {("x." + p) if p else "x": v for p, v in want}
    if set(wv) != {k for k, _ in vs} or any(not same(wv[k], v) for k, v in vs): raise Violation(f"the values of {o} are {wv}, not {vs}")
  for (fs, k, v), r in zip(case["models"], got["models"]):
    if r is not accepts(fs, k, v): raise Violation(f"value {v!r} for {k} of {fs}: accepted {r}, not {accepts(fs, k, v)}")
    ctx.hit(r is not None)
  for (x, y), r in zip(case["diff"], got["diff"]):
    want = sorted(k for k in set(x) | set(y) if k not in ("key", "topic_id", "label") and not same(x.get(k), y.get(k)))
    if r != want: raise Violation(f"{x} and {y} differ in {want}, not {r}")
    ctx.hit(bool(want))

SUBS = [
  Sub("graph", graphs, run_graph, quick=900, thorough=20000, rule="an application was refused or changed the data"),
  Sub("fields", helper_cases, run_helpers, quick=900, thorough=12000, rule="a field's model judged a value, or descriptions differ"),
]
