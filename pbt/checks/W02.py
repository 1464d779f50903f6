"""W02 What is built in the browser's task editor is what its host accepts and runs (browser code + hosts)."""
from ..core import *
from ..gen import *
from ..front import front, FrontError
import asyncio, copy, importlib, inspect, json, pkgutil, unicodedata

TECHNIQUE = "stateful property-based testing (Hypothesis): the real editor windows run in Node against a reference model built from each host's description"
NOTE = "Random search with shrinking; the browser code is bundled unchanged, React, MUI and the DOM are stand-ins."

FREE = ("key", "topic_id", "label")      # what two ends of a connection need not agree about
INTERNAL = ("_trackInputKeys", "_trackOutputMap")

_hosts = None
def hosts():
  global _hosts
  if _hosts is None:
    import streamtasks.system.tasks as T
    from streamtasks.system.task import TaskHost
    _hosts = {}
    for m in sorted(pkgutil.walk_packages(T.__path__, T.__name__ + "."), key=lambda m: m.name):
      if ".inference" in m.name: continue
      try: mod = importlib.import_module(m.name)
      except ImportError: continue
      for n, o in sorted(vars(mod).items()):
        if inspect.isclass(o) and issubclass(o, TaskHost) and o is not TaskHost and o.__module__ == mod.__name__:
          h = o()
          _hosts.setdefault(h.metadata.get("js:configurator"), []).append((n, h))
  return _hosts

MISSING = object()
def same(a, b):
  num = lambda v: isinstance(v, (int, float)) and not isinstance(v, bool)
  return a is b or num(a) and num(b) and a == b or type(a) is type(b) and a == b
def is_num(v): return isinstance(v, (int, float)) and not isinstance(v, bool)
def accepts(f, k, v):
  t = f["type"]
  if t == "multiselect": return any(same(i[k], v) for i in f["items"])
  if t == "number": return is_num(v) and (not f.get("integer") or float(v).is_integer()) and v >= f.get("min", v) and v <= f.get("max", v)
  if t == "slider": return is_num(v) and f["min"] <= v <= f["max"]
  if t == "select": return any(same(i["value"], v) for i in f["items"])
  if t == "boolean": return isinstance(v, bool)
  if t == "text": return isinstance(v, str)
  if t == "kvoptions": return isinstance(v, dict) and all(isinstance(x, str) for x in v.values())
  return True                             # no rule
def has_rule(f): return f["type"] not in ("dynamicselect", "secret")
def keys_of(f): return list(f["items"][0]) if f["type"] == "multiselect" else [f["key"]]
def text_of(v):
  if v is None: return ""
  if isinstance(v, bool): return "true" if v else "false"
  if isinstance(v, float): return str(int(v)) if v.is_integer() else repr(v)
  return str(v)

class Model:
  """A task as its host's description says it behaves while it is edited."""
  kind = "static"
  def __init__(self, meta, task):
    self.meta, self.task = meta, task
    j = lambda k, d: json.loads(meta[k]) if k in meta else d
    self.oin, self.oout = j("cfg:inputs", []), j("cfg:outputs", [])
    self.outkeys, self.fields = j("cfg:outputkeys", []), j("cfg:editorfields", [])
    self.c2i, self.c2o = j("cfg:config2inputmap", {}), j("cfg:config2outputmap", [])
    self.mirror, self.mirror_skip, self.free = j("cfg:iomirror", []), set(j("cfg:iomirrorignore", [])) | {"topic_id"}, j("cfg:freeinputs", [])
    self.tracks = j("cfg:trackconfigs", [])
    self.isinput = bool(j("cfg:isinput", False))
  # -- values by path
  def get(self, path):
    at = self.task
    for p in path:
      if isinstance(at, list): at = at[p] if p < len(at) else MISSING
      elif isinstance(at, dict): at = at.get(p, MISSING)
      else: return MISSING
      if at is MISSING: return MISSING
    return at
  def put(self, path, v):
    at = self.task
    for p in path[:-1]: at = at.setdefault(p, {}) if isinstance(at, dict) else at[p]
    if v is MISSING: at.pop(path[-1], None)
    else: at[path[-1]] = v
  # -- what is linked with what
  def track_list(self): return [(t, f"{t['key']}_tracks", j, d) for t in self.tracks for j, d in enumerate(self.task["config"].get(f"{t['key']}_tracks", []))]
  def pairs(self):
    """All links: two paths which always hold one value."""
    cfg, ins, outs = self.task["config"], self.task["inputs"], self.task["outputs"]
    for i, inp in enumerate(ins):
      if any(o["key"] == inp["key"] for o in self.oin): yield ("inputs", i, "topic_id"), ("config", inp["key"])
      for c, f in self.c2i.get(inp["key"], {}).items(): yield ("inputs", i, f), ("config", c)
    for o, k in enumerate(self.outkeys):
      if o < len(outs) and k is not None: yield ("outputs", o, "topic_id"), ("config", k)
    for o, m in enumerate(self.c2o):
      for c, f in (m or {}).items(): yield ("outputs", o, f), ("config", c)
    for t, tk, j, d in self.track_list():
      if self.isinput: side, n, end = "inputs", next((i for i, x in enumerate(ins) if x["key"] == d["_key"]), None), "in_topic"
      else: side, n, end = "outputs", next((i for i, x in enumerate(outs) if x["topic_id"] == d.get("out_topic", MISSING)), None), "out_topic"
      if n is None: continue
      yield (side, n, "topic_id"), ("config", tk, j, end)
      for c, f in t.get("ioMap", {}).items(): yield (side, n, f), ("config", tk, j, c)
      for c, f in t.get("globalIOMap", {}).items(): yield (side, n, f), ("config", c)
  def mirrored(self, path):
    if len(path) != 3 or path[0] == "config" or path[2] in self.mirror_skip: return
    for key, o in self.mirror:
      i = next(i for i, x in enumerate(self.task["inputs"]) if x["key"] == key)
      if path[:2] == ("inputs", i): yield ("outputs", o, path[2])
      if path[:2] == ("outputs", o): yield ("inputs", i, path[2])
  def linked(self, path):
    links = list(self.pairs())
    seen, todo = {path}, [path]
    while todo:
      p = todo.pop()
      for q in [b if p == a else a for a, b in links if p in (a, b)] + list(self.mirrored(p)):
        if q not in seen: seen.add(q); todo.append(q)
    return seen
  # -- what may be put where
  def allowed(self, path, v):
    if path[0] == "config":
      if len(path) == 2:
        return all(accepts(f, path[1], v) for f in self.fields if path[1] in keys_of(f))
      for t, tk, j, d in self.track_list():
        if path[1:3] == (tk, j): return all(accepts(f, path[3], v) for f in t["editorFields"] if path[3] in keys_of(f))
      return True
    side, n, f = path
    if side == "inputs":
      inp = self.task["inputs"][n]
      if f in FREE: return True
      if inp.get("topic_id") is not None: return False
      o = next((o for o in self.oin if o["key"] == inp["key"]), None)
      mapped = self.c2i.get(inp["key"], {}).values()
      if o is None:
        for t, tk, j, d in self.track_list():
          if d["_key"] == inp["key"]: o, mapped = t["defaultIO"], [*t.get("ioMap", {}).values(), *t.get("globalIOMap", {}).values()]
      if o is not None and f in o and f not in mapped: return False
      if not any(k == inp["key"] for k, _ in self.mirror) and inp["key"] not in self.free and f not in inp: return False
    else:
      if f in FREE: return True
      if n < len(self.c2o) and f in self.oout[n] and f not in (self.c2o[n] or {}).values(): return False
    return True
  def locked(self, path): return any(not self.allowed(p, None if self.get(p) is MISSING else self.get(p)) for p in self.linked(path))
  # -- operations
  def learn(self, task, fail): pass
  def write(self, path, v):
    for p in self.linked(path): self.put(p, v)
  def connect(self, n, source):
    self.write(("inputs", n, "topic_id"), MISSING)
    if source is None: return
    inp = self.task["inputs"][n]
    todo = {p: source["topic_id"] for p in self.linked(("inputs", n, "topic_id"))}
    for f in sorted((set(inp) | set(source)) - set(FREE)):
      if not same(inp.get(f, MISSING), source.get(f, MISSING)):
        for p in self.linked(("inputs", n, f)): todo[p] = source.get(f, MISSING)
    todo = {p: v for p, v in todo.items() if not same(self.get(p), v)}
    if all(self.allowed(p, None if v is MISSING else v) for p, v in todo.items()):
      for p, v in todo.items(): self.put(p, v)
  # -- what the window shows: (tag, what it shows, disabled, what can be done)
  def field_controls(self, fields, base, off, data, typed, choices):
    out = []
    for f in fields:
      t = f["type"]
      if t == "multiselect":
        for k in keys_of(f):
          dis = off(k)
          fixed = [o for o in keys_of(f) if o != k and off(o)]
          items = []
          for i in f["items"]:
            if i[k] not in items and all(same(i[o], data.get(o)) for o in fixed): items.append(i[k])
          out.append(("Select", data.get(k), dis, {"do": "multi", "base": base, "key": k, "field": f, "items": items, "fixed": fixed}))
        continue
      k, v = f["key"], data.get(f["key"])
      dis, op = off(k), {"do": t, "base": base, "key": k, "field": f}
      if t in ("number", "text"): out.append(("TextField", typed.get((*base, k), text_of(v)), dis, op))
      elif t == "slider": out.append(("Slider", v ** (1 / f["pow"]), dis, op))
      elif t == "select": out.append(("Select", v, dis, {**op, "items": [i["value"] for i in f["items"]]}))
      elif t == "dynamicselect": out.append(("Select", v, dis, {**op, "items": choices}))
      elif t == "boolean": out.append(("Checkbox", bool(v), dis, op))
      elif t == "secret": out += [("TextField", "*********" if v else typed.get((*base, k), ""), dis or bool(v), {**op, "do": "type"}), ("IconButton", None, dis or not v and not typed.get((*base, k)), op)]
      elif t == "kvoptions":
        for n in sorted(v or {}, key=lambda n: unicodedata.normalize("NFD", n)):
          out += [("TextField", n, True, None), ("TextField", v[n], True, None)]
          if not dis: out.append(("IconButton", None, False, {**op, "do": "kvdel", "name": n}))
        if not dis or not v:
          out += [("TextField", typed.get((*base, k, 0), ""), dis, {**op, "do": "type", "part": 0}), ("TextField", typed.get((*base, k, 1), ""), dis, {**op, "do": "type", "part": 1})]
          if not dis: out.append(("IconButton", None, False, {**op, "do": "kvadd"}))
    return out
  def controls(self, typed, choices):
    cfg = self.task["config"]
    out = self.field_controls(self.fields, ("config",), lambda k: self.locked(("config", k)), cfg, typed, choices)
    for t in self.tracks:
      tk = f"{t['key']}_tracks"
      out.append(("IconButton", None, False, {"do": "add", "track": t}))
      for j, d in enumerate(cfg.get(tk, [])):
        out.append(("IconButton", None, False, {"do": "delete", "track": t, "at": j}))
        busy = self.isinput and any(i["key"] == d["_key"] and i.get("topic_id") is not None for i in self.task["inputs"])
        ruled = {k for f in t["editorFields"] if has_rule(f) for k in keys_of(f)}
        out += self.field_controls(t["editorFields"], ("config", tk, j), lambda k: busy and k in ruled, d, {(*("config", tk, j), *k[2:]): v for k, v in typed.items() if k[0] == "track" and k[1] == d["_key"]}, choices)
    return out
  def relabel(self):
    for t, tk, j, d in self.track_list():
      if "label" in t.get("ioMap", {}).values(): continue
      ios = [x for x in self.task["inputs" if self.isinput else "outputs"] if (x["key"] == d["_key"] if self.isinput else x["topic_id"] == d.get("out_topic"))]
      for x in ios: x["label"] = f"{t.get('label') or t['key']} {j + 1}"

# ---------------------------------------------------------------- cases
num_texts = ["0", "1", "2", "3", "7", "16", "100", "0.5", "1.5", "-1", "-0.5", "", "x", "1e3", "12a", " "]
TEXTS = ["", "a", "b", "1", "x y", "é", "undefined"]
small = st.integers(0, 40)
def operations():
  return st.lists(st.one_of(
    st.tuples(st.just("connect"), small, st.lists(st.tuples(small, small), max_size=3), st.integers(0, 3)).map(list),
    st.tuples(st.just("connect"), small, st.lists(st.tuples(small, small), max_size=1), st.integers(0, 3)).map(list),
    st.tuples(st.just("edit"), small, small).map(list), st.tuples(st.just("edit"), small, small).map(list), st.tuples(st.just("edit"), small, small).map(list),
    st.tuples(st.just("fill"), small, small, small).map(list),
    st.tuples(st.just("pick"), st.sampled_from(["multi", "kvdel", "secret", "delete", "slider", "add"]), small, small).map(list),
    st.tuples(st.just("disconnect"), small).map(list), st.tuples(st.just("label"), small).map(list), st.tuples(st.just("reload")).map(list), st.tuples(st.just("reopen")).map(list),
  ), min_size=2, max_size=12)
def cases(group):
  n = len(hosts().get(group, []))
  return st.fixed_dictionaries({"host": st.integers(0, n - 1), "ops": operations(), "opened": st.booleans()})

EXTRA = ["x", 7, True, "number", "text", -1, 2.5]
def candidates(m, inp, f):
  """Values another stream might have in a field."""
  cs = []
  for p in sorted(m.linked(("inputs", m.task["inputs"].index(inp), f)), key=str):
    if p[0] != "config": continue
    fields = m.fields if len(p) == 2 else next(t["editorFields"] for t in m.tracks if p[1] == f"{t['key']}_tracks")
    for x in fields:
      if p[-1] not in keys_of(x): continue
      if x["type"] == "select": cs += [i["value"] for i in x["items"]]
      elif x["type"] == "multiselect": cs += [i[p[-1]] for i in x["items"]]
      elif x["type"] in ("number", "slider"): cs += [1, 2, 3, 12]
  return cs + EXTRA if cs else EXTRA
def source_for(m, inp, muts, topic):
  s = {k: v for k, v in inp.items() if k not in FREE}
  for a, b in muts:
    fs = sorted(s) + ["extra"]
    f = fs[a % len(fs)]
    if b == 40: s.pop(f, None)
    else:
      cs = candidates(m, inp, f)
      s[f] = cs[b % len(cs)]
  return {**s, "topic_id": topic, "label": "source"}

def diff(a, b, at=""):
  if isinstance(a, dict) and isinstance(b, dict):
    return [x for k in sorted(set(a) | set(b)) for x in diff(a.get(k, "(none)"), b.get(k, "(none)"), f"{at}.{k}")]
  if isinstance(a, list) and isinstance(b, list) and len(a) == len(b): return [x for i in range(len(a)) for x in diff(a[i], b[i], f"{at}.{i}")]
  return [] if same(a, b) else [f"{at[1:]} is {a!r}, not {b!r}"]
def plain(task):
  t = json.loads(json.dumps({k: v for k, v in task.items() if k not in ("frontend_config", "task_instance")}))
  for k in INTERNAL: t["config"].pop(k, None)
  return t
def clean(x):
  """Fields without a value are no fields."""
  if isinstance(x, dict): return {k: clean(v) for k, v in x.items() if v is not MISSING}
  if isinstance(x, list): return [clean(v) for v in x]
  return x

CHOICES = [{"value": 0, "label": "A"}, {"value": 3, "label": "B"}, {"value": -1, "label": "C"}]
class Editing:
  def __init__(self, name, meta, make_model, ctx, create=None):
    self.name, self.meta, self.ctx, self.make = name, meta, ctx, create
    self.cfgname = meta["js:configurator"].split(":")[1]
    self.hostinfo = {"id": "h" + name, "metadata": {k: v for k, v in meta.items() if isinstance(v, (str, int, float, bool))}}
    self.topic = 100
    self.secrets = {}
    self.win, self.typed = None, {}
    front.page(uuid=1)
    r = self.do("create", configurator=self.cfgname, host=self.hostinfo, topics=list(range(50, 90)))
    self.id = r["id"]
    self.m = make_model(meta, plain(r["task"]))
    self.make_model = make_model
  def serve(self, call):
    u, method = call["url"], call["method"]
    if method == "PUT":
      if u != "http://page.test/secrets/api/secret": return 404, '{"detail":"Not Found"}'
      b = json.loads(call["body"]); self.secrets[b["id"]] = b["value"]
      return 200, '"ok"'
    if method == "DELETE":
      base = "http://page.test/secrets/api/secret/"
      if not u.startswith(base) or u[len(base):] not in self.secrets: return 404, '{"detail":"Not Found"}'
      del self.secrets[u[len(base):]]
      return 200, '"ok"'
    if u.startswith(f"http://page.test/task-host/{self.hostinfo['id']}/"): return 200, json.dumps(CHOICES)
    return 404, '{"detail":"Not Found"}'
  def do(self, op, **a): return front.do(op, self.serve, **a)
  def fail(self, text):
    errs = front.do("errors")
    raise Violation(f"{self.name}: {text}" + (f" (the page reports: {errs[0][:200]})" if errs else ""))
  def compare(self, after, task=None):
    task = plain(task if task is not None else self.do("task", id=self.id))
    want = clean(self.m.task)
    for side in ("inputs", "outputs", "config"):
      if diff(task[side], want[side]): self.fail(f"after {after}: {side} {diff(task[side], want[side])[:4]}")
    for k in ("id", "task_host_id", "label"):
      if task.get(k) != want.get(k): self.fail(f"after {after}: {k} is {task.get(k)!r}, not {want.get(k)!r}")
  def consistent(self, after):
    """What must hold whatever happened: the description of the host is kept."""
    m = self.m
    for a, b in m.pairs():
      if not same(m.get(a), m.get(b)): self.fail(f"after {after}: {a} is {m.get(a)!r} and {b} is {m.get(b)!r}")
  # -- the window
  def open(self):
    if self.win is None:
      self.win = self.do("window", id=self.id)
      self.typed = {}
      self.m.opened()
  def shut(self):
    if self.win is not None: self.do("close", window=self.win); self.win = None; self.typed = {}
  def shown(self, after, got=None):
    if self.win is None: return []
    got = [(n, c) for n, c in enumerate(got if got is not None else self.do("controls", window=self.win)) if c["inner"]]
    want = self.m.controls(self.typed, [c["value"] for c in CHOICES])
    if [c["tag"] for _, c in got] != [w[0] for w in want]: self.fail(f"after {after} the window shows {[c['tag'] for _, c in got]}, not {[w[0] for w in want]}")
    out = []
    for (n, c), (tag, v, dis, op) in zip(got, want):
      what = f"{tag} {(op or {}).get('key', '')}"
      if tag in ("TextField", "Select") and not same(c.get("value"), v): self.fail(f"after {after} {what} shows {c.get('value')!r}, not {v!r}")
      if tag == "Slider" and abs(c["value"] - v) > 1e-9: self.fail(f"after {after} {what} stands at {c['value']}, not {v}")
      if tag == "Checkbox" and bool(c.get("checked")) != v: self.fail(f"after {after} {what} shows {c.get('checked')}, not {v}")
      if bool(c["disabled"]) != bool(dis): self.fail(f"after {after} {what} is {'locked' if c['disabled'] else 'free'} but should be {'locked' if dis else 'free'}")
      if op and "items" in op and (op["do"] != "multi" or not dis) and c["items"] != op["items"]: self.fail(f"after {after} {what} offers {c['items']}, not {op['items']}")
      if op and not dis: out.append((n, tag, op))
    return out
  # -- operations
  def attach(self, n, s):
    """Connects an input to a stream, or is refused, as the description says."""
    m = self.m
    inp, key = dict(m.task["inputs"][n]), m.task["inputs"][n]["key"]
    self.topic = max(self.topic, s["topic_id"])
    m.connect(n, s)
    r = self.do("connect", id=self.id, key=key, output=s)
    made = next((i.get("topic_id") for i in m.task["inputs"] if i["key"] == key), None) == s["topic_id"]
    if r["result"] is not made: self.fail(f"connecting {s} to {key} of {inp} reports {r['result']}, but it is {'connected' if made else 'refused'}")
    m.learn(plain(r["task"]), lambda text: self.fail(f"after connecting {key} to {s}: {text}"))
    self.compare(f"connecting {key} to {s}", r["task"])
    return r, made
  def step(self, op):
    m, ctx = self.m, self.ctx
    if op[0] == "connect" and m.task["inputs"]:
      n = op[1] % len(m.task["inputs"])
      inp = m.task["inputs"][n]
      key = inp["key"]
      self.topic += 1
      s = source_for(m, inp, op[2], self.topic if op[3] else 0)
      equal = all(same(inp.get(f, MISSING), s.get(f, MISSING)) for f in (set(inp) | set(s)) - set(FREE))
      r, made = self.attach(n, s)
      if equal and not made: raise RuntimeError("the model refuses an equal description")
      after = f"connecting {key} to {s}"
      got = next((i for i in r["task"]["inputs"] if i["key"] == key), {})
      if made and any(not same(got.get(f, MISSING), s.get(f, MISSING)) for f in (set(got) | set(s)) - set(FREE)): self.fail(f"{after}: the input says {got}")
      ctx.label("connected" if made else "refused"); ctx.hit(True)
    elif op[0] == "disconnect" and m.task["inputs"]:
      key = m.task["inputs"][op[1] % len(m.task["inputs"])]["key"]
      m.connect(op[1] % len(m.task["inputs"]), None)
      after = f"disconnecting {key}"
      r = self.do("connect", id=self.id, key=key, output=None)
      if r["result"] is not True: self.fail(f"{after} reports {r['result']}")
      m.learn(plain(r["task"]), lambda text: self.fail(f"after {after}: {text}"))
    elif op[0] == "label":
      m.task["label"] = self.texts[op[1] % len(self.texts)]
      self.do("setLabel", id=self.id, label=m.task["label"])
      after = "renaming"
    elif op[0] == "edit" and m.editable:
      self.open()
      usable = self.shown("opening")
      if not usable: return
      n, tag, what = usable[op[1] % len(usable)]
      after = self.edit(n, tag, what, op[2])
      if after is None: return
      ctx.hit(True)
    elif op[0] == "pick" and m.editable:
      self.open()
      usable = [u for u in self.shown("opening") if u[2]["do"] == op[1]]
      if not usable: return
      n, tag, what = usable[op[2] % len(usable)]
      after = self.edit(n, tag, what, op[3])
      if after is None: return
      ctx.hit(True)
    elif op[0] == "fill" and m.editable:
      self.open()
      ways = sorted({(str(u[2]["base"]), u[2]["key"]) for u in self.shown("opening") if u[2]["do"] == "type"})
      if not ways: return
      base, key = ways[op[1] % len(ways)]
      find = lambda: [u for u in self.shown("filling in") if u[2].get("key") == key and str(u[2].get("base")) == base]
      after = None
      for turn in range(1 + op[3] % 2):
        for part, x in ((0, op[2] + turn), (1, op[3])):
          for n, tag, what in find():
            if what["do"] == "type" and what.get("part", 0) == part: after = self.edit(n, tag, what, x)
        for n, tag, what in find():
          if what["do"] in ("kvadd", "secret"): after = self.edit(n, tag, what, 0)
      if op[3] % 3 == 0:
        for n, tag, what in find()[:1]:
          if what["do"] in ("kvdel", "secret"): after = self.edit(n, tag, what, 0)
      ctx.hit(True)
    elif op[0] == "reopen" and m.editable:
      self.shut(); self.open()
      after = "opening the window again"
    elif op[0] == "reload":
      stored = json.loads(json.dumps(self.do("task", id=self.id)))
      was = self.win is not None
      front.page(uuid=1 + self.topic)
      self.win, self.typed = None, {}
      self.topic += 1
      self.id = self.do("create", configurator=self.cfgname, host=self.hostinfo, topics=list(range(1000 + self.topic * 10, 1010 + self.topic * 10)), task=stored)["id"]
      if was: self.open()
      after = "loading the page again"
    else: return
    if self.win is not None: self.m.opened()
    self.settle_typed()
    self.compare(after)
    told = plain(self.do("told", id=self.id))
    if diff(told, clean(self.m.task)): self.fail(f"after {after}: what the page was told last differs in {diff(told, clean(self.m.task))[:4]}")
    self.consistent(after)
    self.shown(after)
  def settle_typed(self):
    """A text or number field shows what was typed until its value becomes another."""
    for k, (text, v) in list(self.typed_values.items()):
      base = self.track_base(k)
      now = MISSING if base is None else self.m.get((*base, k[-1]))
      if base is None or not same(now, v):
        self.typed_values.pop(k); self.typed.pop(k, None)
  typed_values, texts = {}, TEXTS
  def track_base(self, k):
    if k[0] != "track": return k[:-1]
    for t, tk, j, d in self.m.track_list():
      if d["_key"] == k[1]: return ("config", tk, j)
    return None
  def edit(self, n, tag, what, x):
    m, do, base, key = self.m, what["do"], what.get("base"), what.get("key")
    data = m.get(base) if base else None
    tkey = base and (("track", data["_key"], key) if len(base) == 3 else (*base, key))
    act = lambda v=None: self.do("act", window=self.win, at=n, value=v, how=None)
    if do == "number":
      text = num_texts[x % len(num_texts)]
      f = what["field"]
      act(text)
      try: v = float(text) if text.strip() or text == "" else 0.0
      except ValueError: v = None
      if text == "": v = None
      after = f"typing {text!r} into {key}"
      self.typed[tkey] = text
      if v is not None and accepts(f, key, v):
        m.write((*base, key), int(v) if v.is_integer() else v)
      self.ctx.label("number" if v is not None else "no number")
      self.typed_values[tkey] = (text, m.get((*base, key)))
    elif do == "text":
      text = self.texts[x % len(self.texts)]
      act(text)
      after = f"typing {text!r} into {key}"
      old = m.get((*base, key))
      m.write((*base, key), text); m.edited()
      now = m.get((*base, key))
      if not same(now, text) and not same(now, old): text = now
      self.typed[tkey] = text
      self.typed_values[tkey] = (text, m.get((*base, key)))
    elif do == "type":
      text = self.texts[x % len(self.texts)]
      act(text)
      after = f"typing {text!r} below {key}"
      self.typed[tkey if "part" not in what else (*tkey, what["part"])] = text
    elif do in ("select", "dynamicselect"):
      if do == "dynamicselect": self.do("act", window=self.win, at=n, how="open")
      v = what["items"][x % len(what["items"])]
      act(v)
      after = f"choosing {v!r} for {key}"
      m.write((*base, key), v)
    elif do == "slider":
      f = what["field"]
      lo, hi = f["min"] ** (1 / f["pow"]), f["max"] ** (1 / f["pow"])
      shown = self.do("controls", window=self.win)[n]
      if abs(shown["min"] - lo) > 1e-9 or abs(shown["max"] - hi) > 1e-9: self.fail(f"the slider of {key} goes from {shown['min']} to {shown['max']}, not from {lo} to {hi}")
      at = lo + (hi - lo) * (x % 5) / 4
      act(at)
      v = self.do("task", id=self.id)
      for p in (*base, key): v = v[p]
      if abs(v - at ** f["pow"]) > 1e-9: self.fail(f"the slider of {key} at {at} gives {v}, not {at ** f['pow']}")
      after = f"moving the slider of {key}"
      m.write((*base, key), v)
    elif do == "boolean":
      act(not data.get(key))
      after = f"ticking {key}"
      m.write((*base, key), not data.get(key))
    elif do == "multi":
      v = what["items"][x % len(what["items"])]
      act(v)
      after = f"choosing {v!r} for {key}"
      before = {k: data.get(k) for k in keys_of(what["field"])}
      task = self.do("task", id=self.id)
      now = task
      for p in base: now = now[p]
      combo = {k: now.get(k) for k in keys_of(what["field"])}
      if not same(combo[key], v): self.fail(f"{after} gives {combo}")
      fits = [i for i in what["field"]["items"] if same(i[key], v)]
      if not any(all(same(i[k], combo[k]) for k in combo) for i in fits): self.fail(f"{after} gives {combo}, which is no listed combination")
      if any(all(same(i[k], v if k == key else before[k]) for k in combo) for i in fits) and any(not same(combo[k], before[k]) for k in combo if k != key): self.fail(f"{after} changes {before} to {combo}, though {key} alone could change")
      for k in combo: m.write((*base, k), combo[k])
    elif do == "kvdel":
      act()
      after = f"removing {what['name']!r} from {key}"
      m.write((*base, key), {k: v for k, v in data[key].items() if k != what["name"]})
    elif do == "kvadd":
      name, value = self.typed.get((*tkey, 0), ""), self.typed.get((*tkey, 1), "")
      act()
      after = f"adding {name!r}={value!r} to {key}"
      m.write((*base, key), {**(data.get(key) or {}), name: value})
      self.typed.pop((*tkey, 0), None); self.typed.pop((*tkey, 1), None)
    elif do == "secret":
      old, text = data.get(key), self.typed.get(tkey)
      act()
      now = self.do("task", id=self.id)
      for p in (*base, key): now = now[p]
      if old:
        after = f"removing the secret {key}"
        if now is not None or old in self.secrets: self.fail(f"{after} leaves {now!r} and {self.secrets}")
      else:
        after = f"saving the secret {key}"
        if self.secrets.get(now) != text: self.fail(f"{after} gives {now!r}, while the server holds {self.secrets}")
      m.write((*base, key), now)
      self.typed.pop(tkey, None)
    elif do == "add":
      t = what["track"]
      tk = f"{t['key']}_tracks"
      if len(m.task["config"][tk]) >= 4: return None
      act()
      after = f"adding a {t['key']} track"
      got = self.do("task", id=self.id)
      new = got["config"][tk][-1] if len(got["config"].get(tk, [])) == len(m.task["config"][tk]) + 1 else self.fail(f"{after} gives {got['config'].get(tk)}")
      k = new.get("_key")
      if not isinstance(k, str) or not k or k in [d["_key"] for *_, d in m.track_list()] or k in [i["key"] for i in m.task["inputs"]]: self.fail(f"{after} gives it the key {k!r}")
      d = {**copy.deepcopy(t["defaultConfig"]), "_key": k}
      io = dict(t["defaultIO"])
      if m.isinput:
        m.task["inputs"].append({**io, "key": k}); side, idx = "inputs", len(m.task["inputs"]) - 1
      else:
        tid = new.get("out_topic")
        if not isinstance(tid, int) or tid in [o["topic_id"] for o in m.task["outputs"]]: self.fail(f"{after} gives it the topic {tid!r}")
        d["out_topic"] = tid
        m.task["outputs"].append({**io, "topic_id": tid}); side, idx = "outputs", len(m.task["outputs"]) - 1
      m.task["config"][tk].append(d)
      for c, f in t.get("globalIOMap", {}).items(): m.task[side][idx][f] = m.task["config"][c]
      for c, f in t.get("ioMap", {}).items(): m.task[side][idx][f] = d[c]
      m.relabel()
      self.ctx.label("tracks")
    elif do == "delete":
      t = what["track"]
      tk = f"{t['key']}_tracks"
      act()
      after = f"deleting {t['key']} track {what['at'] + 1}"
      d = m.task["config"][tk].pop(what["at"])
      if m.isinput: m.task["inputs"] = [i for i in m.task["inputs"] if i["key"] != d["_key"]]
      else: m.task["outputs"] = [o for o in m.task["outputs"] if o["topic_id"] != d["out_topic"]]
      m.relabel()
      for k in [k for k in self.typed if k[0] == "track" and k[1] == d["_key"]]: self.typed.pop(k)
    m.edited()
    self.ctx.label(do)
    return after

class StaticModel(Model):
  editable = True
  def opened(self): pass
  def edited(self): self.relabel()

class FixedModel(Model):
  """Tasks with a configurator of their own kind."""
  editable = False
  def opened(self): pass
  def edited(self): pass
  def pairs(self): return []
  def desc(self, x): return {k: v for k, v in x.items() if k not in FREE}
  def take(self, x, source):
    for k in [k for k in x if k not in FREE]: del x[k]
    x.update({k: v for k, v in source.items() if k not in FREE})
  def learn(self, task, fail):
    """Keys and topics of new inputs and outputs are up to the page."""
    for side, field in (("inputs", "key"), ("outputs", "topic_id")):
      mine, got = self.task[side], task[side]
      if len(mine) != len(got): fail(f"there are {len(got)} {side}, not {len(mine)}")
      for a, b in zip(mine, got):
        if a.get(field) is not NEW: continue
        v = b.get(field)
        if field == "key" and not (isinstance(v, str) and v) or field == "topic_id" and not isinstance(v, int): fail(f"a new one of the {side} has the {field} {v!r}")
        if sum(same(x.get(field), v) for x in got) != 1: fail(f"several {side} have the {field} {v!r}")
        a[field] = v
    self.configure()
  def configure(self): pass
  def connect(self, n, source):
    ins = self.task["inputs"]
    ins[n].pop("topic_id", None)
    if source is not None and self.takes(n, source):
      ins[n]["topic_id"] = source["topic_id"]
      self.describe(n, source)
    self.arrange()
NEW = object()
def connected(i): return isinstance(i.get("topic_id"), int)

class SwitchModel(FixedModel):
  CONTROL = {"content": "number", "type": "ts"}
  def takes(self, n, source):
    if n % 2: return not diff(self.desc(source), self.CONTROL)
    return not any(connected(i) for i in self.task["inputs"][::2]) or not diff(self.desc(source), self.desc(self.task["inputs"][n]))
  def describe(self, n, source):
    if n % 2 == 0:
      for x in [*self.task["inputs"][::2], self.task["outputs"][0]]: self.take(x, source)
  def arrange(self):
    t = self.task
    ps = list(zip(t["inputs"][::2], t["inputs"][1::2]))
    ps = [p for n, p in enumerate(ps) if n == len(ps) - 1 or connected(p[0]) or connected(p[1])]
    if not ps or connected(ps[-1][0]) or connected(ps[-1][1]): ps.append(({"key": NEW, **self.desc(t["outputs"][0])}, {"key": NEW, **self.CONTROL}))
    for n, (a, b) in enumerate(ps):
      last = n == len(ps) - 1
      a["label"], b["label"] = ("new input", "new control") if last else (f"input {n + 1}", f"control {n + 1}")
    t["inputs"] = [x for p in ps for x in p]
  def configure(self):
    t = self.task
    t["config"] = {"topics": [], "output": t["outputs"][0]["topic_id"], "pairs": [{k: x["topic_id"] for k, x in (("input", a), ("control", b)) if connected(x)} for a, b in list(zip(t["inputs"][::2], t["inputs"][1::2]))[:-1]]}
  def required(self): return list(range(len(self.task["inputs"]) - 2))
  def fresh(self, fail):
    t = self.task
    got = [{k: v for k, v in x.items() if k not in ("key", "topic_id")} for x in (*t["inputs"], *t["outputs"])]
    if got != [{"label": "new input"}, {**self.CONTROL, "label": "new control"}, {"label": "output"}] or diff(t["config"], {"topics": [], "pairs": [], "output": t["outputs"][0]["topic_id"]}): fail(f"a new switch is {t}")

class SyncModel(FixedModel):
  def takes(self, n, source): return True
  def describe(self, n, source):
    for x in (self.task["inputs"][n], self.task["outputs"][n]): self.take(x, source)
  def arrange(self):
    t = self.task
    ps = list(zip(t["inputs"], t["outputs"]))
    ps = [p for n, p in enumerate(ps) if n == len(ps) - 1 or connected(p[0])]
    if not ps or connected(ps[-1][0]): ps.append(({"key": NEW}, {"topic_id": NEW}))
    for n, (a, b) in enumerate(ps):
      name = f" {n + 1}" if n < len(ps) - 1 else None
      a["label"], b["label"] = ("input" + name, "output" + name) if name else ("new input", "new output")
    t["inputs"], t["outputs"] = [a for a, b in ps], [b for a, b in ps]
  def configure(self):
    t = self.task
    t["config"] = {"topics": [[a["topic_id"], b["topic_id"]] for a, b in list(zip(t["inputs"], t["outputs"]))[:-1]]}
  def required(self): return list(range(len(self.task["inputs"]) - 1))
  def fresh(self, fail):
    t = self.task
    got = [{k: v for k, v in x.items() if k not in ("key", "topic_id")} for x in (*t["inputs"], *t["outputs"])]
    if got != [{"label": "new input"}, {"label": "new output"}] or t["config"] != {"topics": []}: fail(f"a new synchronizer is {t}")

class NamedModel(FixedModel):
  editable = True
  def edited(self):
    self.task["config"]["name"] = self.task["config"]["name"].strip()
    self.link()

class NamedInModel(NamedModel):
  def __init__(self, meta, task):
    super().__init__(meta, task)
    self.fields = [{"type": "text", "key": "name"}, {"type": "kvoptions", "key": "metadata"}]
  def opened(self): self.task["config"].setdefault("metadata", {})
  def link(self):
    t = self.task
    t["outputs"] = [{"key": t["outputs"][0].get("key"), "topic_id": t["config"]["out_topic"], "label": t["config"]["name"], **{k: v for k, v in t["config"].get("metadata", {}).items() if k not in FREE}}]
  def required(self): return []
  def fresh(self, fail):
    t = self.task
    if t["inputs"] or t["config"].get("name") != "named topic" or t["config"].get("metadata") or diff({k: v for k, v in t["outputs"][0].items() if k != "key"}, {"label": "named topic", "topic_id": t["config"]["out_topic"]}) or len(t["outputs"]) != 1 or not t["config"]["out_topic"]: fail(f"a new named input is {t}")

class NamedOutModel(NamedModel):
  def __init__(self, meta, task):
    super().__init__(meta, task)
    self.fields = [{"type": "text", "key": "name"}]
  def takes(self, n, source): return True
  def describe(self, n, source): self.take(self.task["inputs"][0], source)
  def arrange(self): self.link()
  def link(self):
    t = self.task
    i, c = t["inputs"][0], t["config"]
    i["label"] = c["name"]
    c["metadata"] = {k: v for k, v in i.items() if k not in FREE}
    c.pop("in_topic", None)
    if connected(i): c["in_topic"] = i["topic_id"]
  def required(self): return [0]
  def fresh(self, fail):
    t = self.task
    if t["outputs"] or t["config"] != {"name": "named topic", "metadata": {}} or t["inputs"] != [{"key": "in_topic", "label": "named topic"}]: fail(f"a new named output is {t}")

OWN = {"std:switch": SwitchModel, "std:synchronizer": SyncModel, "std:namedinput": NamedInModel, "std:namedoutput": NamedOutModel}
def own_hosts(): return [(n, h) for g in OWN for n, h in hosts().get(g, [])]
def own_cases():
  return st.fixed_dictionaries({"host": st.sampled_from(range(len(own_hosts()))), "ops": operations(), "opened": st.booleans()})
def run_own(case, ctx):
  name, host = own_hosts()[case["host"]]
  ed = Editing(name, host.metadata, OWN[host.metadata["js:configurator"]], ctx)
  ed.typed_values = {}
  ed.texts = TEXTS + [" a ", "label", "topic_id", "key", "type", "content", "b b"]
  ctx.label(name)
  m = ed.m
  t = m.task
  if t["task_host_id"] != ed.hostinfo["id"] or t["label"] != ed.meta["cfg:label"]: ed.fail(f"a new task is {t}")
  m.fresh(ed.fail)
  if case["opened"]: ed.open()
  ed.compare("creating"); ed.shown("creating")
  for op in case["ops"]: ed.step(op)
  for n in m.required():
    if not connected(m.task["inputs"][n]): ed.attach(n, source_for(m, m.task["inputs"][n], [], ed.topic + 1))
  ed.compare("connecting the rest")
  config = json.loads(json.dumps(ed.do("task", id=ed.id)["config"]))
  if "name" in config and config["name"] == "named topic": config["name"] = "x"
  bad = accepted_by_host(host, config)
  if bad: ed.fail(f"the host refuses {config}: {bad}")

# ---------------------------------------------------------------- hosts as a user would write them
META = ["content", "type", "rate", "codec", "width"]
WORDS = ["a", "b", "c", "raw", "ts", "id"]
@st.composite
def a_field(draw, n):
  t = draw(st.sampled_from(["number", "select", "boolean", "text", "kvoptions", "multiselect", "slider", "dynamicselect", "secret"]))
  f, k = {"type": t, "key": f"f{n}", "label": f"field {n}"}, f"f{n}"
  if t == "number":
    lo, hi = draw(st.sampled_from([(None, None), (0, None), (None, 100), (1, 20), (0.5, 3), (-5, 5)]))
    v = draw(st.sampled_from([1, 2, 3]))
    if lo is not None: f["min"] = lo
    if hi is not None: f["max"] = hi
    if draw(st.booleans()): f["integer"] = True
    if draw(st.booleans()): f["unit"] = "s"
    return f, {k: v}
  if t == "select":
    items = draw(st.lists(st.sampled_from([*WORDS, 1, 2, 3, 0]), min_size=1, max_size=4, unique=True))
    f["items"] = [{"value": v, "label": str(v).upper()} for v in items]
    return f, {k: draw(st.sampled_from(items))}
  if t == "boolean": return f, {k: draw(st.booleans())}
  if t == "text": return {**f, **({"multiline": True} if draw(st.booleans()) else {})}, {k: draw(st.sampled_from(["", "a", "text"]))}
  if t == "kvoptions": return f, {k: draw(st.sampled_from([{}, {"a": "1"}, {"b": "", "c d": "x"}]))}
  if t == "multiselect":
    keys = [f"f{n}{c}" for c in "xyz"[:draw(st.integers(1, 3))]]
    items = draw(st.lists(st.tuples(*[st.sampled_from(["a", "b", "c"] if i % 2 == 0 else [1, 2]) for i in range(len(keys))]), min_size=1, max_size=6, unique=True))
    items = [dict(zip(keys, i)) for i in items]
    return {"type": t, "items": items}, dict(draw(st.sampled_from(items)))
  if t == "slider":
    lo, hi = draw(st.sampled_from([(0, 1), (0, 10), (1, 30), (0.5, 7)]))
    return {**f, "min": lo, "max": hi, "pow": draw(st.sampled_from([1, 2, 3, 0.5]))}, {k: draw(st.sampled_from([lo, hi, (lo + hi) / 2]))}
  if t == "dynamicselect": return {**f, "path": draw(st.sampled_from(["values", "./a/values"]))}, {k: draw(st.sampled_from([c["value"] for c in CHOICES]))}
  return f, {k: None}
@st.composite
def a_host(draw):
  fields, default = [], {}
  for n in range(draw(st.integers(0, 5))):
    f, d = draw(a_field(n))
    fields.append(f); default.update(d)
  simple = [k for f in fields if f["type"] not in ("kvoptions", "secret") for k in keys_of(f)]
  def io(key):
    d = {"key": key, "label": draw(st.sampled_from(["x", "stream"]))} if draw(st.integers(0, 3)) else {"key": key}
    for m in draw(st.lists(st.sampled_from(META[:3]), max_size=2, unique=True)): d[m] = draw(st.sampled_from(WORDS))
    return d
  def mapping(d):
    ks = draw(st.lists(st.sampled_from(simple), max_size=3, unique=True)) if simple else []
    ms = draw(st.permutations([m for m in META if m not in d]))
    return dict(zip(ks, ms))
  inputs = [io(f"in{n}") for n in range(draw(st.integers(0, 3)))]
  outputs = [io(f"out{n}") for n in range(draw(st.integers(0, 3)))]
  for o in outputs:
    if draw(st.integers(0, 4)) == 0: del o["key"]
  if not inputs and not outputs: outputs = [io("out0")]
  mirror = []
  if inputs and outputs and draw(st.booleans()):
    mirror = draw(st.lists(st.tuples(st.integers(0, len(inputs) - 1), st.integers(0, len(outputs) - 1)), min_size=1, max_size=2, unique=True))
    group = {k: v for k, v in io("").items() if k not in FREE}
    for i, o in mirror:
      for x in (inputs[i], outputs[o]):
        for k in META: x.pop(k, None)
        x.update(group)
    for x in [inputs[i] for i, o in mirror] + [outputs[o] for i, o in mirror]: x.pop("label", None)
  skip = draw(st.lists(st.sampled_from(META), max_size=2, unique=True)) if mirror and draw(st.booleans()) else []
  skip = [k for k in skip if not any(k in inputs[i] for i, o in mirror)]
  c2i = {}
  for n, i in enumerate(inputs):
    if draw(st.booleans()):
      m = mapping(i)
      c2i[i["key"]] = {c: f for c, f in m.items() if not any(a == n for a, b in mirror) or f in skip}
  c2o = []
  for n, o in enumerate(outputs):
    m = mapping(o) if draw(st.booleans()) else None
    if m is not None: m = {c: f for c, f in m.items() if not any(b == n for a, b in mirror) or f in skip}
    c2o.append(m)
  while c2o and draw(st.booleans()): c2o.pop()
  return {
    "label": draw(st.sampled_from(["some task", "x"])), "inputs": inputs, "outputs": outputs, "default_config": default, "editor_fields": fields,
    "config_to_input_map": c2i if c2i or draw(st.booleans()) else None, "config_to_output_map": c2o if c2o or draw(st.booleans()) else None,
    "io_mirror": [(inputs[i]["key"], o) for i, o in mirror] or None, "io_mirror_ignore": skip or None,
    "free_inputs": draw(st.lists(st.sampled_from([i["key"] for i in inputs]), max_size=2, unique=True)) if inputs else None,
  }
def custom_cases(): return st.fixed_dictionaries({"host": a_host(), "ops": operations(), "opened": st.booleans()})
def run_custom(case, ctx):
  from streamtasks.system.configurators import static_configurator
  spec = json.loads(json.dumps(case["host"]))
  try: meta = static_configurator(**copy.deepcopy({k: [tuple(x) for x in v] if k == "io_mirror" and v else v for k, v in spec.items()}))
  except Exception as e: raise Violation(f"a host cannot be described: {type(e).__name__} {e}")
  ed = Editing("custom", meta, StaticModel, ctx)
  ed.typed_values = {}
  created(ed, None)
  # the description says what was asked for
  m = ed.m
  for n, o in enumerate(spec["outputs"]):
    if m.outkeys[n] != o.get("key"): ed.fail(f"output {n} has the key {m.outkeys[n]}")
  for c, f in [(("inputs", n, f), c) for n, i in enumerate(spec["inputs"]) for c, f in (spec["config_to_input_map"] or {}).get(i["key"], {}).items()] + [(("outputs", n, f), c) for n, x in enumerate(spec["config_to_output_map"] or []) for c, f in (x or {}).items()]:
    if not same(m.get(c), spec["default_config"][f]): ed.fail(f"a new task has {c} {m.get(c)!r}, not {spec['default_config'][f]!r}")
  if case["opened"]: ed.open()
  ed.compare("creating"); ed.consistent("creating"); ed.shown("creating")
  for op in case["ops"]: ed.step(op)
  check_host(ed, None)

def accepted_by_host(host, config):
  """Whether the host makes a task of this configuration."""
  async def run():
    t = await host.create_task(config, None)
    return t
  try: asyncio.run(run()); return None
  except BaseException as e: return f"{type(e).__name__}: {str(e)[:200]}"

def check_host(ed, host):
  """With all inputs connected, the host takes the configuration."""
  m = ed.m
  for n, i in enumerate(m.task["inputs"]):
    if i.get("topic_id") is None:
      ed.topic += 1
      s = source_for(m, i, [], ed.topic)
      m.connect(n, s)
      r = ed.do("connect", id=ed.id, key=i["key"], output=s)
      if r["result"] is not True: ed.fail(f"connecting {i['key']} to a stream of its own description reports {r['result']}")
  ed.compare("connecting the rest")
  return json.loads(json.dumps(ed.do("task", id=ed.id)["config"]))

def run_group(group):
  def run(case, ctx):
    name, host = hosts()[group][case["host"]]
    ed = Editing(name, host.metadata, StaticModel, ctx)
    ed.typed_values = {}
    created(ed, host)
    ctx.label(name)
    if case["opened"]: ed.open()
    ed.compare("creating"); ed.consistent("creating"); ed.shown("creating")
    for op in case["ops"]: ed.step(op)
    config = check_host(ed, host)
    if name in UNMADE: return
    for data, fields, default in [(config, ed.m.fields, json.loads(ed.meta.get("cfg:config", "{}")))] + [(config[tk][j], t["editorFields"], t["defaultConfig"]) for t, tk, j, d in ed.m.track_list()]:
      for f in fields:
        # texts have a syntax of their own (formulas, patterns, paths), and no host takes every number
        k = f.get("key")
        if f["type"] == "text" or f["type"] == "number" and ("channels" in k or data[k] < 0.5 or data[k] > 1000): data[k] = default.get(k, "")
    bad = accepted_by_host(host, config)
    if bad: ed.fail(f"the host refuses {config}: {bad}")
  return run
UNMADE = ("ImageRendererTaskHost", "TextRendererTaskHost")

def created(ed, host):
  """A new task is what the description says, with topics of its own."""
  m, t = ed.m, ed.m.task
  if t["task_host_id"] != ed.hostinfo["id"]: ed.fail(f"the task is for {t['task_host_id']}")
  if t["label"] != ed.meta["cfg:label"]: ed.fail(f"the task is called {t['label']!r}")
  ids = [o["topic_id"] for o in t["outputs"]]
  if len(ids) != len(m.oout) or len(set(ids)) != len(ids) or not all(isinstance(i, int) for i in ids): ed.fail(f"the outputs have the topics {ids}")
  if [i["key"] for i in t["inputs"]] != [i["key"] for i in m.oin]: ed.fail(f"the inputs are {t['inputs']}")
  cfg = json.loads(ed.meta.get("cfg:config", "{}"))
  got = {k: v for k, v in t["config"].items() if k not in m.outkeys}
  if diff(got, {k: v for k, v in cfg.items() if k not in m.outkeys}): ed.fail(f"the configuration is {diff(got, cfg)}")
  for n, o in enumerate(m.oin):
    mapped = m.c2i.get(o["key"], {}).values()
    for f, v in o.items():
      if f not in mapped and not same(t["inputs"][n].get(f, MISSING), v): ed.fail(f"input {o['key']} has {f} {t['inputs'][n].get(f)!r}, not {v!r}")
  for n, o in enumerate(m.oout):
    mapped = (m.c2o[n] or {}).values() if n < len(m.c2o) else []
    for f, v in o.items():
      if f not in mapped and f != "label" and not same(t["outputs"][n].get(f, MISSING), v): ed.fail(f"output {n} has {f} {t['outputs'][n].get(f)!r}, not {v!r}")
  for n, k in enumerate(m.outkeys):
    if k is not None and t["config"].get(k) != ids[n]: ed.fail(f"{k} is {t['config'].get(k)!r}, not {ids[n]}")

SUBS = [
  Sub("static", lambda: cases("std:static"), run_group("std:static"), quick=500, thorough=9000, rule="an edit or a connection was tried"),
  Sub("custom", custom_cases, run_custom, quick=500, thorough=12000, rule="an edit or a connection was tried"),
  Sub("own", own_cases, run_own, quick=400, thorough=9000, rule="an edit or a connection was tried"),
  Sub("tracks", lambda: cases("std:multitrackio"), run_group("std:multitrackio"), quick=400, thorough=9000, rule="an edit or a connection was tried"),
]
