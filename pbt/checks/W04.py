"""W04 The canvas shows what is connected, and everything on it follows the pointer (browser code)."""
from ..core import *
from ..gen import *
from ..front import front
import math

TECHNIQUE = "stateful property-based testing (Hypothesis): the bundled node editor and window editor run in Node on a stand-in document, judged against a reference model"
NOTE = "Random search with shrinking; the browser code of web-packages is bundled unchanged, the document and its layout are stand-ins."

NODES = ["n0", "n1", "n2", "n3"]
KEYS = ["in", "in2", "in3"]                 # tasks of one kind have inputs with the same keys
HOSTS = st.sampled_from([None, "h1", "h2"])
MODES = st.sampled_from(["accept", "accept", "accept", "accept", "refuse", "stuck"])
num = st.integers(-40, 40)

def node(i):
  streams = [10 * (j + 1) + k for j in range(4) for k in range(2)]
  return st.fixed_dictionaries({
    "id": st.just(NODES[i]), "label": st.sampled_from(["node", "other node", "a rather long name of a node"]), "host": HOSTS,
    "position": st.fixed_dictionaries({"x": st.integers(-300, 300), "y": st.integers(-300, 300)}),
    "inputs": st.lists(st.tuples(st.sampled_from(KEYS), st.one_of(st.none(), st.sampled_from(streams), st.sampled_from(streams))), max_size=3, unique_by=lambda x: x[0]).map(lambda l: [{"key": k, "streamId": s} for k, s in l]),
    "outputs": st.integers(0, 2).map(lambda n: [10 * (i + 1) + k for k in range(n)]),
    "modes": st.fixed_dictionaries({k: MODES for k in KEYS}),
  })
finger = st.tuples(st.integers(0, 400), st.integers(0, 400))
def two(f, g, order):
  a, b = [0, *f], [1, *(g if abs(f[0] - g[0]) + abs(f[1] - g[1]) > 20 else (f[0] + 60, f[1] + 30))]
  return [b, a] if order else [a, b]
pinches = st.lists(st.builds(two, finger, finger, st.booleans()), min_size=2, max_size=2).map(lambda l: ["pinch", l])
def pinched(op, rect, before, after, say):
  """The fingers' middle keeps what is under it, and the zoom changes as their distance does."""
  far = lambda s: math.dist(s[0][1:], s[1][1:])
  want = before[2] * far(op[1][1]) / far(op[1][0])
  if not near(after[2], want): raise say(f"the fingers change the zoom from {before[2]} to {after[2]}, not {want}")
  for k in (0, 1):
    mid = sum(f[1 + k] for f in op[1][1]) / 2 - rect[k]
    a, b = (mid - before[k]) / before[2], (mid - after[k]) / after[2]
    if abs(a - b) > 1e-6 * max(1, abs(a)): raise say(f"zooming moves what is between the fingers from {a} to {b}")
# Targets are numbers: which node and which of its connectors is meant is settled when the case runs.
pick = st.integers(0, 11)
def canvas_cases():
  add = st.integers(0, 3).flatmap(node).flatmap(lambda n: st.booleans().map(lambda c: ["add", n, c]))
  during = st.one_of(st.tuples(st.just("move"), num, num).map(list), st.tuples(st.just("wheel"), st.sampled_from([-2500, -400, -100, 100, 400, 950, 1000, 2500])).map(list))
  drag = st.tuples(st.just("drag"), pick, st.one_of(st.none(), pick, pick, pick), st.lists(during, max_size=3), pick, st.one_of(st.none(), pick, pick, pick, pick)).map(list)
  link = st.tuples(st.just("link"), pick, pick, pick, pick, st.lists(during, max_size=2), st.booleans()).map(list)
  change = st.tuples(st.just("change"), pick, st.integers(0, 7), st.integers(0, 2), HOSTS, st.fixed_dictionaries({k: MODES for k in KEYS})).map(list)
  again = st.tuples(st.just("again"), pick, MODES).map(list)
  ops = st.one_of(link, link, link, link, drag, drag, add, change, again, st.tuples(st.just("mode"), pick, st.sampled_from(KEYS), MODES).map(list),
                  st.tuples(st.just("pan"), st.lists(during, min_size=1, max_size=3)).map(list), during, pinches, st.tuples(st.just("del"), pick).map(list),
                  st.tuples(st.just("ro"), st.booleans()).map(list), st.just(["ro", False]), st.just(["unselect"]), st.sampled_from([["clear"], ["unselect"], ["unselect"]]))
  return st.fixed_dictionaries({
    "size": st.tuples(st.integers(200, 900), st.integers(200, 900)).map(list), "rect": st.tuples(st.integers(0, 90), st.integers(0, 90)).map(list),
    "start": st.tuples(*(node(i) for i in range(4))).map(list), "n": st.integers(1, 4), "ops": st.lists(ops, min_size=2, max_size=9)})

def near(a, b): return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))
def nears(a, b): return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))

class Canvas:
  """What a user's actions do to nodes and connections; the view itself is read from the page."""
  def __init__(self, case):
    self.case = case
    self.nodes, self.links = {}, set()
    self.sel = self.conn = None
    self.active = self.panning = self.ro = False
    self.edit = None                        # where the line being drawn ends
    self.pos = (0, 0)
    self.refused, self.updated = set(), set()
    self.fresh = 100
  def connect(self, n, key, out, user):
    node = self.nodes[n]
    mode = node["modes"][key]
    if mode == "stuck" or mode == "refuse" and out is not None:
      self.refused.add((n, key, user, "it is stuck" if mode == "stuck" else None))
      return False
    node["inputs"][key] = out
    return True
  def drop(self, f): self.links = {l for l in self.links if not f(l)}
  def add(self, d):
    n = self.nodes[d["id"]] = {"at": (d["position"]["x"], d["position"]["y"]), "host": d["host"], "inputs": {i["key"]: i["streamId"] for i in d["inputs"]}, "outputs": list(d["outputs"]), "modes": dict(d["modes"]), "label": d["label"]}
    for m, other in self.nodes.items():
      for key, s in list(other["inputs"].items()):
        source = next((k for k, v in self.nodes.items() if s in v["outputs"]), None)
        if source is not None and d["id"] in (m, source) and self.connect(m, key, s, False): self.links.add((m, key, s))
    return n
  def source(self, s): return next((k for k, v in self.nodes.items() if s in v["outputs"]), None)
  def remove(self, n):
    gone = self.nodes.pop(n)
    self.drop(lambda l: l[0] == n or l[2] in gone["outputs"])
  def change(self, n, d):
    x = self.nodes[n]
    gone = set(x["outputs"]) - set(d["outputs"])
    x["inputs"] = {k: x["inputs"].get(k) for k in d["inputs"]}
    x["outputs"], x["host"], x["label"] = list(d["outputs"]), d["host"], d["label"]
    x["modes"].update(d["modes"])
    self.drop(lambda l: l[2] in gone or l[0] == n and l[1] not in x["inputs"])
    for l in sorted(self.links):
      if l[2] in x["outputs"] and not self.connect(l[0], l[1], l[2], False): self.links.discard(l)
    self.updated.add(n)
  def down(self, n, c):
    was = self.nodes[n]["inputs"].get(c)
    if not self.ro and c in self.nodes[n]["inputs"] and self.connect(n, c, None, True):
      self.drop(lambda l: l[:2] == (n, c))
      if was is not None: self.updated.add(n)
    self.sel, self.conn, self.active = n, c, True
  def up(self, n=None, c=None):
    if n is not None and c is not None and not self.ro and self.conn is not None and self.sel in self.nodes and self.active:
      ends = [(self.sel, self.conn), (n, c)]
      i = next((e for e in ends if e[1] in self.nodes[e[0]]["inputs"]), None)
      o = next((e for e in ends if e[1] in self.nodes[e[0]]["outputs"]), None)
      if i and o and (*i, o[1]) not in self.links and self.connect(*i, o[1], True):
        self.drop(lambda l: l[:2] == i)
        self.links.add((*i, o[1]))
        self.updated |= {i[0], o[0]}
    if self.active: self.conn = self.edit = None
    self.active = self.panning = False

def run_canvas(case, ctx):
  m = Canvas(case)
  ops, steps = [], []
  def emit(op, f): ops.append(op); steps.append(f)
  # The model decides what an abstract target means, so it runs first; what it expects is compared afterwards.
  def expect():
    r = dict(links=sorted((l for l in m.links if l[1] in m.nodes.get(l[0], {"inputs": {}})["inputs"] and m.source(l[2])), key=str), nodes={k: dict(v, inputs=dict(v["inputs"])) for k, v in m.nodes.items()},
             source={s: k for k, v in m.nodes.items() for s in v["outputs"]}, refused=m.refused, updated=m.updated, sel=m.sel, conn=m.conn, edit=m.edit, ro=m.ro)
    m.refused, m.updated = set(), set()
    return r
  def do(op, kind=None):
    k = op[0]
    moved = None
    if k == "add": m.add(op[1]); moved = ("center", op[1]["id"]) if op[2] else None
    elif k == "del": m.remove(op[1])
    elif k == "clear": m.nodes, m.links = {}, set()
    elif k == "down": m.down(op[1], op[2])
    elif k == "up": m.up(op[1], op[2])
    elif k == "bgdown": m.panning = True
    elif k == "bgup": m.up()
    elif k == "move":
      if m.active and m.sel in m.nodes and not m.ro:
        if m.conn is not None: m.edit = (op[1], op[2])
        else: moved = ("node", m.sel, op[3], op[4])
      elif m.panning and not m.active: moved = ("pan", op[3], op[4])
    elif k == "wheel": moved = ("zoom", op[1], op[2], op[3])
    elif k == "ro":
      m.ro = op[1]; m.edit = None
    elif k == "unselect": m.sel = None
    elif k == "mode": m.nodes[op[1]]["modes"][op[2]] = op[3]
    elif k == "change": m.change(op[1], op[2])
    emit(op, (expect(), moved))
  def during(d):
    if d[0] == "move":
      do(["move", 200 + 3 * d[1], 200 + 3 * d[2], d[1], d[2]])
    else: do(["wheel", d[1], 150, 120])
  def which(i): return sorted(m.nodes)[i % len(m.nodes)]
  def spot(n, c):
    if c is None: return None
    cs = list(m.nodes[n]["inputs"]) + m.nodes[n]["outputs"]
    return cs[c % len(cs)] if cs else None
  for d in case["start"][:case["n"]]: do(["add", d, False])
  for op in case["ops"]:
    k = op[0]
    if k == "add":
      if op[1]["id"] not in m.nodes: do(op)
    elif k in ("move", "wheel"): during(op)
    elif k in ("ro", "pinch"): do(op)
    elif k == "unselect": do(op)
    elif k == "clear": do(op)
    elif k == "pan":
      do(["bgdown"])
      for d in op[1]: during(d)
      do(["bgup"])
    elif not m.nodes: continue
    elif k == "drag":
      n = which(op[1]); do(["down", n, spot(n, op[2])])
      for d in op[3]: during(d)
      n2 = which(op[4])
      if op[5] is None: do(["bgup"])
      else: do(["up", n2, spot(n2, op[5])])
    elif k == "link":                       # from an output to an input or the other way round
      outs = [(n, s) for n in sorted(m.nodes) for s in m.nodes[n]["outputs"]]
      ins = [(n, i) for n in sorted(m.nodes) for i in m.nodes[n]["inputs"]]
      if not outs or not ins: continue
      a, b = outs[(op[1] + op[2]) % len(outs)], ins[(op[3] + op[4]) % len(ins)]
      if op[6]: a, b = b, a
      do(["down", *a])
      for d in op[5]: during(d)
      do(["up", *b])
    elif k == "again":                      # a node changes while one of its outputs is connected to an input that now may refuse it
      shown = [l for l in sorted(m.links) if l[1] in m.nodes[l[0]]["inputs"] and m.source(l[2])]
      if not shown: continue
      l = shown[op[1] % len(shown)]; n = m.source(l[2]); x = m.nodes[n]
      do(["mode", l[0], l[1], op[2]])
      do(["change", n, {"inputs": list(x["inputs"]), "outputs": list(x["outputs"]), "host": x["host"], "label": "changed again", "modes": {}}])
    elif k == "mode":
      n = which(op[1])
      do(["mode", n, op[2], op[3]])
    elif k == "del": do(["del", which(op[1])])
    elif k == "change":
      n = which(op[1]); x = m.nodes[n]
      keys = [key for j, key in enumerate(x["inputs"]) if not (op[2] >> j) & 1]
      if op[2] & 4 and len(keys) < 4: m.fresh += 1; keys.append(f"new{m.fresh}"); x["modes"][keys[-1]] = "accept"
      outs = [s for j, s in enumerate(x["outputs"]) if j != op[3]]
      if op[3] == 2: m.fresh += 1; outs.append(m.fresh)
      do(["change", n, {"inputs": keys, "outputs": outs, "host": op[4], "label": "changed", "modes": {**op[5], **{key: "accept" for key in keys if key not in KEYS}}}])
  front.page()
  got = front.do("canvas", ops=ops, size=case["size"], rect=case["rect"], probes=[[0, 0], [170, -35]])
  view, at = [0, 0, 1], {}
  for n, (op, (want, moved), g) in enumerate(zip(ops, steps, got)):
    say = lambda text: Violation(f"step {n} {op}: {text}")
    if g["error"] or g["errors"]: raise say(f"{g['error'] or g['errors']}")
    # the view
    v = g["view"]
    if not v or not all(math.isfinite(x) for x in v) or v[2] <= 0: raise say(f"the view is {v}: nothing can be seen any more")
    loc = lambda v, x, y: ((x - v[0]) / v[2], (y - v[1]) / v[2])
    for p, l in zip([(0, 0), (170, -35)], g["local"]):
      if not nears(l, loc(v, *p)): raise say(f"the point {p} of the page is at {l} on the canvas, not {loc(v, *p)}")
    if moved and moved[0] == "zoom":
      p = (moved[2] - case["rect"][0], moved[3] - case["rect"][1])
      if not all(abs(x - y) <= 1e-6 * max(1, abs(x)) for x, y in zip(loc(v, *p), loc(view, *p))): raise say(f"zooming moves what is under the pointer from {loc(view, *p)} to {loc(v, *p)}")
      if not (v[2] > view[2] if moved[1] < 0 else v[2] < view[2]): raise say(f"the zoom goes from {view[2]} to {v[2]}")
      ctx.label("zoom")
    elif op[0] == "pinch": pinched(op, case["rect"], view, v, say)
    elif not nears(v, [view[0] + moved[1], view[1] + moved[2], view[2]] if moved and moved[0] == "pan" else view): raise say(f"the view goes from {view} to {v}")
    view = v
    # the nodes
    if {x["id"] for x in g["nodes"]} != set(want["nodes"]) or not all(x["shown"] for x in g["nodes"]): raise say(f"the nodes are {g['nodes']}")
    if g["layers"] != 1 + len(want["nodes"]): raise say(f"{g['layers'] - 1} nodes are shown, not {len(want['nodes'])}")
    spots = {}
    for x in g["nodes"]:
      i, w = x["id"], want["nodes"][x["id"]]
      if op[0] == "add" and op[1]["id"] == i: at[i] = w["at"]
      if moved and moved[0] == "node" and moved[1] == i: at[i] = (at[i][0] + moved[2] / v[2], at[i][1] + moved[3] / v[2])
      if moved and moved[0] == "center" and moved[1] == i:
        c = loc(v, case["size"][0] / 2, case["size"][1] / 2); at[i] = (c[0] - 100, c[1] - 50)
      if not nears(x["at"], at[i]) or not nears(x["position"], at[i]): raise say(f"node {i} is shown at {x['at']} and stored at {x['position']}, not {at[i]}")
      if dict(map(tuple, x["inputs"])) != w["inputs"]: raise say(f"the inputs of {i} are connected to {x['inputs']}, not {w['inputs']}")
      if [k for k, _ in x["spots"]] != list(w["inputs"]) + w["outputs"] or any(p is None for _, p in x["spots"]): raise say(f"node {i} shows the connectors {x['spots']}")
      if w["label"].replace(" ", "") not in [t.replace("\n", "").replace(" ", "") for t in x["text"]]: raise say(f"node {i} shows {x['text']}, not {w['label']!r}")
      for k, p in x["spots"]: spots[i, k] = p
    # the lines
    lines = [(spots[i, k], spots[want["source"][s], s], want["nodes"][i]["host"] is None or want["nodes"][i]["host"] != want["nodes"][want["source"][s]]["host"], (i, k, s)) for i, k, s in want["links"]]
    shown = [(l[:2], l[2:4], l[4]) for l in g["lines"]]
    if want["edit"] and (want["sel"], want["conn"]) in spots:
      # the line a user draws: it was last drawn to where the pointer was, and may be as it was before the view changed
      p = spots[want["sel"], want["conn"]]
      e = next((s for s in shown if not s[2] and any(nears(x, p) for x in s[:2]) and not any(nears(s[0], a) and nears(s[1], b) for a, b, _, _ in lines)), None)
      if op[0] == "move":
        q = loc(v, want["edit"][0] - case["rect"][0], want["edit"][1] - case["rect"][1])
        if e is None or not any(nears(x, q) for x in e[:2]): raise say(f"no line is drawn from {p} to the pointer at {q}: {shown}")
      if e is not None: shown.remove(e)
    elif want["edit"] and len(shown) == len(lines) + 1:   # its node is gone
      e = next((s for s in shown if not any(nears(s[0], a) and nears(s[1], b) for a, b, _, _ in lines)), None)
      if e: shown.remove(e)
    left = list(shown)
    for a, b, dashed, name in lines:
      s = next((s for s in left if nears(s[0], a) and nears(s[1], b)), None)
      if s is None: raise say(f"no line shows the connection {name} from {a} to {b}: {shown}")
      left.remove(s)
    if left: raise say(f"the lines {left} show no connection, only {[x[3] for x in lines]} are there")
    if sorted(map(str, [(list(a), list(b), d) for a, b, d, _ in lines])) and sum(d for _, _, d, _ in lines) != sum(s[2] for s in shown): raise say(f"lines between hosts are dashed: {lines}, not {shown}")
    # what listeners are told
    refused = {(t[1], t[2], t[3], t[4]) for t in g["told"] if t[0] == "refused" and (t[3] or t[2] in want["nodes"].get(t[1], {"inputs": {}})["inputs"])}
    if refused != want["refused"]: raise say(f"refusals of {refused} are told, not {want['refused']}")
    updated = {t[1] for t in g["told"] if t[0] == "updated"}
    if not want["updated"] <= updated: raise say(f"updates of {updated} are told, not {want['updated']}")
    sel = [t[1] for t in g["told"] if t[0] == "selected"]
    if op[0] == "down" and sel[-1:] != [op[1]]: raise say(f"the selection told is {sel}")
    if op[0] in ("up", "down"): ctx.hit(bool(want["links"]))
    if want["refused"]: ctx.label("refused")
    if len(want["links"]) > 1: ctx.label("several lines")
  if got[-1]["left"]: raise Violation("the canvas is still shown after its end")

# ---------------------------------------------------------------- the windows of a dashboard
HANDLES = ["head", "head", "left", "right", "top", "bottom", "bottom+right", "left+top", "right+top", "bottom+left"]
def window_cases():
  win = st.fixed_dictionaries({"x": st.integers(-200, 200), "y": st.integers(-200, 200), "width": st.integers(150, 500), "height": st.integers(150, 500)})
  move = st.tuples(st.just("move"), st.integers(-25, 25), st.integers(-25, 25)).map(list)
  wheel = st.tuples(st.just("wheel"), st.sampled_from([-2500, -300, -100, 100, 300, 1000, 2500])).map(list)
  ops = st.one_of(
    st.tuples(st.just("drag"), st.integers(0, 2), st.sampled_from(HANDLES), st.lists(st.one_of(move, move, move, wheel), min_size=1, max_size=4)).map(list),
    st.tuples(st.just("drag"), st.integers(0, 2), st.sampled_from(HANDLES), st.lists(move, min_size=1, max_size=4)).map(list),
    st.tuples(st.just("pan"), st.lists(move, min_size=1, max_size=2)).map(list), move, wheel, pinches,
    st.tuples(st.sampled_from(["open", "reopen"]), st.integers(0, 2), win).map(list), st.tuples(st.sampled_from(["close", "remove"]), st.integers(0, 2)).map(list),
    st.tuples(st.just("rename"), st.integers(0, 1), st.sampled_from(["A", "B", "C"])).map(list))
  return st.fixed_dictionaries({"start": st.lists(win, min_size=1, max_size=3), "rect": st.tuples(st.integers(0, 90), st.integers(0, 90)).map(list), "ops": st.lists(ops, min_size=1, max_size=10)})

def run_windows(case, ctx):
  ids = ["w0", "w1", "w2"]
  labels = {"w0": "zero", "w1": "one"}        # w2 has no task
  ops, plan, live = [], [], set()
  def do(op, what=None): ops.append(op); plan.append(what)
  def move(d, hold=None):
    if d[0] == "move": do(["move", 100, 100, d[1], d[2]], ("move", hold, d[1], d[2]))
    else: do(["wheel", d[1], 160, 130], ("zoom", d[1]))
  for i, w in enumerate(case["start"]): do(["open", {"task_id": ids[i], **w}], ("open", ids[i])); live.add(ids[i])
  for op in case["ops"]:
    k = op[0]
    if k in ("move", "wheel"): move(op)
    elif k == "pinch": do(op)
    elif k == "pan":
      do(["bgdown"])
      for d in op[1]: move(d, "view")
      do(["up"])
    elif k == "rename": do(["rename", ids[op[1]], op[2]], ("rename", ids[op[1]], op[2]))
    elif k == "reopen":                     # closed and opened elsewhere
      i = ids[op[1]]
      if i in live: do(["remove", i], ("gone", i))
      do(["open", {"task_id": i, **op[2]}], ("open", i)); live.add(i)
      do(["close", i], ("gone", i)); live.discard(i)
    elif k == "open":
      if ids[op[1]] not in live: do(["open", {"task_id": ids[op[1]], **op[2]}], ("open", ids[op[1]])); live.add(ids[op[1]])
    elif ids[op[1]] not in live: continue
    elif k == "drag":
      do(["down", ids[op[1]], op[2]])
      for d in op[3]: move(d, (ids[op[1]], op[2]))
      do(["up"])
    else: do([k, ids[op[1]]], ("gone", ids[op[1]])); live.discard(ids[op[1]])
  front.page()
  got = front.do("windows", ops=ops, tasks=list(labels.items()), rect=case["rect"])
  view, wins = [0, 0, 1], {}
  for n, (op, what, g) in enumerate(zip(ops, plan, got)):
    say = lambda text: Violation(f"step {n} {op}: {text}")
    if g["error"] or g["errors"]: raise say(f"{g['error'] or g['errors']}")
    v, told = g["view"], None
    if not v or not all(math.isfinite(x) for x in v) or v[2] <= 0: raise say(f"the view is {v}: nothing can be seen any more")
    if what and what[0] == "zoom":
      for a, r, t, z in [(160, case["rect"][0], 0, 2), (130, case["rect"][1], 1, 2)]:
        if abs((a - r - v[t]) / v[2] - (a - r - view[t]) / view[2]) > 1e-6 * max(1, abs((a - r - v[t]) / v[2])): raise say(f"zooming moves what is under the pointer: {view}, then {v}")
      if not (v[2] > view[2] if what[1] < 0 else v[2] < view[2]): raise say(f"the zoom goes from {view[2]} to {v[2]}")
    elif op[0] == "pinch": pinched(op, case["rect"], view, v, say)
    elif not nears(v, [view[0] + what[2], view[1] + what[3], view[2]] if what and what[0] == "move" and what[1] == "view" else view): raise say(f"the view goes from {view} to {v}")
    view = v
    if what and what[0] == "open": wins[what[1]] = dict(op[1])
    if what and what[0] == "gone": told = ["removed", wins.pop(what[1])]
    if what and what[0] == "rename": labels[what[1]] = what[2]
    if what and what[0] == "move" and isinstance(what[1], tuple):
      (i, h), dx, dy = what[1], what[2] / v[2], what[3] / v[2]
      w = wins[i] = dict(wins[i])
      if h == "head": w["x"] += dx; w["y"] += dy
      for e in h.split("+"):
        if e == "left": w["x"] += dx; w["width"] -= dx
        if e == "right": w["width"] += dx
        if e == "top": w["y"] += dy; w["height"] -= dy
        if e == "bottom": w["height"] += dy
      told = ["updated", w]
      ctx.hit(h != "head")
    if {x[0] for x in g["wins"]} != set(wins): raise say(f"the windows are {g['wins']}, not {wins}")
    for i, (x, y, width, height), text in g["wins"]:
      w = wins[i]
      if not nears((x, y), (w["x"], w["y"])): raise say(f"window {i} is at {x}, {y}, not {w}")
      for k, z in (("width", width), ("height", height)):
        if w[k] >= 40 and not near(z, w[k]) or z < 5: raise say(f"window {i} has the {k} {z}, not {w[k]}")
      if labels.get(i, "task not found") not in text: raise say(f"window {i} shows {text}, not {labels.get(i)!r}")
    mine = [t for t in g["told"] if t[0] == (told or [None])[0]]
    if told and not (len(mine) == 1 and all(near(mine[0][1][k], told[1][k]) for k in ("x", "y", "width", "height")) and mine[0][1]["task_id"] == told[1]["task_id"]): raise say(f"listeners are told {g['told']}, not {told}")
    if not told and g["told"] and not (what and what[0] == "open"): raise say(f"listeners are told {g['told']}")
  if got[-1]["left"]: raise Violation("windows are still shown after the end")

SUBS = [
  Sub("canvas", canvas_cases, run_canvas, quick=1200, thorough=30000, rule="a connector was pressed or let go while a connection was shown"),
  Sub("windows", window_cases, run_windows, quick=700, thorough=15000, rule="a window was resized by an edge"),
]
