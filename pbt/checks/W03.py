"""W03 What the page shows of deployments is what the server stores and runs (browser code against the real task web backend)."""
from ..core import *
from ..gen import *
from ..system import *
from ..web import *
from ..front import front, FrontError
from ..uirig import Socket
from ..vloop import vrun
from .W02 import diff
from streamtasks.asgi import ASGIProxyApp
from streamtasks.system.configurators import EditorFields, multitrackio_configurator, static_configurator
from streamtasks.system.task_web import TaskWebBackend
import asyncio, copy, json, os, shutil, tempfile, urllib.parse, uuid

TECHNIQUE = "property-based testing (Hypothesis): generated histories of edits, time, slow answers, starts, stops and reloads of a page; the bundled TypeScript in Node talks to the real task web backend, judged against a record of what the user did"
NOTE = "Random search with shrinking; the browser's stores and managers are bundled unchanged, the backend, task manager and hosts are real and on a simulated network in virtual time."

# ---------------------------------------------------------------- hosts
class WorkTask(Task):
  def __init__(self, client, host, config, topic_space_id):
    super().__init__(client)
    self.config, self.end = config, asyncio.Future()
    host.made.append(self)
  async def run(self):
    how = await self.end if not self.config.get("brief") else None      # over as soon as it runs
    if how is not None: raise ValueError(how)

class WorkHost(TaskHost):
  kind = 0
  def __init__(self, *a, **kw):
    super().__init__(*a, **kw)
    self.made = []
  async def create_task(self, config, topic_space_id): return WorkTask(await self.create_client(topic_space_id), self, config, topic_space_id)
  @property
  def metadata(self):
    F = EditorFields
    if self.kind == 0: return static_configurator(label="source", outputs=[{"label": "out", "type": "ts", "key": "out_topic"}], default_config={"rate": 1, "text": "", "on": False, "opts": {}, "mode": 1},
      editor_fields=[F.integer("rate"), F.select("mode", [(1, "number one"), ("1", "text one"), (True, "yes")]), F.text("text"), F.boolean("on"), F.options("opts")])
    if self.kind == 1: return static_configurator(label="filter", inputs=[{"label": "in", "type": "ts", "key": "in_topic"}, {"label": "other", "key": "b_topic"}], outputs=[{"label": "out", "type": "ts", "key": "out_topic"}], default_config={"level": 0, "name": "x"},
      editor_fields=[F.number("level", min_value=0, max_value=10), F.text("name")])
    if self.kind == 3: return static_configurator(label="brief", outputs=[{"label": "out", "type": "ts", "key": "out_topic"}], default_config={"brief": True}, editor_fields=[F.boolean("brief")])
    return {"cfg:label": "writer", "cfg:editorfields": json.dumps([F.text("path")]), "cfg:config": json.dumps({"path": "p"}), **multitrackio_configurator([
      {"key": "ts", "label": "value", "defaultConfig": {"unit": "", "scale": 1, "kind": "a"}, "defaultIO": {"type": "ts"}, "ioMap": {}, "editorFields": [F.text("unit"), F.number("scale"), F.select("kind", [("a", "A"), ("b", "B")])]}], True)}

# ---------------------------------------------------------------- a page
class Page:
  def __init__(self, app): self.app, self.sockets, self.root, self.loads = app, {}, None, 0
  async def serve(self, call):
    u = urllib.parse.urlsplit(call["url"])
    body = (call["body"] or "").encode()
    r = await http(self.app, call["method"], urllib.parse.unquote(u.path), body, [(k.lower().encode(), v.encode()) for k, v in call["headers"].items()], query=u.query.encode())
    bad = r.well_formed()
    if bad: raise Violation(f"{call['method']} {u.path}: {bad}")
    return r.status, r.body.decode()
  async def do(self, op, **a): return await front.ado(self.serve, op, **a)
  async def load(self):
    for s in self.sockets.values(): s["ws"].disconnect()
    self.sockets = {}
    self.loads += 1
    front.page(uuid=self.loads, topics=[self.loads * 1000 + i for i in range(200)])
    self.root = await self.do("store", still=True)
    await self.do("readsFirst", on=self.reads_first)
    await self.call(self.root, "init")
  async def pump(self):
    """Websockets: what the server says reaches the page."""
    for turn in range(50):
      moved = False
      for s in await self.do("sockets"):
        if s["id"] not in self.sockets and not s["closed"]:
          self.sockets[s["id"]] = dict(ws=Socket(self.app, urllib.parse.urlsplit(s["url"]).path), told=0, open=False, gone=False)
          moved = True
        b = self.sockets.get(s["id"])
        if b is None or b["gone"]: continue
        if s["closed"]:
          b["gone"] = True; b["ws"].disconnect(); continue
        if b["ws"].open and not b["open"]:
          b["open"] = moved = True
          await self.do("socket", id=s["id"], what="open")
        while b["told"] < len(b["ws"].messages):
          m = b["ws"].messages[b["told"]]
          b["told"] += 1; moved = True
          await self.do("socket", id=s["id"], what="message", data=m)
        if b["ws"].closed:
          b["gone"] = moved = True
          await self.do("socket", id=s["id"], what="close")
      await asyncio.sleep(30)
      if not moved: return
  async def call(self, on, *path, args=(), keep=False, patient=True):
    r = await self.do("begin", on=on, path=list(path), args=list(args))
    return await self.finish(r, keep, ".".join(path)) if patient else r
  async def finish(self, r, keep=False, name=""):
    for turn in range(30):
      a = await self.do("done", id=r, keep=keep)
      if a["state"] == "failed": raise FrontError(a["value"])
      if a["state"] == "done": return a["value"]
      await self.pump()
    raise Violation(f"{name} does not come to an end")
  async def read(self, on, *path): return await self.do("call", on=on, path=list(path), read=True)
  async def kept(self, on, *path): return await self.do("keep", on=on, path=list(path))
  async def time(self, ms):
    await self.do("advance", ms=ms)
    await self.pump()
    await self.do("advance", ms=0)

# ---------------------------------------------------------------- cases
def uid(kind, i): return str(uuid.UUID(int=(kind << 64) + i + 1, version=4))
TEXTS = ["", "a", "b", "10", "ü \"", "a"]
def cases():
  t, d = st.integers(0, 5), st.integers(0, 1)
  edit = st.one_of(
    st.tuples(st.just("label"), t, st.integers(0, 5)), st.tuples(st.just("pos"), t, st.integers(0, 3)),
    *[st.tuples(st.just("field"), t, st.integers(0, 20), st.integers(0, 5))] * 5,
    st.tuples(st.just("connect"), t, st.integers(0, 2), st.one_of(st.none(), t, t, t)))
  wait = st.tuples(st.just("wait"), st.sampled_from([0, 100, 600, 900, 1600, 3000]))
  page = st.one_of(st.tuples(st.just("delete"), t), st.tuples(st.just("add"), st.integers(0, 3)), st.tuples(st.just("start")), st.tuples(st.just("start")), st.tuples(st.just("stop")),
    st.tuples(st.just("end"), t, st.sampled_from([None, "boom"])), st.tuples(st.just("end"), t, st.sampled_from([None, "boom"])), st.tuples(st.just("visit"), d), st.tuples(st.just("visit"), d), st.tuples(st.just("elsewhere"), t, st.booleans()), st.tuples(st.just("reload")), st.tuples(st.just("reload")), st.tuples(st.just("check")))
  slow = st.one_of(st.tuples(st.just("late"), st.booleans()), st.tuples(st.just("hold"), st.booleans()))
  other = st.one_of(st.tuples(st.just("dashboard"), st.integers(0, 2), st.integers(0, 3)), st.tuples(st.just("undashboard"), st.integers(0, 2)),
    st.tuples(st.just("new"), st.integers(0, 3)), st.tuples(st.just("rename"), st.integers(0, 4), st.integers(0, 3)), st.tuples(st.just("remove"), st.integers(2, 4)),
    st.tuples(st.just("host"), st.integers(0, 3)))
  op = st.one_of(edit, edit, edit, wait, wait, page, page, slow, other).map(list)
  setup = st.lists(st.integers(0, 3), min_size=2, max_size=4)
  return st.fixed_dictionaries({"net": net_strategy(n_clients=(1, 1)), "reads_first": st.booleans(), "reload": st.booleans(), "setup": setup, "ops": st.lists(op, min_size=6, max_size=24)})

def run(case, ctx):
  base = tempfile.mkdtemp(prefix="w03-")
  old = os.environ["DATA_DIR"]
  os.environ["DATA_DIR"] = base
  try:
    with quiet(): vrun(lambda: main(case, ctx))
  finally:
    os.environ["DATA_DIR"] = old
    shutil.rmtree(base)

def stored(task):
  t = {k: task[k] for k in ("id", "task_host_id", "label", "config", "inputs", "outputs")}
  t["position"] = (task.get("frontend_config") or {}).get("position")
  return t

async def main(case, ctx):
  S = await System().start_system(case["net"], 0)
  hosts = []
  for k in range(4):
    h = type(f"WorkHost{k}", (WorkHost,), {"kind": k})()
    h.t = await S.attach(h, k)
    await asyncio.wait_for(h.ready.wait(), 1000)
    await h.register()
    hosts.append(h)
  await S.attach(TaskWebBackend(), 1)
  address = await asyncio.wait_for(wait_name(S.clients[0], NetworkAddressNames.TASK_MANAGER_WEB), 1000)
  await settle(20)
  app = ASGIProxyApp(S.clients[0], address)
  ask = lambda method, path, data=None: json_request(app, method, path, data)
  page = Page(app)
  page.reads_first = case["reads_first"]
  deployments = {}                       # id -> label
  for d in range(2):
    deployments[uid(1, d)] = f"d{d}"
    await ask("POST", "/api/deployment", {"id": uid(1, d), "label": f"d{d}"})
  truth = {uid(1, d): {} for d in range(2)}      # deployment -> task -> what the user left there
  boards = {}                            # dashboard id -> dashboard
  running = {uid(1, d): None for d in range(2)}  # deployment -> task -> status
  registered = {0, 1, 2, 3}
  made = {}                              # running tasks: task id -> WorkTask
  class Now: pass
  now = Now()
  now.slow = None
  log, colors = [], {}
  def fail(text): raise Violation(f"{log[-14:]}: {text}")
  def host_of(t): return next(k for k, h in enumerate(hosts) if h.id == t["task_host_id"])
  async def visit(d, fresh):
    if not fresh:
      await page.do("hold", on=True)        # the requests of leaving and of coming are on the way at the same time
      await page.call(now.manager, "destroy")
    now.d, now.nodes, now.windows = d, {}, {}
    now.manager = await page.call(page.root, "deployment", "createManager", args=[d], keep=True)
    if now.manager is None: fail(f"deployment {d} is not found")
    loading = await page.call(now.manager, "loadTasks", patient=False)
    if not fresh:
      await page.do("hold", on=False)
    await page.finish(loading)
    await page.call(now.manager, "loadDashboards")
    await page.pump()
    now.known = set(registered)
    for tid, t in truth[d].items():
      has = await page.do("call", on=await task_ref(tid), path=["hasEditor"], read=True)
      if has is not (host_of(t) in registered): fail(f"visiting: the task {tid} {'can' if has else 'cannot'} be edited, its host {host_of(t)} is {'there' if host_of(t) in registered else 'away'}")
  async def quick():
    """Nothing is slow any more."""
    if now.slow: await page.do(now.slow, on=False)
    now.slow = None
  async def shown():
    out = {}
    for tid, t in await page.read(now.manager, "tasks"): out[tid] = t
    return out
  def task_ref(tid): return page.kept(now.manager, "tasks", tid)
  async def node(tid):
    if tid not in now.nodes: now.nodes[tid] = await page.do("new", type="TaskNode", args=[{"$ref": await task_ref(tid)}])
    return now.nodes[tid]
  def differ(what, got, want, left, right):
    if set(got) != set(want): fail(f"{what}: {left} has the tasks {sorted(got)}, {right} {sorted(want)}")
    for tid in want:
      bad = diff(stored(got[tid]), want[tid])
      if bad: fail(f"{what}: task {tid}: {left} against {right}: {bad[:3]}")
  async def look(what):
    """The page shows what the user made of it."""
    got = await shown()
    differ(what, got, truth[now.d], "the page", "the user")
    for tid, n in now.nodes.items():
      t = truth[now.d][tid]
      for at, key in (("inputs", "key"), ("outputs", "topic_id")):
        want = [{**{k: v for k, v in x.items() if k != "topic_id"}, "id": x[key], "streamId": x.get("topic_id"), "label": x.get("label")} for x in t[at]]
        cut = lambda l: [{k: v for k, v in x.items() if v is not None} for x in l]
        bad = diff(cut(await page.read(n, at)), cut(want))
        if bad: fail(f"{what}: the node of {tid}: {at}: {bad[:3]}")
      if diff(await page.read(n, "position"), t["position"]): fail(f"{what}: the node of {tid} is not at {t['position']}")
      status = (got[tid].get("task_instance") or {}).get("status", "running") if host_of(t) in now.known else "failed"
      color = await page.read(n, "statusColor")
      if color != (None if status == "running" else colors.setdefault("error" if status == "failed" else "passive", color)): fail(f"{what}: the node of {tid}, which is {status}, has the color {color}, others {colors}")
      if len(set(colors.values())) != len(colors) or None in colors.values(): fail(f"{what}: the colors of nodes are {colors}")
      if t["label"] not in (await page.read(n, "label")): fail(f"{what}: the node of {tid} is not called {t['label']!r}")
    return got
  async def check(what):
    await quick()
    await page.time(2500)
    got = await look(what)
    errors = await page.do("errors")
    if errors: fail(f"{what}: the page reports {errors[:2]}")
    for d in truth:
      code, tasks = await ask("GET", f"/api/deployment/{d}/tasks")
      differ(what, {t["id"]: t for t in tasks}, truth[d], "the server", "the user")
    for tid, want in (running[now.d] or {k: None for k in truth[now.d]}).items():
      inst = got[tid].get("task_instance")
      if want is None and inst is not None or want is not None and (inst is None or inst["status"] != want[0] or want[1] not in (inst["error"] or "")): fail(f"{what}: task {tid} is {want} but shown as {inst}")
    code, ds = await ask("GET", "/api/deployments")
    if {d["id"]: d["label"] for d in ds} != deployments: fail(f"{what}: the server has the deployments {ds}, the user {deployments}")
    shown_d = await page.read(page.root, "deployment", "deployments")
    if {d["id"]: d["label"] for d in shown_d} != deployments or len(shown_d) != len(deployments): fail(f"{what}: the page has the deployments {shown_d}, the user {deployments}")
    for d in shown_d:
      want = "running" if running.get(d["id"]) is not None else "offline"
      if d["status"] != want: fail(f"{what}: deployment {d} is {want}")
    code, bs = await ask("GET", f"/api/deployment/{now.d}/dashboards")
    mine = {i: b for i, b in boards.items() if b["deployment_id"] == now.d}
    for who, l in (("server", bs), ("page", await page.read(now.manager, "dashboards"))):
      if len(l) != len(mine) or diff({b["id"]: b for b in l}, mine): fail(f"{what}: the {who} has the dashboards {l}, the user {mine}")
    await listing(what)
  async def listing(what):
    listed = {i for i, t in await page.read(page.root, "taskManager", "taskHosts")}
    if listed != {hosts[k].id for k in registered}: fail(f"{what}: the page lists the hosts {listed}")
  async def add(d, k):
    ref = await page.call(page.root, "taskManager", "createManagedTask", args=[hosts[k].id], keep=True)
    await page.do("set", on=ref, path=["frontend_config", "position"], value={"x": k, "y": 1.5})
    t = await page.do("task", id=ref)
    await page.call(now.manager, "addTask", args=[{"$ref": ref}])
    if t["id"] in truth[d]: fail(f"two tasks have the id {t['id']}")
    truth[d][t["id"]] = stored(t)
  async def edited(tid, what):
    """The user sees what was made of the edit; nothing else changed."""
    t = stored(await page.do("task", id=await task_ref(tid)))
    changed = bool(diff(t, truth[now.d][tid]))
    truth[now.d][tid] = t
    ctx.label(what, changed); ctx.hit(changed)
    return changed
  async def start(mine):
    for w in list(now.windows): await page.do("close", window=now.windows.pop(w))
    before = [len(h.made) for h in hosts]
    await page.call(now.manager, "start")
    await page.pump()
    running[now.d] = {i: ("ended" if t["config"].get("brief") else "running", "") for i, t in mine.items()}
    for k, h in enumerate(hosts):
      want = sorted((dumps(t["config"]) for t in mine.values() if t["task_host_id"] == h.id))
      new = h.made[before[k]:]
      got = sorted(dumps(t.config) for t in new)
      if len(got) != len(want) or any(diff(json.loads(x), json.loads(y)) for x, y in zip(got, want)): fail(f"host {k} runs tasks of {got}, not of {want}")
      for i, t in mine.items():
        if t["task_host_id"] != h.id: continue
        w = next(x for x in new if not diff(json.loads(dumps(x.config)), t["config"]))
        new.remove(w); made[i] = w
    ctx.label("started"); ctx.hit()
    await page.pump()
    await look("starting")
  await page.load()
  await visit(uid(1, 0), True)
  for k in case["setup"]:
    await add(now.d, k)
    if k != 2: continue
    w = await page.do("window", id=await task_ref(list(truth[now.d])[-1]))
    n = next(i for i, c in enumerate(await page.do("controls", window=w)) if c["inner"] and c["tag"] == "IconButton")
    await page.do("act", window=w, at=n)
    await edited(list(truth[now.d])[-1], "track")
    await page.do("close", window=w)
  await check("setup")
  if case["reload"]:
    await page.load()
    await visit(now.d, True)
  for op, *a in case["ops"]:
    ctx.trace(op, *a)
    log.append([op, *a])
    mine = truth[now.d]
    ids = sorted(mine)
    tid = ids[a[0] % len(ids)] if ids and a and op in ("label", "pos", "field", "connect", "delete", "end", "elsewhere") else None
    if op == "connect":
      able = [i for i in ids if mine[i]["inputs"]]
      tid = able[a[0] % len(able)] if able else None
    off = running[now.d] is None
    if op in ("label", "pos", "field", "connect"):
      if tid is None or not off or op in ("field", "connect") and host_of(mine[tid]) not in now.known: continue
      if op == "label":
        await page.do("setLabel", id=await task_ref(tid), label=["", "one", "two", "three", "1", "01"][a[1]])
        await edited(tid, "label")
      elif op == "pos":
        await page.do("set", on=await node(tid), path=["position"], value=[{"x": 0, "y": 0}, {"x": 1.5, "y": -3}, {"x": 100, "y": 0}, {"x": 1, "y": 1}][a[1]])
        await edited(tid, "position")
      elif op == "field":
        if tid not in now.windows: now.windows[tid] = await page.do("window", id=await task_ref(tid))
        cs = await page.do("controls", window=now.windows[tid])
        usable = [n for n, c in enumerate(cs) if c["inner"] and not c["disabled"] and c["tag"] in ("TextField", "Select", "Checkbox", "IconButton", "Button")]
        if not usable: continue
        n = usable[a[1] % len(usable)]
        c = cs[n]
        v = TEXTS[a[2]] if c["tag"] == "TextField" else a[2] % 2 == 0 if c["tag"] == "Checkbox" else c["items"][a[2] % len(c["items"])] if c["tag"] == "Select" else None
        await page.do("act", window=now.windows[tid], at=n, value=v)
        await edited(tid, "field")
      elif op == "connect":
        ins = mine[tid]["inputs"]
        if not ins: continue
        out = None
        if a[2] is not None:
          sources = [i for i in ids if mine[i]["outputs"] and i != tid]
          if not sources: continue
          outs = await page.read(await node(sources[a[2] % len(sources)]), "outputs")
          out = outs[0]
        key = ins[a[1] % len(ins)]["key"]
        r = await page.do("call", on=await node(tid), path=["connect"], args=[key, out if out is not None else {"$undefined": True}])
        await edited(tid, "connection")
        got = next(i.get("topic_id") for i in truth[now.d][tid]["inputs"] if i["key"] == key)
        want = out["streamId"] if out else None
        if (r is True) != (got == want): fail(f"connecting reports {r}, the input has {got}")
      await look(op)
    elif op == "wait":
      await page.time(a[0])
      await look("waiting")
    elif op in ("late", "hold"):
      await quick()
      if a[0]:
        await page.do(op, on=True); now.slow = op
        ctx.label("slow")
    elif op == "check": await check("check")
    else:
      await quick()
      if op == "add":
        if not off: continue
        if a[0] not in registered: continue
        await add(now.d, a[0])
      elif op == "delete":
        if tid is None or not off: continue
        await page.call(now.manager, "deleteTask", args=[{"$ref": await task_ref(tid)}])
        mine.pop(tid)
        if tid in now.nodes: await page.call(now.nodes.pop(tid), "destroy")
        if tid in now.windows: await page.do("close", window=now.windows.pop(tid))
      elif op == "start":
        if not off or any(host_of(t) not in registered for t in mine.values()): continue
        await start(mine)
      elif op == "elsewhere":
        # another page takes a task away or names it anew; this page sees it with the next start
        if not off or tid is None or any(host_of(t) not in registered for i, t in mine.items()): continue
        await page.time(2500)
        if a[1]:
          mine.pop(tid)
          code, _ = await ask("DELETE", f"/api/task/{tid}")
        else:
          mine[tid]["label"] = "elsewhere"
          code, l = await ask("GET", f"/api/deployment/{now.d}/tasks")
          code, _ = await ask("PUT", "/api/task", {k: v for k, v in {**next(t for t in l if t["id"] == tid), "label": "elsewhere"}.items() if k != "task_instance"})
        if code != 200: fail(f"the other page is answered {code}")
        for w in list(now.windows): await page.do("close", window=now.windows.pop(w))
        if a[1] and tid in now.nodes: await page.call(now.nodes.pop(tid), "destroy")
        await start(mine)
        ctx.label("changed elsewhere")
      elif op == "stop":
        if off: continue
        await page.call(now.manager, "stop")
        running[now.d] = None
        await page.pump()
      elif op == "end":
        if off or tid is None or running[now.d][tid][0] != "running": continue
        made[tid].end.set_result(a[1])
        running[now.d][tid] = ("ended", "") if a[1] is None else ("failed", a[1])
        await settle(20); await page.pump()
        got = (await shown())[tid].get("task_instance")
        if got is None or got["status"] != running[now.d][tid][0]: fail(f"the task {tid} {running[now.d][tid][0]} but is shown as {got}")
        ctx.label("ended")
      elif op == "visit":
        for w in list(now.windows): await page.do("close", window=now.windows.pop(w))
        await visit(uid(1, a[0]), False)
        await look("visiting")
      elif op == "reload":
        await page.time(2500)
        await page.load()
        await visit(now.d, True)
        await look("loading the page again")
        ctx.label("reloaded")
      elif op == "dashboard":
        b = {"id": uid(3, a[0]), "deployment_id": now.d, "label": f"b{a[1]}", "windows": [{"task_id": i, "x": a[1], "y": n + 0.5, "width": 100, "height": 50} for n, i in enumerate(ids[:a[1]])]}
        if b["id"] in boards and boards[b["id"]]["deployment_id"] != now.d: continue
        boards[b["id"]] = b
        await page.call(page.root, "dashboard", "put", args=[b])
        got = await page.call(page.root, "dashboard", "get", args=[b["id"]])
        if got is None or diff(got, b): fail(f"the dashboard {b} is {got}")
      elif op == "undashboard":
        i = uid(3, a[0])
        if i not in boards or boards[i]["deployment_id"] != now.d: continue
        boards.pop(i)
        await page.call(page.root, "dashboard", "delete", args=[i])
      elif op == "new":
        if len(deployments) >= 5: continue
        got = await page.call(page.root, "deployment", "create", args=[{"label": f"new{a[0]}"}])
        if got["label"] != f"new{a[0]}" or got["id"] in deployments: fail(f"a new deployment is {got}")
        deployments[got["id"]] = got["label"]
        truth[got["id"]], running[got["id"]] = {}, None
      elif op in ("rename", "remove"):
        l = sorted(deployments)
        if a[0] >= len(l) or running.get(l[a[0]]) is not None: continue
        if op == "rename":
          deployments[l[a[0]]] = f"L{a[1]}"
          await page.call(page.root, "deployment", "update", args=[{"id": l[a[0]], "label": f"L{a[1]}"}])
        else:
          if l[a[0]] in (uid(1, 0), uid(1, 1), now.d): continue
          deployments.pop(l[a[0]]); truth.pop(l[a[0]]); running.pop(l[a[0]])
          await page.call(page.root, "deployment", "delete", args=[l[a[0]]])
      elif op == "host":
        if any(running.values()): continue
        if a[0] in registered:
          registered.discard(a[0])
          await hosts[a[0]].unregister()
        else:
          registered.add(a[0])
          await hosts[a[0]].register()
        await asyncio.sleep(40)
        await page.pump()
        await page.time(1100)
        await listing("a change of the hosts")
        ctx.label("host came back" if a[0] in registered else "host left")
  await check("the end")
  await page.load()
  await visit(now.d, True)
  got = await look("a new page")
  for i in boards:
    b = await page.call(page.root, "dashboard", "get", args=[i])
    if b is None or diff(b, boards[i]): fail(f"a new page gets the dashboard {boards[i]} as {b}")
  await check("a new page")

SUBS = [Sub("pages", cases, run, quick=250, thorough=6000, rule="An edit changed a task, or a deployment was started.")]
