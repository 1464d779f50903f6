from ..system import *
from ..web import *
from ..core import Sub, Violation
from ..vloop import vrun
from ..uirig import Socket, strict_loads
from streamtasks.asgi import ASGIAppRunner, ASGIProxyApp
from streamtasks.client.discovery import address_name_context, delete_topic_space, register_topic_space
from streamtasks.client.fetch import FetchError
from streamtasks.client.signal import send_signal
from streamtasks.net.utils import endpoint_to_str
from streamtasks.services.constants import NetworkPorts
from streamtasks.system.task import TaskConstants
from streamtasks.system.task_web import TaskWebBackend
import asyncio, base64, itertools, json, math, os, shutil, tempfile, urllib.parse, uuid

TECHNIQUE = "property-based testing (Hypothesis): generated histories of hosts, tasks and tools coming, changing and going while browsers send requests and open websockets through the task web backend, against a model of who serves what"
NOTE = "Random search with shrinking in virtual time over the real task web backend, task manager, discovery service and task hosts on random networks; browsers are ASGI callers."

# ---------------------------------------------------------------- what is reached
def echo(name):
  """Answers with what it was asked."""
  async def app(scope, receive, send):
    if scope["type"] == "http":
      body = b""
      while True:
        e = await receive()
        if e["type"] != "http.request": return
        body += bytes(e.get("body", b""))
        if not e.get("more_body"): break
      value = {"name": name, "method": scope["method"], "path": scope["path"], "query": bytes(scope["query_string"]).decode("latin1"), "body": body.decode("latin1"),
        "headers": [[bytes(k).decode("latin1"), bytes(v).decode("latin1")] for k, v in scope["headers"]]}
      data = json.dumps(value).encode()
      await send({"type": "http.response.start", "status": 222, "headers": [(b"x-name", name.encode()), (b"content-length", str(len(data)).encode())]})
      await send({"type": "http.response.body", "body": data, "more_body": False})
    elif scope["type"] == "websocket":
      await receive()
      await send({"type": "websocket.accept", "headers": []})
      while True:
        e = await receive()
        if e["type"] == "websocket.disconnect": return
        if e.get("text") == "bye": return await send({"type": "websocket.close", "code": 4001})
        await send({"type": "websocket.send", "text": json.dumps([name, scope["path"], bytes(scope["query_string"]).decode("latin1"), e.get("text")])})
  return app

class EchoTask(ScriptTask):
  async def setup(self):
    self.client.start()
    await self.client.set_address(50000 + self.config["n"])     # asking for one may take longer than a task has
    md = dict(self.config["metadata"])
    if self.config["app"]: md["asgiserver"] = endpoint_to_str((self.client.address, self.config["port"]))
    return md
  async def run(self):
    if self.config["app"]: await ASGIAppRunner(self.client, echo(self.config["app"]), self.config["port"]).run()
    else: await asyncio.Future()

class EchoHost(ScriptHost):
  task_type = EchoTask
  app, md = None, {}
  @property
  def metadata(self): return dict(self.md)
  async def register_routes(self, router):
    if self.app: router.add_handler(echo(self.app))
KINDS = [type(f"EchoHost{i}", (EchoHost,), {}) for i in range(3)]

# ---------------------------------------------------------------- cases
def files():
  text = st.sampled_from(["", "hello", "<p>ü</p>", "data", "datafile: no uri", " \n lead and trail\r\n", "x" * 300])
  raw = st.sampled_from([b"", b"\x00\xff\x80", b"body", b"a,b;c", "ü".encode(), bytes(range(256))])
  mime = st.sampled_from(["", "", "image/png", "text/x-test", "application/octet-stream"])
  charset = st.sampled_from(["", "", ";charset=latin-1"])
  def uri(v):
    data, mime, charset, b64 = v
    return ["uri", f"data:{mime}{charset}" + (";base64," + base64.b64encode(data).decode() if b64 else "," + urllib.parse.quote_from_bytes(data, safe="")), data.decode("latin1"), mime, charset[9:]]
  content = st.one_of(text.map(lambda t: ["text", t]), st.tuples(raw, mime, charset, st.booleans()).map(uri))
  path = st.sampled_from(["/f.txt", "/f.txt", "/d/g.js", "/", "/page.html", "/page.html", "/a b.css", "/noext", "/a b.css", "/ü", "/d/"])
  return st.lists(st.tuples(st.sampled_from(["file:", "file:", "File:", "FILE:"]), path, content).map(list), max_size=3, unique_by=lambda f: f[1])
def metadata(files, extra):
  return {**{prefix + path: c[1] for prefix, path, c in files}, **extra}

def values():
  leaf = st.one_of(st.none(), st.booleans(), st.integers(-5, 2 ** 53), st.floats(width=32), st.sampled_from([math.inf, -math.inf, math.nan, 0.5, -0.0]), st.sampled_from(["", "a", "ab", "NaN", "ü\n\"", "xy"]), st.binary(max_size=3))
  return st.recursive(leaf, lambda inner: st.one_of(st.lists(inner, max_size=3), st.lists(st.sampled_from(["ab", "cd"]), max_size=2), st.lists(st.lists(inner, min_size=2, max_size=2), max_size=2), st.dictionaries(st.sampled_from(["a", "b", "", "c d"]), inner, max_size=3)), max_leaves=6)
def shown(v):
  """How a browser sees a value."""
  if isinstance(v, bool) or v is None or isinstance(v, (int, str)): return v
  if isinstance(v, float): return "NaN" if math.isnan(v) else "<inf>" if math.isinf(v) else v
  if isinstance(v, bytes): return v.hex()
  if isinstance(v, dict): return {k: shown(x) for k, x in v.items()}
  return [shown(x) for x in v]
def same(a, b):
  if b == "<inf>": return isinstance(a, str) or a is None
  if type(a) is not type(b): return False
  if isinstance(a, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(a, dict): return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
  return a == b

REST = ["", "", "x", "x/y", "f.txt", "f.txt", "d/g.js", "page.html", "noext", "a b.css", "ü", "d/", "a//b", "%41", "task/1", "new\nline"]
REGS = ["reg", "reg1", "REG"]
PATHS = [["/a/", "/aa/"], ["/b/c/", "/b/d/"], ["/x-1_2/", "/tool/"]]
BADPATHS = ["no/slash/", "/noend", "/bad path/", "/ä/", "", "/a.b/"]
def cases():
  rest, method = st.sampled_from(REST + [0, 0, 0, 1, 1, 2]), st.sampled_from(["GET", "GET", "GET", "POST", "PUT", "DELETE"])
  query, body = st.sampled_from(["", "", "q=1&r=%20", "x"]), st.sampled_from(["", "", "text", "\x00\xff"])
  where = st.one_of(*[st.tuples(st.just("live"), st.integers(0, 7))] * 4, st.tuples(st.just("host"), st.integers(0, 2)), st.tuples(st.just("host"), st.integers(0, 2)), st.tuples(st.just("task"), st.integers(0, 5)), st.tuples(st.just("task"), st.integers(0, 5)), st.tuples(st.just("reg"), st.integers(0, 2), st.integers(0, 1)), st.tuples(st.just("reg"), st.integers(0, 2), st.integers(0, 1)),
    st.tuples(st.just("odd"), st.sampled_from(["/task-host/nobody/", "/task/00000000-0000-4000-8000-000000000000/", "/task/no-uuid/x", "/task/", "/nowhere/", "/A/", "/a", "/TOOL/x", "/X-1_2/x", "/b/C/", "/task-host/", "/css/none.css"]))).map(list)
  req = st.one_of(st.tuples(st.just("http"), where, rest, method, query, body), st.tuples(st.just("http"), where, rest, method, query, body), st.tuples(st.just("ws"), where, rest, query)).map(list)
  requests = st.one_of(st.lists(req, min_size=1, max_size=3), st.lists(req, min_size=2, max_size=5)).map(lambda r: ["ask", r])
  extra = st.dictionaries(st.sampled_from(["label", "cfg:x"]), st.sampled_from([1, "v", True, 2.5]), max_size=2)
  host = st.tuples(st.integers(0, 2), st.booleans(), files(), extra)
  task = st.tuples(st.integers(0, 2), st.sampled_from([True, True, False]), st.sampled_from([None, None, 77]), files(), extra)
  op = st.one_of(requests, requests, requests,
    st.tuples(st.just("host"), *[host]).map(lambda v: ["host", *v[1]]), host.map(lambda v: ["host", *v]), host.map(lambda v: ["again", *v]), st.tuples(st.just("leave"), st.integers(0, 2)).map(list),
    st.tuples(st.just("unregister"), st.integers(0, 2)).map(list),
    task.map(lambda v: ["schedule", *v]), task.map(lambda v: ["schedule", *v]), st.tuples(st.just("start"), st.integers(0, 5)).map(list), st.tuples(st.just("start"), st.integers(0, 5)).map(list), st.tuples(st.just("end"), st.integers(0, 5)).map(list),
    st.tuples(st.just("path"), st.integers(0, 2), st.integers(0, 1), st.integers(0, 3), st.sampled_from([None, None, ["L", "std:x"], ["ü", "p/q.js"]])).map(list), st.tuples(st.just("path"), st.integers(0, 2), st.integers(0, 1), st.integers(0, 3), st.none()).map(list),
    st.tuples(st.just("badpath"), st.integers(0, 2), st.sampled_from(BADPATHS)).map(list), st.tuples(st.just("unpath"), st.integers(0, 2)).map(list),
    st.tuples(st.just("watch")).map(list), st.tuples(st.just("unwatch")).map(list))
  # something to ask for
  early = st.just(["ask", [["http", ["task", 0], "", "GET", "", ""]]])
  setup = st.tuples(host, task.map(lambda v: ["schedule", *v]), st.booleans()).map(lambda v: [["host", *v[0]], ["schedule", v[0][0], *v[1][2:]]] + [["start", 0]] * v[2])
  setup2 = st.tuples(setup, early).map(lambda v: v[0][:2] + [v[1]] + [["start", 0]])
  tool = st.tuples(st.integers(0, 2), st.integers(0, 1), st.integers(0, 3)).map(lambda v: [["path", *v, None]])
  first = st.one_of(st.just([]), setup, setup, setup2, st.tuples(setup, tool).map(lambda v: v[0] + v[1]), tool, st.tuples(setup, setup).map(lambda v: v[0] + v[1] + [["start", 1]]))
  return st.fixed_dictionaries({"net": net_strategy(n_clients=(2, 2)), "web": st.integers(0, 2), "first": first, "ops": st.lists(op, min_size=5, max_size=18)})

def scratch(main):
  base = tempfile.mkdtemp(prefix="t09-")
  old = os.environ["DATA_DIR"]
  os.environ["DATA_DIR"] = base
  try:
    with quiet(): vrun(main)
  finally:
    os.environ["DATA_DIR"] = old
    shutil.rmtree(base)

async def start_web(case):
  S = await System().start_system(case["net"], 0)
  await S.attach(TaskWebBackend(), case["web"])
  address = await asyncio.wait_for(wait_name(S.clients[0], NetworkAddressNames.TASK_MANAGER_WEB), 1000)
  await settle(20)
  return S, ASGIProxyApp(S.clients[0], address)

# ---------------------------------------------------------------- the model
class Target:
  """Who answers: files first, then an application."""
  def __init__(self, name, files): self.name, self.files = name, {path: content for _, path, content in files}
  def answer(self, method, path):
    if method == "GET" and path in self.files: return ["file", path, self.files[path]]
    return ["app", self.name] if self.name else ["none"]

def run(case, ctx): scratch(lambda: history(case, ctx))
async def history(case, ctx):
  S, app = await start_web(case)
  c0, c1 = S.clients
  names = itertools.count()
  hosts, host_targets, old_hosts = {}, {}, []         # kind -> worker; kind -> Target of the registration
  tasks = []                       # dict(id, target, state, ...)
  regs = {}                        # number -> [path, name, frontend]
  events, watcher = [], None
  # tools: four applications of one client
  runners = []
  ports = [(NetworkPorts.ASGI, "tool-a"), (500, "tool-b"), (501, "tool-d")]
  async with address_name_context(c1, "tool-name"):
    for port, name in ports: runners.append(asyncio.create_task(ASGIAppRunner(c1, echo(name), port).run()))
    endpoints = [(c1.address, "tool-a"), ((c1.address, 500), "tool-b"), ("tool-name", "tool-a"), (("tool-name", 501), "tool-d")]
    await settle(20)

    def find(where):
      """(path prefix, what should answer)"""
      if where[0] == "live":
        live = [["host", k] for k in host_targets] + [["task", i] for i, t in enumerate(tasks) if t["state"] == "running"] + [["reg", n, v] for n, r in regs.items() for v in (0, 1) if PATHS[n][v] == r[0]]
        where = live[where[1] % len(live)] if live else ["host", 0]
      if where[0] == "host":
        k = where[1]
        return f"/task-host/{KINDS[k]().id}/", host_targets.get(k)
      if where[0] == "task":
        if not tasks: return "/task/00000000-0000-4000-8000-000000000001/", None
        t = tasks[where[1] % len(tasks)]
        return f"/task/{t['id']}/", t["target"] if t["state"] == "running" else None
      if where[0] == "reg":
        path = PATHS[where[1]][where[2]]
        r = regs.get(where[1])
        return path, Target(r[1], []) if r is not None and r[0] == path else None
      return where[1], None
    async def ask(r):
      prefix, target = find(r[1])
      rest = r[2]
      if isinstance(rest, int):    # one of the files that are there
        have = list(target.files) if target is not None else []
        rest = have[rest % len(have)][1:] if have else "x"
      path = prefix + rest
      want = ["none"] if target is None else target.answer(r[3] if r[0] == "http" else "WS", "/" + rest)
      what = f"{r[3] if r[0] == 'http' else 'websocket'} {path!r}"
      if want[0] != "none": ctx.hit(); ctx.label(r[1][0])
      if r[0] == "http":
        _, _, _, method, query, body = r
        headers = [(b"x-first", b"1"), (b"content-type", b"text/x-test"), (b"x-first", b"2")]
        res = await http(app, method, path, body.encode("latin1"), headers, query=query.encode())
        if (bad := res.well_formed()): raise Violation(f"{what}: {bad}: {res.events}")
        if want[0] == "none":
          if res.status not in ((404, 400) if r[1][0] == "odd" else (404,)): raise Violation(f"{what} is served by nobody, but was answered with {res.status} {res.body[:200]}")
          if "no-uuid" in path and res.status != 400: raise Violation(f"{what} was answered with {res.status}")
        elif want[0] == "file":
          kind, data, *more = want[2]
          expected = data.encode() if kind == "text" else more[0].encode("latin1")
          if res.status != 200 or res.body != expected: raise Violation(f"{what} should be the file {data!r}, but was answered with {res.status} {res.body[:300]}")
          ctype = res.header("content-type")
          if kind == "uri" and more[1] and (len(ctype) != 1 or ctype[0].split(";")[0] != more[1] or (more[2] and f"charset={more[2]}" not in ctype[0])): raise Violation(f"{what} is {data!r}, but its content type is {ctype}")
          if len(ctype) != 1: raise Violation(f"{what} has the content types {ctype}")
          if (kind == "text" or not more[1]) and want[1] in ("/page.html", "/a b.css") and ctype[0].split(";")[0] != {"/page.html": "text/html", "/a b.css": "text/css"}[want[1]]: raise Violation(f"the file {want[1]} has the content type {ctype}")
        else:
          if res.status != 222 or res.header("x-name") != [want[1]]: raise Violation(f"{what} should be answered by {want[1]}, but was answered with {res.status} {res.headers} {res.body[:300]}")
          got = json.loads(res.body)
          expected = {"name": want[1], "method": method, "path": "/" + rest, "query": query, "body": body, "headers": [[k.decode(), v.decode()] for k, v in headers]}
          if got != expected: raise Violation(f"{what} arrived as {got}, expected {expected}")
      else:
        query = r[3]
        q, ev = asyncio.Queue(), []
        q.put_nowait({"type": "websocket.connect"})
        async def send(e): ev.append(e)
        task = asyncio.create_task(app(ws_scope(path, query=query.encode()), q.get, send))
        await settle(80)
        accepted = any(e["type"] == "websocket.accept" for e in ev)
        if want[0] != "app":
          if accepted: raise Violation(f"{what} is served by nobody, but was accepted: {ev}")
          q.put_nowait({"type": "websocket.disconnect", "code": 1001})
          await asyncio.wait([task], timeout=100)
          if not task.done(): raise Violation(f"{what} is served by nobody and does not end: {ev}")
          if not task.cancelled(): task.exception()
        else:
          if not accepted: raise Violation(f"{what} should be served by {want[1]}, but was not accepted: {ev}")
          for m in ("one", "two"): q.put_nowait({"type": "websocket.receive", "text": m, "bytes": None})
          await settle(40)
          got = [json.loads(e["text"]) for e in ev if e["type"] == "websocket.send"]
          expected = [[want[1], "/" + rest, query, m] for m in ("one", "two")]
          if got != expected: raise Violation(f"{what}: messages answered {got}, expected {expected}")
          q.put_nowait({"type": "websocket.receive", "text": "bye", "bytes": None})
          await asyncio.wait([task], timeout=100)
          if not task.done() or ev[-1]["type"] != "websocket.close" or ev[-1].get("code") != 4001: raise Violation(f"{what} was closed by {want[1]} with 4001: {ev}")
    async def listing():
      status, got = await json_request(app, "GET", "/api/path-registrations")
      want = sorted([REGS[n], r[0], None if r[2] is None else {"label": r[2][0], "path": r[2][1]}] for n, r in regs.items())
      if status != 200 or sorted([e["id"], e["path"], e["frontend"]] for e in got) != want: raise Violation(f"registered paths are listed as {got}, expected {want}")
      status, got = await json_request(app, "GET", "/api/task-hosts")
      if status != 200 or sorted(h["id"] for h in got) != sorted(hosts[k].id for k in host_targets): raise Violation(f"task hosts are listed as {got}, registered: {[hosts[k].id for k in host_targets]}")
      for k in range(3):
        status, one = await json_request(app, "GET", f"/api/task-host/{KINDS[k]().id}")
        if k not in host_targets:
          if status != 404: raise Violation(f"a host that is not registered was answered with {status} {one}")
          continue
        if status != 200 or one not in got: raise Violation(f"a host is reported as {status} {one}, and listed as {got}")
        md, h = dict(one["metadata"]), host_targets[k].host
        if one["address"] != h.client.address or ("asgiserver" in md) != bool(h.app): raise Violation(f"the host {h.client.address} with{'' if h.app else 'out'} an application is reported as {one}")
        md.pop("nodename"); md.pop("asgiserver", None)
        if md != host_targets[k].md: raise Violation(f"the host registered with {host_targets[k].md} is reported with {md}")
    async def register(k):
      h = hosts[k]
      await h.register()
      host_targets[k] = t = Target(h.app, h.files)
      t.md, t.host = h.metadata, h
      events.append(["registered", h.id])
    for op, *a in case["first"] + case["ops"]:
      ctx.trace(op, *a)
      if op == "ask":
        results = await asyncio.gather(*(ask(r) for r in a[0]), return_exceptions=True)
        for r in results:
          if isinstance(r, BaseException): raise r
        if len(a[0]) > 1: ctx.label("at once")
      elif op == "host":
        # a new worker of this kind; one that is there already keeps running but is replaced
        k, has_app, fs, extra = a
        if len(old_hosts) > 3: continue
        if k in hosts: old_hosts.append(hosts[k]); ctx.label("host replaced")
        h = KINDS[k]()
        h.files, h.md, h.app = fs, metadata(fs, extra), f"host{k}-{next(names)}" if has_app else None
        h.bg = await S.attach(h, k)
        await asyncio.wait_for(h.ready.wait(), 1000)
        hosts[k] = h
        await register(k)
      elif op == "again":
        k, _, fs, extra = a
        if k not in hosts: continue
        hosts[k].files, hosts[k].md = fs, metadata(fs, extra)
        if k in host_targets: ctx.label("registered again")
        await register(k)
      elif op == "unregister":
        if a[0] not in host_targets: continue
        await hosts[a[0]].unregister()
        host_targets.pop(a[0])
        events.append(["unregistered", hosts[a[0]].id])
        for t in tasks:
          if t["kind"] == a[0] and t["state"] in ("scheduled", "running"): t["state"] = "ended"
      elif op == "leave":
        k = a[0]
        if k not in hosts: continue
        h = hosts.pop(k)
        h.bg.cancel()
        await asyncio.wait([h.bg], timeout=1000)
        for t in tasks:
          if t["host"] is h and t["state"] == "running": t["state"] = "ended"
        if k in host_targets:
          host_targets.pop(k)
          events.append(["unregistered", h.id])
          for t in tasks:
            if t["kind"] == k and t["state"] in ("scheduled", "running"): t["state"] = "ended"
      elif op == "schedule":
        k, has_app, port, fs, extra = a
        if k not in host_targets or len(tasks) >= 6: continue
        inst = await S.tmc[1].schedule_task(hosts[k].id)
        n = next(names)
        tasks.append(dict(id=str(inst.id), kind=k, host=hosts[k], state="scheduled", target=Target(f"task{n}" if has_app else None, fs), config={"n": n, "app": f"task{n}" if has_app else None, "port": port or NetworkPorts.ASGI, "metadata": metadata(fs, extra)}))
      elif op in ("start", "end"):
        if not tasks: continue
        t = tasks[a[0] % len(tasks)]
        if op == "start":
          if t["state"] != "scheduled": continue
          inst = await S.tmc[1].start_task(uuid.UUID(t["id"]), t["config"])
          if inst.error is not None: raise Violation(f"a task did not start: {inst.error}")
          t.update(state="running", host=hosts[t["kind"]])
        else:
          if t["state"] == "ended" or (t["state"] == "running" and hosts.get(t["kind"]) is not t["host"]): continue
          await asyncio.wait_for(S.tmc[1].cancel_task_wait(uuid.UUID(t["id"])), 100)
          t["state"] = "ended"
      elif op == "path":
        n, v, e, frontend = a
        ep, name = endpoints[e]
        ctx.label(f"endpoint {e}")
        await asyncio.wait_for(c1.fetch(NetworkAddressNames.TASK_MANAGER_WEB, TaskConstants.FD_TMW_REGISTER_PATH, {"id": REGS[n], "path": PATHS[n][v], "endpoint": ep, "frontend": None if frontend is None else {"label": frontend[0], "path": frontend[1]}}), 100)
        regs[n] = [PATHS[n][v], name, frontend]
      elif op == "badpath":
        try: await asyncio.wait_for(c1.fetch(NetworkAddressNames.TASK_MANAGER_WEB, TaskConstants.FD_TMW_REGISTER_PATH, {"id": REGS[a[0]], "path": a[1], "endpoint": c1.address, "frontend": None}), 100)
        except FetchError: pass
        else: raise Violation(f"the path {a[1]!r} was accepted")
      elif op == "unpath":
        await send_signal(c1, NetworkAddressNames.TASK_MANAGER_WEB, TaskConstants.SD_TMW_UNREGISTER_PATH, {"id": REGS[a[0]]})
        if regs.pop(a[0], None) is not None: ctx.label("path removed")
      elif op == "watch" and watcher is None:
        watcher = Socket(app, "/task-host/updates")
        await settle(60)
        if not watcher.open or watcher.messages != ["HELLO!"]: raise Violation(f"updates of task hosts: {watcher.events}")
        events.clear()
      elif op == "unwatch" and watcher is not None:
        watcher.disconnect()
        await asyncio.wait([watcher.task], timeout=100)
        if not watcher.task.done(): raise Violation("the websocket for updates of task hosts does not end when the browser leaves")
        watcher = None
      await settle(20)
      if op != "ask": await listing()
      if watcher is not None:
        got = [[m["event"], m["id"]] for m in map(strict_loads, watcher.messages[1:])]
        if got != events: raise Violation(f"a browser was told {got}, what happened: {events}")
        if events: ctx.label("watched")

# ---------------------------------------------------------------- topics
def topic_cases():
  op = st.one_of(*[st.tuples(st.just("send"), st.integers(0, 2), values())] * 4, st.tuples(st.just("pause"), st.integers(0, 2), st.booleans()),
    st.tuples(st.just("open"), st.integers(0, 2), st.booleans()), st.tuples(st.just("open"), st.integers(0, 2), st.booleans()), st.tuples(st.just("close"), st.integers(0, 3)), st.tuples(st.just("bad"), st.sampled_from(["/topic/x", "/topic/987654/1", "/topic/x/1", "/topic/1/x"])),
    st.tuples(st.just("forget"))).map(list)
  return st.fixed_dictionaries({"net": net_strategy(n_clients=(2, 2)), "web": st.integers(0, 2), "space": st.lists(st.integers(0, 2), max_size=3, unique=True), "ops": st.tuples(st.one_of(st.just([]), st.tuples(st.just("open"), st.integers(0, 2), st.booleans()).map(lambda o: [list(o)])), st.lists(op, min_size=4, max_size=14)).map(lambda v: v[0] + v[1])})

def run_topics(case, ctx): scratch(lambda: topics(case, ctx))
async def topics(case, ctx):
  S, app = await start_web(case)
  c1 = S.clients[1]
  ids = [7001, 7002, 7003]
  space = None
  mapped = {}
  if case["space"]:
    space, mapped = await register_topic_space(c1, {ids[i] for i in case["space"]})
    ids = [mapped.get(i, i) for i in ids]
  outs = [c1.out_topic(i) for i in ids]
  paused = [False] * 3
  for o in outs:
    await o.start()
    await o.set_registered(True)
  await settle(20)
  socks = []                      # [socket, topic, expected, pause state at the start]
  async def check():
    await settle(20)
    for i, o in enumerate(outs):
      want = any(s[1] == i for s in socks)
      if o.is_requested != want: raise Violation(f"the topic {i} is {'shown' if want else 'not shown'} in a browser, but its publisher finds it {'' if o.is_requested else 'not '}requested")
    for s, i, expected, first in socks:
      if not s.open: raise Violation(f"the websocket of a topic was closed: {s.events[-2:]}")
      got, state = [], first
      for m in map(strict_loads, s.messages[s.before:]):
        if set(m) != {"type", "data"} or m["type"] not in ("data", "control"): raise Violation(f"a browser was sent {m}")
        if m["type"] == "control":
          if m["data"] == {"paused": state}: continue
          state = m["data"]["paused"]
        got.append([m["type"], m["data"]])
      if len(got) != len(expected) or not all(g[0] == e[0] and same(g[1], e[1]) for g, e in zip(got, expected)): raise Violation(f"a browser was sent {got}, published: {expected}")
  for op, *a in case["ops"]:
    ctx.trace(op, *a)
    if op == "send":
      v = {"v": None} if a[1] is None or isinstance(a[1], bytes) else a[1]
      await outs[a[0]].send(RawData(v))
      for s in socks:
        if s[1] == a[0]: s[2].append(["data", shown(v)]); ctx.hit()
    elif op == "pause":
      await outs[a[0]].set_paused(a[1])
      if paused[a[0]] != a[1]:
        for s in socks:
          if s[1] == a[0]: s[2].append(["control", {"paused": a[1]}]); ctx.label("pause")
      paused[a[0]] = a[1]
    elif op == "open" and len(socks) < 4:
      i, by_space = a
      original = [7001, 7002, 7003][i]
      if by_space and space is not None and original in mapped:
        path = f"/topic/{space}/{original}"
        ctx.label("by topic space")
      else: path = f"/topic/{ids[i]}"
      s = Socket(app, path)
      await settle(60)
      if not s.open: raise Violation(f"{path} was not accepted: {s.events}")
      known = [strict_loads(m) for m in s.messages]       # whether the publisher is paused, from wherever that is known
      if known and known[-1] != {"type": "control", "data": {"paused": paused[i]}} or any(m["type"] != "control" for m in known): raise Violation(f"a browser was first sent {known}; the publisher is {'' if paused[i] else 'not '}paused")
      s.before = len(known)
      socks.append([s, i, [], paused[i]])
    elif op == "close" and socks:
      s = socks.pop(a[0] % len(socks))
      s[0].disconnect()
      await asyncio.wait([s[0].task], timeout=100)
      if not s[0].task.done(): raise Violation("the websocket of a topic does not end when the browser leaves")
    elif op == "bad":
      s = Socket(app, a[0])
      await settle(60)
      if s.open: raise Violation(f"{a[0]} was accepted: {s.events}")
      s.disconnect()
      await asyncio.wait([s.task], timeout=100)
      if not s.task.done(): raise Violation(f"{a[0]} does not end")
      if not s.task.cancelled(): s.task.exception()
    elif op == "forget" and space is not None:
      await delete_topic_space(c1, space)
      s = Socket(app, f"/topic/{space}/{next(iter(mapped))}")
      await settle(60)
      if s.open: raise Violation(f"a topic of a topic space that was deleted was accepted: {s.events}")
      s.disconnect()
      space = None
      ctx.label("space deleted")
    await check()

SUBS = [
  Sub("routes", cases, run, quick=450, thorough=20000, rule="at least one request was answered by an application or a file of a host, a task or a tool", hang_s=60),
  Sub("topics", topic_cases, run_topics, quick=350, thorough=12000, rule="at least one message was published on a topic shown in a browser", hang_s=60),
]
