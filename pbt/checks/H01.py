from ..simple import *
from ..core import Sub, Violation
from ..vloop import vrun
from ..web import http_scope, ws_scope
from streamtasks.asgi import ASGIAppRunner, ASGIProxyApp
import asyncio

TECHNIQUE = "property-based testing (Hypothesis): differential test, generated applications and client conversations called directly and through the tunnel on a simulated network"
NOTE = "Random search with shrinking in virtual time; conversations whose outcome does not depend on timing are compared exactly, after a disconnect the client may miss what was under way."

blob = st.one_of(st.binary(max_size=6), st.sampled_from([b"", b"x" * 70000]))
text = st.one_of(st.text(alphabet=st.characters(exclude_categories=["Cs"]), max_size=6), st.just(""))
header = st.tuples(st.one_of(st.binary(max_size=5), st.sampled_from([b"content-type", b"x"])), st.binary(max_size=8)).map(list)
start = st.tuples(st.sampled_from([200, 204, 404, 500, 299]), st.lists(header, max_size=3)).map(lambda t: ["start", *t])
def value():
  return st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-2**31, 2**31), st.floats(allow_nan=False), text, st.binary(max_size=4)),
    lambda s: st.one_of(st.lists(s, max_size=3), st.dictionaries(text, s, max_size=3)), max_leaves=5)

def conversation():
  pause = st.tuples(st.just("sleep"), st.sampled_from([0, 0.01, 1])).map(list)
  recv = st.just(["recv"])
  app_http = st.tuples(st.lists(st.one_of(recv, recv, pause), max_size=4), st.one_of(start, start, start, st.just(["raise"])), st.lists(st.one_of(
    blob.map(lambda b: ["body", b, True]), blob.map(lambda b: ["body", b, True]), recv, pause), max_size=4), st.one_of(blob.map(lambda b: ["body", b, False]), blob.map(lambda b: ["body", b, False]), st.just(["raise"]), st.just(["return"])),
    st.lists(st.one_of(recv, pause), max_size=2)).map(lambda t: [*t[0], t[1], *t[2], t[3], *t[4]])
  wsend = st.one_of(blob.map(lambda b: ["bytes", b]), text.map(lambda t: ["text", t]))
  app_ws = st.tuples(st.lists(st.one_of(recv, pause), max_size=1), st.one_of(st.tuples(st.sampled_from([None, "proto"]), st.lists(header, max_size=2)).map(lambda t: ["accept", *t]), st.tuples(st.sampled_from([None, "proto"]), st.lists(header, max_size=2)).map(lambda t: ["accept", *t]), st.just(["close", 1008, "no"])),
    st.lists(st.one_of(wsend, wsend, recv, recv, pause), max_size=8), st.sampled_from([["close", 1000, ""], ["close", 3001, "why"], ["raise"], ["return"], ["drain"]])).map(lambda t: [*t[0], t[1], *t[2], t[3]])
  wait = st.tuples(st.just("wait"), st.integers(1, 4)).map(list)
  cl_http = st.tuples(st.lists(st.one_of(blob.map(lambda b: ["request", b, True]), pause), max_size=3), blob.map(lambda b: ["request", b, False]), st.lists(st.one_of(wait, pause), max_size=2)).map(lambda t: [*t[0], t[1], *t[2]])
  cl_ws = st.lists(st.one_of(wsend, wsend, wait, pause), max_size=7).map(lambda l: [["connect"], *l])
  end = st.sampled_from([["stay"], ["stay"], ["stay"], ["disconnect"], ["disconnect"], ["cancel"], ["fail", 0], ["fail", 1], ["fail", 2]])
  common = {"headers": st.lists(header, max_size=3), "query": st.binary(max_size=6), "extra": st.dictionaries(st.sampled_from(["extensions", "state", "x"]), st.dictionaries(text, value(), max_size=3), max_size=2),
    "client": st.sampled_from([None, ("1.2.3.4", 5)]).map(lambda c: c and list(c)), "path": st.sampled_from(["/", "/a/ä", "/%2F"]), "at": st.sampled_from([0, 0, 0.01, 1]), "end": end, "proxy": st.integers(0, 2)}
  return st.one_of(st.fixed_dictionaries({"type": st.just("http"), "app": app_http, "client_steps": cl_http, "method": st.sampled_from(["GET", "POST"]), **common}),
    st.fixed_dictionaries({"type": st.just("websocket"), "app": app_ws, "client_steps": cl_ws, **common}))

def cases(): return st.fixed_dictionaries({"net": net_strategy(n_clients=(3, 3), switches=(1, 2)), "conversations": st.lists(conversation(), min_size=1, max_size=4)})

class AppError(Exception): pass

class Conversation:
  """One request: the scripted application and the scripted client around a way to call it."""
  def __init__(self, spec, n):
    self.spec, self.n = spec, n
    self.app_log, self.scope = [], None       # what the application saw
    self.events = []                          # what the client got
    self.pending, self.more, self.got = [], asyncio.Event(), asyncio.Event()
    self.gone, self.before = False, None
    self.app_state = "not called"
    kw = {**spec["extra"], "client": spec["client"] and tuple(spec["client"])}
    headers = [tuple(h) for h in spec["headers"]]
    self.want_scope = (http_scope(spec["method"], spec["path"], headers, spec["query"], **kw) if spec["type"] == "http" else ws_scope(spec["path"], headers, spec["query"], **kw)) | {"root_path": f"/{n}"}
  # ---- application
  async def app(self, scope, receive, send):
    self.scope, self.app_state = scope, "running"
    try:
      for op, *a in self.spec["app"]:
        if op == "recv": self.app_log.append(await receive())
        elif op == "drain":
          while True:
            self.app_log.append(await receive())
            if self.app_log[-1]["type"].endswith("disconnect"): break
        elif op == "sleep": await asyncio.sleep(a[0])
        elif op == "start": await send({"type": "http.response.start", "status": a[0], "headers": [tuple(h) for h in a[1]]})
        elif op == "body": await send({"type": "http.response.body", "body": a[0], "more_body": a[1]})
        elif op == "accept": await send({"type": "websocket.accept", "subprotocol": a[0], "headers": [tuple(h) for h in a[1]]})
        elif op == "bytes": await send({"type": "websocket.send", "bytes": a[0], "text": None})
        elif op == "text": await send({"type": "websocket.send", "text": a[0]})
        elif op == "close": await send({"type": "websocket.close", "code": a[0], "reason": a[1]})
        elif op == "raise": raise AppError()
        elif op == "return": return
    finally: self.app_state = "ended"
  # ---- client
  async def receive(self):
    while not self.pending:
      if self.gone: return self.gone_event()
      self.more.clear()
      await self.more.wait()
    return self.pending.pop(0)
  def gone_event(self): return {"type": "http.disconnect"} if self.spec["type"] == "http" else {"type": "websocket.disconnect", "code": 1005}
  async def send(self, event):
    if self.spec["end"][0] == "fail" and len(self.events) >= self.spec["end"][1]:
      self.disconnect()
      raise OSError("the client is gone")
    self.events.append(event)
    self.got.set()
  def disconnect(self):
    if not self.gone: self.before = len(self.events)
    self.gone = True
    self.more.set()
  def put(self, e):
    self.pending.append(e)
    self.more.set()
  async def client(self):
    for op, *a in self.spec["client_steps"]:
      if op == "sleep": await asyncio.sleep(a[0])
      elif op == "wait":
        async def enough():
          while len(self.events) < a[0]:
            self.got.clear()
            await self.got.wait()
        try: await asyncio.wait_for(enough(), 60)
        except asyncio.TimeoutError: pass
      elif op == "request": self.put({"type": "http.request", "body": a[0], "more_body": a[1]})
      elif op == "connect": self.put({"type": "websocket.connect"})
      elif op == "bytes": self.put({"type": "websocket.receive", "bytes": a[0], "text": None})
      elif op == "text": self.put({"type": "websocket.receive", "text": a[0]})
  async def run(self, call):
    """call(scope, receive, send) until it ends; the client leaves when its conversation is over."""
    await asyncio.sleep(self.spec["at"])
    t = asyncio.create_task(call(self.want_scope, self.receive, self.send))
    c = asyncio.create_task(self.client())
    if self.spec["end"][0] in ("disconnect", "cancel"):
      await c
      # what the client waited for is there, and what the application sends on its own gets through
      await asyncio.sleep(30)
      if self.spec["end"][0] == "disconnect": self.disconnect()
      else: t.cancel()
    await asyncio.wait([t], timeout=300)
    if not t.done():
      self.disconnect()      # nobody waits for ever
      await asyncio.wait([t], timeout=300)
    self.returned = t.done()
    c.cancel()
    await asyncio.sleep(60)
    self.final_state = self.app_state
    t.cancel()
    self.error = None if not t.done() or t.cancelled() else t.exception()

def same(a, b): return type(a) is type(b) and (a.keys() == b.keys() and all(same(a[k], b[k]) for k in a) if isinstance(a, dict) else len(a) == len(b) and all(map(same, a, b)) if isinstance(a, (list, tuple)) else a == b)
def norm(e): return {k: v for k, v in e.items() if v is not None}

def run(case, ctx):
  direct, tunnel = [], []
  async def main_direct():
    async def call(n):
      c = Conversation(case["conversations"][n], n)
      direct.append(c)
      await c.run(c.app)
    for n in range(len(case["conversations"])): await call(n)
  async def main_tunnel():
    N = await Net().start(case["net"])
    await settle(20)
    host = N.clients[0]
    async def app(scope, receive, send): await tunnel[int(scope["root_path"][1:])].app(scope, receive, send)
    runner = asyncio.create_task(ASGIAppRunner(host, app).run())
    await settle(5)
    proxies = [ASGIProxyApp(c, host.address) for c in N.clients]
    for n, s in enumerate(case["conversations"]): tunnel.append(Conversation(s, n))
    await asyncio.gather(*(c.run(proxies[c.spec["proxy"] % 3]) for c in tunnel))
    if runner.done(): raise Violation(f"the runner ended: {runner}")
  vrun(main_direct)
  vrun(main_tunnel)
  for d, t in zip(direct, tunnel):
    what = f"conversation {d.n} ({d.spec['type']})"
    if not t.returned: raise Violation(f"{what}: the call did not end", key="hang")
    if t.final_state != "ended": raise Violation(f"{what}: the application is {t.final_state}; without the tunnel it is {d.final_state}", key="hang")
    if not same(t.scope, d.scope): raise Violation(f"{what}: the scope {d.scope} became {t.scope}")
    end = d.spec["end"][0]
    if end in ("cancel", "fail"):
      # without the tunnel the application is cut off, here it is told
      k = min(len(d.app_log), len(t.app_log))
      log = [e for e in t.app_log if not e["type"].endswith("disconnect")]
      if not all(same(norm(a), norm(b)) for a, b in zip(d.app_log, log)): raise Violation(f"{what}: the application received {t.app_log} instead of {d.app_log}")
      if not all(same(norm(a), norm(b)) for a, b in zip(d.events, t.events)): raise Violation(f"{what}: the client received {t.events} instead of {d.events}")
      if end == "fail" and len(t.events) < (len(d.events) if d.before is None else d.before): raise Violation(f"{what}: the client received {t.events} instead of {d.events}")
      ctx.label(end)
      ctx.hit()
      continue
    a, b = [norm(e) for e in d.app_log], [norm(e) for e in t.app_log]
    if not same(a, b): raise Violation(f"{what}: the application received {b} instead of {a}")
    a, b = [norm(e) for e in d.events], [norm(e) for e in t.events]
    if d.before is not None and d.before <= len(b): a = a[:len(b)]     # what was sent to a client that has left
    if not same(a, b): raise Violation(f"{what}: the client received {b} instead of {a}")
    if end == "disconnect": ctx.label("disconnect")
    if isinstance(d.error, AppError): ctx.label("application fails")
    ctx.hit(len(a) > 1)

# ------------------------------------------------ stopping the application's side
def stop_cases(): return st.fixed_dictionaries({"net": net_strategy(n_clients=(2, 3), switches=(1, 2)), "n": st.integers(1, 4), "after": st.integers(0, 3), "ws": st.booleans(), "gap": st.sampled_from([0, 0.3])})
def stop(case, ctx):
  async def main():
    N = await Net().start(case["net"])
    await settle(20)
    cut = []
    async def app(scope, receive, send):
      try:
        await receive()
        for i in range(case["after"]):
          if scope["type"] == "http": await send({"type": "http.response.start", "status": 200, "headers": []} if i == 0 else {"type": "http.response.body", "body": b"x", "more_body": True})
          else: await send({"type": "websocket.accept"} if i == 0 else {"type": "websocket.send", "text": "x"})
        while not (await receive())["type"].endswith("disconnect"): pass
      finally: cut.append(1)
    runner = asyncio.create_task(ASGIAppRunner(N.clients[0], app).run())
    await settle(5)
    calls, seen = [], []
    for i in range(case["n"]):
      proxy = ASGIProxyApp(N.clients[1 + i % (len(N.clients) - 1)], N.clients[0].address)
      pending = [{"type": "websocket.connect"} if case["ws"] else {"type": "http.request", "body": b"", "more_body": False}]
      async def receive(pending=pending):
        if pending: return pending.pop()
        await asyncio.Future()
      async def send(e): seen.append(e)
      calls.append(asyncio.create_task(proxy(ws_scope("/") if case["ws"] else http_scope("GET", "/"), receive, send)))
      await asyncio.sleep(case["gap"])
    await settle(30)
    if any(c.done() for c in calls): raise Violation(f"a call ended early: {calls}")
    if len(seen) != case["n"] * case["after"]: raise Violation(f"{len(seen)} events instead of {case['n'] * case['after']}")
    runner.cancel()
    await asyncio.wait([runner, *calls], timeout=300)
    if len(cut) != case["n"]: raise Violation(f"{case['n'] - len(cut)} applications survive the end of their runner")
    if not all(c.done() for c in calls): raise Violation("calls are not told that the application has ended", key="hang")
    ctx.hit()
  vrun(main)

SUBS = [
  Sub("conversations", cases, run, quick=300, thorough=8000, rule="A case is non-trivial if a client received at least two events or went away unexpectedly."),
  Sub("stopping", stop_cases, stop, quick=60, thorough=1000, rule="Every case stops a runner with open conversations."),
]
