"""A task with a web interface on a simulated network: topics on one side, HTTP and websockets on the other."""
from .taskrig import *
from .system import System
from .web import *
from streamtasks.asgi import ASGIProxyApp
from streamtasks.net.utils import str_to_endpoint
import json

PLAIN = {"kind": "plain", "d1": [0], "d2": [0]}
def strict_loads(text):
  """JSON as browsers read it."""
  def no(c): raise Violation(f"{c} is no JSON: {text!r}")
  try: return json.loads(text, parse_constant=no)
  except ValueError: raise Violation(f"not JSON: {text!r}")

class Socket:
  """A websocket of a browser."""
  def __init__(self, app, path):
    self.q, self.events, self.disconnected = asyncio.Queue(), [], False
    self.q.put_nowait({"type": "websocket.connect"})
    async def send(e): self.events.append(e)
    async def receive(): return await self.q.get()
    self.task = asyncio.create_task(app(ws_scope(path), receive, send))
  @property
  def open(self): return any(e["type"] == "websocket.accept" for e in self.events) and not self.closed
  @property
  def closed(self): return any(e["type"] == "websocket.close" for e in self.events)
  @property
  def messages(self): return [e.get("text") if e.get("bytes") is None else bytes(e["bytes"]) for e in self.events if e["type"] == "websocket.send"]
  def disconnect(self):
    self.disconnected = True
    self.q.put_nowait({"type": "websocket.disconnect", "code": 1001})

class UIRig:
  async def start(self, build, ins, outs, link=None, run=True, near=False):
    self.S = await System().start_system({"hops": [], "eps": [[PLAIN, 0]]}, 0, tm=False)
    self.client = self.S.clients[0]
    self.rec = Recorder(self.client)
    await self.rec.start_recv()
    self.outs, self.seen, self.timed, self.when = outs, 0, 0, []
    on = self.rec.on_message
    def on_message(m):
      if isinstance(m, (TopicDataMessage, TopicControlMessage)): self.when.append(vnow())
      on(m)
    self.rec.on_message = on_message
    await self.client.register_out_topics(ins)
    await self.client.register_in_topics(outs)
    d = self.S.switches[0]
    if not near:
      c, d = make_link((link or {}).get("kind", "raw"), 1, None, None)
      await self.S.switches[0].add_link(c)
      await settle(20)
      d.calm = 20
    self.task = await build(d)
    self.metadata = await asyncio.wait_for(self.task.setup(), 100)
    endpoint = str_to_endpoint(next(v for k, v in self.metadata.items() if "asgi" in k.lower()))
    self.app = ASGIProxyApp(self.client, endpoint)
    if run: self.run()
    return self
  def run(self):
    self.t0 = vnow()
    self.bg = asyncio.create_task(self.task.run())
  check = Rig.check
  send = Rig.send
  pause = Rig.pause
  take = Rig.take
  stop = Rig.stop
  def connect(self, path): return Socket(self.app, path)
  async def request(self, method, path, body=b"", content_type=b"application/json; charset=utf-8"):
    r = await http(self.app, method, path, body, [(b"content-type", content_type)])
    bad = r.well_formed()
    if bad: raise Violation(f"{method} {path}: {bad}: {r.events}")
    return r
  async def get(self, path):
    r = await self.request("GET", path)
    if r.status != 200: raise Violation(f"GET {path} was answered with {r.status}")
    return strict_loads(r.body.decode())
