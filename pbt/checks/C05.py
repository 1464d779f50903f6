from ..gen import *
from ..core import Sub, Violation
from ..vloop import vrun
from ..net import Recorder, LinkRecorder
from ..simnet import SimNet
from .. import boot
from streamtasks.connection import connect, create_server
from streamtasks.client import Client
from streamtasks.client.fetch import FetchServer, FetchError
from streamtasks.net import Switch
from streamtasks.net.messages import *
from streamtasks.net.serialization import RawData
import asyncio, contextlib, os, socket, tempfile

TECHNIQUE = "property-based testing (Hypothesis): differential test, the same generated history on one switch and on two sides of a socket connection"
NOTE = "Random search with shrinking; most cases on simulated sockets, a part on real unix, TCP and WebSocket connections over loopback; single provider per topic, settled between operations."

val = st.one_of(msgpack_value(6).filter(lambda v: v is not None and not isinstance(v, bytes)), st.tuples(st.just("big"), st.sampled_from([100, 70000, 400000])).map(list))
def cases(kinds):
  ep = st.integers(0, 3)
  t = st.sampled_from([1, 2, 3])
  op = st.one_of(
    st.tuples(st.just("prov"), ep, t), st.tuples(st.just("prov"), ep, t), st.tuples(st.just("unprov"), ep, t),
    st.tuples(st.just("sub"), ep, t), st.tuples(st.just("sub"), ep, t), st.tuples(st.just("unsub"), ep, t),
    st.tuples(st.just("send"), t, st.lists(val, min_size=1, max_size=3)), st.tuples(st.just("send"), t, st.lists(val, min_size=1, max_size=3)),
    st.tuples(st.just("pause"), t, st.booleans()),
    st.tuples(st.just("addr"), ep, st.sampled_from([None, 50, 51, 52])), st.tuples(st.just("msg"), ep, st.sampled_from([50, 51, 52, 99]), st.integers(0, 2), val),
    st.tuples(st.just("fetch"), ep, st.sampled_from([50, 51, 52]), st.sampled_from(["echo", "fail", "none", "unknown"]), val),
  ).map(list)
  return st.fixed_dictionaries({
    "transport": st.sampled_from(kinds), "cost": st.sampled_from([None, 1, 7, 300]),
    "delays": st.lists(st.sampled_from([0, 0.001, 0.02]), min_size=1, max_size=3),
    "init": st.lists(ep, min_size=4, max_size=4),
    "sides": st.lists(st.booleans(), min_size=4, max_size=4), "ops": st.lists(op, min_size=3, max_size=14), "close": st.sampled_from([None, "link", "server"]),
  })
DEF = {"tcp": 100, "unix": 50, "ws": 150}

def expand(v):
  if isinstance(v, list) and len(v) == 2 and v[0] == "big": return {"big": bytes(i * 31 % 251 for i in range(1000)) * (v[1] // 1000) + b"x" * (v[1] % 1000)}
  return v

class End:
  async def start(self, link):
    self.client = Client(link)
    self.rec = Recorder(self.client)
    await self.rec.start_recv()
    self.outs, self.address = {}, None
    self.client.start()
    self.server = FetchServer(self.client)
    @self.server.route("echo")
    async def _(req): await req.respond({"v": req.body})
    @self.server.route("fail")
    async def _(req): raise ValueError("no " + repr(req.body)[:20])
    @self.server.route("none")
    async def _(req): pass
    self.stask = asyncio.create_task(self.server.run())
    self.mark = 0

class Side:
  """Four clients and one or two observers; either all on one switch or on two sides of a socket."""
  async def start(self, links, observers):
    self.eps = []
    for l in links:
      e = End()
      await e.start(await l())
      self.eps.append(e)
    self.obs = [LinkRecorder(await o()) for o in observers]
  async def apply(self, op, a):
    eps = self.eps
    if op == "prov":
      e = eps[a[0]]
      if a[1] not in e.outs:
        e.outs[a[1]] = e.client.out_topic(a[1])
        await e.outs[a[1]].start()
      await e.outs[a[1]].set_registered(True)
    elif op == "unprov": await eps[a[0]].outs[a[1]].set_registered(False)
    elif op == "sub": await eps[a[0]].client.register_in_topics([a[1]])
    elif op == "unsub": await eps[a[0]].client.unregister_in_topics([a[1]])
    elif op == "send":
      for v in a[2]: await eps[a[0]].client.send_stream_data(a[1], RawData(expand(v)))
    elif op == "pause": await eps[a[0]].outs[a[1]].set_paused(a[2])
    elif op == "addr": await eps[a[0]].client.set_address(a[1])
    elif op == "msg": await eps[a[0]].client.send_to((a[1], a[2]), RawData(expand(a[3])))
    elif op == "fetch":
      try: return ["result", await asyncio.wait_for(eps[a[0]].client.fetch(a[1], a[2], expand(a[3])), 20)]
      except asyncio.TimeoutError: return ["timeout"]
      except FetchError as e: return ["error", list(e.body), str(e.status_code)]
      except Exception as e: return ["exception", type(e).__name__]
  def observe(self):
    out = []
    for e in self.eps:
      ms = e.rec.messages[e.mark:]
      e.mark = len(e.rec.messages)
      o = []
      for m in ms:
        if isinstance(m, TopicDataMessage): o.append(["data", m.topic, m.data.data])
        elif isinstance(m, TopicControlMessage): o.append(["ctl", m.topic, m.paused])
        elif isinstance(m, AddressedMessage) and m.port in (0, 1, 2): o.append(["msg", m.address, m.port, m.data.data])
      out.append([o, {t: x.is_requested for t, x in e.outs.items()}])
    return out
  def costs(self, i):
    tops, addrs = {}, {}
    for m in self.obs[i].messages:
      for cls, d in ((OutTopicsChangedRecvMessage, tops), (AddressesChangedRecvMessage, addrs)):
        if isinstance(m, cls):
          for p in m.remove: d.pop(p.id if hasattr(p, "id") else p, None)
          for p in m.add: d[p.id] = p.cost
    return tops, addrs

def free_port():
  with socket.socket() as s:
    s.bind(("127.0.0.1", 0))
    return s.getsockname()[1]

def run(case, ctx):
  kind = case["transport"]
  real = not kind.startswith("sim-")
  tr = kind.removeprefix("sim-")
  async def main():
    with contextlib.ExitStack() as es:
      if not real: es.enter_context(SimNet(case["delays"]).active())
      path = None
      if tr == "unix":
        path = os.path.join(tempfile.mkdtemp(dir=boot.SCRATCH), "s") if real else "/run/s"
        url = "unix://" + path
      else: url = f"{tr}://127.0.0.1:{free_port() if real else 7000}"
      cost = case["cost"] or DEF[tr]
      if case["cost"]: url += f"?cost={case['cost']}"
      one = Switch()
      a = Side()
      await a.start([one.add_local_connection] * 4, [one.add_local_connection])
      server = create_server(url)
      stask = asyncio.create_task(server.run())
      await server.wait_running()
      await asyncio.sleep(1)
      near = Switch()
      link = await connect(url)
      await near.add_link(link)
      b = Side()
      await b.start([near.add_local_connection if s else server.create_link for s in case["sides"]], [near.add_local_connection, server.create_link])
      await asyncio.sleep(5)
      provided, subs, addrs = {}, set(), {}
      for op, *x in [["addr", 0, 50], ["addr", 1, 51], ["addr", 2, 52], *(["prov", p, i + 1] for i, p in enumerate(case["init"][:2])), *(["sub", p, i + 1] for i, p in enumerate(case["init"][2:])), *case["ops"]]:
        if op == "prov":
          if x[1] in provided or (x[0], x[1]) in subs: continue
          provided[x[1]] = x[0]
        elif op == "unprov":
          if provided.get(x[1]) != x[0]: continue
          del provided[x[1]]
        elif op == "sub":
          if (x[0], x[1]) in subs or provided.get(x[1]) == x[0]: continue
          subs.add((x[0], x[1]))
        elif op == "unsub":
          if (x[0], x[1]) not in subs: continue
          subs.discard((x[0], x[1]))
        elif op in ("send", "pause"):
          if x[0] not in provided: continue
          x = [provided[x[0]], *x]
        elif op == "addr":
          if x[1] is not None and any(v == x[1] for k, v in addrs.items() if k != x[0]): continue
          addrs[x[0]] = x[1]
        ctx.trace(op, *[repr(q)[:60] for q in x])
        ra, rb = await a.apply(op, x), await b.apply(op, x)
        await asyncio.sleep(5)
        if ra != rb: raise Violation(f"{op} {str(x)[:200]}: {str(ra)[:300]} in one process, {str(rb)[:300]} over {kind}")
        oa, ob = a.observe(), b.observe()
        if oa != ob:
          i = next(i for i in range(4) if oa[i] != ob[i])
          raise Violation(f"after {op} {str(x)[:100]} client {i} observed {str(oa[i])[:300]} in one process, {str(ob[i])[:300]} over {kind}")
        if any(o[0] for o in oa): ctx.hit()
        for s in (0, 1):
          (ta, aa), (tb, ab) = a.costs(0), b.costs(s)
          on = lambda e: case["sides"][e] == (s == 0)
          wt = {t: c + (0 if on(provided[t]) else cost) for t, c in ta.items()}
          owner = {v: k for k, v in addrs.items() if v is not None}
          wa = {t: c + (0 if on(owner[t]) else cost) for t, c in aa.items()}
          if wt != tb: raise Violation(f"after {op}: topics are advertised at {tb} instead of {wt} ({kind}, cost {cost}, side {s})")
          if wa != ab: raise Violation(f"after {op}: addresses are advertised at {ab} instead of {wa} ({kind}, cost {cost}, side {s})")
      if len(set(case["sides"])) > 1: ctx.label("both sides")
      if case["close"]:
        ctx.label("close " + case["close"])
        if case["close"] == "link": link.close()
        else: stask.cancel()
        await asyncio.sleep(5)
        owner = {v: k for k, v in addrs.items() if v is not None}
        for s in (0, 1):
          if s == 1 and case["close"] == "server": continue
          tb, ab = b.costs(s)
          wt = {t for t, e in provided.items() if case["sides"][e] == (s == 0)}
          wa = {t for t, e in owner.items() if case["sides"][e] == (s == 0)}
          if set(tb) != wt or set(ab) != wa: raise Violation(f"after the connection closed, side {s} still sees topics {set(tb)} addresses {set(ab)} instead of {wt} and {wa}")
          for i, e in enumerate(b.eps):
            if case["sides"][i] == (s == 0):
              for t, o in e.outs.items():
                want = provided.get(t) == i and any(tt == t and case["sides"][k] == case["sides"][i] for k, tt in subs)
                if provided.get(t) == i and o.is_requested != want: raise Violation(f"after the connection closed, topic {t} is {'' if o.is_requested else 'not '}requested")
      stask.cancel()
      await asyncio.wait([stask], timeout=20)
      if real and path: os.path.exists(path) and os.unlink(path)
  vrun(main, real_io=real)

SUBS = [
  Sub("simulated", lambda: cases(["sim-tcp", "sim-unix", "sim-ws"]), run, quick=1200, thorough=25000, rule="A case is non-trivial if some client received a message."),
  Sub("sockets", lambda: cases(["tcp", "unix", "ws"]), run, quick=150, thorough=3000, hang_s=40, rule="A case is non-trivial if some client received a message."),
]
