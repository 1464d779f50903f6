from ..simple import *
from ..core import Sub, Violation
from ..vloop import vrun
from streamtasks.client.signal import SignalServer, send_signal
from streamtasks.services.constants import NetworkPorts
import asyncio

TECHNIQUE = "property-based testing (Hypothesis): generated signal histories on random networks against a per-sender order and count oracle"
NOTE = "Random search with shrinking in virtual time; handlers are harness code whose delays and failures are generated."

def cases():
  ep = st.integers(0, 3)
  sig = st.fixed_dictionaries({"from": ep, "to": st.integers(0, 3), "desc": st.sampled_from(["a", "a", "b", "c", "nope", ""]), "v": msgpack_value(4),
    "fail": st.sampled_from([None, None, None, "value", "base", "key"]), "d": st.sampled_from([0, 0, 0.01, 1])})
  junk = st.fixed_dictionaries({"from": ep, "to": st.integers(0, 3), "junk": st.one_of(st.sampled_from([b"\xc0", b"\xc1", b"\x92\x01"]), st.text(max_size=2), st.fixed_dictionaries({}, optional={"descriptor": st.sampled_from(["a", 5, ["a"], b"a"]), "x": st.just(1)}), st.lists(st.sampled_from(["descriptor", "a"]), max_size=3))})
  ctl = st.fixed_dictionaries({"to": st.integers(0, 3), "route": st.sampled_from(["b", "c"]), "on": st.booleans()})
  op = st.one_of(sig, sig, sig, sig, junk, ctl, st.fixed_dictionaries({"wait": st.sampled_from([0, 0.01, 30])}))
  return st.fixed_dictionaries({"net": net_strategy(), "servers": st.lists(st.tuples(ep, st.sampled_from([0, 0, 77])).map(list), min_size=1, max_size=3), "ops": st.lists(op, min_size=3, max_size=14)})

class Odd(BaseException): pass

def run(case, ctx):
  async def main():
    net = await Net().start(case["net"])
    cs = net.clients
    servers, log = {}, []
    for e, port in case["servers"]:
      key = (e % len(cs), port)
      if key in servers: continue
      s = SignalServer(cs[key[0]]) if port == 0 else SignalServer(cs[key[0]], port)
      def handler(key, desc):
        async def h(body):
          n = body["n"]
          log.append((key, desc, n, body["v"]))
          o = case["ops"][n]
          if o["d"]: await asyncio.sleep(o["d"])
          if o["fail"] == "value": raise ValueError("x")
          if o["fail"] == "key": raise KeyError()
          if o["fail"] == "base": raise Odd()
        return h
      s.add_route("a", handler(key, "a"))
      s.route("b")(handler(key, "b"))
      servers[key] = (s, asyncio.create_task(s.run()), {"a", "b"}, lambda d, key=key: handler(key, d))
    await settle()
    keys = list(servers)
    want, maybe = [], set()
    async def sender(c, items):
      for n, o in items:
        key = keys[o["to"] % len(keys)]
        port = key[1] or NetworkPorts.SIGNAL
        if "junk" in o: await c.send_to((1000 + key[0], port), RawData(o["junk"]))
        else: await send_signal(c, 1000 + key[0] if not key[1] else (1000 + key[0], port), o["desc"], {"n": n, "v": o["v"]})
    batch = []
    async def flush():
      per = {}
      for n, o in batch: per.setdefault(o["from"] % len(cs), []).append((n, o))
      await asyncio.gather(*(sender(cs[e], items) for e, items in per.items()))
      batch.clear()
    for n, o in enumerate([*case["ops"], {"wait": 30}]):
      if "wait" in o or "route" in o:
        await flush()
        if "route" in o or o["wait"] >= 1: await settle()
        else: await asyncio.sleep(o["wait"])
        if "route" in o:
          s, _, routes, mk = servers[keys[o["to"] % len(keys)]]
          if o["on"]: s.add_route(o["route"], mk(o["route"])); routes.add(o["route"])
          else: s.remove_route(o["route"]); routes.discard(o["route"])
      else:
        batch.append((n, o))
        if "desc" in o:
          key = keys[o["to"] % len(keys)]
          if o["desc"] in servers[key][2]: want.append((key, o["desc"], n, o["v"]))
        else: ctx.label("junk")
    await flush()
    await settle()
    k = lambda x: x[2]
    if sorted(log, key=k) != sorted(want, key=k): raise Violation(f"handled {sorted(log, key=k)} instead of {sorted(want, key=k)}")
    for key in keys:
      for e in range(len(cs)):
        ns = [n for kk, _, n, _ in log if kk == key and case["ops"][n]["from"] % len(cs) == e]
        if ns != sorted(ns): raise Violation(f"signals of client {e} were handled by {key} in the order {ns}")
      if servers[key][1].done(): raise Violation(f"the server {key} ended: {servers[key][1].exception()!r}")
    if any(case["ops"][n]["fail"] for _, _, n, _ in log): ctx.label("failing handler")
    ctx.hit(len(log) > 1)
  vrun(main)

SUBS = [Sub("signals", cases, run, quick=2500, thorough=50000, rule="A case is non-trivial if at least two signals were handled.")]
