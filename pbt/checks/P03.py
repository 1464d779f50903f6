from ..simple import *
from ..core import Sub, Violation
from ..vloop import vrun
from streamtasks.client.broadcast import BroadcastingServer, BroadcastReceiver
from streamtasks.services.discovery import DiscoveryWorker
import asyncio

TECHNIQUE = "property-based testing (Hypothesis): generated histories of broadcasts and joining/leaving receivers on random networks against a delivery oracle"
NOTE = "Random search with shrinking in virtual time; with the real discovery service."

NS = ["/a", "/a/b", "x", ""]
def cases():
  ep = st.integers(0, 3)
  op = st.one_of(
    st.tuples(st.just("join"), ep, st.integers(0, 2), st.lists(st.sampled_from(NS), max_size=3)),
    st.tuples(st.just("join"), ep, st.integers(0, 2), st.lists(st.sampled_from(NS), min_size=1, max_size=3)),
    st.tuples(st.just("leave"), st.integers(0, 4)),
    st.tuples(st.just("cast"), st.integers(0, 2), st.sampled_from(NS), st.integers(1, 3)), st.tuples(st.just("cast"), st.integers(0, 2), st.sampled_from(NS), st.integers(1, 3)),
    st.tuples(st.just("joins"), ep, st.integers(0, 2), st.sampled_from(NS)),
  ).map(list)
  return st.fixed_dictionaries({"net": net_strategy(n_clients=(2, 4)), "servers": st.lists(st.tuples(ep, st.sampled_from([0, 0, 55])).map(list), min_size=1, max_size=3), "ops": st.lists(op, min_size=3, max_size=14)})

def run(case, ctx):
  async def main():
    net = await Net().start(case["net"])
    cs = net.clients
    disc = DiscoveryWorker()
    await net.switches[0].add_link(await disc.create_link())
    dtask = asyncio.create_task(disc.run())
    await settle(5)
    servers = {}
    for e, port in case["servers"]:
      key = (e % len(cs), port)
      if key in servers: continue
      s = BroadcastingServer(cs[key[0]]) if port == 0 else BroadcastingServer(cs[key[0]], port)
      servers[key] = (s, asyncio.create_task(s.run()))
    await settle(5)
    keys = list(servers)
    recs, serial = [], 0
    async def join(e, skey, namespaces):
      # a client does not hear its own topics: put the receiver on another client
      if e == skey[0]: e = (e + 1) % len(cs)
      ep = 1000 + skey[0] if not skey[1] else (1000 + skey[0], skey[1])
      r = BroadcastReceiver(cs[e], namespaces, ep)
      rec = dict(r=r, key=skey, ns=set(namespaces), want=[], got=[], live=True)
      await asyncio.wait_for(r.start_recv(), 500)
      async def reader():
        while True:
          ns, data = await r.get()
          rec["got"].append((ns, data.data))
      rec["task"] = asyncio.create_task(reader())
      recs.append(rec)
    for op, *a in case["ops"]:
      ctx.trace(op, *a)
      if op == "join": await join(a[0] % len(cs), keys[a[1] % len(keys)], a[2])
      elif op == "joins":
        # everybody asks for the same namespaces at the same time
        key = keys[a[1] % len(keys)]
        await asyncio.gather(*(join(e, key, [a[2], "shared"]) for e in range(len(cs)) if e != key[0]))
        ctx.label("concurrent joins")
      elif op == "leave":
        live = [r for r in recs if r["live"]]
        if not live: continue
        r = live[a[0] % len(live)]
        await settle(50)
        await r["r"].stop_recv()
        r["live"] = False
      else:
        await settle(50)
        key = keys[a[0] % len(keys)]
        for _ in range(a[2]):
          serial += 1
          v = {"n": serial, "ns": a[1]}
          await servers[key][0].broadcast(a[1], RawData(v))
          for r in recs:
            if r["live"] and r["key"] == key and a[1] in r["ns"]: r["want"].append((a[1], v)); ctx.hit()
      await settle(50)
      for i, r in enumerate(recs):
        if r["got"] != r["want"]: raise Violation(f"receiver {i} ({sorted(r['ns'])} of server {r['key']}) got {r['got']} instead of {r['want']}")
    for key, (s, t) in servers.items():
      if t.done(): raise Violation(f"server {key} ended: {t.exception()!r}")
  vrun(main)

SUBS = [Sub("broadcasts", cases, run, quick=1500, thorough=30000, rule="A case is non-trivial if some receiver had to receive a broadcast.")]
