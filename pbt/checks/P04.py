from ..simple import *
from ..core import Sub, Violation
from ..vloop import vrun
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.services.constants import NetworkAddresses, NetworkTopics
from streamtasks.client.discovery import request_addresses, register_topic_space, delete_topic_space, wait_for_topic_signal
import asyncio

TECHNIQUE = "property-based testing (Hypothesis): generated schedules of concurrent id requests on random networks against a uniqueness and count oracle"
NOTE = "Random search with shrinking in virtual time; the service may start late, clients wait for its signal as applications do."

def cases():
  ep = st.integers(0, 4)
  op = st.one_of(
    st.tuples(st.just("addresses"), ep, st.sampled_from([1, 1, 2, 3, 7, 0])),
    st.tuples(st.just("own"), ep),
    st.tuples(st.just("topics"), ep, st.sampled_from([1, 2, 3, 5, 0, 30]), st.booleans()),
    st.tuples(st.just("space"), ep, st.sets(st.integers(0, 200), max_size=6).map(sorted)),
    st.tuples(st.just("forget"), ep, st.integers(0, 3)),
    st.tuples(st.just("wait"), st.sampled_from([0.5, 1, 3, 20])),
  ).map(list)
  return st.fixed_dictionaries({
    "net": net_strategy(n_clients=(2, 5)), "late": st.sampled_from([0, 0, 0.3, 7]),
    "addressless": st.lists(st.booleans(), min_size=5, max_size=5),
    "ops": st.lists(op, min_size=3, max_size=14)})

def run(case, ctx):
  async def main():
    net = await Net().start(case["net"], addresses=False)
    cs = net.clients
    for i, c in enumerate(cs):
      if not case["addressless"][i]: await c.set_address(1000 + i)
    disc = DiscoveryWorker()
    await net.switches[0].add_link(await disc.create_link())
    async def serve():
      await asyncio.sleep(case["late"])
      await disc.run()
    dtask = asyncio.create_task(serve())
    ready = [asyncio.create_task(wait_for_topic_signal(c, NetworkTopics.DISCOVERY_SIGNAL)) for c in cs]
    addresses, topics, tasks = [], [], []
    applied = {}
    own = set()
    spaces = []
    async def do(op, a):
      i = a[0] % len(cs)
      c = cs[i]
      await ready[i]
      if op == "own":
        if c.address is not None or i in own: return
        own.add(i)
        got = [await c.request_address()]
        if c.address != got[0]: raise Violation(f"a client that was given the address {got[0]} uses {c.address}")
        addresses.extend(got)
      elif op == "addresses":
        if c.address is None: ctx.label("addressless request")
        got = list(await request_addresses(c, a[1]))
        if len(got) != a[1]: raise Violation(f"{len(got)} addresses instead of {a[1]}")
        addresses.extend(got)
      else:
        if c.address is None: return   # needs a local address by contract
        if op == "forget":
          if not spaces: return
          await delete_topic_space(c, spaces.pop(-1 - a[1] % len(spaces)))
          ctx.label("space deleted")
          return
        if op == "topics":
          got = list(await c.request_topic_ids(a[1], apply=a[2]))
          if len(got) != a[1]: raise Violation(f"{len(got)} topics instead of {a[1]}")
          if a[2]: applied.setdefault(i, []).extend(got)
        else:
          sid, m = await register_topic_space(c, set(a[1]))
          if set(m) != set(a[1]): raise Violation(f"space for {a[1]} maps {sorted(m)}")
          got = list(m.values())
          spaces.append(sid)
        topics.extend(got)
    for op, *a in case["ops"]:
      ctx.trace(op, *a)
      if op == "wait": await asyncio.sleep(a[0])
      else: tasks.append(asyncio.create_task(do(op, a)))
    _, pending = await asyncio.wait(tasks, timeout=1000) if tasks else ((), ())
    if pending: raise Violation(f"{len(pending)} requests are never answered")
    for t in tasks: await t
    if dtask.done(): raise Violation(f"the discovery service ended: {dtask.exception()!r}")
    for what, ids, first in (("address", addresses, NetworkAddresses.COUNTER_INIT), ("topic id", topics, NetworkTopics.COUNTER_INIT)):
      if len(set(ids)) != len(ids): raise Violation(f"{what} handed out twice: {sorted(ids)}")
      if ids and min(ids) < first: raise Violation(f"reserved {what} handed out: {min(ids)}")
    ctx.hit(len(addresses) + len(topics) > 1 and len(tasks) > 1)
    # an applied topic is really provided by the client that asked for it
    for i, ids in applied.items():
      if not ids: continue
      j = (i + 1) % len(cs)
      rec = Recorder(cs[j])
      await cs[j].enable_receiver(rec)
      await cs[j].register_in_topics(ids)
      await settle(60)
      for t in ids: await cs[i].send_stream_data(t, RawData(t))
      await settle(60)
      got = [m.topic for m in rec.messages if isinstance(m, TopicDataMessage) and m.topic in ids]
      if got != list(ids): raise Violation(f"topics {ids} requested with apply by client {i} delivered only {got}")
      ctx.label("applied topics")
      await cs[j].disable_receiver(rec)
  vrun(main)

SUBS = [Sub("ids", cases, run, quick=1500, thorough=30000, rule="A case is non-trivial if at least two concurrent requests were answered with ids.")]
