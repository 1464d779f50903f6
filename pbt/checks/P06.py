from ..simple import *
from ..core import Sub, Violation
from ..vloop import vrun
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.services.constants import NetworkTopics
from streamtasks.client.discovery import register_topic_space, get_topic_space, get_topic_space_translation, delete_topic_space, DiscoveryConstants
from streamtasks.client.fetch import FetchError
import asyncio

TECHNIQUE = "property-based testing (Hypothesis): generated concurrent histories of registering, looking up and deleting topic spaces against a map model"
NOTE = "Random search with shrinking in virtual time, with the real discovery service on random networks."

def cases():
  ep = st.integers(0, 3)
  ids = st.one_of(st.sets(st.integers(0, 12), max_size=6), st.sets(st.one_of(st.integers(0, 2**63), st.integers(100000, 100040)), max_size=5), st.sets(st.integers(0, 5000), min_size=20, max_size=60)).map(sorted)
  op = st.one_of(
    st.tuples(st.just("register"), ep, ids), st.tuples(st.just("register"), ep, ids),
    st.tuples(st.just("topics"), ep, st.integers(1, 9)),
    st.tuples(st.just("get"), ep, st.integers(0, 6)), st.tuples(st.just("get"), ep, st.integers(0, 6)),
    st.tuples(st.just("translate"), ep, st.integers(0, 6), st.integers(0, 30), st.booleans()),
    st.tuples(st.just("translate"), ep, st.integers(0, 6), st.integers(0, 30), st.just(True)),
    st.tuples(st.just("delete"), ep, st.integers(0, 6)),
    st.tuples(st.just("malformed"), ep, st.sampled_from([None, "x", {"id": "x"}, {"topic_ids": [1, "a"]}, {"topic_space_id": 1}])),
  ).map(list)
  return st.fixed_dictionaries({"net": net_strategy(n_clients=(1, 4)), "batches": st.lists(st.lists(op, min_size=1, max_size=5), min_size=2, max_size=9)})

def run(case, ctx):
  async def main():
    net = await Net().start(case["net"])
    cs = net.clients
    disc = DiscoveryWorker()
    await net.switches[0].add_link(await disc.create_link())
    dtask = asyncio.create_task(disc.run())
    await settle(30)
    spaces, order, handed, tasks = {}, [], [], []
    deleting = {}
    def account(new):
      for t in new:
        if t in handed: raise Violation(f"the id {t} was handed out twice")
        if t < NetworkTopics.COUNTER_INIT: raise Violation(f"the reserved id {t} was handed out")
        handed.append(t)
    async def do(op, a):
      c = cs[a[0] % len(cs)]
      if op == "register":
        sid, m = await register_topic_space(c, set(a[1]))
        if sid in order: raise Violation(f"the space id {sid} was given twice")
        if set(m) != set(a[1]): raise Violation(f"a space for {a[1]} maps {sorted(m)}")
        account(m.values())
        spaces[sid] = m
        order.append(sid)
      elif op == "topics": account(await c.request_topic_ids(a[1]))
      elif op == "malformed":
        for d in (DiscoveryConstants.FD_REGISTER_TOPIC_SPACE, DiscoveryConstants.FD_GET_TOPIC_SPACE, DiscoveryConstants.FD_GET_TOPIC_SPACE_TRANSLATION, DiscoveryConstants.FD_DELETE_TOPIC_SPACE):
          try: got = await c.fetch(0, d, a[1])
          except FetchError: pass
          else: raise Violation(f"{d} with {a[1]} answered {got}")
      else:
        sid = order[a[1] % len(order)] if order and a[1] < 6 else 1000 + a[1]
        # what an operation sees is decided somewhere between now and its completion
        before, dels = sid in spaces, deleting.get(sid, 0)
        if op == "delete": deleting[sid] = deleting.get(sid, 0) + 1
        try:
          if op == "get": got, want = await get_topic_space(c, sid), lambda: spaces_all[sid]
          elif op == "translate":
            keys = sorted(spaces_all.get(sid, {}))
            key = keys[a[2] % len(keys)] if keys and a[3] else 777777
            got, want = await get_topic_space_translation(c, sid, key), lambda: spaces_all[sid][key]
          else: await delete_topic_space(c, sid); got, want = None, lambda: None
          ok = True
        except FetchError as e: ok, err = False, e
        exists_key = op != "translate" or (sid in spaces_all and key in spaces_all[sid])
        if ok:
          if not before: raise Violation(f"{op} of the unknown space {sid} answered {got}")
          if not exists_key: raise Violation(f"translation of an id that is not in the space answered {got}")
          if op == "delete":
            if sid not in spaces: raise Violation(f"the space {sid} was deleted twice")
            spaces.pop(sid)
          elif got != want(): raise Violation(f"{op} of space {sid} gave {got}, registered as {want()}")
          else: ctx.hit()
        elif before and exists_key and not deleting.get(sid, 0) - (op == "delete"): raise Violation(f"{op} of the existing space {sid} failed: {err}")
        else: ctx.label("refused " + op)
    # registered mappings, also of deleted spaces
    spaces_all = {}
    orig = spaces
    class Track(dict):
      def __setitem__(self, k, v): spaces_all[k] = v; super().__setitem__(k, v)
    spaces = Track()
    async def quiet():
      if tasks:
        _, pending = await asyncio.wait(tasks, timeout=1000)
        if pending: raise Violation("a request is never answered")
      for t in tasks: await t
      tasks.clear()
    for batch in case["batches"]:
      ctx.trace(batch)
      for op, *a in batch: tasks.append(asyncio.create_task(do(op, a)))
      await quiet()
    for i, c in enumerate(cs):
      for sid, m in spaces.items():
        got = await get_topic_space(c, sid)
        if got != m: raise Violation(f"client {i} sees space {sid} as {got}, registered as {m}")
        for k, v in list(m.items())[:4]:
          if await get_topic_space_translation(c, sid, k) != v: raise Violation(f"client {i}: translation of {k} in space {sid} is not {v}")
      for sid in spaces_all:
        if sid in spaces: continue
        try: got = await get_topic_space(c, sid)
        except FetchError: pass
        else: raise Violation(f"the deleted space {sid} is still known as {got}")
    if dtask.done(): raise Violation(f"the discovery service ended: {dtask.exception()!r}")
  vrun(main)

SUBS = [Sub("spaces", cases, run, quick=1500, thorough=30000, rule="A case is non-trivial if a registered space was looked up.")]
