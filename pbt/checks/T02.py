from ..system import *
from ..core import Sub, Violation
from ..vloop import vrun
from streamtasks.client.discovery import register_topic_space, get_topic_space_translation, delete_topic_space
from streamtasks.net.messages import TopicControlData, TopicControlMessage, TopicDataMessage
import asyncio, itertools

TECHNIQUE = "property-based testing (Hypothesis): generated task placements over hosts and topic spaces and generated traffic, against a model keyed by (space, topic id)"
NOTE = "Random search with shrinking in virtual time, with the real discovery service, task manager and task hosts on random networks."

class PortTask(ScriptTask):
  """Offers and receives the topics of its configuration until it is cancelled."""
  async def setup(self):
    self.outs = {i: self.client.out_topic(i) for i in self.config["outs"]}
    self.ins = {i: self.client.in_topic(i) for i in self.config["ins"]}
    self.got = []
    return await super().setup()
  async def work(self):
    async with contextlib.AsyncExitStack() as stack:
      for t in [*self.outs.values(), *self.ins.values()]:
        await stack.enter_async_context(t)
        await stack.enter_async_context(t.RegisterContext())
      await asyncio.gather(asyncio.Future(), *(self.read(i, t) for i, t in self.ins.items()))
  async def read(self, i, topic):
    while True:
      d = await topic.recv_data_control()
      self.got.append((i, d.paused if isinstance(d, TopicControlData) else d.data))

class PortHost(ScriptHost): task_type = PortTask

IDS = [2001, 2002, 2003, 70000]
ROLES = [[], [2001], [2002], [2001, 2002], [70000, 2003]]
def cases():
  ids = st.lists(st.sampled_from(IDS), unique=True, max_size=3)
  space = st.sampled_from([None, 0, 0, 1])
  op = st.one_of(
    st.tuples(st.just("start"), st.integers(0, 2), space, ids, ids), st.tuples(st.just("start"), st.integers(0, 2), space, ids, ids),
    st.tuples(st.just("twin"), st.integers(0, 5), st.integers(0, 2), space),
    *[st.tuples(st.just("send"), st.integers(0, 5), st.integers(0, 3), st.integers(1, 3))] * 5, st.tuples(st.just("pause"), st.integers(0, 5), st.integers(0, 3)),
    st.tuples(st.just("outside"), st.integers(0, 5), st.integers(0, 3)),
    st.tuples(st.just("cancel"), st.integers(0, 5)), st.tuples(st.just("delete"), st.integers(0, 1)),
  ).map(list)
  return st.fixed_dictionaries({"net": net_strategy(n_clients=(2, 3)), "hosts": st.integers(1, 3),
    "spaces": st.lists(st.one_of(st.just(IDS), st.lists(st.sampled_from(IDS), unique=True, min_size=1, max_size=4).map(sorted)), min_size=2, max_size=2),
    # two roles, started in several spaces, then anything
    "starts": st.lists(st.tuples(st.just("start"), st.integers(0, 2), space, st.sampled_from(ROLES), st.sampled_from(ROLES)).map(list), min_size=2, max_size=6),
    "ops": st.lists(op, min_size=5, max_size=14)})

def run(case, ctx):
  async def main():
    S = await System().start_system(case["net"], case["hosts"], host_base=PortHost)
    for h in S.hosts: await h.register()
    await settle(10)
    obs, tmc = S.clients[-1], S.tmc[0]
    spaces, maps = [], []
    for ids in case["spaces"]:
      sid, m = await register_topic_space(S.clients[0], set(ids))
      spaces.append(sid); maps.append(m)
    deleted = set()
    def ext(space, i): return i if space is None else maps[space].get(i, i)
    # an outside client that sees the real ids
    seen, watch = [], sorted({*IDS, *(v for m in maps for v in m.values())})
    offered = {}
    async def observe(i):
      t = obs.in_topic(i)
      async with t, t.RegisterContext():
        while True:
          d = await t.recv_data_control()
          seen.append((i, d.paused if isinstance(d, TopicControlData) else d.data))
    for i in watch: asyncio.create_task(observe(i))
    await settle(20)
    tasks, numbers = [], itertools.count()
    want_seen = []
    serial = 0
    paused = {}
    async def start(h, space, outs, ins):
      h %= len(S.hosts)
      # a topic has one provider at a time
      outs = [o for o in outs if not any(t["live"] and ext(t["space"], p) == ext(space, o) for t in tasks for p in t["outs"])]
      # a client does not hear its own topics, and one in and out topic of one task is no use
      ins = [i for i in ins if ext(space, i) not in [ext(space, o) for o in outs]]
      n = next(numbers)
      inst = await asyncio.wait_for(tmc.schedule_start_task(S.hosts[h].id, {"n": n, "outs": outs, "ins": ins}, None if space is None else spaces[space]), 1000)
      if space in deleted:
        if inst.status is not TaskStatus.failed or not inst.error: raise Violation(f"a task was started in a deleted space: {inst}")
        ctx.label("deleted space")
        return
      if inst.status is not TaskStatus.running: raise Violation(f"task {n} was not started: {inst.error}")
      if inst.topic_space_id != (None if space is None else spaces[space]): raise Violation(f"task {n} in space {space} is reported as {inst}")
      await settle(30)
      task = next(t for t in S.hosts[h].created if t.n == n)
      # the pause state of each topic reaches the new one; what it was before is not compared
      task.got.clear(); seen.clear(); want_seen.clear()
      for t in tasks:
        if t["live"]: t["task"].got.clear(); t["want"].clear()
      tasks.append(dict(task=task, id=inst.id, space=space, outs=outs, ins=ins, live=True, want=[], host=h))
    def expect(src, topic, data):
      for t in tasks:
        if t is src or not t["live"]: continue
        for i in t["ins"]:
          if ext(t["space"], i) == topic: t["want"].append((i, data)); ctx.hit(src is not None and src["space"] is not None)
      if src is not None: want_seen.append((topic, data))
    async def check():
      await settle(30)
      for n, t in enumerate(tasks):
        if not t["live"]: continue
        if sorted(map(repr, t["task"].got)) != sorted(map(repr, t["want"])):
          raise Violation(f"task {n} in space {t['space']} with inputs {t['ins']} received {t['task'].got} instead of {t['want']}")
        for i in t["ins"]:
          for src in range(-1, len(tasks)):
            a, b = ([d for j, d in l if j == i and isinstance(d, list) and d[0] == src] for l in (t["task"].got, t["want"]))
            if a != b: raise Violation(f"task {n} received {a} instead of {b}")
        t["task"].got.clear(); t["want"].clear()
      if sorted(map(repr, seen)) != sorted(map(repr, want_seen)): raise Violation(f"outside, {seen} was seen instead of {want_seen}")
      seen.clear(); want_seen.clear()
    for op, *a in case["starts"] + case["ops"]:
      ctx.trace(op, *a)
      if op == "start": await start(*a)
      elif op == "twin" and tasks:
        t = tasks[a[0] % len(tasks)]
        await start(a[1], a[2], t["outs"], t["ins"])
        ctx.label("same configuration again")
      elif op in ("send", "pause", "cancel") and tasks:
        t = tasks[a[0] % len(tasks)]
        if not t["live"]: continue
        if op == "cancel":
          await check()
          await asyncio.wait_for(tmc.cancel_task(t["id"]), 1000)
          t["live"] = False
          await settle(30)
          for u in tasks:
            if u["live"]: u["task"].got.clear(); u["want"].clear()
          seen.clear(); want_seen.clear()
          continue
        ports = [(u, o) for u in tasks if u["live"] for o in u["outs"]]
        heard = [(u, o) for u, o in ports if any(v["live"] and ext(v["space"], i) == ext(u["space"], o) for v in tasks for i in v["ins"])]
        if a[1] % 4: ports = heard or ports
        if not ports: continue
        t, i = ports[a[0] % len(ports)]
        out = t["task"].outs[i]
        if op == "pause":
          await out.set_paused(not out.is_paused)
          await settle(30)
          for u in tasks:
            if u["live"] and u is not t:
              for j in u["ins"]:
                if ext(u["space"], j) == ext(t["space"], i):
                  if u["task"].ins[j].is_paused != out.is_paused: raise Violation(f"topic {i} in space {t['space']} is paused: {out.is_paused}, but its receiver in space {u['space']} sees {u['task'].ins[j].is_paused}")
                  ctx.label("pause")
                elif any(type(d) is bool and k == j for k, d in u["task"].got): raise Violation(f"a task in space {u['space']} was told about the pause of {i} in space {t['space']}")
          for u in tasks:
            if u["live"]: u["task"].got[:] = [x for x in u["task"].got if type(x[1]) is not bool]
          seen[:] = [x for x in seen if type(x[1]) is not bool]
          continue
        for _ in range(a[2]):
          serial += 1
          data = [tasks.index(t), serial, i]
          if out.is_paused: await out.set_paused(False)
          expect(t, ext(t["space"], i), data)
          await out.send(RawData(data))
      elif op == "outside" and tasks:
        # somebody who knows the real id of a topic in a space reaches the tasks in it
        t = tasks[a[0] % len(tasks)]
        if not t["live"] or not t["ins"]: continue
        i = t["ins"][a[1] % len(t["ins"])]
        topic = ext(t["space"], i)
        if any(u["live"] and topic == ext(u["space"], o) for u in tasks for o in u["outs"]): continue
        if t["space"] is not None and t["space"] not in deleted and i in maps[t["space"]]:
          if await get_topic_space_translation(obs, spaces[t["space"]], i) != topic: raise Violation("the translation changed")
        c = S.clients[0]
        await check()
        await c.register_out_topics([topic])
        await settle(30)
        await c.send_stream_control(topic, TopicControlData(False))
        await settle(30)
        for u in tasks:
          if u["live"]: u["task"].got.clear()
        seen.clear()
        serial += 1
        expect(None, topic, [-1, serial, topic])
        want_seen.append((topic, [-1, serial, topic]))
        await c.send_stream_data(topic, RawData([-1, serial, topic]))
        await check()
        await c.unregister_out_topics([topic])
        await settle(30)
        for u in tasks:
          if u["live"]: u["task"].got.clear()
        seen.clear()
        ctx.label("outside")
      elif op == "delete" and a[0] not in deleted:
        await delete_topic_space(S.clients[0], spaces[a[0]])
        deleted.add(a[0])
      # pausing is announced along with other changes; unpausing before a send is visible as well
      await settle(30)
      for u in tasks:
        if u["live"]: u["task"].got[:] = [x for x in u["task"].got if type(x[1]) is not bool]
      seen[:] = [x for x in seen if type(x[1]) is not bool]
      await check()
  with quiet(): vrun(main)

SUBS = [Sub("placements", cases, run, quick=500, thorough=12000, rule="A case is non-trivial if a task running in a space sent something that some other task had to receive.")]
