from ..system import *
from ..core import Sub, Violation
from ..vloop import vrun
from streamtasks.client.fetch import FetchError, FetchErrorStatusCode
from streamtasks.system.task import TaskNotFoundError
from uuid import uuid4
import asyncio

TECHNIQUE = "property-based testing (Hypothesis): generated histories of hosts and tasks starting, ending, failing, being cancelled and leaving, against a model of the task manager's view"
NOTE = "Random search with shrinking in virtual time, with the real discovery service, task manager and task hosts on random networks; hosts leave gracefully."

def cases():
  h, c, k = st.integers(0, 2), st.integers(0, 2), st.integers(0, 7)
  cfg = st.fixed_dictionaries({
    "dur": st.sampled_from([None, None, None, 0, 0.5, 30, 100, -1]), "fail": st.sampled_from([None, None, "boom", "ä", ""]),
    "cleanup": st.sampled_from([0, 0, 0.4, 3]), "setup_delay": st.sampled_from([0, 0, 0, 0.3, 5]),
    "setup_fail": st.sampled_from([None, None, None, "no setup"]), "create_fail": st.sampled_from([None, None, None, None, "no task"]),
    "metadata": st.dictionaries(st.text(max_size=4), st.one_of(st.booleans(), st.integers(-2**40, 2**40), st.text(max_size=4)), max_size=2),
    "x": msgpack_value(4)})
  op = st.one_of(
    st.tuples(st.just("register"), h), st.tuples(st.just("register"), h), st.tuples(st.just("unregister"), h), st.tuples(st.just("leave"), h),
    st.tuples(st.just("start"), c, h, cfg), st.tuples(st.just("start"), c, h, cfg), st.tuples(st.just("start"), c, h, cfg), st.tuples(st.just("start"), c, h, cfg),
    st.tuples(st.just("schedule"), c, h),
    st.tuples(st.just("again"), c, k),
    st.tuples(st.just("cancel"), c, k, st.booleans()), st.tuples(st.just("cancel"), c, k, st.booleans()),
    st.tuples(st.just("unknown"), c),
  ).map(list)
  return st.fixed_dictionaries({"net": net_strategy(n_clients=(1, 3)), "hosts": st.integers(1, 3), "pre": st.sampled_from([[], [0], [0, 1, 2], [0, 1, 2], [0, 1, 2]]),
    "ops": st.lists(st.tuples(op, st.sampled_from([60, 60, 60, 5, 0])).map(list), min_size=4, max_size=16)})

def run(case, ctx):
  async def main():
    S = await System().start_system(case["net"], case["hosts"])
    cs = S.tmc
    await settle(20)
    hr, hu = cs[0].task_host_registered_receiver(), cs[0].task_host_unregistered_receiver()
    reg_seen, unreg_seen = [], []
    async def read(r, out):
      while True:
        d = await r.get()
        out.append(d[1] if isinstance(d, tuple) else d)
    for r, out in ((hr, reg_seen), (hu, unreg_seen)):
      await r.start_recv()
      asyncio.create_task(read(r, out))
    registered, left = set(), set()
    want_reg, want_unreg = [], []
    tasks = []   # model of every task
    def gone(hid):
      for t in tasks:
        if t["host"] == hid and t["state"] in ("scheduled", "running"): t.update(state="final", status=TaskStatus.stopped, error=None, reported=True)
    async def new_task(c, h, cfg):
      n = len(tasks)
      inst = await cs[c].schedule_task(S.hosts[h].id)
      if inst.host_id != S.hosts[h].id or inst.status is not TaskStatus.scheduled: raise Violation(f"scheduled task: {inst}")
      r = cs[(c + 1) % len(cs)].task_receiver([inst.id])
      t = dict(id=inst.id, n=n, host=h, cfg=dict(cfg or {}, n=n), state="scheduled", status=None, error=None, reported=False, seen=[], meta={})
      await r.start_recv()
      asyncio.create_task(read(r, t["seen"]))
      await settle(20)                # the subscription has arrived
      tasks.append(t)
      return t
    async def start(c, t):
      cfg, n = t["cfg"], t["n"]
      expect_error = cfg.get("create_fail") if cfg.get("create_fail") is not None else "" if cfg.get("setup_delay", 0) > 1 else cfg.get("setup_fail")
      try: inst = await cs[c].start_task(t["id"], cfg)
      except FetchError as e:
        if t["host"] in registered: raise Violation(f"start failed: {e}")
        ctx.label("start without host")
        return
      if t["host"] not in registered: raise Violation("a task of an unregistered host was started")
      if expect_error is not None:
        if inst.status is not TaskStatus.failed or inst.error is None or expect_error not in inst.error: raise Violation(f"the start fails with {expect_error!r} but is reported as {inst}")
        t.update(state="final", status=TaskStatus.failed, reported=None)
        ctx.label("failed start")
        return
      if inst.id != t["id"] or inst.error is not None or inst.status is TaskStatus.failed and cfg.get("dur") is None: raise Violation(f"started task: {inst}")
      if inst.metadata != cfg["metadata"]: raise Violation(f"metadata {inst.metadata} instead of {cfg['metadata']}")
      t.update(state="running", meta=cfg["metadata"], began=asyncio.get_running_loop().time())
      ctx.hit()
    def elapse():
      now = asyncio.get_running_loop().time()
      for t in tasks:
        if t["state"] == "running" and t["cfg"].get("dur") is not None and now - t["began"] > t["cfg"]["dur"] + 20:
          f = t["cfg"].get("fail")
          t.update(state="final", status=TaskStatus.ended if f is None else TaskStatus.failed, error=f, reported=True)
    async def calm():
      # no task is about to end, or may have just ended, by itself
      now = asyncio.get_running_loop().time
      def due(t):
        d = t["state"] == "running" and t["cfg"].get("dur")
        return d is not False and d is not None and -5 <= now() - t["began"] - d <= 21
      while any(due(t) for t in tasks): await asyncio.sleep(2)
      elapse()
    async def check():
      await settle(40)
      await calm()
      for i, c in enumerate(cs):
        got = sorted(h.id for h in await c.list_task_hosts())
        want = sorted(S.hosts[h].id for h in registered)
        if got != want: raise Violation(f"hosts listed: {got}, registered: {want}")
        for h, host in enumerate(S.hosts):
          try: reg = await c.get_task_host(host.id)
          except FetchError as e:
            if h in registered: raise Violation(f"registered host {h} is not known: {e}")
            if e.status_code != FetchErrorStatusCode.NOT_FOUND: raise Violation(f"unknown host: {e}")
          else:
            if h not in registered: raise Violation(f"unregistered host {h} is known")
            if reg.address != host.client.address or any(reg.metadata.get(k) != v for k, v in host.metadata.items()): raise Violation(f"host {h} is known as {reg}")
      for t in tasks:
        try: inst = await cs[0].get_task(t["id"])
        except FetchError as e:
          if t["state"] != "final": raise Violation(f"task {t['n']} ({t['state']}) is not known: {e}")
          if e.status_code != FetchErrorStatusCode.NOT_FOUND: raise Violation(f"unknown task: {e}")
        else:
          if t["state"] == "final": raise Violation(f"task {t['n']}, which is {t['status']}, is still known as {inst}")
          if inst.status.value != t["state"] or inst.metadata != t["meta"] or inst.host_id != S.hosts[t["host"]].id: raise Violation(f"task {t['n']} ({t['state']}) is known as {inst}")
        finals = [(i.status, i.error) for i in t["seen"] if not i.status.is_active]
        if t["state"] != "final" and finals: raise Violation(f"task {t['n']} is {t['state']} but reported as {finals}")
        if t["reported"] and finals != [(t["status"], t["error"])]: raise Violation(f"task {t['n']} ended as {(t['status'], t['error'])} but subscribers saw {finals}")
        if t["reported"] is None and len(finals) > 1: raise Violation(f"task {t['n']}: {finals}")
        seen = S.hosts[t["host"]].seen(t["n"])
        if t["state"] == "running" and seen != ["setup", "run"]: raise Violation(f"task {t['n']} is running but {seen}")
        if t["reported"] is None and "run" in seen: raise Violation(f"task {t['n']} runs although its start failed")
        if seen.count("run") > 1: raise Violation(f"task {t['n']} was run twice")
        if t["state"] == "final" and "run" in seen and "end" not in seen and not t.get("detached"): raise Violation(f"task {t['n']} is {t['status']} but still running")
        for m, what, data in S.hosts[t["host"]].events:
          if m == t["n"] and what == "setup" and data != t["cfg"]: raise Violation(f"task {t['n']} was configured with {data} instead of {t['cfg']}")
      for name, seen, want in (("registrations", reg_seen, want_reg), ("unregistrations", unreg_seen, want_unreg)):
        # a host may announce the same thing again
        got, want = ([x for i, x in enumerate(l) if i == 0 or l[i-1] != x] for l in ([x.id for x in seen], want))
        if got != want: raise Violation(f"{name} announced: {got}, happened: {want}")
      for w, task in S.run_tasks:
        if task.done() and w not in [S.hosts[h] for h in left]: raise Violation(f"{type(w).__name__} ended: {task}")
    for (op, *a), pause in [[["register", h], 0] for h in case["pre"]] + case["ops"]:
      ctx.trace(op, *a, pause)
      elapse()
      if op in ("register", "unregister", "leave"):
        h = a[0] % len(S.hosts)
        if h in left: continue
        if op == "register":
          await asyncio.wait_for(S.hosts[h].register(), 1000)
          registered.add(h)
          want_reg.append(S.hosts[h].id)
          await settle(20)
        elif op == "unregister":
          await settle(20); await calm()
          await asyncio.wait_for(S.hosts[h].unregister(), 1000)
          want_unreg.append(S.hosts[h].id)
          for t in tasks:
            if t["host"] == h and t["state"] == "running": t["detached"] = True; ctx.label("unregistered with running tasks")
          registered.discard(h)
          gone(h)
          await settle(20)
        else:
          await settle(20); await calm()
          was = h in registered
          if any(t["host"] == h and t["state"] == "running" for t in tasks): ctx.label("host left with running tasks")
          S.host_tasks[h].cancel()
          await asyncio.wait([S.host_tasks[h]], timeout=100)
          if not S.host_tasks[h].done(): raise Violation("a cancelled host does not end")
          if not S.host_tasks[h].cancelled(): raise Violation(f"the host ended with {S.host_tasks[h].exception()!r}")
          left.add(h)
          registered.discard(h)
          if was: want_unreg.append(S.hosts[h].id); gone(h)
          for t in tasks:
            if t["host"] == h: t["detached"] = False
          await settle(20)
      elif op == "start":
        c, h = a[0] % len(cs), a[1] % len(S.hosts)
        if h in left and h in registered: continue
        t = await new_task(c, h, a[2])
        if h not in registered: await start(c, t); continue
        await asyncio.wait_for(start(c, t), 1000)
      elif op == "schedule": await new_task(a[0] % len(cs), a[1] % len(S.hosts), None)
      elif op == "again" and tasks:
        # a task that was started before cannot be started a second time
        t = tasks[a[1] % len(tasks)]
        if t["state"] == "scheduled": continue
        try: await asyncio.wait_for(cs[a[0] % len(cs)].start_task(t["id"], t["cfg"]), 1000)
        except FetchError: ctx.label("second start refused")
        else: raise Violation(f"task {t['n']} was started twice")
      elif op == "cancel" and tasks:
        t = tasks[a[1] % len(tasks)]
        c = cs[a[0] % len(cs)]
        await settle(5); await calm()
        was = t["state"]
        try:
          if a[2]:
            inst = await asyncio.wait_for(c.cancel_task_wait(t["id"]), 1000)
            if inst.status is not TaskStatus.stopped: raise Violation(f"a cancelled task is {inst}")
          else: await asyncio.wait_for(c.cancel_task(t["id"]), 1000)
        except (FetchError, TaskNotFoundError) as e:
          if t["state"] != "final": raise Violation(f"cancelling task {t['n']} ({t['state']}) failed: {e!r}")
        else:
          if t["state"] == "final": raise Violation(f"task {t['n']} ({t['status']}) was cancelled again")
          t.update(state="final", status=TaskStatus.stopped, error=None, reported=True)
          ctx.label("cancelled")
          await settle(20)
          if was == "running" and "cancelled" not in S.hosts[t["host"]].seen(t["n"]): raise Violation(f"the cancelled task {t['n']} was not stopped")
      elif op == "unknown":
        c = cs[a[0] % len(cs)]
        for f in (lambda: c.get_task(uuid4()), lambda: c.start_task(uuid4(), {}), lambda: c.cancel_task(uuid4()), lambda: c.get_task_host("nobody")):
          try: await asyncio.wait_for(f(), 1000)
          except FetchError as e:
            if e.status_code != FetchErrorStatusCode.NOT_FOUND: raise Violation(f"unknown id: {e}")
          else: raise Violation("an unknown id was accepted")
      await asyncio.sleep(pause)
      if pause == 60: await check()
    await check()
  with quiet(): vrun(main)

SUBS = [Sub("histories", cases, run, quick=700, thorough=15000, rule="A case is non-trivial if some task was running.")]
