from ..simple import *
from ..core import Sub, Violation
from ..vloop import vrun
from streamtasks.utils import AsyncBool, AsyncTrigger, AsyncObservable, AsyncObservableDict, AwaitableIdTracker, IdTracker, AsyncTaskManager, wait_with_dependencies, IdGenerator, context_task
import asyncio

TECHNIQUE = "property-based testing (Hypothesis): generated operation histories with concurrent waiters against reference models of each building block"
NOTE = "Random search with shrinking in virtual time."

# ------------------------------------------------ waiting for changes
def waiter_cases():
  v = st.integers(0, 2)
  op = st.one_of(
    st.tuples(st.just("wait"), v, st.integers(0, 1)), st.tuples(st.just("wait"), v, st.integers(0, 1)), st.tuples(st.just("cancel"), st.integers(0, 5)),
    st.tuples(st.just("change"), v, v), st.tuples(st.just("change"), v, v), st.tuples(st.just("change"), v, v),
    st.tuples(st.just("remove"), v, v), st.tuples(st.just("remove"), v, v),
  ).map(list)
  return st.fixed_dictionaries({"kind": st.sampled_from(["bool", "trigger", "observable", "dict", "tracker"]), "init": v, "ops": st.lists(st.tuples(op, st.booleans()).map(list), min_size=3, max_size=25)})

class Obs(AsyncObservable):
  def __init__(self, x):
    super().__init__()
    self.x0 = x

def run_waiters(case, ctx):
  async def main():
    kind, init = case["kind"], case["init"]
    obj = {"bool": lambda: AsyncBool(bool(init % 2)), "trigger": AsyncTrigger, "observable": lambda: Obs(init), "dict": lambda: AsyncObservableDict({0: init}), "tracker": AwaitableIdTracker}[kind]()
    state = {"bool": bool(init % 2), "trigger": None, "observable": {"x0": init}, "dict": {0: init}, "tracker": {}}[kind]
    waiters = []                                      # (task, what it waits for)
    due, created = set(), set()
    def fire(pred):
      for w in waiters:
        if w not in due and not w[0].done() and pred(w[1]): due.add(w)
    async def check():
      for _ in range(6): await asyncio.sleep(0)
      for i, w in enumerate(waiters):
        if w[0].cancelled(): continue
        if w in due and not w[0].done(): raise Violation(f"{kind}: waiter {i} ({w[1]}) missed a change")
        if w not in due and w[0].done(): raise Violation(f"{kind}: waiter {i} ({w[1]}) woke up without a change")
    for (op, *a), quiet in case["ops"]:
      ctx.trace(kind, op, *a)
      if op == "wait":
        if kind == "bool":
          what = bool(a[0] % 2)
          w = (asyncio.create_task(obj.wait(what)), what)
        elif kind == "trigger":
          what = None
          async def wt(f): await f
          w = (asyncio.create_task(wt(obj.wait())), what)
        elif kind == "tracker":
          what = (a[0], a[1])
          w = (asyncio.create_task(obj.wait_for_id_added(a[0]) if a[1] else obj.wait_for_id_removed(a[0])), what)
        else:
          what = None
          w = (asyncio.create_task(obj.wait_change()), what)
        waiters.append(w)
        await asyncio.sleep(0)        # it is waiting now
        if kind == "bool" and state == what: due.add(w)
      elif op == "cancel" and waiters:
        w = waiters[a[0] % len(waiters)]
        if w not in due and not w[0].done():
          w[0].cancel()
          await asyncio.sleep(0)
          await asyncio.sleep(0)
          if not w[0].cancelled(): raise Violation("a cancelled waiter is not cancelled")
          ctx.label("cancelled waiter")
      elif op in ("change", "remove"):
        live = sum(1 for w in waiters if w not in due and not w[0].done())
        if kind == "bool":
          v = bool(a[0] % 2)
          obj.set(v)
          if v != state:
            state = v
            fire(lambda what: True)
          if obj.value != state or bool(obj) != state: raise Violation(f"flag is {obj.value}, set to {state}")
        elif kind == "trigger":
          obj.trigger()
          fire(lambda what: True)
        elif kind == "observable":
          name = f"x{a[0]}"
          changed = name not in state or state[name] != a[1]
          setattr(obj, name, a[1])
          state[name] = a[1]
          if changed: fire(lambda what: True)
          if obj.as_dict() != state: raise Violation(f"observable is {obj.as_dict()}, set to {state}")
        elif kind == "dict":
          if op == "change":
            changed = a[0] not in state or state[a[0]] != a[1]
            obj[a[0]] = a[1]
            state[a[0]] = a[1]
            if changed: fire(lambda what: True)
          elif a[0] in state:
            del obj[a[0]]
            del state[a[0]]
            fire(lambda what: True)
          for k, x in state.items():
            if obj[k] != x: raise Violation(f"dict holds {obj[k]} under {k} instead of {x}")
        else:
          ids = [a[0], a[1]]
          if op == "change":
            want = set(i for i in ids if state.get(i, 0) == 0)
            got = obj.add_many(ids)
            for i in ids: state[i] = state.get(i, 0) + 1
            fire(lambda what: what[1] and what[0] in want)
          else:
            want = set()
            for i in ids:
              if state.get(i, 0) == 1: want.add(i)
              state[i] = max(0, state.get(i, 0) - 1)
            got = obj.remove_many(ids)
            fire(lambda what: not what[1] and what[0] in want)
          if set(got) != want: raise Violation(f"{op} of {ids} reported {got} instead of {want}")
          if set(obj.items()) != {i for i, n in state.items() if n}: raise Violation(f"tracker holds {set(obj.items())}, counts are {state}")
        if live: ctx.hit()
      if quiet: await check()
    await check()
    for w in waiters: w[0].cancel()
  vrun(main)

# ------------------------------------------------ task groups
def group_cases():
  # per task: priority, run time, clean-up time, cancellations it ignores, whether it fails
  t = st.tuples(st.sampled_from([0, 0, 1, 2, -1]), st.sampled_from([1, 5, 50, 1000]), st.sampled_from([0, 0, 0.3, 3]), st.sampled_from([0, 0, 0, 1, 2]), st.booleans()).map(list)
  return st.fixed_dictionaries({"tasks": st.lists(t, min_size=1, max_size=8), "late": st.lists(t, max_size=3), "at": st.sampled_from([0, 0.5, 2, 10, 60]), "timeout": st.sampled_from([0.1, 1, 5]), "frozen": st.booleans(), "how": st.sampled_from(["cancel", "cancel", "wait", "wait-cancel"])})

def run_group(case, ctx):
  async def main():
    loop = asyncio.get_running_loop()
    m = AsyncTaskManager(default_frozen=True) if case["frozen"] else AsyncTaskManager()
    log = {}
    async def job(i, spec):
      prio, dur, clean, ignore, fail = spec
      e = log[i] = {"prio": prio, "cancelled": None, "end": None}
      try:
        left = ignore
        while True:
          try:
            await asyncio.sleep(dur)
            break
          except asyncio.CancelledError:
            if e["cancelled"] is None: e["cancelled"] = loop.time()
            if left > 0: left -= 1; continue
            if clean: await asyncio.shield(asyncio.sleep(clean)) if False else await clean_up(clean)
            raise
        if fail: raise ValueError("failed")
      finally: e["end"] = loop.time()
    async def clean_up(t):
      end = loop.time() + t
      while loop.time() < end:
        try: await asyncio.sleep(end - loop.time())
        except asyncio.CancelledError: pass
    tasks = [m.create(job(i, t), t[0]) if i % 2 or t[0] else m.create(job(i, t)) for i, t in enumerate(case["tasks"])]
    await asyncio.sleep(case["at"])
    n = len(tasks)
    if case["how"] == "cancel": await m.cancel_all(timeout=case["timeout"])
    elif case["how"] == "wait":
      if any(not t.done() for t in tasks): await m.wait()
      if any(not t.done() for t in tasks): raise Violation("wait returned although tasks are running")
      if any(e["cancelled"] is not None for e in log.values()): raise Violation("wait cancelled a task")
      ctx.hit()
      return
    else:
      if all(t.done() for t in tasks): return
      w = asyncio.create_task(m.wait())
      await asyncio.sleep(0.2)
      w.cancel()
      await asyncio.wait([w])
    if any(not t.done() for t in tasks): raise Violation(f"tasks {[i for i, t in enumerate(tasks) if not t.done()]} are still running")
    timeout = case["timeout"] if case["how"] == "cancel" else 1
    cancelled = sorted((e["cancelled"], i) for i, e in log.items() if e["cancelled"] is not None)
    ctx.hit(len(cancelled) > 0)
    for at, i in cancelled:
      for j, e in log.items():
        if e["prio"] < log[i]["prio"]:
          ctx.label("priorities")
          if e["end"] > at: raise Violation(f"task {i} (priority {log[i]['prio']}) was cancelled at {at}, task {j} (priority {e['prio']}) ended at {e['end']}")
        if e["prio"] == log[i]["prio"] and e["cancelled"] is None and e["end"] > at: raise Violation(f"task {j} was not cancelled together with task {i}")
    # the group can be used again
    late = [m.create(job(n + i, t), t[0]) for i, t in enumerate(case["late"])]
    await asyncio.sleep(0.1)
    await m.cancel_all(timeout=case["timeout"])
    if any(not t.done() for t in late): raise Violation("tasks created later are still running")
  vrun(main)

# ------------------------------------------------ waiting with dependencies, tasks in a context
def deps_cases():
  d = st.tuples(st.sampled_from([0, 1, 2, 5]), st.sampled_from(["ok", "fail", "cancel"])).map(list)
  return st.fixed_dictionaries({"main": d, "deps": st.lists(d, max_size=3), "task": st.booleans(), "context": st.sampled_from([None, 0, 1, 3])})

class Err(Exception): pass
def run_deps(case, ctx):
  async def main():
    loop = asyncio.get_running_loop()
    state = {}
    async def job(name, spec):
      try:
        await asyncio.sleep(spec[0])
        if spec[1] == "fail": raise Err(name)
        if spec[1] == "cancel": raise asyncio.CancelledError()
        return name
      except asyncio.CancelledError:
        state[name] = "cancelled"
        raise
    deps = [asyncio.create_task(job(f"dep{i}", d)) for i, d in enumerate(case["deps"])]
    t, kind = case["main"]
    first = min([d[0] for d in case["deps"]], default=10**9)
    m = job("main", case["main"])
    if case["task"]: m = asyncio.create_task(m)
    t0 = loop.time()
    try: got = await wait_with_dependencies(m, deps)
    except BaseException as e: got = e
    took = loop.time() - t0
    if t < first or t == first and isinstance(got, (str, Err)):
      if kind == "ok" and got != "main": raise Violation(f"the main result is lost: {got!r}")
      if kind == "fail" and not (isinstance(got, Err) and str(got) == "main"): raise Violation(f"the error of main is lost: {got!r}")
      if kind == "cancel" and not isinstance(got, asyncio.CancelledError): raise Violation(f"main was cancelled, got {got!r}")
      ctx.label("main first")
    else:
      if not isinstance(got, BaseException): raise Violation(f"returned {got!r} although a dependency ended first")
      ctx.label("dependency first")
    if took > min(t, first): raise Violation(f"took {took} s instead of {min(t, first)}")
    ctx.hit(bool(deps))
    await asyncio.sleep(0)
    await asyncio.sleep(0)
    if t > first and state.get("main") != "cancelled": raise Violation("main keeps running after a dependency ended")
    for i, d in enumerate(case["deps"]):
      if d[0] > min(t, first) and deps[i].done(): raise Violation("a dependency was ended")
    await asyncio.sleep(20)
    # a task that lives as long as its context
    if case["context"] is not None:
      state.clear()
      err = None
      try:
        async with context_task(job("ct", case["main"])):
          await asyncio.sleep(case["context"])
      except Err as e: err = e
      before = t < case["context"]
      if kind == "fail" and before and err is None: raise Violation("the error of a task in a context is lost")
      if t > case["context"]:
        if err: raise Violation(f"unexpected {err!r}")
        if state.get("ct") != "cancelled" and case["context"] > 0: raise Violation("a task outlives its context")
      n = len(asyncio.all_tasks())
      if n != 1: raise Violation(f"{n - 1} tasks are left running")
  vrun(main)

def id_cases(): return st.fixed_dictionaries({"start": st.integers(-5, 100), "n": st.integers(1, 40), "calls": st.integers(1, 150), "force": st.lists(st.tuples(st.integers(0, 3), st.booleans(), st.booleans()).map(list), max_size=15)})
def run_ids(case, ctx):
  g = IdGenerator(case["start"], case["start"] + case["n"])
  for i in range(case["calls"]):
    got, want = g.next(), case["start"] + i % case["n"]
    if got != want: raise Violation(f"call {i} of a generator for {case['n']} ids from {case['start']} gave {got} instead of {want}")
  ctx.hit(case["calls"] > case["n"])
  # reference counts with forced removal, in both kinds of tracker
  for tracker in (IdTracker(), AwaitableIdTracker()):
    count = {}
    for i, add, force in case["force"]:
      if add:
        got, want = tracker.add_many([i]), {i} if not count.get(i) else set()
        count[i] = count.get(i, 0) + 1
      else:
        n = count.get(i, 0)
        got, want = tracker.remove_many([i], force=True) if force else tracker.remove_many([i]), {i} if n == 1 or n and force else set()
        count[i] = 0 if force else max(0, n - 1)
      if set(got) != want: raise Violation(f"{type(tracker).__name__}: {'add' if add else 'remove'}({i}, force={force}) reported {got} instead of {want}")
      if (i in tracker) != (count[i] > 0): raise Violation(f"{i} in tracker: {i in tracker}, count {count[i]}")

SUBS = [
  Sub("waiters", waiter_cases, run_waiters, quick=3000, thorough=60000, rule="A case is non-trivial if something changed while somebody was waiting."),
  Sub("groups", group_cases, run_group, quick=1500, thorough=30000, rule="A case is non-trivial if some task was cancelled or waited for."),
  Sub("dependencies", deps_cases, run_deps, quick=800, thorough=8000, rule="A case is non-trivial if there were dependencies."),
  Sub("ids", id_cases, run_ids, quick=600, thorough=8000, rule="A case is non-trivial if the generator wrapped around."),
]
