from ..simple import *
from ..core import Sub, Violation
from ..vloop import vrun
from streamtasks.utils import AsyncProducer, AsyncMPProducer, AsyncConsumer
import asyncio, queue, time

TECHNIQUE = "property-based testing (Hypothesis): generated schedules of consumers, cancellations, holders and producer output against a delivery model and a needed/running oracle"
NOTE = "The asyncio producer runs in virtual time; the threaded producer runs on a real loop with real threads, judged by eventual conditions with generous time limits."

class Consumer(AsyncConsumer):
  def __init__(self, producer, mod):
    super().__init__(producer)
    self.mod, self.want, self.got, self.gets, self.registered, self.eof = mod, [], [], [], False, False
  def test_message(self, m): return m[1] % 3 in self.mod

class Tracker:
  """Book-keeping shared by both producer kinds; `script` is what the producer will emit while it runs."""
  def __init__(self): self.active, self.problem, self.runs, self.consumers = 0, [], 0, []
  def begin(self):
    self.active += 1
    self.runs += 1
    if self.active > 1: self.problem.append("the producer is running twice at once")
  def finish(self): self.active -= 1
  def sent(self, m):
    for c in self.consumers:
      if c.registered and m[1] % 3 in c.mod: c.want.append(m)

class P(AsyncProducer):
  def __init__(self, tr):
    super().__init__()
    self.tr, self.script, self.slow, self.end_seen = tr, asyncio.Queue(), 0, False
  async def run(self):
    self.tr.begin()
    try:
      while True:
        m = await self.script.get()
        if m is None:
          self.end_seen = True
          self.script.put_nowait(None)
          raise EOFError()
        self.tr.sent(m)
        self.send_message(m)
    finally:
      try:
        if self.slow and not self.end_seen: await asyncio.sleep(self.slow)
      finally: self.tr.finish()
  def put(self, m): self.script.put_nowait(m)

def cases():
  c = st.integers(0, 2)
  op = st.one_of(
    st.tuples(st.just("get"), c), st.tuples(st.just("get"), c), st.tuples(st.just("get"), c), st.tuples(st.just("getmany"), c, st.integers(2, 3)),
    st.tuples(st.just("cancel"), c, st.integers(0, 1)),
    st.tuples(st.just("send"), st.lists(st.integers(0, 2), min_size=1, max_size=4)), st.tuples(st.just("send"), st.lists(st.integers(0, 2), min_size=1, max_size=4)),
    st.tuples(st.just("hold")), st.tuples(st.just("release")),
    st.tuples(st.just("register"), c), st.tuples(st.just("unregister"), c),
    st.tuples(st.just("end"), st.lists(st.integers(0, 2), max_size=4)), 
    st.tuples(st.just("close")),
  ).map(list)
  return st.fixed_dictionaries({
    "mods": st.lists(st.sampled_from([[0, 1, 2], [0], [1, 2], [0, 2]]), min_size=3, max_size=3),
    "slow": st.sampled_from([0, 0, 1]),
    "ops": st.lists(st.tuples(op, st.sampled_from([5, 5, 5, 0, None])).map(list), min_size=3, max_size=25)})

def run(case, ctx):
  async def main():
    tr = Tracker()
    p = P(tr)
    p.slow = case["slow"]
    cs = [Consumer(p, m) for m in case["mods"]]
    tr.consumers = cs
    for c in cs: c.register(); c.registered = True
    held, n, ended, many = 0, 0, False, set()
    exits = []
    async def get(c):
      try: c.got.append(await c.get())
      except EOFError:
        c.eof = True
        raise
    def live(c): return [t for t in c.gets if not t.done()]
    def settled():
      if tr.problem: raise Violation(tr.problem[0])
      waiting = [c for c in cs if live(c)]
      need = (held > 0 or waiting) and not ended
      if need and not tr.active: raise Violation(f"the producer does not run although it is needed (held {held}, {len(waiting)} waiting)")
      if not need and tr.active: raise Violation("the producer runs although nobody needs it")
      for i, c in enumerate(cs):
        for t in c.gets:
          if t.done() and not t.cancelled() and t.exception() is not None and not isinstance(t.exception(), EOFError): raise Violation(f"get failed: {t.exception()!r}")
        if c.eof and not ended: raise Violation(f"consumer {i} saw the end of a running stream")
        if c.eof and len(c.got) < len(c.want): raise Violation(f"consumer {i} saw the end of the stream before {c.want[len(c.got):]}")
        if live(c) and len(c.got) < len(c.want): raise Violation(f"consumer {i} waits although {c.want[len(c.got):]} were sent")
        if live(c) and ended and c.registered and case_over[0]: raise Violation(f"consumer {i} waits although the producer has ended")
    case_over = [False]
    for (op, *a), pause in case["ops"]:
      ctx.trace(op, *a, pause)
      c = cs[a[0] % 3] if a and isinstance(a[0], int) else None
      if op == "get" and not live(c): c.gets.append(asyncio.create_task(get(c)))
      elif op == "getmany":
        many.add(c)
        for _ in range(a[1]): c.gets.append(asyncio.create_task(get(c)))
      elif op == "cancel" and live(c):
        t = live(c)
        t[a[1] % len(t)].cancel()
        ctx.label("cancelled get")
      elif op in ("send", "end") and not ended:
        for kind in a[0]:
          p.put((n, kind)); n += 1
        if op == "end": p.put(None); ctx.label("ended")
      elif op == "hold":
        try:
          await p.__aenter__()
          held += 1
        except EOFError:
          if not ended and not tr_ended(p): raise Violation("a running stream could not be entered")
      elif op == "release" and held:
        held -= 1
        exits.append(asyncio.create_task(p.__aexit__(None, None, None)))
      elif op == "register" and not c.registered: c.register(); c.registered = True
      elif op == "unregister" and c.registered and not live(c): c.unregister(); c.registered = False
      elif op == "close":
        await p.close()
        ended = True
        ctx.label("closed")
      if pause is not None:
        await asyncio.sleep(pause)
        if tr_ended(p): ended = True
        if pause: settled()
    await asyncio.sleep(5)
    if tr_ended(p): ended = True
    settled()
    # everything that was sent can be read
    for i, c in enumerate(cs):
      for t in live(c): t.cancel()
    await asyncio.sleep(5)
    for i, c in enumerate(cs):
      if not c.registered: continue
      while len(c.got) < len(c.want):
        try: await asyncio.wait_for(get(c), 50)
        except EOFError: raise Violation(f"consumer {i} saw the end of the stream before {c.want[len(c.got):]}")
        except asyncio.TimeoutError: raise Violation(f"consumer {i} does not receive {c.want[len(c.got):]}")
      if (sorted(c.got) if c in many else c.got) != c.want: raise Violation(f"consumer {i} received {c.got}, sent were {c.want}")
      if ended:
        try: await asyncio.wait_for(c.get(), 50)
        except EOFError: pass
        except asyncio.TimeoutError: raise Violation(f"consumer {i} never sees the end of the stream")
        else: raise Violation(f"consumer {i} got a message that was never sent")
    ctx.hit(any(c.got for c in cs) and tr.runs > 0)
    if tr.runs > 1: ctx.label("restarted")
    for t in exits:
      if t.done() and t.exception() and not isinstance(t.exception(), EOFError): raise Violation(f"leaving failed: {t.exception()!r}")
  vrun(main)

def tr_ended(p): return p.end_seen

# ------------------------------------------------ the threaded kind
class MP(AsyncMPProducer):
  def __init__(self, tr):
    super().__init__()
    self.tr, self.script, self.ended = tr, queue.Queue(), False
  def run_sync(self):
    self.tr.begin()
    try:
      while not self.stop_event.is_set():
        try: m = self.script.get(timeout=0.001)
        except queue.Empty: continue
        if m is None:
          self.script.put(None)
          self.ended = True
          raise EOFError()
        self.tr.sent(m)
        self.send_message(m)
    finally: self.tr.finish()
  def put(self, m): self.script.put(m)

def mp_cases():
  c = st.integers(0, 2)
  op = st.one_of(
    st.tuples(st.just("get"), c), st.tuples(st.just("get"), c),
    st.tuples(st.just("cancel"), c), 
    st.tuples(st.just("send"), st.lists(st.integers(0, 2), min_size=1, max_size=4)), st.tuples(st.just("send"), st.lists(st.integers(0, 2), min_size=1, max_size=4)),
    st.tuples(st.just("hold")), st.tuples(st.just("release")), st.tuples(st.just("settle")),
    st.tuples(st.just("end"), st.lists(st.integers(0, 2), max_size=4)),
  ).map(list)
  return st.fixed_dictionaries({
    "mods": st.lists(st.sampled_from([[0, 1, 2], [0], [1, 2], [0, 2]]), min_size=3, max_size=3),
    "ops": st.lists(op, min_size=2, max_size=12), "close": st.booleans()})

def run_mp(case, ctx):
  LIMIT = 10
  async def main():
    tr = Tracker()
    p = MP(tr)
    cs = [Consumer(p, m) for m in case["mods"]]
    tr.consumers = cs
    for c in cs: c.register(); c.registered = True
    held, n = 0, 0
    async def get(c):
      try: c.got.append(await c.get())
      except EOFError:
        c.eof = True
        raise
    def live(c): return [t for t in c.gets if not t.done()]
    async def until(cond, what):
      t0 = time.monotonic()
      while not cond():
        if tr.problem: raise Violation(tr.problem[0])
        if time.monotonic() - t0 > LIMIT: raise Violation(what())
        await asyncio.sleep(0.001)
    async def settled():
      await until(lambda: bool(tr.active) == (not p.ended and (held > 0 or any(live(c) for c in cs))), lambda: f"running: {bool(tr.active)}, held: {held}, waiting: {[bool(live(c)) for c in cs]}, ended: {p.ended}")
    for op, *a in case["ops"]:
      ctx.trace(op, *a)
      c = cs[a[0]] if a and isinstance(a[0], int) else None
      if op == "get" and not live(c): c.gets.append(asyncio.create_task(get(c))); await asyncio.sleep(0)
      elif op == "cancel" and live(c):
        t = live(c)[0]
        t.cancel()
        await asyncio.wait([t], timeout=LIMIT)
        if not t.done(): raise Violation("a cancelled get does not end")
      elif op in ("send", "end"):
        for kind in a[0]: p.put((n, kind)); n += 1
        if op == "end": p.put(None); break
      elif op == "hold":
        await p.__aenter__()
        held += 1
      elif op == "release" and held:
        held -= 1
        await asyncio.wait_for(p.__aexit__(None, None, None), LIMIT)
      elif op == "settle": await settled()
    await settled()
    if case["close"]:
      await asyncio.wait_for(p.close(), LIMIT)
      if tr.active: raise Violation("the producer runs after close")
      p.ended = True
      ctx.label("closed")
    else:
      # nobody needs it any more: what was sent until now is waiting in the queues
      for c in cs:
        if not p.ended:
          for t in live(c): t.cancel()
      for _ in range(held):
        try: await asyncio.wait_for(p.__aexit__(None, None, None), LIMIT)
        except EOFError: pass
      await until(lambda: not tr.active, lambda: "the producer runs although nobody needs it")
    await until(lambda: not any(live(c) for c in cs), lambda: "a get does not end")
    for i, c in enumerate(cs):
      try:
        while len(c.got) < len(c.want): await asyncio.wait_for(get(c), LIMIT)
        if p.ended:
          try: await asyncio.wait_for(get(c), LIMIT)
          except EOFError: pass
      except EOFError: raise Violation(f"consumer {i} saw the end of the stream before {c.want[len(c.got):]}")
      except asyncio.TimeoutError: raise Violation(f"consumer {i} does not receive {c.want[len(c.got):]} (ended: {p.ended})")
      if c.eof and not p.ended: raise Violation(f"consumer {i} saw the end of a running stream")
      if c.got != c.want: raise Violation(f"consumer {i} received {c.got}, sent were {c.want}")
    if tr.active: raise Violation("the producer runs after its end")
    if tr.problem: raise Violation(tr.problem[0])
    ctx.hit(any(c.got for c in cs))
    if tr.runs > 1: ctx.label("restarted")
  asyncio.run(main())

# ------------------------------------------------ producers that fail
class Broken(RuntimeError): pass
class F(AsyncProducer):
  def __init__(self, n, pause, runs): super().__init__(); self.n, self.pause, self.runs, self.i = n, pause, runs, 0
  async def run(self):
    self.runs.append("run")
    while self.i < self.n:
      if self.pause: await asyncio.sleep(self.pause)
      self.i += 1
      self.send_message((self.i - 1, self.i - 1))
    raise Broken("the source is gone")
class FMP(AsyncMPProducer):
  def __init__(self, n, pause, runs): super().__init__(); self.n, self.runs = n, runs
  def run_sync(self):
    self.runs.append("run")
    for i in range(self.n): self.send_message((i, i))
    raise Broken("the source is gone")
def fail_cases(): return st.fixed_dictionaries({"threaded": st.booleans(), "n": st.integers(0, 5), "pause": st.sampled_from([0, 1]), "mods": st.lists(st.sampled_from([[0, 1, 2], [0], [1, 2], []]), min_size=1, max_size=3), "begin": st.lists(st.sampled_from([0, 0, 1, 2]), min_size=3, max_size=3), "hold": st.booleans()})
def run_fail(case, ctx):
  async def main():
    runs = []
    p = (FMP if case["threaded"] else F)(case["n"], case["pause"], runs)
    cs = [Consumer(p, m) for m in case["mods"]]
    for c in cs: c.register()
    errors = []
    async def read(c, begin):
      await asyncio.sleep(begin)
      while True:
        try: c.got.append(await c.get())
        except EOFError: return
        except Broken: errors.append(1) # what is still queued can be read
    async def hold():
      try:
        async with p: await asyncio.sleep(30)
      except EOFError: pass
      except Broken: errors.append(1)
    ts = [asyncio.create_task(read(c, b)) for c, b in zip(cs, case["begin"])] + ([asyncio.create_task(hold())] if case["hold"] else [])
    await asyncio.wait(ts, timeout=100)
    for i, (c, t) in enumerate(zip(cs, ts)):
      if not t.done(): raise Violation(f"consumer {i} waits forever after the producer has failed")
      if t.exception(): raise Violation(f"consumer {i} got {t.exception()!r}")
      want = [(j, j) for j in range(case["n"]) if j % 3 in c.mod]
      if c.got != want: raise Violation(f"consumer {i} got {c.got} of {want} before the failure")
    if not errors: raise Violation("nobody was told that the producer failed")
    ctx.hit(case["n"] > 0 and len(cs) > 1)
  vrun(main, lazy=True)

SUBS = [Sub("failure", fail_cases, run_fail, quick=300, thorough=5000, rule="producers that fail while consumers use them; non-trivial: the producer failed while someone used it"),
  
  Sub("asyncio", cases, run, quick=2500, thorough=60000, rule="A case is non-trivial if some consumer received a message."),
  Sub("threads", mp_cases, run_mp, quick=400, thorough=6000, hang_s=90, rule="A case is non-trivial if some consumer received a message."),
]
