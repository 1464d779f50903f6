from ..simple import *
from ..core import Sub, Violation
from ..vloop import vrun
from streamtasks.client.topic import SequentialInTopicSynchronizer
from streamtasks.net.messages import TopicControlData
import asyncio

TECHNIQUE = "property-based testing (Hypothesis): generated message and pause histories over synchronised topics against a set-of-states reference model and ordering invariants"
NOTE = "Random search with shrinking in virtual time through real clients and a switch."

def message(ts, n):
  d = {"n": n}
  if ts is not None: d["timestamp"] = ts
  return d
def int_ts(ts): return None if ts is None or isinstance(ts, str) else int(ts)

class Topics:
  """A sender and synchronised receivers with one consumer task per topic; records what is handed out."""
  async def start(self, sync, k, delays_=(0,)):
    self.sync, self.k, self.n = sync, k, 0
    switch = Switch()
    self.a, self.b = Client(await switch.add_local_connection()), Client(await switch.add_local_connection())
    self.a.start(); self.b.start()
    await self.a.register_out_topics(range(1, k + 1))
    self.out, self.delays, self.busy, self.sent = [], delays_, {}, {}
    self.tasks = []
    for t in range(1, k + 1):
      topic = self.b.sync_in_topic(t, sync)
      await topic.start()
      await topic.set_registered(True)
      self.tasks.append(asyncio.create_task(self.consume(t, topic)))
    await settle(5)
    return self
  async def consume(self, t, topic):
    i = 0
    while True:
      d = await topic.recv_data_control()
      self.busy[t] = True
      if isinstance(d, TopicControlData): self.on_control(t, d)
      else: self.on_data(t, d.data)
      delay = self.delays[(i + t) % len(self.delays)]
      i += 1
      if delay: await asyncio.sleep(delay)
      self.busy[t] = False
  def on_control(self, t, d): pass
  def on_data(self, t, d): self.out.append((t, int_ts(d["timestamp"]), d["n"]))
  async def data(self, t, ts):
    self.n += 1
    await self.a.send_stream_data(t, RawData(message(ts, self.n)))
    return self.n
  def check_alive(self):
    for t in self.tasks:
      if t.done(): raise Violation(f"a receiver failed: {t.exception()!r}")

# ------------------------------------------------ reference model: every reachable state
def closure(states):
  """state = (cur, pending, queues, outs); applies every possible internal step until nothing can happen"""
  final, todo, seen = set(), list(states), set()
  while todo:
    s = todo.pop()
    if s in seen: continue
    seen.add(s)
    cur, pend, queues, outs = s
    moved = False
    dcur, dp = dict(cur), dict(pend)
    low = min(dcur.values()) if dcur else 0
    for i, (t, q) in enumerate(queues):
      if t in dp:
        ts, n = dp[t]
        if low >= ts:
          moved = True
          p2 = {k: v for k, v in dp.items() if k != t}
          todo.append((cur, tuple(sorted(p2.items())), queues, tuple(sorted(outs + (n,)))))
      elif q:
        moved = True
        kind, v, n = q[0]
        q2 = queues[:i] + ((t, q[1:]),) + queues[i + 1:]
        if kind == "pause":
          c2 = {k: x for k, x in dcur.items() if k != t}
          if not v: c2[t] = low
          todo.append((tuple(sorted(c2.items())), pend, q2, outs))
        elif v is None or v < dcur.get(t, 0): todo.append((cur, pend, q2, outs))
        else: todo.append((tuple(sorted({**dcur, t: v}.items())), tuple(sorted({**dp, t: (v, n)}.items())), q2, outs))
    if not moved: final.add(s)
    if len(seen) > 3000: return None
  return final

def model_start(k): return {((), (), tuple((t, ()) for t in range(1, k + 1)), ())}
def model_event(states, t, ev):
  return {(cur, pend, tuple((u, q + (ev,)) if u == t else (u, q) for u, q in queues), outs) for cur, pend, queues, outs in states}

def ts_values(): return st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(0, 12), st.sampled_from([None, "x", 2.5, 7.0, 2**40]))
def events(k=4):
  return st.one_of(
    st.tuples(st.just("data"), st.integers(1, k), ts_values()), st.tuples(st.just("data"), st.integers(1, k), ts_values()), st.tuples(st.just("data"), st.integers(1, k), ts_values()),
    st.tuples(st.just("step"), st.integers(1, k), st.integers(0, 3)), st.tuples(st.just("step"), st.integers(1, k), st.integers(0, 3)), st.tuples(st.just("step"), st.integers(1, k), st.integers(0, 3)),
    st.tuples(st.just("pause"), st.integers(1, k), st.booleans()),
  ).map(list)
def cases(): return st.fixed_dictionaries({"k": st.integers(1, 4), "events": st.lists(events(), min_size=3, max_size=25)})

def run(case, ctx, make=SequentialInTopicSynchronizer, after_step=None):
  async def main():
    k = case["k"]
    sync = make()
    T = await Topics().start(sync, k)
    states, names, last = model_start(k), {}, {}
    pauses = False
    for op, t, v in case["events"]:
      t = 1 + (t - 1) % k
      if op == "step": op, v = "data", last.get(t, 0) + v     # close to its predecessor
      ctx.trace(op, t, v)
      before = len(T.out)
      if op == "data":
        n = await T.data(t, v)
        iv = int_ts(v)
        names[n] = (t, iv)
        if iv is not None: last[t] = iv
        states = model_event(states, t, ("data", iv, n))
      else:
        pauses = True
        await T.a.send_stream_control(t, TopicControlData(v))
        states = model_event(states, t, ("pause", v, 0))
      await settle(5)
      T.check_alive()
      states = closure(states)
      if states is None: return          # too many possibilities to judge
      got = tuple(sorted(n for _, _, n in T.out))
      ok = {s for s in states if s[3] == got}
      if not ok:
        want = [sorted(s[3]) for s in list(states)[:2]]
        raise Violation(f"handed out so far (topic, timestamp): {[names[n] for n in got]}; expected {[[names[n] for n in w] for w in want]}")
      states = ok
      if any(s[1] for s in states): ctx.hit(); ctx.label("had to wait")
      if after_step: after_step(T, T.out[before:], ctx)
    for t in range(1, k + 1):
      mine = [n for u, _, n in T.out if u == t]
      if mine != sorted(mine): raise Violation(f"topic {t} was reordered: {mine}")
    if not pauses: check_order(T.out, k)
  vrun(main)

def check_order(out, k):
  """once the last topic has joined, timestamps do not decrease"""
  first = {}
  for i, (t, _, _) in enumerate(out): first.setdefault(t, i)
  start = max(first.values(), default=0)
  tail = [ts for _, ts, _ in out[start:]]
  if tail != sorted(tail): raise Violation(f"timestamps handed out after all topics joined: {tail}")

# ------------------------------------------------ concurrent: slow consumers, no waiting between messages
def busy_cases():
  ev = st.tuples(st.integers(1, 4), st.one_of(st.integers(0, 4), st.integers(0, 4), st.just(-2), st.none()), st.sampled_from([0, 0, 0, 0.01, 1, 3])).map(list)
  return st.fixed_dictionaries({"k": st.integers(2, 4), "delays": st.lists(st.sampled_from([0, 0, 0.01, 0.5, 2]), min_size=1, max_size=4), "events": st.lists(ev, min_size=4, max_size=40)})

def run_busy(case, ctx, make=SequentialInTopicSynchronizer, judge=None):
  async def main():
    k = case["k"]
    T = Topics()
    sent = {t: [] for t in range(1, k + 1)}     # accepted messages, in order
    top = {}
    def on_data(t, d):
      ts = int_ts(d["timestamp"])
      first = all(u != t for u, _, _ in T.out)
      for u, v in top.items():
        # every topic something of which was handed out has reached this timestamp
        if not first and u != t and v < ts and any(w == u for w, _, _ in T.out): raise_(f"topic {t} handed out {ts} while topic {u} was only at {v}")
      if judge: judge(T, t, ts, sent, raise_)
      T.out.append((t, ts, d["n"]))
    problem = []
    def raise_(text): problem.append(text)
    T.on_data = on_data
    await T.start(make(), k, case["delays"])
    last = {}
    for t, dt, gap in case["events"]:
      t = 1 + (t - 1) % k
      ts = None if dt is None else max(0, last.get(t, 0) + dt)
      if ts is not None and ts >= last.get(t, 0):
        last[t] = top[t] = ts
        sent[t].append((ts, T.n + 1))
      await T.data(t, ts)
      if gap: await asyncio.sleep(gap)
      if problem: raise Violation(problem[0])
    await settle(1000)
    T.check_alive()
    if problem: raise Violation(problem[0])
    heads, cur = {}, {}
    for t in sent:
      mine = [n for u, _, n in T.out if u == t]
      want = [n for _, n in sent[t]]
      if mine != want[:len(mine)]: raise Violation(f"topic {t}: handed out {mine}, accepted were {want}")
      if len(mine) < len(want): heads[t] = cur[t] = sent[t][len(mine)][0]
      elif want: cur[t] = sent[t][-1][0]
    for t, h in heads.items():
      if h <= min(cur.values()): raise Violation(f"topic {t} is stuck at {h}, all topics have reached {cur}")
    check_order(T.out, k)
    ctx.hit(sum(1 for s in sent.values() if s) > 1)
    if heads: ctx.label("ends waiting")
  vrun(main)

SUBS = [
  Sub("model", cases, run, quick=1500, thorough=40000, rule="A case is non-trivial if some message had to wait for another topic."),
  Sub("busy", busy_cases, run_busy, quick=1500, thorough=40000, rule="A case is non-trivial if at least two topics carried messages."),
]
