"""A single task between a test client and its topics, in virtual time, and the reference model of synchronised inputs."""
from .gen import *
from .core import Violation
from .net import *
from .vloop import vrun, vnow
from streamtasks.system.task import Task
import random
from streamtasks.net.messages import TopicControlData
from collections import deque

NAN, INF = float("nan"), float("inf")
def plain(o):
  """Comparable form of message contents: distinguishes types, equates NaN with itself."""
  if isinstance(o, dict): return ("d", tuple(sorted((repr(k), plain(v)) for k, v in o.items())))
  if isinstance(o, (list, tuple)): return ("l", tuple(plain(v) for v in o))
  if isinstance(o, float) and o != o: return ("nan",)
  return (type(o).__name__, o)
def same(a, b): return plain(a) == plain(b)

def hosted(host_class):
  """Tasks as their host makes them: `(link, config)` -> the task, on a client of a host whose switch is behind `link` (or is the given switch)."""
  class Host(host_class):
    spaces = ()
    async def create_link(self, topic_space_id=None):
      self.spaces = *self.spaces, topic_space_id
      return await super().create_link(None)
  Host.__name__ = host_class.__name__
  async def make(link, config):
    host = Host()
    if isinstance(link, Switch): host.switch = link
    else:
      await host.switch.add_link(link)
      await settle(getattr(link, "calm", 0))
    space = random.randrange(1, 1 << 30)
    task = await host.create_task(config if isinstance(config, dict) else config.model_dump(), space)
    if not isinstance(task, Task): raise Violation(f"{host_class.__name__} made {task!r}, which is no task")
    if host.spaces != (space,): raise Violation(f"{host_class.__name__} was asked for a task in topic space {space}; it made clients in {host.spaces}")
    return task
  return make

class Rig:
  """The task's host behind one link, the test's client on another; records what the outputs carry.
  `near`: the test's client is a neighbour of the task, so nothing is lost that the task sends at once."""
  async def start(self, build, ins, outs, link=None, ready=True, near=False):
    link = link or {}
    self.ins, self.outs = ins, outs
    self.switch = Switch()
    a, b = make_link("plain")
    c, d = make_link(link.get("kind", "raw"), 1, link.get("d1"), link.get("d2"))
    if near: b, d = d, c               # one link, from the client to the host
    else:
      await self.switch.add_link(a)
      await self.switch.add_link(c)
    self.client = Client(b)
    self.client.start()
    self.rec = Recorder(self.client)
    await self.rec.start_recv()
    await self.client.register_out_topics(ins)
    await self.client.register_in_topics(outs)
    self.seen = self.timed = 0
    self.when = []
    on = self.rec.on_message
    def on_message(m):
      if isinstance(m, (TopicDataMessage, TopicControlMessage)): self.when.append(vnow())
      on(m)
    self.rec.on_message = on_message
    self.task = await build(d)
    self.metadata = await self.task.setup()
    self.t0 = vnow()
    self.bg = asyncio.create_task(self.task.run())
    if ready: await settle(10 if link.get("d1") or link.get("d2") else 0.01)
    return self
  def check(self):
    if self.bg.done():
      e = None if self.bg.cancelled() else self.bg.exception()
      raise Violation(f"the task ended: {type(e).__name__ if e else 'without error'}: {str(e)[:500]}", key="ended:" + (type(e).__name__ if e else ""))
  async def send(self, topic, obj): await self.client.send_stream_data(topic, RawData(obj))
  async def pause(self, topic, paused): await self.client.send_stream_control(topic, TopicControlData(paused=paused))
  def take(self):
    """New events: (topic, "d", content, time) or (topic, "p", paused, time)."""
    out = []
    msgs = [m for m in self.rec.messages[self.seen:] if isinstance(m, (TopicDataMessage, TopicControlMessage))]
    for m, t in zip(msgs, self.when[self.timed:]):
      if isinstance(m, TopicControlMessage): out.append((m.topic, "p", m.paused, t))
      else: out.append((m.topic, "d", m.data.data, t))
    self.seen = len(self.rec.messages)
    self.timed = len(self.when)
    for o in out:
      if o[0] not in self.outs: raise Violation(f"something arrived on topic {o[0]}, which the task should not use: {o}")
    return out
  async def stop(self):
    self.bg.cancel()
    await asyncio.wait([self.bg], timeout=100)
    if not self.bg.done(): raise Violation("the task does not stop when cancelled")

def timestamp_of(obj):
  """The timestamp synchronisation sees in a message, or None."""
  if not isinstance(obj, dict): return None
  t = obj.get("timestamp")
  if isinstance(t, bool) or not isinstance(t, (int, float)): return None
  if isinstance(t, float) and (t != t or t in (INF, -INF)): return None
  return int(t)

class SyncModel:
  """Reference for inputs read in timestamp order: `deliver(topic, item)` is called as the readers get items.
  Items are ("d", content) or ("p", paused)."""
  def __init__(self, topics, deliver, prio=None, sync=True):
    self.q = {t: deque() for t in topics}
    self.ts, self.wait, self.deliver, self.prio, self.sync = {}, {}, deliver, prio, sync
  def push(self, t, item):
    if not self.sync: return self.deliver(t, item)
    self.q[t].append(item)
    self._run()
  def _run(self):
    while True:
      progress = False
      for t, q in self.q.items():
        while q and t not in self.wait:
          k, v = q.popleft()
          progress = True
          if k == "p":
            if v: self.ts.pop(t, None)
            else: self.ts[t] = min(self.ts.values()) if self.ts else 0
            self.deliver(t, (k, v))
          else:
            s = timestamp_of(v)
            if s is None or s < self.ts.get(t, 0): continue
            self.ts[t] = s
            self.wait[t] = (s, (k, v))
      low = min(self.ts.values()) if self.ts else 0
      ready = [t for t, (s, _) in self.wait.items() if s <= low]
      if ready:
        if self.prio: ready.sort(key=lambda t: -self.prio[t])
        t = ready[0]
        _, item = self.wait.pop(t)
        self.deliver(t, item)
        progress = True
      if not progress: return
  @property
  def pending(self): return sum(map(len, self.q.values())) + len(self.wait)

# messages that are not number / text messages, by whether they carry a usable timestamp
def bad_messages(ts, value):
  """Invalid messages given a timestamp; `value`: contents that are not valid for the field."""
  return st.one_of(
    st.builds(lambda t, v: {"timestamp": t, "value": v}, ts, st.sampled_from(value)),
    ts.map(lambda t: {"timestamp": t}), ts.map(lambda t: {"timestamp": t, "val": 1}),
    st.sampled_from([{"value": 1.0}, {"value": "a"}, {"timestamp": "x", "value": 1.0}, {"timestamp": None, "value": 1.0}, {}, [], 5, "x", [1, 2],
      {"timestamp": INF, "value": 1.0}, {"timestamp": NAN, "value": 1.0}, {"timestamp": -INF, "value": "a"}, {"timestamp": [5], "value": 1.0}]))
BAD_NUM = ["abc", None, [1], {"a": 1}, "", [], "1,5"]
BAD_TEXT = [None, 5, 1.5, ["a"], {"a": "b"}, True]
def links(): return st.fixed_dictionaries({"kind": st.sampled_from(["plain", "raw", "cost"])})
