"""Simulated networks of switches and clients with a reference model of who is connected to
whom, who provides and subscribes what and who owns which address."""
import asyncio
from .core import Violation
from .net import *
from .vloop import vnow

class Endpoint:
  """A leaf of the network: a Client, or a bare link speaking the protocol directly."""
  def __init__(self, idx, switch, kind, cost, raw):
    self.idx, self.switch, self.kind, self.raw = idx, switch, kind, raw
    self.cost = link_cost(kind, cost)
    self.open = True
    self.provided = {}          # topic -> announced base cost
    self.subs = set()
    self.address = None
    self.outs = {}              # OutTopic objects (clients)
    self.ins = {}
    self.paused = {}            # last pause state set by this endpoint
    self.ctl_sent = set()       # topics on which it really sent a control message
    self.address_history = set()
    self.apis = {}              # topic -> (kind, object, log)

  def count(self): return len(self.rec.messages)
  def since(self, mark): return self.rec.messages[mark:]

class World:
  def __init__(self, case, ctx):
    self.case, self.ctx = case, ctx
    self.eps = []
    self.switches = []
    self.edges = []             # dict(a, b, cost, up, links)
    self.serial = 0

  async def start(self):
    c = self.case
    self.switches = [Switch() for _ in range(c["switches"])]
    for i, e in enumerate(c["edges"]):
      parent = e["parent"] % (i + 1)
      edge = dict(a=parent, b=i + 1, cost=link_cost(e["kind"], e["cost"]), up=False, links=None, spec=e)
      self.edges.append(edge)
      if not e.get("late"): await self.attach(edge)
    for i, e in enumerate(c["eps"]):
      ep = Endpoint(i, e["switch"] % len(self.switches), e["kind"], e["cost"], e.get("raw", False))
      a, b = make_link(e["kind"], e["cost"], e["d1"], e["d2"], self.case.get("slow"))
      ep.sw_link, ep.link = a, b
      await self.switches[ep.switch].add_link(a)
      ep.api = e.get("api", "reg")
      if ep.raw: ep.rec = LinkRecorder(b)
      else:
        ep.client = Client(b)
        ep.rec = Recorder(ep.client)
        await ep.rec.start_recv()
        ep.client.start()
      self.eps.append(ep)
    await settle()

  async def attach(self, edge):
    e = edge["spec"]
    a, b = make_link(e["kind"], e["cost"], e["d1"], e["d2"], self.case.get("slow"))
    edge["links"] = (a, b)
    edge["up"] = True
    await self.switches[edge["a"]].add_link(a)
    await self.switches[edge["b"]].add_link(b)

  # ------------------------------------------------------------ model
  def component(self, sw):
    """switch -> cost of the path from sw."""
    dist, todo = {sw: 0}, [sw]
    while todo:
      s = todo.pop()
      for e in self.edges:
        if e["up"]:
          for x, y in ((e["a"], e["b"]), (e["b"], e["a"])):
            if x == s and y not in dist:
              dist[y] = dist[s] + e["cost"]
              todo.append(y)
    return dist
  def distance(self, a, b):
    """Cost of the path between two endpoints as the receiver b accounts it, or None."""
    if not a.open or not b.open: return None
    d = self.component(a.switch).get(b.switch)
    return None if d is None else d + a.cost + b.cost
  def reachable(self, ep): return [o for o in self.eps if o is not ep and self.distance(ep, o) is not None]
  def providers(self, topic, near): return [o for o in self.eps if topic in o.provided and (o is near or self.distance(o, near) is not None)]

  # ------------------------------------------------------------ operations
  async def provide(self, ep, t, cost=0):
    if t in ep.provided: return
    if ep.raw:
      ep.provided[t] = cost
      await ep.link.send(OutTopicsChangedMessage({PricedId(t, cost)}, set()))
    else:
      ep.provided[t] = 0
      if t not in ep.outs:
        ep.outs[t] = ep.client.out_topic(t)
        await ep.outs[t].start()
      await ep.outs[t].set_registered(True)
  async def reprice(self, ep, t, cost):
    if not ep.raw or t not in ep.provided: return
    ep.provided[t] = cost
    await ep.link.send(OutTopicsChangedMessage({PricedId(t, cost)}, set()))
  async def unprovide(self, ep, t):
    if ep.provided.pop(t, None) is None: return
    if ep.raw: await ep.link.send(OutTopicsChangedMessage(set(), {t}))
    else: await ep.outs[t].set_registered(False)
  async def subscribe(self, ep, t):
    if t in ep.subs: return
    ep.subs.add(t)
    if ep.raw: await ep.link.send(InTopicsChangedMessage({t}, set()))
    elif ep.api == "reg": await ep.client.register_in_topics([t])
    elif ep.api == "recv":
      r = TopicsReceiver(ep.client, [t])
      log = []
      async def recv_reader():
        while True:
          topic, d = await r.get()
          if topic != t: raise Violation(f"a receiver of topic {t} was handed a message of topic {topic}")
          log.append(d)
      ep.apis[t] = ("recv", r, log, asyncio.create_task(recv_reader()))
      await r.start_recv()
    else:
      i = ep.client.in_topic(t)
      log = []
      async def reader():
        while True: log.append(await i.recv_data_control())
      await i.start()
      ep.apis[t] = ("intopic", i, log, asyncio.create_task(reader()))
      await i.set_registered(True)
  async def unsubscribe(self, ep, t):
    if t not in ep.subs: return
    ep.subs.discard(t)
    if ep.raw: await ep.link.send(InTopicsChangedMessage(set(), {t}))
    elif ep.api == "reg": await ep.client.unregister_in_topics([t])
    elif ep.api == "recv":
      _, r, _, task = ep.apis.pop(t)
      await r.stop_recv()
      task.cancel()
    else:
      _, i, _, task = ep.apis.pop(t)
      await i.set_registered(False)
      await i.stop()
      task.cancel()
  async def toggle_subscriptions(self, ep, ts):
    add, rem = {t for t in ts if t not in ep.subs}, {t for t in ts if t in ep.subs}
    ep.subs |= add; ep.subs -= rem
    if ep.raw: await ep.link.send(InTopicsChangedMessage(add, rem))
    else:
      if add: await ep.client.register_in_topics(sorted(add))
      if rem: await ep.client.unregister_in_topics(sorted(rem))
  async def toggle_provided(self, ep, ts, cost):
    add, rem = {t for t in ts if t not in ep.provided}, {t for t in ts if t in ep.provided}
    for t in rem: ep.provided.pop(t)
    for t in add: ep.provided[t] = cost
    await ep.link.send(OutTopicsChangedMessage({PricedId(t, cost) for t in add}, rem))
  async def set_address(self, ep, a):
    if ep.raw:
      add = set() if a is None else {PricedId(a, 0)}
      rem = set() if ep.address is None else {ep.address}
      if ep.address == a: return
      await ep.link.send(AddressesChangedMessage(add, rem))
    else: await ep.client.set_address(a)
    ep.address = a
    ep.address_history.add(a)
  async def send(self, ep, t, payload):
    if ep.raw: await ep.link.send(TopicDataMessage(t, RawData(payload)))
    else: await ep.client.send_stream_data(t, RawData(payload))
  async def control(self, ep, t, paused):
    if ep.raw: await ep.link.send(TopicControlMessage(t, paused))
    else: await ep.outs[t].set_paused(paused)
  async def send_addr(self, ep, a, port, payload):
    if ep.raw: await ep.link.send(AddressedMessage(a, port, RawData(payload)))
    else: await ep.client.send_to((a, port), RawData(payload))
  def close(self, ep, from_switch=False):
    if not ep.open: return
    ep.open = False
    (ep.sw_link if from_switch else ep.link).close()
  def cut(self, edge, side=0):
    if not edge["up"]: return
    edge["up"] = False
    edge["links"][side].close()

  # ------------------------------------------------------------ observation
  def requested(self, ep, t):
    if ep.raw:
      w = set()
      for m in ep.rec.messages:
        if isinstance(m, InTopicsChangedMessage): w = (w | set(m.add)) - set(m.remove)
      return t in w
    return ep.outs[t].is_requested

def edge_strategy(st, delays):
  return st.fixed_dictionaries({"parent": st.integers(0, 5), "kind": st.sampled_from(["plain", "raw", "cost"]), "cost": st.sampled_from([1, 2, 3, 5, 50, 100]), "d1": delays(), "d2": delays()}, optional={"late": st.booleans()})
def ep_strategy(st, delays, raw=True):
  return st.fixed_dictionaries({"switch": st.integers(0, 5), "kind": st.sampled_from(["plain", "raw", "cost"]), "cost": st.sampled_from([1, 2, 3, 7, 50]), "d1": delays(2), "d2": delays(2), "raw": st.booleans() if raw else st.just(False), "api": st.sampled_from(["reg", "recv", "intopic"])})
