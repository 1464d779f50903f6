from ..nethist import *
from ..core import Sub

W = dict(prov=9, unprov=4, reprice=3, sub=5, unsub=1, addr=6, close=2, attach=2, cut=1, wait=1, subs=1, provs=3)

class Epochs:
  """What the announcements of a topic can still be after its providers changed."""
  def __init__(self): self.low, self.raised, self.shared = {}, {}, set()
  def update(self, w):
    for t in TOPICS:
      g = [p for p in w.eps if p.open and t in p.provided]
      if not g: self.low.pop(t, None); self.raised.pop(t, None); continue
      # a switch may tell one of several providers of its own announcement, and does not take that back
      if len(g) > 1: self.shared |= {(p.idx, t) for p in g}
      m = min(p.provided[t] + p.cost for p in g)
      low = self.low.get(t)
      if low is not None and m > low: self.raised[t] = True
      self.low[t] = m if low is None else min(m, low)

def judge(h):
  w, ctx = h.w, h.ctx
  h.epochs.update(w)
  for t in TOPICS: # a takeover in flight looks like several providers
    who = {i for i, x, _ in h.moves if x == t}
    if len(who) > 1:
      h.epochs.shared |= {(i, t) for i in who}
      if t in h.epochs.low:
        h.epochs.raised[t] = True
        h.epochs.low[t] = min(h.epochs.low[t], *(c for _, x, c in h.moves if x == t))
  for ep in w.eps:
    if not ep.open: continue
    for t in TOPICS:
      if t in ep.provided or (ep.idx, t) in h.epochs.shared: continue
      group = w.providers(t, ep)
      costs = sorted(w.distance(p, ep) + p.provided[t] for p in group)
      views = [("the link", ep.link.out_topics.get(t))]
      if t in ep.apis and ep.apis[t][0] == "intopic" and (ep.apis[t][1].cost is not None or id(ep.apis[t][1]) in h.fresh): views.append(("InTopic", ep.apis[t][1].cost)); ctx.label("InTopic.cost")
      ctx.hit(len(costs) > 1); ctx.label("several providers" if len(costs) > 1 else "one provider" if costs else "no provider")
      if t in ep.apis and not costs: h.fresh.add(id(ep.apis[t][1])); h.keep.append(ep.apis[t][1])   # sees every later announcement
      # a raised cost is only announced by the switch of the providers itself
      exact = not costs or not h.epochs.raised.get(t) or (group[0].switch == ep.switch and t not in h.repriced)
      for where, seen in views:
        if exact: ctx.label("exact")
        if exact and seen != (costs[0] if costs else None):
          raise Violation(f"endpoint {ep.idx}: {where} sees topic {t} at cost {seen}, the providers are at {costs}")
        if not exact and (seen is None or seen > costs[0] or seen < w.distance(group[0], ep) - group[0].cost + h.epochs.low[t]):
          raise Violation(f"endpoint {ep.idx}: {where} sees topic {t} at cost {seen}, the providers are at {costs}, never were below {h.epochs.low[t]}")
    for a in ADDRS:
      owners = [o for o in w.eps if o.open and o.address == a]
      if ep in owners: continue
      if ep.idx in h.held.get(a, ()) and len(h.held[a]) > 1: continue   # may have been told of its own announcement
      costs = sorted(w.distance(o, ep) for o in owners if w.distance(o, ep) is not None)
      seen = ep.link.addresses.get(a)
      if seen != (costs[0] if costs else None):
        raise Violation(f"endpoint {ep.idx} sees address {a} at cost {seen}, the owners are at {costs}")
  for t in TOPICS:
    for ep in w.eps:
      if not ep.open or t not in ep.provided: continue
      group = w.providers(t, ep)
      subs = [o.idx for o in w.eps if o.open and t in o.subs and (o is ep or w.distance(o, ep) is not None)]
      best = min(p.provided[t] + p.cost for p in group)
      mine = ep.provided[t] + ep.cost
      got = w.requested(ep, t)
      asked = [p.idx for p in group if w.requested(p, t)]
      if len(group) > 1: ctx.label("choice with subscribers" if subs else "choice without subscribers")
      if subs and len(asked) != 1: raise Violation(f"topic {t} has subscribers {subs} and providers {[p.idx for p in group]}, requested from {asked}")
      if not subs and asked: raise Violation(f"topic {t} has no subscribers but is requested from {asked}")
      if got and mine != best: raise Violation(f"topic {t} is requested from provider {ep.idx} at cost {mine} although one at {best} exists")

def run(case, ctx):
  async def main():
    h = Hist(case, ctx, "switch")
    h.epochs = Epochs()
    h.on_change = h.epochs.update
    h.fresh, h.keep = set(), []
    await h.run(judge)
  vrun(main)

# ---- found on the original tree: providers of one topic attached to different switches
async def _two_switch(order, ctx):
  from ..net import settle
  sw = [Switch(), Switch()]
  a, b = make_link("plain")
  await sw[0].add_link(a); await sw[1].add_link(b)
  eps = []
  for i in (0, 1, 0, 1):
    l, e = make_link("plain")
    await sw[i].add_link(l)
    eps.append((e, LinkRecorder(e)))
  p, q, x, y = [e for e, _ in eps]
  await settle()
  for who in order:
    if who == "r":
      await p.send(OutTopicsChangedMessage({PricedId(1, 9)}, set())); await settle(); continue
    link = p if who in "pP" else q
    if who in "pq": await link.send(OutTopicsChangedMessage({PricedId(1, 0 if who == "q" else 5)}, set()))
    else: await link.send(OutTopicsChangedMessage(set(), {1}))
    await settle()
  cost = {"p": 9 if "r" in order else 5, "q": 0}
  live = [c for c in "pq" if order.count(c) > order.count(c.upper())]
  for name, e, near in (("x", x, "p"), ("y", y, "q")):
    want = min((cost[c] + (2 if c == near else 3) for c in live), default=None)
    got = e.out_topics.get(1)
    if got != want: raise Violation(f"providers on two switches, history {order}: {name} sees cost {got}, expected {want}", key="raised cost" if "r" in order else "providers on two switches")

def run_two(case, ctx):
  async def main(): await _two_switch(case, ctx)
  ctx.hit()
  vrun(main)

SUBS = [
  Sub("costs", lambda: case_strategy(W, eps=(3, 6)), run, 2400, 60000, "histories with several providers (of one switch) per topic, changing costs, addresses, connects and disconnects; non-trivial: an endpoint saw a topic with several providers"),
  Sub("congested", lambda: case_strategy(W, slow=True), lambda c, x: run(dict(c, slow=True), x), 600, 20000, "the same with one operation at a time on links whose sends have to wait"),
  Sub("two-switches", lambda: st.sampled_from(["pq", "qp", "pqQ", "pqP", "qpP", "qpQ", "pqQP", "qpPQ", "pr"]), run_two, 60, 60, "fixed histories with providers on two switches", workers=1),
]
