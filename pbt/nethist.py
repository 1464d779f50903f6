"""Histories of operations on random simulated networks, with the reference model that the
network checks (N01-N04, N06) judge after every settled phase."""
from .gen import *
from .core import Violation
from .vloop import vrun
from .world import *

TOPICS = [1, 2, 3]
ADDRS = [100, 101, 102]

def case_strategy(weights, *, phases=(3, 8), eps=(3, 6), raw=True, slow=False):
  """weights: operation name -> how often it is drawn."""
  ep = st.integers(0, 5)
  t = st.sampled_from([1, 1, 2, 3])
  makers = {
    "prov": st.tuples(st.just("prov"), ep, t, st.sampled_from([0, 0, 1, 4, 20])),
    "unprov": st.tuples(st.just("unprov"), ep, t),
    "reprice": st.tuples(st.just("reprice"), ep, t, st.sampled_from([0, 1, 4, 9, 20])),
    "sub": st.tuples(st.just("sub"), ep, t),
    "unsub": st.tuples(st.just("unsub"), ep, t),
    "subs": st.tuples(st.just("subs"), ep, st.integers(1, 7)),
    "provs": st.tuples(st.just("provs"), ep, st.integers(1, 7), st.sampled_from([0, 0, 1, 4])),
    "send": st.tuples(st.just("send"), t, st.integers(1, 3)),
    "ctl": st.tuples(st.just("ctl"), t, st.booleans()),
    "addr": st.tuples(st.just("addr"), ep, st.sampled_from([None, *ADDRS])),
    "msg": st.tuples(st.just("msg"), ep, st.sampled_from([*ADDRS, 999]), st.integers(0, 3)),
    "close": st.tuples(st.just("close"), ep, st.booleans()),
    "attach": st.tuples(st.just("attach"), st.integers(0, 3)),
    "cut": st.tuples(st.just("cut"), st.integers(0, 3), st.integers(0, 1)),
    "wait": st.tuples(st.just("wait"), st.sampled_from([0.0001, 0.01, 0.4, 2])),
  }
  op = st.sampled_from([n for n, w in weights.items() for _ in range(w)]).flatmap(lambda n: makers[n]).map(list)
  return st.integers(1, 4).flatmap(lambda k: st.fixed_dictionaries({
    "switches": st.just(k),
    "edges": st.lists(edge_strategy(st, delays), min_size=k - 1, max_size=k - 1),
    "eps": st.lists(ep_strategy(st, delays, raw), min_size=eps[0], max_size=eps[1]),
    "phases": st.lists(st.lists(op, min_size=1, max_size=6), min_size=phases[0], max_size=phases[1]),
    "slow": st.booleans() if slow else st.just(False),
  }))

class Hist:
  """Runs one case. A judge gets `phase_end(h)` with the model in h.w and the phase's records."""
  def __init__(self, case, ctx, providers="single"):
    self.case, self.ctx, self.providers = case, ctx, providers
    self.serial = 0
    self.repriced = set()                               # topics a provider announced again at another cost
    self.held = {}                                      # address -> everybody who ever held it
    self.on_change = lambda w: None

  async def run(self, judge):
    case, ctx = self.case, self.ctx
    w = self.w = World(case, ctx)
    await w.start()
    n = len(w.eps)
    self.ever = set()                                   # every (topic, state) somebody set
    self.ctl = {}                                       # topic -> (who set the pause state last, state)
    last_provider_switch, last_owner_switch = {}, {}
    for ph, phase in enumerate(case["phases"]):
      self.marks = {ep.idx: ep.count() for ep in w.eps}
      self.api_marks = {(ep.idx, t): len(x[2]) for ep in w.eps for t, x in ep.apis.items()}
      self.sends = []                                   # data messages: dicts
      self.msgs = []
      self.quiet = all(o[0] in ("send", "ctl", "msg", "wait") for o in phase)
      subs_start = {ep.idx: set(ep.subs) for ep in w.eps}
      touched = self.touched = {ep.idx: set() for ep in w.eps}         # topics a sub/unsub touched in this phase
      moved = set()                                     # topics whose provider changed in this phase
      net_changed = False
      closed_in_phase = set()
      owner_start = {ep.address: ep for ep in w.eps if ep.open and ep.address is not None}
      addr_touched = set()
      self.moves = set()                                # (endpoint, topic) provided or withdrawn in this phase
      for op, *a in phase:
        self.on_change(w)
        if case.get("slow"): await settle()
        if op in ("attach", "cut"):
          if not w.edges: continue
          e = w.edges[a[0] % len(w.edges)]
          if op == "attach" and not e["up"] and e["links"] is None:
            # two parts that both provide a topic may only meet in multi-provider mode on one switch
            if not self.may_join(e): continue
            await settle()
            ctx.trace("attach", e["a"], e["b"]); ctx.label("attach"); await w.attach(e); net_changed = True
            await settle()
          elif op == "cut" and e["up"]:
            await settle()
            ctx.trace("cut", e["a"], e["b"], "side", a[1]); ctx.label("cut"); w.cut(e, a[1]); net_changed = True
            await settle()
          continue
        if op == "wait":
          await asyncio.sleep(a[0]); continue
        if op in ("send", "ctl"):
          t = a[0]
          prov = [o for o in w.eps if o.open and t in o.provided]
          if not prov: continue
          if op == "ctl" and len(prov) > 1: continue
          for ep in prov if op == "ctl" else prov[:1]:
            if op == "ctl":
              ctx.trace("ctl", ep.idx, t, a[1])
              self.ever.add((t, a[1]))
              if ep.raw or ep.paused.get(t, False) != a[1]:    # a client sends a state only once
                self.sends.append(dict(kind="ctl", ep=ep, topic=t, value=a[1]))
                self.ctl[t] = (ep, a[1])
              ep.paused[t] = a[1]
              await w.control(ep, t, a[1])
            else:
              for _ in range(a[1]):
                self.serial += 1
                v = {"n": self.serial, "b": bytes([self.serial % 256]) * 3, "l": [None, True, "ü", -1.5]}
                self.sends.append(dict(kind="data", ep=ep, topic=t, value=v))
                ctx.trace("send", ep.idx, t, self.serial)
                await w.send(ep, t, dict(v))
          continue
        ep = w.eps[a[0] % n]
        if not ep.open: continue
        if op == "close":
          ctx.trace("close", ep.idx, "switch side" if a[1] else "own side"); ctx.label("close"); w.close(ep, a[1])
          closed_in_phase.add(ep.idx)
          for t in ep.provided: moved.add(t); self.moves.add((ep.idx, t, ep.provided[t] + ep.cost))
          if ep.address is not None: addr_touched.add(ep.address)
          continue
        if op == "addr":
          addr = a[1]
          if addr is not None and any(o.open and o is not ep and o.address == addr for o in w.eps): continue
          if addr is not None and (self.providers != "single" or last_owner_switch.get(addr, ep.switch) != ep.switch): await settle()
          if addr is not None: last_owner_switch[addr] = ep.switch
          addr_touched |= {ep.address, addr}
          self.held.setdefault(addr, set()).add(ep.idx)
          ctx.trace("address", ep.idx, addr); await w.set_address(ep, addr); continue
        if op == "msg":
          self.serial += 1
          self.msgs.append(dict(ep=ep, address=a[1], port=a[2], value=[self.serial, b"\x00\xff"]))
          ctx.trace("msg", ep.idx, "->", a[1], a[2], self.serial)
          await w.send_addr(ep, a[1], a[2], [self.serial, b"\x00\xff"]); continue
        def may_provide(t):
          if t in ep.subs or t in ep.provided: return False
          others = [o for o in w.eps if o is not ep and o.open and t in o.provided]
          return not (others and (self.providers == "single" or any(o.switch != ep.switch for o in others)))
        if op in ("subs", "provs"):                          # several topics announced in one message
          ts = [t for i, t in enumerate(TOPICS) if a[1] >> i & 1]
          if op == "subs":
            if not ep.raw and ep.api != "reg": continue
            ts = [t for t in ts if t not in ep.provided]
            if not ts: continue
            touched[ep.idx].update(ts)
            ctx.trace("subscribe/unsubscribe", ep.idx, ts); ctx.label("several topics in one message")
            await w.toggle_subscriptions(ep, ts)
          elif ep.raw:
            ts = [t for t in ts if t in ep.provided or may_provide(t)]
            if not ts: continue
            for t in ts:
              if t not in ep.provided and last_provider_switch.get(t, ep.switch) != ep.switch: await settle()
            for t in ts:
              last_provider_switch[t] = ep.switch
              moved.add(t); self.moves.add((ep.idx, t, ep.provided.get(t, a[2]) + ep.cost))
            ctx.trace("provide/withdraw", ep.idx, ts, a[2]); ctx.label("several topics in one message")
            await w.toggle_provided(ep, ts, a[2])
          continue
        t = a[1]
        if op == "prov":
          if not may_provide(t): continue
          if t in last_provider_switch and last_provider_switch[t] != ep.switch: await settle()
          last_provider_switch[t] = ep.switch
          moved.add(t); self.moves.add((ep.idx, t, (a[2] if ep.raw else 0) + ep.cost))
          ctx.trace("provide", ep.idx, t, a[2] if ep.raw else 0); await w.provide(ep, t, a[2] if ep.raw else 0)
        elif op == "unprov":
          if t not in ep.provided: continue
          moved.add(t); self.moves.add((ep.idx, t, ep.provided[t] + ep.cost))
          ctx.trace("withdraw", ep.idx, t); await w.unprovide(ep, t)
        elif op == "reprice":
          if not ep.raw or t not in ep.provided: continue
          ctx.trace("reprice", ep.idx, t, a[2]); ctx.label("reprice"); moved.add(t); self.repriced.add(t); await w.reprice(ep, t, a[2])
        elif op == "sub":
          if t in ep.provided or t in ep.subs: continue
          touched[ep.idx].add(t)
          ctx.trace("subscribe", ep.idx, t); await w.subscribe(ep, t)
        elif op == "unsub":
          if t not in ep.subs: continue
          touched[ep.idx].add(t)
          ctx.trace("unsubscribe", ep.idx, t); await w.unsubscribe(ep, t)
      await settle()
      # who must / may have received what in this phase
      for s in self.sends:
        ep, t = s["ep"], s["topic"]
        certain = not net_changed and t not in moved and ep.idx not in closed_in_phase
        s["must"] = {o.idx for o in w.reachable(ep) if t in subs_start[o.idx] and t not in touched[o.idx]} if certain else set()
        s["may"] = {o.idx for o in w.eps if o is not ep and (t in subs_start[o.idx] or t in touched[o.idx])}
      for m in self.msgs:
        own = owner_start.get(m["address"])
        certain = not net_changed and m["address"] not in addr_touched and m["ep"].idx not in closed_in_phase
        ok = certain and own is not None and own.open and m["ep"].open and (own is m["ep"] or w.distance(m["ep"], own) is not None)
        m["must"] = {own.idx} if ok else set()
        if certain: m["may"] = m["must"]
        else: m["may"] = {o.idx for o in w.eps if o.address == m["address"] or o is own or m["address"] in o.address_history}
      for ep in w.eps: ctx.trace("   ", ep.idx, "prov", dict(ep.provided), "subs", sorted(ep.subs), "addr", ep.address, "open", ep.open)
      judge(self)
      for ep in w.eps: ep.address_history.clear()

  def may_join(self, e):
    w = self.w
    ca, cb = w.component(e["a"]), w.component(e["b"])
    for t in TOPICS:
      pa = {o.switch for o in w.eps if o.open and t in o.provided and o.switch in ca}
      pb = {o.switch for o in w.eps if o.open and t in o.provided and o.switch in cb}
      if pa and pb and e["b"] not in ca: return False
    return True

def run_history(case, ctx, judge, providers="single"):
  async def main(): await Hist(case, ctx, providers).run(judge)
  vrun(main)
