from ..nethist import *
from ..core import Sub

W = dict(addr=8, msg=10, close=1, attach=2, cut=1, wait=1, prov=1, sub=1, send=1)

def judge(h):
  w, ctx = h.w, h.ctx
  by_n = {m["value"][0]: m for m in h.msgs}
  for ep in w.eps:
    got, last = set(), {}
    for m in ep.since(h.marks[ep.idx]):
      if not isinstance(m, AddressedMessage): continue
      v = m.data.data
      s = by_n.get(v[0]) if isinstance(v, list) and v else None
      if s is None: raise Violation(f"endpoint {ep.idx} received an addressed message nobody sent in this phase: {v!r}")
      if v != s["value"] or m.address != s["address"] or m.port != s["port"]: raise Violation(f"endpoint {ep.idx} received an altered message: sent {s['address']}:{s['port']} {s['value']!r}, got {m.address}:{m.port} {v!r}")
      if v[0] in got: raise Violation(f"endpoint {ep.idx} received message {v[0]} twice")
      got.add(v[0])
      if ep.idx not in s["may"]: raise Violation(f"endpoint {ep.idx} received message {v[0]} for address {m.address}, which it does not hold (it holds {ep.address})")
      k = (s["ep"].idx, m.address)
      if last.get(k, 0) > v[0]: raise Violation(f"endpoint {ep.idx} received message {v[0]} of sender {k[0]} after {last[k]}")
      last[k] = v[0]
    for n, s in by_n.items():
      if ep.idx in s["must"]:
        ctx.hit(); ctx.label("across switches" if s["ep"].switch != ep.switch else "one switch")
        if n not in got: raise Violation(f"endpoint {ep.idx} holds address {s['address']} but did not receive message {n} sent by {s['ep'].idx}")
  for s in h.msgs:
    if not s["must"] and not s["may"]: ctx.label("nobody holds the address")

def run(case, ctx): run_history(case, ctx, judge)

SUBS = [
  Sub("addressed", lambda: case_strategy(W), run, 2400, 60000, "histories of address changes, messages, connects and disconnects on random trees of 1-4 switches and 3-6 endpoints; non-trivial: a message had to be delivered to the stable owner of its address"),
  Sub("congested", lambda: case_strategy(W, slow=True), lambda c, x: run(dict(c, slow=True), x), 600, 20000, "the same with one operation at a time on links whose sends have to wait"),
]
