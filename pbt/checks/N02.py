from ..nethist import *
from ..core import Sub

W = dict(prov=6, unprov=2, sub=8, unsub=4, close=2, attach=2, cut=1, wait=2, send=1, subs=4, provs=2)

def judge(h):
  w, ctx = h.w, h.ctx
  for ep in w.eps:
    if not ep.open: continue
    for t in ep.provided:
      subs = [o.idx for o in w.reachable(ep) if t in o.subs]
      got = w.requested(ep, t)
      ctx.hit(bool(subs)); ctx.label("wanted" if subs else "unwanted")
      if got != bool(subs):
        raise Violation(f"provider {ep.idx} of topic {t}: {'told it is wanted' if got else 'not told it is wanted'}, subscribers are {subs}")

def run(case, ctx): run_history(case, ctx, judge)
SUBS = [
  Sub("single", lambda: case_strategy(W), run, 2400, 60000, "histories on random trees of 1-4 switches and 3-6 endpoints; non-trivial: some provider has a subscriber after a settled phase"),
  Sub("congested", lambda: case_strategy(W, slow=True), lambda c, x: run(dict(c, slow=True), x), 600, 20000, "the same with one operation at a time on links whose sends have to wait"),
]
