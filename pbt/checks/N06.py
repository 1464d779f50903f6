from ..nethist import *
from ..core import Sub

W = dict(prov=5, unprov=1, sub=7, unsub=3, ctl=9, close=1, attach=2, cut=1, wait=2, send=1, subs=2, provs=1)

def judge(h):
  w, ctx = h.w, h.ctx
  for t in TOPICS:
    prov = [p for p in w.eps if p.open and t in p.provided]
    for p in prov:
      sent = [s["value"] for s in h.sends if s["kind"] == "ctl" and s["topic"] == t and s["ep"] is p]
      if t not in h.ctl or h.ctl[t][0] is not p: continue
      value = h.ctl[t][1]
      for o in w.reachable(p):
        if t not in o.subs: continue
        seen = [m.paused for m in o.rec.messages if isinstance(m, TopicControlMessage) and m.topic == t]
        ctx.hit(); ctx.label("state paused" if value else "state running")
        if o.switch != p.switch: ctx.label("across switches")
        if not seen or seen[-1] != value: raise Violation(f"topic {t}: provider {p.idx} last set paused={value}, subscriber {o.idx} has seen {seen}")
        if not o.raw and t in o.apis and o.apis[t][0] == "intopic" and o.apis[t][1].is_paused != value:
          raise Violation(f"topic {t}: provider {p.idx} last set paused={value}, subscriber {o.idx}: InTopic.is_paused={o.apis[t][1].is_paused}")
  # nobody is told a state that was never set
  for o in w.eps:
    for m in o.rec.messages:
      if isinstance(m, TopicControlMessage) and (m.topic, m.paused) not in h.ever:
        raise Violation(f"endpoint {o.idx} was told paused={m.paused} for topic {m.topic}, which nobody has set")
  # stable subscribers see every change, in order (and a client sends a state only once)
  if h.quiet:
    for o in w.eps:
      if not o.open: continue
      for t in TOPICS:
        want = [s["value"] for s in h.sends if s["kind"] == "ctl" and s["topic"] == t and o.idx in s["must"]]
        seen = [m.paused for m in o.since(h.marks[o.idx]) if isinstance(m, TopicControlMessage) and m.topic == t]
        if want: ctx.label("sequence")
        if seen != want: raise Violation(f"subscriber {o.idx} topic {t}: pause states sent {want}, received {seen}")
  for p in w.eps:
    if p.open and not p.raw:
      for t, o in p.outs.items():
        if o.is_paused != p.paused.get(t, False): raise Violation(f"provider {p.idx}: OutTopic({t}).is_paused is {o.is_paused}")

def run(case, ctx): run_history(case, ctx, judge)
SUBS = [Sub("pauses", lambda: case_strategy(W), run, 2400, 60000, "histories of pausing, subscribing, providing, connecting on random trees of 1-4 switches and 3-6 endpoints; non-trivial: a provider that set a pause state has a subscriber")]
