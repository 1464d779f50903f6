from ..nethist import *
from ..core import Sub

W = dict(prov=5, unprov=1, sub=6, unsub=2, send=10, ctl=3, msg=2, addr=1, close=1, attach=2, cut=1, wait=1, subs=2, provs=1)

def judge(h):
  w, ctx = h.w, h.ctx
  by_value = {s["value"]["n"]: s for s in h.sends if s["kind"] == "data"}
  for ep in w.eps:
    got, last = {}, {}
    ctl_got = []
    for m in ep.since(h.marks[ep.idx]):
      if isinstance(m, TopicControlMessage): ctl_got.append(m)
      if not isinstance(m, TopicDataMessage): continue
      data = m.data.data
      s = by_value.get(data.get("n")) if isinstance(data, dict) else None
      if s is None: raise Violation(f"endpoint {ep.idx} received topic data nobody sent in this phase: {m.topic} {data!r}")
      n = data["n"]
      if m.topic != s["topic"] or data != s["value"]: raise Violation(f"endpoint {ep.idx} received an altered message: sent {s['topic']} {s['value']!r}, got {m.topic} {data!r}")
      if n in got: raise Violation(f"endpoint {ep.idx} received message {n} twice")
      got[n] = True
      if ep.idx not in s["may"]: raise Violation(f"endpoint {ep.idx} received message {n} on topic {m.topic} without a subscription")
      k = (s["ep"].idx, m.topic)
      if last.get(k, 0) > n: raise Violation(f"endpoint {ep.idx} received message {n} of {k} after {last[k]}")
      last[k] = n
    for n, s in by_value.items():
      if ep.idx in s["must"]:
        ctx.hit(); ctx.label("across switches" if s["ep"].switch != ep.switch else "one switch")
        if n not in got: raise Violation(f"endpoint {ep.idx} subscribes to topic {s['topic']} but did not receive message {n} sent by {s['ep'].idx}")
    if h.quiet and ep.open:
      for t in TOPICS:
        # controls included: exactly the sender's sequence, in order
        sent = [("d", s["value"]["n"]) if s["kind"] == "data" else ("c", s["value"]) for s in h.sends if s["topic"] == t and ep.idx in s["must"]]
        seen = [("d", m.data.data["n"]) if isinstance(m, TopicDataMessage) else ("c", m.paused) for m in ep.since(h.marks[ep.idx]) if isinstance(m, (TopicDataMessage, TopicControlMessage)) and m.topic == t]
        if sent != seen: raise Violation(f"endpoint {ep.idx} topic {t}: sent {sent}, received {seen}")
        if sent: ctx.label("controls in sequence" if any(k == "c" for k, _ in sent) else "data sequence")
    # what the client's own topic receivers hand to the program
    if not ep.raw and ep.open:
      for t, (kind, obj, log, *_r) in ep.apis.items():
        if (ep.idx, t) not in h.api_marks or t in h.touched[ep.idx]: continue
        want = [m.data.data if isinstance(m, TopicDataMessage) else m.paused for m in ep.since(h.marks[ep.idx]) if isinstance(m, (TopicDataMessage, TopicControlMessage)) and m.topic == t]
        have = [d.data if hasattr(d, "data") else d.paused for d in log[h.api_marks[(ep.idx, t)]:]]
        if have: ctx.label("api " + kind)
        if have != want: raise Violation(f"endpoint {ep.idx} topic {t}: the {kind} object delivered {have}, the client received {want}")

def run(case, ctx): run_history(case, ctx, judge)

SUBS = [Sub("delivery", lambda: case_strategy(W), run, 2400, 60000, "histories of subscribe/unsubscribe/provide/withdraw/send/pause/connect/disconnect on random trees of 1-4 switches and 3-6 endpoints, all link kinds and delays; non-trivial: at least one message had to be delivered to a stable subscriber")]
