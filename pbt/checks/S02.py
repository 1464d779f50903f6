from .S01 import *
from . import S01
from streamtasks.client.topic import PrioritizedSequentialInTopicSynchronizer

TECHNIQUE = "property-based testing (Hypothesis): generated message and pause histories with many ties over prioritised topics against a set-of-states reference model and a priority order oracle"
NOTE = "Random search with shrinking in virtual time through real clients and a switch; consumers may be slow."

def priorities(): return st.lists(st.sampled_from([None, 0, 1, 1, 2, 5, -1]), min_size=4, max_size=4)
def make(prio):
  def f():
    s = PrioritizedSequentialInTopicSynchronizer()
    for i, p in enumerate(prio):
      if p is not None: s.set_priority(i + 1, p)
    return s
  return f
def effective(prio): return {i + 1: p or 0 for i, p in enumerate(prio)}

def events(k=4):
  return st.one_of(
    st.tuples(st.just("data"), st.integers(1, k), st.sampled_from([0, 1, 2, 3, 3, 4, 5, 6])), st.tuples(st.just("data"), st.integers(1, k), st.sampled_from([1, 2, 3, 4])),
    st.tuples(st.just("step"), st.integers(1, k), st.integers(0, 2)), st.tuples(st.just("step"), st.integers(1, k), st.just(1)), st.tuples(st.just("step"), st.integers(1, k), st.just(1)),
    st.tuples(st.just("pause"), st.integers(1, k), st.booleans()),
  ).map(list)
def cases():
  return st.fixed_dictionaries({"k": st.integers(2, 4), "prio": priorities(), "events": st.lists(events(), min_size=4, max_size=30)})

def run(case, ctx):
  prio = effective(case["prio"])
  def after_step(T, new, ctx):
    for (t1, ts1, _), (t2, ts2, _) in zip(new, new[1:]):
      if ts1 == ts2 and t1 != t2 and prio[t1] != prio[t2]:
        ctx.label("tie decided by priority")
        if prio[t1] < prio[t2]: raise Violation(f"at timestamp {ts1} topic {t1} (priority {prio[t1]}) was handed out before topic {t2} (priority {prio[t2]}): {new}")
  S01.run(case, ctx, make(case["prio"]), after_step)

def busy_cases():
  ev = st.tuples(st.integers(1, 4), st.sampled_from([0, 1, 1, 1, 2]), st.sampled_from([0, 0, 0, 0.01, 1, 3])).map(list)
  # all topics move in small steps so that they tie often
  return st.fixed_dictionaries({"k": st.integers(2, 4), "prio": priorities(), "delays": st.lists(st.sampled_from([0, 0, 0.01, 0.5, 2]), min_size=1, max_size=4), "events": st.lists(ev, min_size=6, max_size=40)})

def run_busy(case, ctx):
  prio = effective(case["prio"])
  def judge(T, t, ts, sent, problem):
    for u, msgs in sent.items():
      if u == t or prio[u] <= prio[t]: continue
      done = sum(1 for w, _, _ in T.out if w == u)
      if done == 0: continue           # joining
      if T.busy.get(u) and msgs[done - 1][0] == ts:
        problem(f"topic {t} (priority {prio[t]}) was handed out at {ts} while topic {u} (priority {prio[u]}) was still being handled at {ts}")
      elif done < len(msgs) and msgs[done][0] == ts and not T.busy.get(u) and msgs[done - 1][0] < ts:
        problem(f"topic {t} (priority {prio[t]}) was handed out at {ts} before topic {u} (priority {prio[u]}) at {ts}")
      else: continue
      return
    if any(u != t and prio[u] > prio[t] and any(m[0] == ts for m in sent[u]) for u in sent): ctx.label("tie decided by priority")
  S01.run_busy(case, ctx, make(case["prio"]), judge)

SUBS = [
  Sub("model", cases, run, quick=1500, thorough=40000, rule="A case is non-trivial if some message had to wait for another topic."),
  Sub("busy", busy_cases, run_busy, quick=1500, thorough=40000, rule="A case is non-trivial if at least two topics carried messages."),
]
