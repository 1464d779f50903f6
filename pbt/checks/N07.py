from ..gen import *
from ..core import Sub, Violation
from ..vloop import vrun
from ..net import *

T = [1, 2, 3, 4]
def ids(): return st.lists(st.sampled_from(T), max_size=4)
def case():
  side = st.sampled_from(["in", "out"])
  op = st.one_of(
    st.tuples(st.just("reg"), side, ids()), st.tuples(st.just("unreg"), side, ids()),
    st.tuples(st.just("reg"), side, ids()), st.tuples(st.just("unreg"), side, ids()),
    st.tuples(st.just("force"), side, ids()),
    st.tuples(st.just("enter"), side, ids()), st.tuples(st.just("leave"), st.integers(0, 9)),
    st.tuples(st.just("recv+"), st.integers(0, 2)), st.tuples(st.just("recv-"), st.integers(0, 2)),
    st.tuples(st.just("topic"), side, st.sampled_from(T), st.booleans()),
    st.tuples(st.just("ctx"), side, st.sampled_from(T)),
  ).map(list)
  return st.fixed_dictionaries({"ops": st.lists(op, min_size=3, max_size=25), "receivers": st.lists(st.sets(st.sampled_from(T), max_size=3).map(sorted), min_size=3, max_size=3),
    "arg": st.sampled_from(["list", "set", "iter", "tuple"]), "kind": st.sampled_from(["plain", "raw", "cost"]), "burst": st.booleans()})

def run(case, ctx):
  async def main():
    a, b = make_link(case["kind"])
    peer = LinkRecorder(a)
    c = Client(b)
    rec = Recorder(c)
    await rec.start_recv()
    c.start()
    count = {"in": {}, "out": {}}
    announced = {"in": set(), "out": set()}
    seen = 0
    mk = {"list": list, "set": set, "iter": iter, "tuple": tuple}[case["arg"]]
    arg = lambda x: mk(sorted(set(x)) if case["arg"] == "set" else x)
    val = lambda x: sorted(set(x)) if case["arg"] == "set" else x
    contexts, receivers, depth, topics, rctx = [], [TopicsReceiver(c, t) for t in case["receivers"]], [0, 0, 0], {}, {}
    def add(side, xs):
      for x in xs: count[side][x] = count[side].get(x, 0) + 1
    def rem(side, xs, force=False):
      for x in xs:
        n = count[side].get(x, 0)
        if force or n <= 1: count[side].pop(x, None)
        else: count[side][x] = n - 1
    async def check():
      nonlocal seen
      await settle(10)
      for m in peer.messages[seen:]:
        if isinstance(m, InTopicsChangedMessage): side, plus, minus = "in", set(m.add), set(m.remove)
        elif isinstance(m, OutTopicsChangedRecvMessage): side, plus, minus = "out", {p.id for p in m.add}, {p.id for p in m.remove}
        else: continue
        if not plus and not minus: raise Violation(f"an announcement of nothing: {m}")
        ctx.label("announced", 1); ctx.hit()
        if plus & announced[side]: raise Violation(f"{side}: {plus & announced[side]} announced although already announced")
        if minus - announced[side]: raise Violation(f"{side}: {minus - announced[side]} withdrawn although not announced")
        announced[side] = (announced[side] | plus) - minus
      seen = len(peer.messages)
      for side in count:
        if announced[side] != set(count[side]): raise Violation(f"{side}: announced {sorted(announced[side])}, registrations {count[side]}")
      mark = len(rec.messages)
      for t in T: await a.send(TopicDataMessage(t, RawData([t])))
      await settle(10)
      got = [m.topic for m in rec.messages[mark:] if isinstance(m, TopicDataMessage)]
      if got != [t for t in T if t in count["in"]]: raise Violation(f"the client lets data of topics {got} through, it subscribes to {sorted(count['in'])}")
    for op, *x in case["ops"]:
      ctx.trace(op, *x)
      if op == "reg":
        add(x[0], val(x[1])); await (c.register_in_topics if x[0] == "in" else c.register_out_topics)(arg(x[1]))
      elif op in ("unreg", "force"):
        f = op == "force"
        if f: ctx.label("force")
        rem(x[0], val(x[1]), f); await (c.unregister_in_topics if x[0] == "in" else c.unregister_out_topics)(arg(x[1]), force=f)
      elif op == "enter":
        xs = list(x[1])
        cm = c.in_topics_context(xs) if x[0] == "in" else c.out_topics_context(xs)
        add(x[0], xs); contexts.append((x[0], xs, cm)); await cm.__aenter__()
      elif op == "leave":
        if not contexts: continue
        side, xs, cm = contexts.pop(x[0] % len(contexts))
        rem(side, xs); await cm.__aexit__(None, None, None); ctx.label("context")
      elif op == "recv+":
        depth[x[0]] += 1
        if depth[x[0]] == 1: add("in", case["receivers"][x[0]])
        await receivers[x[0]].start_recv()
      elif op == "recv-":
        if depth[x[0]] == 0: continue
        depth[x[0]] -= 1
        if depth[x[0]] == 0: rem("in", case["receivers"][x[0]])
        await receivers[x[0]].stop_recv(); ctx.label("receiver")
      elif op == "topic":
        k = (x[0], x[1])
        if k not in topics: topics[k] = [c.in_topic(x[1]) if x[0] == "in" else c.out_topic(x[1]), False]
        if topics[k][1] != x[2]: (add if x[2] else rem)(x[0], [x[1]])
        topics[k][1] = x[2]
        await topics[k][0].set_registered(x[2])
        if topics[k][0].is_registered != x[2]: raise Violation(f"is_registered is {topics[k][0].is_registered} after set_registered({x[2]})")
      elif op == "ctx":
        k = (x[0], x[1])
        if k in rctx: rem(x[0], [x[1]]); await rctx.pop(k).__aexit__(None, None, None)
        else:
          o = c.in_topic(x[1]) if x[0] == "in" else c.out_topic(x[1])
          rctx[k] = o.RegisterContext(); add(x[0], [x[1]]); await rctx[k].__aenter__()
      if not case["burst"]: await check()
    await check()
  vrun(main)

SUBS = [Sub("registrations", case, run, 1500, 40000, "histories of registering, releasing, forced releases, contexts, receivers and topic objects of one client; non-trivial: something was announced")]
