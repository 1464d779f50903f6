from ..taskrig import *
from ..core import Sub
from streamtasks.system.tasks.gate import GateConfig, GateTaskHost
GateTask = hosted(GateTaskHost)

TECHNIQUE = "property-based testing (Hypothesis): generated histories of control values, invalid controls, pauses and data against a state-machine reference, synchronised or not, in virtual time"
NOTE = "Random search with shrinking; one gate between a client for all its topics; pause states are compared whenever nothing is under way any more."
IN, CONTROL, OUT = 10, 11, 50

def cases(sync):
  content = st.one_of(msgpack_value(4).filter(lambda v: v is not None and not isinstance(v, bytes)), st.dictionaries(st.sampled_from(["value", "data", "x"]), msgpack_value(3), max_size=2))
  control = st.one_of(st.sampled_from([0, 1, 0.5, 0.5000001, 0.4999, -1, 1e9, NAN, INF, -INF]), st.sampled_from([0.0, 1.0]), st.sampled_from([0.0, 1.0]))
  step = st.sampled_from([0, 0, 1, 2, 3])
  op = st.one_of(
    st.tuples(st.just("data"), step, content, st.integers(1, 3)).map(list), st.tuples(st.just("data"), step, content, st.integers(1, 1)).map(list),
    st.tuples(st.just("control"), step, control).map(list), st.tuples(st.just("control"), step, control).map(list),
    st.tuples(st.just("bad"), step, bad_messages(st.just(1), BAD_NUM)).map(list),
    st.tuples(st.just("late"), st.sampled_from([IN, CONTROL]), st.integers(1, 5), control).map(list),
    st.tuples(st.just("pause"), st.sampled_from([IN, CONTROL]), st.booleans()).map(list))
  return st.fixed_dictionaries({"sync": st.just(sync), "fail": st.sampled_from(["open", "closed"]), "initial": st.booleans(), "link": links(),
    "start": st.integers(0, 10**13), "ops": st.lists(op, min_size=6, max_size=30)})

def number(m):
  return isinstance(m, dict) and isinstance(m.get("timestamp"), int) and isinstance(m.get("value"), (int, float))

def run(case, ctx):
  async def main():
    config = GateConfig.model_validate({"fail_mode": case["fail"], "synchronized": case["sync"], "initial_control": case["initial"], "control_topic": CONTROL, "in_topic": IN, "out_topic": OUT})
    rig = await Rig().start(lambda c: GateTask(c, config), [IN, CONTROL], [OUT], case["link"])
    s = {"control": case["initial"], "cp": False, "err": False, "ip": False}
    want, seen_open = [], [False, False]
    def is_open(): return s["control"] and not s["ip"] and not (case["fail"] == "closed" and (s["cp"] or s["err"]))
    def deliver(t, item):
      k, v = item
      if t == CONTROL:
        if k == "p": s["cp"] = v
        elif number(v): s["control"], s["err"] = v["value"] > 0.5, False
        else: s["err"] = True
      elif k == "p": s["ip"] = v
      else:
        seen_open[is_open()] = True
        if is_open(): want.append(v)
    model = SyncModel([IN, CONTROL], deliver, prio={CONTROL: 1, IN: 0}, sync=case["sync"])
    now = {IN: case["start"], CONTROL: case["start"]}
    got, paused = [], False
    def take():
      nonlocal paused
      for _, k, v, _ in rig.take():
        if k == "d": got.append(v)
        else:
          if v == paused: ctx.label("pause state told again")
          paused = v
      rig.check()
    def compare(op):
      if not same(got, want): raise Violation(f"after {op}: forwarded {got[len(want) - 2:]} expected {want[-2:]} ({len(got)} / {len(want)} messages), state {s}")
      if paused != (not is_open()): raise Violation(f"after {op}: output paused is {paused} although the gate is {'open' if is_open() else 'closed'}, state {s}")
    take(); compare("start")
    nonce = 0
    for op in case["ops"]:
      k = op[0]
      items = []
      if k == "data":
        for i in range(op[3]):
          now[IN] += op[1]
          nonce += 1
          m = {**(op[2] if isinstance(op[2], dict) else {"content": op[2]}), "n": nonce, "timestamp": now[IN]}
          if not case["sync"] and op[1] == 3: m = op[2]            # anything goes through when nothing is synchronised
          items.append((IN, ("d", m)))
      elif k == "control":
        now[CONTROL] += op[1]
        items.append((CONTROL, ("d", {"timestamp": now[CONTROL], "value": op[2]})))
      elif k == "bad":
        m = op[2]
        if isinstance(m, dict) and isinstance(m.get("timestamp"), int):
          now[CONTROL] += op[1]
          m = {**m, "timestamp": now[CONTROL]}
        items.append((CONTROL, ("d", m)))
      elif k == "late":
        if model.pending or now[op[1]] < op[2]: continue
        ctx.label("late message")
        items.append((op[1], ("d", {"timestamp": now[op[1]] - op[2], "value": op[3]})))
      else: items.append((op[1], ("p", op[2])))
      t = items[0][0]
      if any(a == "p" for a, _ in model.q[t]): continue
      if k == "pause" and model.pending and not op[2]: continue
      if case["sync"] and any(x == now[o] for x, o in [(now[t], CONTROL if t == IN else IN)]): ctx.label("same timestamps")
      for t, item in items:
        if item[0] == "p": await rig.pause(t, item[1])
        else: await rig.send(t, item[1])
        model.push(t, item)
      await settle(0.01)
      take(); compare(op)
      if model.pending: ctx.label("waits")
    if all(seen_open): ctx.hit()
    await rig.stop()
  vrun(main)

SUBS = [
  Sub("unsynchronised", lambda: cases(False), run, quick=900, thorough=25000, rule="messages met the gate open and closed"),
  Sub("synchronised", lambda: cases(True), run, quick=1200, thorough=30000, rule="messages met the gate open and closed"),
]
