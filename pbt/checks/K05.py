from ..taskrig import *
from ..core import Sub
from streamtasks.system.tasks.srlatch import SRLatchConfig, SRLatchTaskHost
from streamtasks.system.tasks.messagedetector import MessageDetectorConfig, MessageDetectorTaskHost
from streamtasks.system.tasks.synchronizer import SynchronizerConfig, SynchronizerTaskHost
import time
SRLatchTask = hosted(SRLatchTaskHost)
MessageDetectorTask = hosted(MessageDetectorTaskHost)
SynchronizerTask = hosted(SynchronizerTaskHost)

TECHNIQUE = "property-based testing (Hypothesis): generated message, pause and time histories against state-machine references (latch, detector with its timers, merging in timestamp order), in virtual time"
NOTE = "Random search with shrinking; of several signals a detector sends in one instant the last one is judged."
OUT = 90
ms = lambda: time.time_ns() // 1_000_000

# ---- latch
def latch_cases():
  value = st.sampled_from([0, 1, 0.5, 0.50001, 1.0, 0.0, -1, 7, NAN, INF])
  op = st.one_of(st.tuples(st.just("num"), st.booleans(), st.integers(0, 3), value).map(list), st.tuples(st.just("num"), st.booleans(), st.integers(0, 3), value).map(list),
    st.tuples(st.just("num"), st.booleans(), st.integers(0, 3), value).map(list),
    st.tuples(st.just("bad"), st.booleans(), bad_messages(st.just(1), BAD_NUM)).map(list), st.tuples(st.just("pause"), st.booleans(), st.booleans()).map(list))
  return st.fixed_dictionaries({"sync": st.booleans(), "default": st.booleans(), "link": links(), "start": st.integers(0, 10**12), "ops": st.lists(op, min_size=5, max_size=30)})

def run_latch(case, ctx):
  async def main():
    SET, RESET = 10, 11
    config = SRLatchConfig.model_validate({"default_value": case["default"], "synchronized": case["sync"], "out_topic": OUT, "set_topic": SET, "reset_topic": RESET})
    rig = await Rig().start(lambda c: SRLatchTask(c, config), [SET, RESET], [OUT], case["link"])
    high, want = {SET: False, RESET: False}, []
    value = case["default"]
    def deliver(t, item):
      nonlocal value
      k, m = item
      if k == "p" or not (isinstance(m, dict) and isinstance(m.get("timestamp"), int) and isinstance(m.get("value"), (int, float))): return
      high[t] = m["value"] > 0.5
      if high[SET] and not high[RESET]: value = True
      if high[RESET] and not high[SET]: value = False
      want.append({"timestamp": m["timestamp"], "value": 1.0 if value else 0.0})
    model = SyncModel([SET, RESET], deliver, sync=case["sync"])
    now = {SET: 2 * case["start"], RESET: 2 * case["start"] + 1}
    got = []
    for op in case["ops"]:
      t = SET if op[1] else RESET
      if any(k == "p" for k, _ in model.q[t]): continue
      if op[0] == "pause":
        if model.pending and not op[2]: continue
        await rig.pause(t, op[2])
        model.push(t, ("p", op[2]))
      else:
        if op[0] == "num": now[t] += 2 * op[2]; m = {"timestamp": now[t], "value": op[3]}
        else:
          m = op[2]
          if isinstance(m, dict) and isinstance(m.get("timestamp"), int): m = {**m, "timestamp": now[t]}
        await rig.send(t, m)
        model.push(t, ("d", m))
      await settle(0.01)
      got += [(e[1], e[2]) for e in rig.take()]
      rig.check()
      if not same(got, [("d", w) for w in want]): raise Violation(f"after {op}: sent {got[-3:]} expected (ending) {want[-3:]}; set/reset {high}")
    if len({w["value"] for w in want}) == 2: ctx.hit()
    await rig.stop()
  vrun(main)

# ---- detector
def detector_cases():
  dt = st.sampled_from([0.0113, 0.0113, 0.307, 0.719, 1.931, 2.377, 5.117])
  op = st.one_of(st.tuples(st.just("msg"), dt, st.integers(-10**6, 10**13)).map(list), st.tuples(st.just("msg"), dt, st.integers(-10**6, 10**13)).map(list),
    st.tuples(st.just("bad"), dt, st.sampled_from([{"timestamp": "x"}, {"value": 1.0}, [], 5, {"timestamp": None}, {"timestamp": INF}, {"timestamp": [1]}])).map(list),
    st.tuples(st.just("pause"), dt, st.booleans()).map(list), st.tuples(st.just("wait"), dt).map(list))
  return st.fixed_dictionaries({"fail": st.sampled_from(["open", "closed"]), "timeout": st.sampled_from([0, 0.0005, 0.253, 1.1, 2.0, 4.4]), "repeat": st.sampled_from([0, 0, 0.51, 1.7, 6.3]),
    "link": links(), "ops": st.lists(op, min_size=3, max_size=25)})

def run_detector(case, ctx):
  async def main():
    IN = 10
    config = MessageDetectorConfig.model_validate({"fail_mode": case["fail"], "time_out": case["timeout"], "repeat_interval": case["repeat"], "in_topic": IN, "signal_topic": OUT})
    rig = await Rig().start(lambda c: MessageDetectorTask(c, config), [IN], [OUT], case["link"], ready=False, near=True)
    t0, offset = vnow(), 0
    timeout = case["timeout"] if case["timeout"] >= 0.001 else None
    s = {"paused": False, "invalid": False, "last": t0}
    # reference: (time, value, clock offset) after each event; time outs in between
    points = []
    def late(t): return timeout is not None and t > s["last"] + timeout - 1e-6
    def value(t): return 0.0 if s["paused"] or late(t) or (s["invalid"] and case["fail"] == "closed") else 1.0
    points.append((t0, value(t0), 0))
    async def advance(dt):
      end = vnow() + dt
      due = s["last"] + timeout if timeout is not None else None
      if due is not None and vnow() - 1e-6 < due < end: points.append((due, value(due), offset))
      await asyncio.sleep(dt)
    await advance(0.0003)
    for op in case["ops"]:
      await advance(op[1])
      t = vnow()
      if op[0] == "msg":
        await rig.send(IN, {"timestamp": op[2], "x": 1})
        s["last"], s["invalid"], offset = t, False, op[2] - ms()
      elif op[0] == "bad":
        await rig.send(IN, op[2])
        s["last"], s["invalid"] = t, True
      elif op[0] == "pause":
        await rig.pause(IN, op[2])
        s["paused"] = op[2]
      points.append((t, value(t), offset))
      rig.check()
    await advance(7.9)
    end = vnow()
    got = rig.take()
    rig.check()
    if any(k != "d" for _, k, _, _ in got): raise Violation(f"the signal's output was paused or resumed: {got}")
    EPS = 1e-4
    def at(t):
      """The state in force at t."""
      best = None
      for p in points:
        if p[0] <= t + EPS: best = p
      return best
    times = [p[0] for p in points]
    prev = None
    instants = []
    for _, _, m, t in got:
      if not (isinstance(m, dict) and set(m) == {"timestamp", "value"} and type(m["timestamp"]) is int and type(m["value"]) is float): raise Violation(f"not a number message: {m}")
      if instants and abs(instants[-1][0] - t) < EPS: instants[-1] = (t, m)
      else: instants.append((t, m))
      prev = t
    shown = [(round(t, 4), m) for t, m in instants]
    if not instants: raise Violation("no signal at all")
    for i, (t, m) in enumerate(instants):
      p = at(t)
      if m["value"] != p[1]: raise Violation(f"signal {m['value']} at {t:.4f}, expected {p[1]}; signals {shown}; expected states {points}")
      if not any(abs(t - x) < EPS for x in times) and not (case["repeat"] and i and abs(t - instants[i - 1][0] - case["repeat"]) < EPS): raise Violation(f"signal at {t:.4f} without a reason; signals {shown}, states {points}")
      want_ts = int(round((t + VEPOCH) * 1000)) + p[2]
      if abs(m["timestamp"] - want_ts) > 2: raise Violation(f"signal at {t:.4f} carries timestamp {m['timestamp']}, expected {want_ts}")
    for i, p in enumerate(points):
      if i + 1 < len(points) and points[i + 1][0] - p[0] < EPS: continue
      last = [m for t, m in instants if t <= p[0] + EPS]
      if not last or last[-1]["value"] != p[1]: raise Violation(f"no signal tells that the state is {p[1]} from {p[0]:.4f} on; signals {shown}; states {points}")
    if case["repeat"]:
      seq = [t for t, _ in instants] + [end]
      for a, b in zip(seq, seq[1:]):
        if b - a > case["repeat"] + EPS: raise Violation(f"no signal between {a:.4f} and {b:.4f} despite a repeat interval of {case['repeat']}")
    if len({p[1] for p in points}) == 2: ctx.hit()
    await rig.stop()
  from ..vloop import VLoop
  VEPOCH = VLoop.EPOCH_NS / 1e9
  vrun(main)

# ---- synchroniser
def sync_cases():
  idx = st.integers(0, 3)
  everything = st.tuples(st.just("all"), st.permutations(list(range(4))).map(list), msgpack_value(2)).map(list)
  op = st.one_of(st.tuples(st.just("data"), idx, st.integers(0, 3), msgpack_value(3)).map(list), st.tuples(st.just("data"), idx, st.integers(0, 3), msgpack_value(3)).map(list), everything,
    st.tuples(st.just("late"), idx, st.integers(1, 5)).map(list), st.tuples(st.just("none"), idx, st.sampled_from([{"x": 1}, [], 5, {"timestamp": "a"}, {"timestamp": NAN}])).map(list),
    st.tuples(st.just("pause"), idx, st.booleans()).map(list))
  return st.fixed_dictionaries({"n": st.sampled_from([2, 3, 4, 1]), "link": links(), "start": st.integers(0, 10**12), "ops": st.lists(op, min_size=5, max_size=30)})

def run_sync(case, ctx):
  async def main():
    n = case["n"]
    ins, outs = [10 + i for i in range(n)], [30 + i for i in range(n)]
    config = SynchronizerConfig.model_validate({"topics": list(zip(ins, outs))})
    rig = await Rig().start(lambda c: SynchronizerTask(c, config), ins, outs, case["link"])
    want, paused = [], {}
    def deliver(t, item):
      if item[0] == "d": want.append((t + 20, item[1]))
      else: paused[t + 20] = item[1]
    model = SyncModel(ins, deliver)
    now = {t: case["start"] * 4 + i for i, t in enumerate(ins)}
    got, gp, nonce, waited = [], {}, 0, False
    async def put(t, item):
      if any(k == "p" for k, _ in model.q[t]): return
      if item[0] == "p":
        if model.pending and not item[1]: return
        await rig.pause(t, item[1])
      else: await rig.send(t, item[1])
      model.push(t, item)
      await settle(0.01)
    for op in case["ops"]:
      nonce += 1
      if op[0] == "all":
        top = max(now.values()) // 4 * 4 + 4
        for x in op[1]:
          if x >= n: continue
          now[ins[x]] = top + x
          await put(ins[x], ("d", {"timestamp": top + x, "n": nonce, "v": op[2]}))
      else:
        t = ins[op[1] % n]
        if op[0] == "data":
          now[t] += 4 * op[2]
          await put(t, ("d", {"timestamp": now[t] if op[2] < 3 else float(now[t]), "n": nonce, "v": op[3]}))
        elif op[0] == "late":
          if model.pending or now[t] < 4 * op[2]: continue
          await put(t, ("d", {"timestamp": now[t] - 4 * op[2], "n": nonce}))
        elif op[0] == "none": await put(t, ("d", op[2]))
        else: await put(t, ("p", op[2]))
      for t, k, v, _ in rig.take():
        if k == "d": got.append((t, v))
        else: gp[t] = v
      rig.check()
      if not same([list(x) for x in got], [list(x) for x in want]): raise Violation(f"after {op}: sent {got[len(want) - 2:]} expected {want[-2:]} ({len(got)} / {len(want)} messages)")
      for t in outs:
        if gp.get(t, False) != paused.get(t, False): raise Violation(f"after {op}: output {t} paused is {gp.get(t, False)}, its input's pause state is {paused.get(t, False)}")
      waited |= model.pending > 0
    if waited and len({t for t, _ in want}) >= 2: ctx.hit()
    await rig.stop()
  vrun(main)

SUBS = [
  Sub("latch", latch_cases, run_latch, quick=900, thorough=20000, rule="both states were told"),
  Sub("detector", detector_cases, run_detector, quick=1100, thorough=20000, rule="both signals were due"),
  Sub("synchroniser", sync_cases, run_sync, quick=900, thorough=20000, rule="a message had to wait and messages of at least two inputs were sent"),
]
