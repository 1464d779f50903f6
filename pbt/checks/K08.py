from ..taskrig import *
from ..core import Sub
from ..vloop import VLoop
from streamtasks.system.tasks.repeater import RepeaterConfig, RepeaterTaskHost
from streamtasks.system.tasks.pulsegenerator import PulseGeneratorConfig, PulseGeneratorTaskHost
from streamtasks.system.tasks.replaybuffer import ReplayBufferConfig, ReplayBufferTaskHost
import time, uuid
RepeaterTask = hosted(RepeaterTaskHost)
PulseGeneratorTask = hosted(PulseGeneratorTaskHost)
ReplayBufferTask = hosted(ReplayBufferTaskHost)

TECHNIQUE = "property-based testing (Hypothesis): generated message, pause and play histories against a reference of emission times, contents and timestamps, in virtual time"
NOTE = "Random search with shrinking; emission times are judged to about 3 ms, the start of each further pass of a looping recording to 50 ms."
IN, PLAY, OUT = 10, 11, 90
ms = lambda: time.time_ns() // 1_000_000
E0 = VLoop.EPOCH_NS // 1_000_000
at = lambda t: t * 1000 + E0
TOL = 3

def contents(): return st.fixed_dictionaries({}, optional={"value": msgpack_value(3), "data": st.binary(max_size=5), "x": st.integers(0, 3)})
NO_TS = [{"x": 1}, {}, [], [1, 2], 5, "text", {"timestamp": "x"}, {"timestamp": None, "v": 1}, {"timestamp": INF}, {"timestamp": [1]}]
GAPS = [0, 1, 20, 110, 340]

# ---- pulse generator
def pulse_cases():
  return st.fixed_dictionaries({"interval": st.one_of(st.sampled_from([0.001, 0.5, 1, 60]), st.floats(0.01, 30)), "type": st.sampled_from(["id", "ts"]), "count": st.integers(2, 8), "link": links()})

def run_pulse(case, ctx):
  async def main():
    config = PulseGeneratorConfig.model_validate({"interval": case["interval"], "message_type": case["type"], "out_topic": OUT})
    rig = await Rig().start(lambda c: PulseGeneratorTask(c, config), [], [OUT], case["link"], ready=False, near=True)
    await asyncio.sleep(case["interval"] * (case["count"] - 0.5))
    got = rig.take()
    rig.check()
    if len(got) != case["count"]: raise Violation(f"{len(got)} pulses in {case['count'] - 0.5} intervals of {case['interval']} s: {got}")
    ids = set()
    for i, (_, k, v, t) in enumerate(got):
      if k != "d": raise Violation(f"the output was paused: {got}")
      off = (t - rig.t0 - i * case["interval"]) * 1000
      if abs(off) > TOL: raise Violation(f"pulse {i} came {off:.2f} ms off its time")
      if case["type"] == "ts":
        if not (isinstance(v, dict) and set(v) == {"timestamp"} and isinstance(v["timestamp"], int) and abs(v["timestamp"] - at(t)) <= 2): raise Violation(f"pulse {v!r} sent at {at(t)}")
      else:
        if not (isinstance(v, dict) and set(v) == {"id"} and isinstance(v["id"], str)): raise Violation(f"not an id message: {v!r}")
        uuid.UUID(v["id"])
        if v["id"] in ids: raise Violation(f"id {v['id']} was used twice")
        ids.add(v["id"])
    if len(got) >= 3: ctx.hit()
    await rig.stop()
  vrun(main)

# ---- repeater
def repeater_cases():
  gap = st.sampled_from([0, 1, 5, 50, 130, 1700])
  op = st.one_of(st.tuples(st.just("msg"), gap, st.sampled_from([0, 0, -50, 700, -(10**6)]), contents()).map(list), st.tuples(st.just("msg"), gap, st.sampled_from([0, 0, -50, 700, -(10**6)]), contents()).map(list),
    st.tuples(st.just("bad"), gap, st.sampled_from(NO_TS)).map(list), st.tuples(st.just("pause"), gap, st.booleans()).map(list), st.tuples(st.just("wait"), st.sampled_from([700, 5000])).map(list))
  return st.fixed_dictionaries({"rate": st.one_of(st.sampled_from([1, 10, 2.5, 0.3, 24, 3]), st.floats(0.2, 30)), "closed": st.booleans(), "drag": st.sampled_from([0, 0, 5e-5]), "link": links(), "ops": st.lists(op, min_size=3, max_size=14)})

def run_repeater(case, ctx):
  async def main():
    config = RepeaterConfig.model_validate({"rate": case["rate"], "fail_closed": case["closed"], "in_topic": IN, "out_topic": OUT})
    rig = await Rig().start(lambda c: RepeaterTask(c, config), [IN], [OUT], case["link"])
    gap = 1000 / case["rate"]
    TOL = globals()["TOL"] + 60000 * case["drag"]      # what passing messages on takes
    cur, t0, k, paused, offset = None, None, 0, False, 0     # next tick: t0 + k * gap (in exact ms)
    now = lambda: at(vnow())
    n = 0
    def expected():
      """What is due by now."""
      nonlocal k, t0
      want = []
      while t0 is not None and t0 + k * gap <= now() - TOL / 2:
        if cur is None: t0 = None; break
        if not paused: want.append((t0 + k * gap, cur))
        k += 1
      return want
    async def judge(extra=(), settle_for=0.0005):
      nonlocal n
      want = [*extra, *expected()]
      got = rig.take()
      rig.check()
      data = [(v, at(t)) for _, kd, v, t in got if kd == "d"]
      if len(data) != len(want): raise Violation(f"rate {case['rate']}: sent {[(v, t - E0) for v, t in data]}, expected {[(c, t - E0) for t, c in want]}")
      for (v, t), (due, c) in zip(data, want):
        if abs(t - due) > TOL: raise Violation(f"rate {case['rate']}: {v!r} sent {t - due:.2f} ms off its time")
        if c[0] == "raw":
          if not same(v, c[1]): raise Violation(f"sent {v!r} instead of {c[1]!r}")
        else:
          if not isinstance(v, dict) or not same({**v, "timestamp": 0}, {**c[1], "timestamp": 0}): raise Violation(f"sent {v!r} instead of {c[1]!r}")
          if not isinstance(v.get("timestamp"), int) or abs(v["timestamp"] - (t + c[2])) > 2 + 80000 * case["drag"]: raise Violation(f"sent timestamp {v.get('timestamp')!r} instead of {t + c[2]}")
          n += 1
      for _, kd, v, _ in got:
        if kd == "p" and v != paused: raise Violation(f"the output reported paused={v}, but the input is paused={paused}")
    for op in case["ops"]:
      left = op[1] / 1000
      while True:
        if t0 is not None and left > 0:        # go from tick to tick, so that nothing is sent or changed too close to one
          pass
        await asyncio.sleep(left)
        if t0 is None: break
        phase = (now() - t0) % gap
        if min(phase, gap - phase) > 2 * TOL: break
        left = 0.001
      await judge()
      extra = []
      if op[0] == "msg":
        m = {**op[3], "timestamp": ms() + op[2]}
        offset = op[2]
        cur = ("msg", m, offset)
        if t0 is None:
          t0, k = now(), 0
          if not paused: extra = [(t0, cur)]
          k = 1
        await rig.send(IN, m)
      elif op[0] == "bad":
        if paused and not case["closed"]: continue
        if case["closed"]: cur = None
        else: extra = [(now(), ("raw", op[2]))]
        await rig.send(IN, op[2])
      elif op[0] == "pause":
        paused = op[2]
        await rig.pause(IN, op[2])
      await asyncio.sleep(0.0005 + 40 * case["drag"])
      await judge(extra)
    await asyncio.sleep(2.2)
    while t0 is not None and not 2 * TOL < (now() - t0) % gap < gap - 2 * TOL: await asyncio.sleep(0.001)
    await judge()
    if n >= 3: ctx.hit()
    await rig.stop()
  vrun(main, drag=case["drag"])

# ---- replay buffer
def replay_cases(loop):
  step = st.sampled_from([0, 5, 30, 30, 200, 200, 1000, -50])
  msg = st.tuples(st.just("msg"), st.sampled_from(GAPS), step, contents()).map(list)
  op = st.one_of(msg, msg, msg, st.tuples(st.just("none"), st.sampled_from(GAPS), st.sampled_from(NO_TS)).map(list),
    st.tuples(st.just("play"), st.sampled_from(GAPS), st.sampled_from([1, 1, 1, 0.7, 0, 0, 0.5, 0.3, 2])).map(list), st.tuples(st.just("play"), st.sampled_from(GAPS), st.sampled_from([1, 0])).map(list),
    st.tuples(st.just("badplay"), st.sampled_from(GAPS), st.sampled_from([{}, 5, "x", {"value": 0}, {"value": 1}, {"timestamp": 5}, {"timestamp": 1, "value": "x"}])).map(list),
    st.tuples(st.just("pause"), st.sampled_from(GAPS), st.booleans()).map(list), st.tuples(st.just("wait"), st.sampled_from([300, 700, 2000] if not loop else [300, 700])).map(list))
  return st.fixed_dictionaries({"loop": st.just(loop), "offset": st.sampled_from([0, -5000, 10**6, 40]), "link": links(), "rec": st.lists(msg, min_size=0, max_size=4), "bulk": st.sampled_from([0, 0, 0, 5, 40] if not loop else [0, 0, 0, 5]), "ops": st.lists(op, min_size=3, max_size=14)})

class Player:
  """What a replay buffer should do, told what was observed."""
  def __init__(self, loop, offset):
    self.loop, self.offset = loop, offset
    self.buffer, self.playing = [], False
    self.active = False            # a play back is under way
    self.plays, self.full_passes = 0, 0
  def begin(self, now):
    if self.playing and not self.active and self.buffer and not self.over:
      self.active, self.pass_start, self.tau = True, now, now
      self.slack = 0
      self.restart(now, 0)
      self.plays += 1
      self.loose = self.loop and self.zero_time()
      self.last = now
  loose = False                    # a pass takes no time: only which messages come is judged
  stopped = -1000
  def stop(self, now):
    if self.active and self.loose: self.stopped = now
    self.active, self.over = False, False
  over = False                     # played to the end, not told to stop since
  def restart(self, now, slack):
    self.i, self.tau, self.base, self.slack = 0, now, None, slack
    self.ended_at = None
  def due(self):
    """When the next message comes, None if there is none."""
    if not self.active or self.i >= len(self.buffer) or self.ended_at is not None: return None
    ts = timestamp_of(self.buffer[self.i])
    if ts is None or self.base is None: return self.tau
    return max(self.tau, self.base[0] + ts - self.base[1])
  def zero_time(self):
    """Whether a whole pass takes next to no time."""
    first = None
    for m in self.buffer:
      ts = timestamp_of(m)
      if ts is None: continue
      if first is None: first = ts
      if ts - first > 60: return False
    return True
  def observe(self, v, t):
    if t < self.stopped + 1: return
    if not self.active: raise Violation(f"sent {v!r}, although nothing should be played")
    if self.loose:
      if not any(self.matches(v, w) for w in self.buffer): raise Violation(f"sent {v!r}, which was not recorded: {self.buffer}")
      self.last = t
      self.i += 1
      if self.i == 2 * len(self.buffer): self.full_passes += 1
      return
    if self.ended_at is not None:
      grown = len(self.buffer) > self.i and t - self.ended_at < 50 and self.matches(v, self.buffer[self.i])
      if self.loop and not (grown and not self.matches(v, self.buffer[0])): self.restart(self.ended_at, 50)
      elif grown: self.ended_at = None
    due = self.due()
    if due is None: raise Violation(f"sent {v!r} after the end of the recording")
    want = self.buffer[self.i]
    if not self.matches(v, want): raise Violation(f"sent {v!r}, expected message {self.i}, {want!r}")
    if t < due - TOL: raise Violation(f"message {self.i} ({v!r}) was played {due - t:.1f} ms too early")
    if t > due + TOL + self.slack: raise Violation(f"message {self.i} ({v!r}) was played {t - due:.1f} ms too late")
    ts = timestamp_of(want)
    self.slack = 0
    self.tau = t
    if ts is not None:
      if self.base is None:
        self.base = (t, ts, v["timestamp"])
        if abs(v["timestamp"] - (t + self.offset)) > TOL: raise Violation(f"{v!r} was played when the play input's clock showed {t + self.offset:.0f}")
      elif v["timestamp"] - self.base[2] != ts - self.base[1]: raise Violation(f"message {self.i} was played with timestamp {v['timestamp']}, {v['timestamp'] - self.base[2]} after the first one; recorded were {ts - self.base[1]}")
    self.i += 1
    if self.i >= len(self.buffer): self.end(t)
  def matches(self, v, want):
    if timestamp_of(want) is None: return same(v, want)
    return isinstance(v, dict) and isinstance(v.get("timestamp"), int) and not isinstance(v["timestamp"], bool) and same({**v, "timestamp": 0}, {**want, "timestamp": 0})
  def end(self, t):
    self.full_passes += 1
    if self.loop: self.ended_at = t
    else: self.active, self.over = False, True
  def missing(self, now):
    """Raise if something should have been sent by now."""
    if self.active and self.loose:
      if self.zero_time() and now > self.last + 120 + TOL: raise Violation(f"the recording was not played again within {now - self.last:.0f} ms")
      return
    if self.active and self.ended_at is not None:
      if now > self.ended_at + 50 + TOL: raise Violation(f"the recording was not played again within {now - self.ended_at:.0f} ms")
      return
    due = self.due()
    if due is not None and now > due + TOL + self.slack: raise Violation(f"message {self.i} ({self.buffer[self.i]!r}) should have been played {now - due:.1f} ms ago")
  def near(self, now):
    """Whether something may be sent at about this time."""
    if self.active and self.loose: return False
    if self.active and self.loop and self.ended_at is not None: return True
    due = self.due()
    return due is not None and abs(due - now) <= 2 * TOL

def run_replay(case, ctx):
  async def main():
    config = ReplayBufferConfig.model_validate({"loop": case["loop"], "in_topic": IN, "play_topic": PLAY, "out_topic": OUT})
    rig = await Rig().start(lambda c: ReplayBufferTask(c, config), [IN, PLAY], [OUT], case["link"])
    p = Player(case["loop"], case["offset"])
    now = lambda: at(vnow())
    paused, lenient_pause, out_paused, clock, cleared = False, False, False, 10**9, False
    stopped_once = False
    def judge():
      nonlocal out_paused
      for _, k, v, t in rig.take():
        if k == "p": out_paused = v
        else:
          if out_paused: raise Violation(f"{v!r} was sent while the output was paused")
          p.observe(v, at(t))
      rig.check()
      p.missing(now())
      if not p.near(now()) and not lenient_pause:
        expect = not p.active if (stopped_once or p.plays) else out_paused
        if out_paused != expect: raise Violation(f"the output is {'' if out_paused else 'not '}paused, but {'something' if p.active else 'nothing'} is being played")
    zero = 0
    for op in [*case["rec"], *(["msg", 0, 5, {"n": n}] for n in range(case["bulk"])), *case["ops"]]:
      await asyncio.sleep(op[1] / 1000)
      judge()
      for _ in range(300):
        if not p.near(now()): break
        await asyncio.sleep(0.001)
        judge()
      if op[0] in ("msg", "none"):
        if op[0] == "msg": clock += op[2]
        m = {**op[3], "timestamp": clock} if op[0] == "msg" else op[2]
        p.buffer.append(m)
        if p.playing: lenient_pause = False; p.begin(now())
        else: lenient_pause, stopped_once = False, True
        await rig.send(IN, m)
      elif op[0] == "play":
        p.playing = op[2] > 0.5
        if not p.playing:
          p.stop(now())
          stopped_once, lenient_pause = True, False
        else: p.begin(now()); lenient_pause = lenient_pause and not p.active
        await rig.send(PLAY, {"timestamp": ms() + case["offset"], "value": op[2]})
      elif op[0] == "badplay": await rig.send(PLAY, op[2])
      elif op[0] == "pause":
        if paused and not op[2]:
          p.buffer.clear()
          p.stop(now())
          lenient_pause = True
        paused = op[2]
        await rig.pause(IN, op[2])
      await asyncio.sleep(0.0008)
      if p.active and p.loose: zero += 1
      judge()
    if not (p.loop and p.active): await asyncio.sleep(8)
    judge()
    if zero: ctx.label("looped a recording that takes no time")
    if p.full_passes and len(p.buffer) > 1: ctx.hit()
    await rig.stop()
  vrun(main)

SUBS = [
  Sub("pulse", pulse_cases, run_pulse, quick=300, thorough=8000, rule="at least three pulses"),
  Sub("repeater", repeater_cases, run_repeater, quick=700, thorough=20000, rule="at least three repetitions were sent"),
  Sub("replay", lambda: replay_cases(False), run_replay, quick=700, thorough=20000, rule="a recording of several messages was played to its end"),
  Sub("replay-loop", lambda: replay_cases(True), run_replay, quick=400, thorough=10000, rule="a recording of several messages was played to its end"),
]
