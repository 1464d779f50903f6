from ..taskrig import *
from ..core import Sub
from streamtasks.system.tasks.timebuffer import TimeBufferConfig, TimeBufferTaskHost
from streamtasks.system.tasks.timestampupdater import TimestampUpdaterConfig, TimestampUpdaterTaskHost
import copy, time
TimeBufferTask = hosted(TimeBufferTaskHost)
TimestampUpdaterTask = hosted(TimestampUpdaterTaskHost)

TECHNIQUE = "property-based testing (Hypothesis): generated message, pause and time histories against a reference of release times and of replaced timestamps, in virtual time"
NOTE = "Random search with shrinking; on the message reference, how many messages a pause releases early is not judged, only that none is lost, changed or reordered."
IN, OUT = 10, 90
ms = lambda: time.time_ns() // 1_000_000

def contents(): return st.fixed_dictionaries({}, optional={"value": msgpack_value(3), "data": st.binary(max_size=5), "x": st.integers(0, 3)})
NO_TS = [{"x": 1}, {}, [], [1, 2], 5, "text", {"timestamp": "x"}, {"timestamp": None, "v": 1}, {"timestamp": INF}, {"timestamp": [1]}]

def buffer_cases(ref):
  ts = st.sampled_from([0, 0, -10, -250, -1200, -5000, 40, 600])
  op = st.one_of(
    st.tuples(st.just("msg"), st.sampled_from([0, 1, 20, 110, 340, 1300]), ts, contents()).map(list), st.tuples(st.just("msg"), st.sampled_from([0, 1, 20, 110, 340, 1300]), ts, contents()).map(list),
    st.tuples(st.just("msg"), st.sampled_from([0, 1, 20, 110]), ts, contents()).map(list),
    st.tuples(st.just("none"), st.sampled_from([0, 20, 340]), st.sampled_from(NO_TS)).map(list),
    st.tuples(st.just("pause"), st.sampled_from([0, 1, 20, 340, 1300]), st.booleans()).map(list), st.tuples(st.just("wait"), st.sampled_from([700, 5000])).map(list))
  return st.fixed_dictionaries({"ref": st.just(ref), "size": st.sampled_from([1, 30, 500, 2000]), "link": links(), "ops": st.lists(op, min_size=3, max_size=20)})

async def settled(): await asyncio.sleep(0.0002)

def run_clock(case, ctx):
  async def main():
    size = case["size"]
    config = TimeBufferConfig.model_validate({"time_reference": "clock", "size": size, "in_topic": IN, "out_topic": OUT})
    rig = await Rig().start(lambda c: TimeBufferTask(c, config), [IN], [OUT], case["link"])
    want, release, ip = [], ms(), False                  # (release time in ms, content)
    delayed, seen = 0, []
    def judge(final=False):
      seen.extend(e for e in rig.take())
      got = [(v, t) for _, k, v, t in seen if k == "d"]
      due = [w for w in want if w[0] <= ms()]
      for i, (v, t) in enumerate(got):
        if i >= len(want): raise Violation(f"sent {v!r}, although only {len(want)} messages came in")
        if not same(v, want[i][1]): raise Violation(f"message {i} came out as {v!r}, expected {want[i][1]!r}")
        at = t * 1000 + E0
        if at < want[i][0] - 0.5: raise Violation(f"message {i} ({v!r}) was released {want[i][0] - at:.1f} ms too early")
        if at > want[i][0] + 2.5: raise Violation(f"message {i} ({v!r}) was released {at - want[i][0]:.1f} ms too late")
      if len(got) < len(due): raise Violation(f"{len(due)} messages are due at {ms()}, only {len(got)} were released; next {due[len(got)]}")
      rig.check()
      paused = False
      for _, k, v, _ in seen:
        if k == "p": paused = v
        elif paused: raise Violation(f"message {v!r} was sent while the output was paused")
      expect = ip and len(got) == len(want)
      if paused != expect: raise Violation(f"output paused is {paused}, but the input's pause state is {ip} and {len(want) - len(got)} messages are still held")
    for op in case["ops"]:
      # nothing is due at the very moment something is sent
      await asyncio.sleep(op[1] / 1000)
      while any(abs(w[0] - ms()) <= 3 for w in want): await asyncio.sleep(0.001)
      judge()
      now = ms()
      if op[0] in ("msg", "none"):
        m = {**op[3], "timestamp": now + op[2]} if op[0] == "msg" else op[2]
        release = max(release, now, now + op[2] + size if op[0] == "msg" else now)
        delayed += release > now
        want.append((release, m))
        await rig.send(IN, m)
      elif op[0] == "pause":
        await rig.pause(IN, op[2])
        ip = op[2]
      await settled()
      if not any(abs(w[0] - ms()) <= 3 for w in want): judge()
      await asyncio.sleep(0.0008)
    await asyncio.sleep(20)
    judge()
    if delayed >= 2: ctx.hit()
    if any(k == "p" for _, k, _, _ in seen): ctx.label("output was paused")
    await rig.stop()
  from ..vloop import VLoop
  E0 = VLoop.EPOCH_NS // 1_000_000
  vrun(main)

def run_message(case, ctx):
  async def main():
    size = case["size"]
    config = TimeBufferConfig.model_validate({"time_reference": "message", "size": size, "in_topic": IN, "out_topic": OUT})
    rig = await Rig().start(lambda c: TimeBufferTask(c, config), [IN], [OUT], case["link"])
    sent, out, ip, paused, clock = [], 0, False, False, 10**12
    held = 0
    for op in case["ops"]:
      if op[0] in ("msg", "none"):
        clock += op[1]
        m = {**op[3], "timestamp": clock + (op[2] if op[2] > -5000 else 0)} if op[0] == "msg" else op[2]
        sent.append(m)
        await rig.send(IN, m)
      elif op[0] == "pause":
        await rig.pause(IN, op[2])
        ip = op[2]
      else: await asyncio.sleep(op[1] / 1000)
      await settled()
      before = out
      for _, k, v, _ in rig.take():
        if k == "p": paused = v; continue
        if paused and not ip: raise Violation(f"message {v!r} was sent while the output was paused")
        if out >= len(sent): raise Violation(f"sent {v!r}, although only {len(sent)} messages came in")
        if not same(v, sent[out]): raise Violation(f"message {out} came out as {v!r}, expected {sent[out]!r}")
        out += 1
      rig.check()
      # what is due: everything up to where the newest message is not far enough ahead
      due = before
      while len(sent) - due > 1:
        a, b = timestamp_of(sent[due]), timestamp_of(sent[-1])
        if a is None or (b is not None and b - a >= size): due += 1
        else: break
      if out < due: raise Violation(f"after {op}: {due} messages are due, only {out} were released; next {sent[out]!r}, newest {sent[-1]!r}, size {size}")
      if out > due and not ip: raise Violation(f"after {op}: {out} messages were released, only {due} are due: {sent[out - 1]!r} is too early, newest {sent[-1]!r}, size {size}")
      if paused and (out < len(sent) or not ip): raise Violation(f"after {op}: the output is paused, although {len(sent) - out} messages are held and the input's pause state is {ip}")
      if ip and out == len(sent) and not paused: raise Violation(f"after {op}: everything was released and the input is paused, but the output is not")
      held = max(held, len(sent) - out)
    if held >= 2 and out >= 2: ctx.hit()
    await rig.stop()
  vrun(main)

# ---- timestamp updater
def updater_cases():
  t = st.one_of(st.integers(0, 10**13), st.integers(-100, 100), st.floats(0, 1e12))
  op = st.one_of(st.tuples(st.just("d"), st.builds(lambda t, c: {**c, "timestamp": t}, t, contents())).map(list), st.tuples(st.just("d"), st.builds(lambda t, c: {**c, "timestamp": t}, t, contents())).map(list),
    st.tuples(st.just("d"), st.sampled_from(NO_TS)).map(list), st.tuples(st.just("pause"), st.booleans()).map(list), st.tuples(st.just("wait"), st.integers(1, 10**6)).map(list))
  return st.fixed_dictionaries({"ref": st.sampled_from(["message", "clock"]), "offset": st.one_of(st.just(0), st.integers(-10**6, 10**6)), "closed": st.booleans(), "link": links(), "ops": st.lists(op, min_size=2, max_size=12)})

def run_updater(case, ctx):
  async def main():
    config = TimestampUpdaterConfig.model_validate({"time_reference": case["ref"], "time_offset": case["offset"], "fail_closed": case["closed"], "in_topic": IN, "out_topic": OUT})
    rig = await Rig().start(lambda c: TimestampUpdaterTask(c, config), [IN], [OUT], case["link"])
    n, ip = 0, False
    for op in case["ops"]:
      want = []
      if op[0] == "wait": await asyncio.sleep(op[1] / 1000); continue
      if op[0] == "pause":
        want = [("p", op[1])] if op[1] != ip else []
        ip = op[1]
        await rig.pause(IN, op[1])
      else:
        m = copy.deepcopy(op[1])
        ts = timestamp_of(m) if case["ref"] == "message" else ms() if isinstance(m, dict) and "timestamp" in m else None
        if ts is not None: want = [("d", {**copy.deepcopy(m), "timestamp": ts + case["offset"]})]; n += 1
        elif not case["closed"]: want = [("d", copy.deepcopy(m))]
        await rig.send(IN, m)
      await settle(0.0004)
      got = [(k, v) for _, k, v, _ in rig.take()]
      rig.check()
      if not same(got, want): raise Violation(f"{case['ref']} reference, offset {case['offset']}: after {op} sent {got} expected {want}")
      if op[0] == "d" and not same(m, op[1]): raise Violation(f"the message itself was changed to {m!r}: other receivers of {op[1]!r} see that")
    if n >= 2: ctx.hit()
    await rig.stop()
  vrun(main)

SUBS = [
  Sub("buffer-clock", lambda: buffer_cases("clock"), run_clock, quick=900, thorough=20000, rule="at least two messages were held back"),
  Sub("buffer-message", lambda: buffer_cases("message"), run_message, quick=700, thorough=20000, rule="at least two messages were held at a time and two released"),
  Sub("updater", updater_cases, run_updater, quick=600, thorough=20000, rule="at least two timestamps were replaced"),
]
