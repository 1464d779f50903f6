from ..syncrig import *
from ..core import Sub
from streamtasks.system.tasks.media.audiovolumescaler import AudioVolumeScalerConfig, AudioVolumeScalerTaskHost
from streamtasks.system.tasks.media.audiovolumemeter import AudioVolumeMeterConfig, AudioVolumeMeterTaskHost
from fractions import Fraction
import math
import numpy as np
AudioVolumeScalerTask = hosted(AudioVolumeScalerTaskHost)
AudioVolumeMeterTask = hosted(AudioVolumeMeterTaskHost)

TECHNIQUE = "property-based testing (Hypothesis): generated sample contents, formats, factor changes, pauses and bursts on the real tasks with their worker threads, against levels and products computed in exact arithmetic"
NOTE = "Random search with shrinking in real time with the tasks' own threads; factors are finite; products may be off by the rounding of the sample format."
IN, SCALE, OUT = 10, 11, 20
FORMATS = {"s16": np.int16, "s16p": np.int16, "s32": np.int32, "s32p": np.int32, "flt": np.float32, "fltp": np.float32, "dbl": np.float64, "dblp": np.float64, "s64": np.int64, "u8": np.uint8, "u8p": np.uint8}
BAD_AUDIO = [{"timestamp": 5}, {"data": b"ab"}, {"timestamp": "x", "data": b""}, {"timestamp": 1, "data": 5}, {}, [], 3, "x"]

def samples(dtype, kind, n, seed):
  r = np.random.default_rng(seed)
  if np.issubdtype(dtype, np.integer):
    i = np.iinfo(dtype)
    mid = 128 if dtype is np.uint8 else 0
    if kind == "small": return (r.integers(-20, 21, n) + mid).astype(dtype)
    if kind == "low": return np.full(n, i.min, dtype)
    if kind == "high": return np.full(n, i.max, dtype)
    if kind == "silence": return np.full(n, mid, dtype)
    return r.integers(i.min, i.max, n, endpoint=True, dtype=dtype)
  if kind == "small": return r.uniform(-0.01, 0.01, n).astype(dtype)
  if kind == "low": return np.full(n, -1, dtype)
  if kind == "high": return np.full(n, 1, dtype)
  if kind == "silence": return np.zeros(n, dtype)
  return r.uniform(-1, 1, n).astype(dtype)
KINDS = st.sampled_from(["small", "any", "any", "low", "high", "silence"])
FACTORS = st.one_of(st.sampled_from([0, 1, 1, 0.5, 2, -1, 0.1, 1e-9, 1000, 1e12, -3.5]), st.floats(-4, 4).map(lambda x: round(x, 4)))

def scaler_cases():
  op = st.one_of(*[st.tuples(st.just("block"), st.integers(0, 30), KINDS)] * 5, *[st.tuples(st.just("scale"), FACTORS)] * 3, st.tuples(st.just("badscale"), st.sampled_from([{}, {"timestamp": 0}, {"value": "x"}, {"value": None}])),
    st.tuples(st.just("pausescale"), st.booleans()), st.tuples(st.just("pause"), st.booleans()), st.tuples(st.just("bad"), st.integers(0, len(BAD_AUDIO) - 1)), st.tuples(st.just("odd"), st.integers(1, 40)), st.tuples(st.just("wait"))).map(list)
  return st.fixed_dictionaries({"format": st.sampled_from(list(FORMATS)), "channels": st.integers(1, 3), "default": st.one_of(st.just(1), FACTORS), "sync": st.booleans(), "has_scale": st.sampled_from([True, True, True, False]), "link": links(), "ops": st.lists(op, min_size=8, max_size=30)})
def run_scaler(case, ctx):
  dtype, C = FORMATS[case["format"]], case["channels"]
  isint, mid = np.issubdtype(dtype, np.integer), 128 if dtype is np.uint8 else 0
  conf = {"sample_format": case["format"], "channels": C, "default_scale": case["default"], "synchronized": case["sync"], "in_topic": IN, "out_topic": OUT}
  ins = [IN]
  if case["has_scale"]: conf["scale_topic"], ins = SCALE, [IN, SCALE]
  expected, factor = [], [case["default"]]
  def deliver(t, item):
    kind, v = item
    if t == SCALE:
      if kind == "p": factor[0] = case["default"] if v else factor[0]
      else: factor[0] = v["value"] if isinstance(v, dict) and isinstance(v.get("value"), (int, float)) and "timestamp" in v else case["default"]
    elif kind == "d" and isinstance(v, dict) and type(v.get("timestamp")) is int and isinstance(v.get("data"), bytes):
      if len(v["data"]) % (dtype().itemsize * C) == 0: expected.append((v["timestamp"], np.frombuffer(v["data"], dtype), factor[0]))
  model = SyncModel(ins, deliver, sync=case["sync"])
  async def main():
    rig = await SyncRig().start(lambda c: AudioVolumeScalerTask(c, AudioVolumeScalerConfig.model_validate(conf)), ins, [OUT], case["link"])
    await rig.quiet()
    done = 0
    async def flush():
      nonlocal done
      n = len(expected) - done
      got = []
      def more():
        got.extend(e for e in rig.take() if e[1] == "d")
        return len(got) >= n
      await rig.until(more, "scaled audio is missing")
      await rig.quiet()
      more()
      if len(got) > n: raise Violation(f"{len(got)} blocks came out where {n} had gone in")
      for (ts, x, f), (_, _, v, _) in zip(expected[done:], got):
        if set(v) != {"timestamp", "data"} or v["timestamp"] != ts: raise Violation(f"the block with timestamp {ts} came out with {v.get('timestamp')}")
        y = np.frombuffer(v["data"], dtype)
        if y.shape != x.shape: raise Violation(f"{x.size} samples became {y.size}")
        for a, b in zip(x.tolist(), y.tolist()):
          if isint:
            w = (Fraction(a) - mid) * Fraction(f) + mid
            i = np.iinfo(dtype)
            w = min(max(w, int(i.min)), int(i.max))
            tol = 1 if dtype is not np.int64 else max(1, abs(w) / 10**14)
            if f in (0, 1) and dtype is not np.int64: tol = 0
          else:
            w = min(max(a * f, -1), 1)
            tol = 1e-6 * abs(w) if dtype is np.float32 else 1e-13 * abs(w)
          if not abs(b - w) <= tol: raise Violation(f"a sample of {a} scaled by {f} is {b} ({case['format']}), expected {float(w)}")
      done += n
    ts, isp = 0, {IN: False, SCALE: False}
    for i, op in enumerate(case["ops"]):
      ts += 1
      kind = op[0]
      if kind in ("scale", "badscale", "pausescale") and not case["has_scale"]: continue
      if kind in ("pause", "pausescale"):
        t = IN if kind == "pause" else SCALE
        if isp[t] == op[1]: continue
        await flush()
        if model.pending: continue
        isp[t] = op[1]
        model.push(t, ("p", op[1]))
        await rig.pause(t, op[1])
        await rig.quiet()
        continue
      if kind == "wait":
        await flush()
        continue
      t = IN if kind in ("block", "bad", "odd") else SCALE
      if isp[t]: continue
      if kind == "block": msg = {"timestamp": ts, "data": samples(dtype, op[2], op[1] * C, i).tobytes()}
      elif kind == "bad": msg = BAD_AUDIO[op[1]]
      elif kind == "odd": msg = {"timestamp": ts, "data": bytes(op[1] - 1 if op[1] % (dtype().itemsize * C) == 0 else op[1])}
      elif kind == "scale": msg = {"timestamp": ts, "value": op[1]}
      else: msg = {"timestamp": ts, **op[1]} if op[1] else {}
      if not case["sync"] and t == SCALE: await flush()
      model.push(t, ("d", msg))
      await rig.send(t, msg)
      if not case["sync"] and t == SCALE: await rig.quiet()
      if kind == "scale" and case["sync"]: ctx.label("factor in a burst")
    await flush()
    ctx.hit(done >= 2)
    await rig.stop()
  rrun(main)

def meter_cases():
  op = st.one_of(*[st.tuples(st.just("block"), st.integers(0, 60), KINDS)] * 6, st.tuples(st.just("pause"), st.booleans()), st.tuples(st.just("bad"), st.integers(0, len(BAD_AUDIO) - 1)), st.tuples(st.just("odd"), st.integers(1, 7)), st.tuples(st.just("wait"))).map(list)
  return st.fixed_dictionaries({"format": st.sampled_from(list(FORMATS)), "rate": st.sampled_from([1000, 2000, 8000, 44100]), "window": st.integers(1, 20), "start": st.sampled_from([0, 1_700_000_000_000]), "link": links(), "ops": st.lists(op, min_size=8, max_size=24)})
def run_meter(case, ctx):
  dtype, rate = FORMATS[case["format"]], case["rate"]
  isint, mid = np.issubdtype(dtype, np.integer), 128 if dtype is np.uint8 else 0
  top = 1 if not isint else int(np.iinfo(dtype).max) - mid
  size = rate * case["window"] // 1000
  conf = {"sample_format": case["format"], "rate": rate, "time_window": case["window"], "in_topic": IN, "out_topic": OUT}
  async def main():
    rig = await SyncRig().start(lambda c: AudioVolumeMeterTask(c, AudioVolumeMeterConfig.model_validate(conf)), [IN], [OUT], case["link"])
    await rig.quiet()
    stream, levels, paused, count = [], 0, False, 0
    async def flush():
      nonlocal levels
      n = max(0, -(-len(stream) // size) - 1)      # a window is measured once a sample after it came
      if n <= levels: n = levels
      got = []
      def more():
        got.extend(e[2] for e in rig.take() if e[1] == "d")
        return len(got) >= n - levels
      await rig.until(more, "a level is missing")
      await rig.quiet()
      more()
      full = len(stream) // size
      if levels + len(got) > full: raise Violation(f"{levels + len(got)} levels for {len(stream)} samples in windows of {size}")
      for v in got:
        w = stream[levels * size:(levels + 1) * size]
        want = math.sqrt(sum(abs(x - mid) for x in w) / (size * top))
        if not isinstance(v.get("value"), (int, float)) or not abs(v["value"] - want) <= 1e-4 * max(want, 0.01): raise Violation(f"window {levels} ({case['format']}) has the level {v.get('value')}, expected {want} for {w[:12]}")
        at = case["start"] + levels * size * 1000 / rate
        if type(v.get("timestamp")) is not int or abs(v["timestamp"] - at) > 3: raise Violation(f"window {levels} has the timestamp {v.get('timestamp')}, it began at {at}")
        levels += 1
    last = 0
    for i, op in enumerate(case["ops"]):
      if op[0] == "wait": await flush()
      elif op[0] == "pause":
        if paused == op[1]: continue
        await flush()
        paused = op[1]
        await rig.pause(IN, paused)
        await rig.quiet()
        got = rig.take()
        zeros = [e[2] for e in got if e[1] == "d"]
        if paused and ([z.get("value") for z in zeros] != [0]): raise Violation(f"when the input was paused the meter sent {zeros}")
        if not paused and zeros: raise Violation(f"when the input resumed the meter sent {zeros}")
        if [e[2] for e in got if e[1] == "p"] != [paused]: raise Violation(f"paused={paused} was not passed on: {got}")
      elif paused: continue
      elif op[0] == "block":
        a = samples(dtype, op[2], op[1] * max(size, 10) // 20, i)
        await rig.send(IN, {"timestamp": case["start"] + round(len(stream) * 1000 / rate), "data": a.tobytes()})
        stream.extend(a.tolist())
      elif op[0] == "bad": await rig.send(IN, BAD_AUDIO[op[1]])
      elif dtype().itemsize > 1: await rig.send(IN, {"timestamp": case["start"], "data": bytes(op[1] if op[1] % dtype().itemsize else 1)})
    await flush()
    ctx.hit(levels >= 2)
    await rig.stop()
  rrun(main)

SUBS = [
  Sub("scaler", scaler_cases, run_scaler, quick=600, thorough=8000, rule="at least two blocks came out", hang_s=60),
  Sub("meter", meter_cases, run_meter, quick=600, thorough=8000, rule="at least two levels came out", hang_s=60),
]
