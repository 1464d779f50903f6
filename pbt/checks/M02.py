from ..taskrig import *
from ..core import Sub
from streamtasks.media.util import AudioSequencer
from streamtasks.system.tasks.media.audiomixer import AudioMixerConfig, AudioMixerTaskHost
from fractions import Fraction
import numpy as np
AudioMixerTask = hosted(AudioMixerTaskHost)

TECHNIQUE = "property-based testing (Hypothesis): generated blocks, gaps, overlaps, drifts, pauses and requests against a model that keeps every sample under its index in time"
NOTE = "Random search with shrinking. With stretching (maximum ratio above 1) only timing, order, channels and constancy are judged, not the interpolation. Blocks are at most seconds apart; sums are of samples that stay exact in the format or must saturate."

# ---- the sequencer without stretching: every sample has its index
def seq_cases():
  n = st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(0, 60))
  op = st.one_of(*[st.tuples(st.just("insert"), st.one_of(st.just(0), st.just(0), st.integers(-30, 30)), n)] * 4, *[st.tuples(st.just("pop"), st.one_of(st.just(0), st.just(0), st.integers(-20, 40)), n)] * 3,
    st.tuples(st.just("max"), st.integers(-10, 20)), st.tuples(st.just("reset"), st.booleans())).map(list)
  return st.fixed_dictionaries({"rate": st.sampled_from([8000, 44100, 48000, 1000, 7]), "keep": st.sampled_from([0, 0, 3, 20]), "channels": st.integers(1, 3), "start": st.sampled_from([0, 10**6, 10**12, -50]), "ops": st.lists(op, min_size=6, max_size=40)})
class SeqModel:
  """Samples by index; `head`: where the buffer begins, `end`: where it ends."""
  def __init__(self): self.reset()
  def reset(self): self.data, self.head, self.end = {}, None, None
  def insert(self, at, values):
    if self.head is None: self.head = self.end = at
    for i, v in enumerate(values, at):
      if i >= self.end: self.data[i] = v
    self.end = max(self.end, at + len(values)) if len(values) or at > self.end else self.end
  def pop(self, at, n):
    out = [self.data.get(i) for i in range(at, at + n)]
    for i in [i for i in self.data if i < at + n]: del self.data[i]
    self.head = min(max(self.head, at + n), self.end)
    return out
def run_seq(case, ctx):
  rate, C = case["rate"], case["channels"]
  s = AudioSequencer(rate, 1, case["keep"])
  m = SeqModel()
  count = 0
  for i, (op, off, *rest) in enumerate(case["ops"]):
    if op == "insert":
      n = rest[0]
      at = (case["start"] if m.head is None else m.end) + off
      if n == 0 and m.head is not None and at > m.end: off, at = 0, m.end
      values = np.arange(count + 1, count + 1 + n * C, dtype=np.float64).reshape((n, C))
      count += n * C
      s.insert(Fraction(at, rate), values.copy())
      m.insert(at, values)
      if off < 0 and n > -off: ctx.label("overlap")
      if off > 0: ctx.label("gap")
    elif op == "reset":
      s.reset(off)
      if off or m.head is None or m.head == m.end: m.reset()
    elif m.head is None: continue
    elif op == "max":
      at = m.head + off
      want = max(0, m.end - at - case["keep"])
      got = s.get_max_samples(Fraction(at, rate))
      if got != want: raise Violation(f"step {i}: {got} samples are said to be ready from {off} after the start, there are {m.end - m.head} of which {case['keep']} are kept")
    else:
      at, n = m.head + off, rest[0]
      want = m.pop(at, n)
      got = s.pop_start(Fraction(at, rate), n)
      want = np.array([np.zeros(C) if v is None else v for v in want]).reshape((n, C))
      if got.shape != (n, C): raise Violation(f"step {i}: {n} samples of {C} channels requested, {got.shape} returned")
      if not np.array_equal(got, want): raise Violation(f"step {i}: the samples from {off} after the start are {got.tolist()}, expected {want.tolist()}")
      if want.any(): ctx.hit()
    if s.started != (m.head is not None): raise Violation(f"step {i} ({op}): started is {s.started}")
    if m.head is not None and (s.start_time, s.end_time) != (Fraction(m.head, rate), Fraction(m.end, rate)):
      raise Violation(f"step {i} ({op}): the buffer reaches from {float(s.start_time * rate)} to {float(s.end_time * rate)} samples, expected {m.head} to {m.end}")

# ---- the sequencer with stretching
def stretch_cases():
  block = st.tuples(st.one_of(st.integers(-3, 3), st.integers(-30, 30), st.floats(-2, 2).map(lambda x: round(x, 3))), st.integers(1, 60), st.booleans()).map(list)
  return st.fixed_dictionaries({"rate": st.sampled_from([8000, 44100, 1000]), "ratio": st.sampled_from([1.05, 1.1, 1.5, 2]), "blocks": st.lists(block, min_size=2, max_size=12), "int": st.booleans()})
def run_stretch(case, ctx):
  rate, ratio = case["rate"], case["ratio"]
  dtype = np.int16 if case["int"] else np.float64
  s = AudioSequencer(rate, ratio, 0)
  sent = 0
  for i, (off, n, pop) in enumerate(case["blocks"]):
    first = i == 0
    t = Fraction(0) if first else s.end_time + Fraction(str(off)) / rate
    ramp = np.arange(sent + 1, sent + 1 + n)
    sent += n
    block = np.stack([ramp, -ramp, np.full(n, 77)], axis=1).astype(dtype)
    had = 0 if first else round((s.end_time - s.start_time) * rate)
    start, end = (t, t) if first else (s.start_time, s.end_time)
    s.insert(t, block)
    if s.start_time != start: raise Violation(f"block {i}: the buffered audio begins at {float(s.start_time * rate)} instead of {float(start * rate)} (in samples)")
    at_end = t + Fraction(n, rate)
    size = round((s.end_time - s.start_time) * rate)
    if first:
      if size != n: raise Violation("the first block was changed")
      continue
    d = round(Fraction(str(off)))                 # how many samples too late
    target = had + n + d
    if d == 0: allowed, limit = True, True
    elif d > 0: allowed = limit = (target / (had + n)) < ratio
    else: allowed = limit = target > 0 and (had + n) / target < ratio
    tol = Fraction(51, 100) / rate
    if allowed or d > 0: ok = abs(s.end_time - at_end) <= tol
    else: ok = abs(s.end_time - max(at_end, end)) <= tol
    if not ok: raise Violation(f"block {i} of {n} samples, {off} samples off the end of {had} buffered (maximum stretch {ratio}): the audio ends {float((s.end_time - at_end) * rate):.2f} samples after the block")
    got = s.pop_start(s.start_time, size)
    gaps = (got == 0).all(axis=1)
    if allowed and gaps.any(): raise Violation(f"block {i}: silence was put in though the drift of {d} samples could be stretched away ({ratio})")
    if not allowed and d > 0 and gaps.sum() < d: raise Violation(f"block {i}: {d} samples are missing, which is beyond the maximum stretch {ratio}, and {gaps.sum()} are silence")
    sound = got[~gaps]
    if not (sound[:, 2] == 77).all(): raise Violation(f"block {i}: a constant signal became {got[:, 2].tolist()}")
    if not (sound[:, 0] == -sound[:, 1]).all(): raise Violation(f"block {i}: the channels were treated differently: {got.tolist()}")
    if len(sound):
      if (np.diff(sound[:, 0]) < 0).any(): raise Violation(f"block {i}: samples changed their order: {got[:, 0].tolist()}")
      if allowed and size > 1 and sound[-1, 0] != ramp[-1]: raise Violation(f"block {i}: the audio ends with sample {sound[-1, 0]} instead of {ramp[-1]}")
      if sound[:, 0].max() > ramp[-1] or sound[:, 0].min() < 1: raise Violation(f"block {i}: samples outside the signal: {got[:, 0].tolist()}")
    if d and allowed: ctx.hit()

# ---- the mixer
IN, OUT = [10, 11, 12], 20
FORMATS = {"s16": np.int16, "s32": np.int32, "flt": np.float32, "dbl": np.float64, "s64": np.int64, "u8": np.uint8}
BAD_AUDIO = [{"timestamp": 5}, {"data": b"ab"}, {"timestamp": "x", "data": b""}, {"timestamp": 1, "data": 5}, {}, [], 3, "x"]
def mixer_cases():
  block = lambda t: st.tuples(st.just("block"), t, st.one_of(st.just(0), st.just(0), st.just(0), st.integers(-6, 12)), st.one_of(st.integers(1, 8), st.integers(0, 20)), st.sampled_from(["small", "small", "large"])).map(list)
  t = st.integers(0, 2)
  op = st.one_of(*[block(t)] * 8, st.tuples(st.just("bad"), t, st.integers(0, len(BAD_AUDIO) - 1)).map(list), st.tuples(st.just("odd"), t, st.integers(1, 3)).map(list), st.tuples(st.just("pause"), t, st.booleans()).map(list))
  return st.fixed_dictionaries({"tracks": st.integers(1, 3), "format": st.sampled_from(list(FORMATS)), "rate": st.sampled_from([1000, 2000, 8000, 32000]), "channels": st.integers(1, 2), "keep": st.sampled_from([0, 0, 0, 2]), "sync": st.booleans(),
    "link": links(), "start": st.sampled_from([0, 1_700_000_000_000]), "ops": st.lists(op, min_size=8, max_size=40)})
def run_mixer(case, ctx):
  tracks, dtype, C, K = IN[:case["tracks"]], FORMATS[case["format"]], case["channels"], case["rate"] // 1000
  mid = 128 if dtype is np.uint8 else 0            # silence
  keep = case["keep"] * K
  conf = AudioMixerConfig.model_validate({"audio_tracks": [{"in_topic": t} for t in tracks], "sample_format": case["format"], "rate": case["rate"], "channels": C, "buffer_keep_size": keep, "max_stretch_ratio": 1,
    "synchronized": case["sync"], "out_topic": OUT})
  isint = np.issubdtype(dtype, np.integer)
  info = np.iinfo(dtype) if isint else None
  models = {t: SeqModel() for t in tracks}
  paused = {t: False for t in tracks}
  want, got, until = [], [], []
  def mix():
    if any(not paused[t] and models[t].head is None for t in tracks): return
    active = [t for t in tracks if not paused[t]]
    if not active: return
    at = min(models[t].head for t in active)
    if until: at = max(at, until[0])             # no time is mixed twice
    n = min(max(0, models[t].end - at - keep) for t in active)
    if n <= 0: return
    until[:] = [at + n]
    total = [[0] * C for _ in range(n)]
    for t in tracks:
      m = models[t]
      if m.head is None: continue
      for i, v in enumerate(m.pop(at, n)):
        if v is not None: total[i] = [a + b for a, b in zip(total[i], v)]
      if paused[t] and m.head == m.end: m.reset()
    for i, v in enumerate(total, at):
      want.append((i, [min(max(x + mid, int(info.min)), int(info.max)) if isint else x for x in v]))
  def deliver(t, item):
    kind, v = item
    if kind == "p":
      if paused[t] and not v:
        models[t].reset()
        if all(m.head is None for m in models.values()): until.clear()   # everything begins anew
      paused[t] = v
    elif isinstance(v, dict) and isinstance(v.get("data"), bytes) and type(v.get("timestamp")) is int:
      a = np.frombuffer(v["data"], dtype) if len(v["data"]) % dtype().itemsize == 0 else None
      if a is None or a.size % C: return
      models[t].insert(v["timestamp"] * K, [[x - mid for x in r] for r in a.reshape((-1, C)).tolist()])
      mix()
  model = SyncModel(tracks, deliver, sync=case["sync"])
  async def main():
    rig = await Rig().start(lambda c: AudioMixerTask(c, conf), tracks, [OUT], case["link"])
    nxt = {t: case["start"] for t in tracks}       # next timestamp, in ms
    isp = {t: False for t in tracks}
    def check(i, op):
      rig.check()
      for topic, kind, v, _ in rig.take():
        if kind == "p": continue
        a = np.frombuffer(v["data"], dtype)
        if a.size % C: raise Violation(f"step {i}: {a.size} samples for {C} channels")
        got.extend(enumerate(a.reshape((-1, C)).tolist(), v["timestamp"] * K))
      if [j for j, _ in got] != [j for j, _ in want]: raise Violation(f"step {i} {op}: the output covers samples {runs(got, case)}, expected {runs(want, case)}")
      for (j, g), (_, w) in zip(got, want):
        if g != w: raise Violation(f"step {i} {op}: sample {j - case['start'] * K} is {g}, expected {w}")
    for i, op in enumerate(case["ops"]):
      t = tracks[op[1] % len(tracks)]
      if op[0] == "pause":
        if isp[t] == op[2] or model.pending: continue      # a pause behind waiting messages is seen at an uncertain time
        isp[t] = op[2]
        model.push(t, ("p", op[2]))
        await rig.pause(t, op[2])
      elif isp[t] and case["sync"]: continue              # whether it is mixed would depend on who is first at equal timestamps
      else:
        if op[0] == "block":
          ms, n = op[2], op[3]
          ts = max(0, nxt[t] + ms)
          r = np.random.default_rng(i)
          if op[4] == "large" and isint and dtype is not np.int64: a = r.choice([info.min, info.max, info.max // 2 + 1 if mid == 0 else 200], (n * K, C)).astype(dtype)
          else: a = (r.integers(-40, 40, (n * K, C)) + mid).astype(dtype)
          if n == 0: ts = min(ts, nxt[t])
          else: nxt[t] = max(nxt[t], ts + n)
          msg = {"timestamp": ts, "data": a.tobytes()}
        elif op[0] == "odd": msg = {"timestamp": nxt[t], "data": bytes(dtype().itemsize * C * K * (op[2] % 2) + (op[2] % (dtype().itemsize * C)))}
        else: msg = BAD_AUDIO[op[2]]
        if op[0] == "odd": ctx.label("odd data")
        model.push(t, ("d", msg))
        await rig.send(t, msg)
      await settle(5)
      check(i, op)
    if len(want) >= 5 * K: ctx.hit()
    await rig.stop()
  vrun(main)
def runs(d, case):
  """The covered ranges, relative to the start."""
  out = []
  for j, _ in d:
    j -= case["start"] * (case["rate"] // 1000)
    if out and out[-1][1] == j - 1: out[-1][1] = j
    else: out.append([j, j])
  return out

# ---- drifting tracks keep their timing
def drift_cases():
  return st.fixed_dictionaries({"tracks": st.lists(st.fixed_dictionaries({"block": st.sampled_from([20, 50, 100]), "jitter": st.sampled_from([0, 0, 1, 2]), "offset": st.integers(0, 150), "value": st.sampled_from([100, -30, 1000])}), min_size=1, max_size=3),
    "rate": st.sampled_from([44100, 22050, 48000, 8000, 11025]), "channels": st.integers(1, 2), "ms": st.sampled_from([500, 1000, 3000]), "sync": st.booleans(), "seed": st.integers(0, 10000), "start": st.sampled_from([0, 1_700_000_000_000])})
def run_drift(case, ctx):
  tracks, rate, C = IN[:len(case["tracks"])], case["rate"], case["channels"]
  conf = AudioMixerConfig.model_validate({"audio_tracks": [{"in_topic": t} for t in tracks], "sample_format": "s16", "rate": rate, "channels": C, "max_stretch_ratio": 1.5, "synchronized": case["sync"], "out_topic": OUT})
  r = np.random.default_rng(case["seed"])
  events = []
  for t, tr in zip(tracks, case["tracks"]):
    k = 0
    while (k + 1) * tr["block"] <= case["ms"]:
      at = tr["offset"] + k * tr["block"]
      pos = [round(Fraction((k + x) * tr["block"] * rate, 1000)) for x in (0, 1)]
      j = int(r.integers(-tr["jitter"], tr["jitter"] + 1)) if tr["jitter"] and k else 0
      events.append((at + j, t, np.full((pos[1] - pos[0], C), tr["value"], np.int16)))
      k += 1
  events.sort(key=lambda e: e[0])
  spans = {}
  def deliver(t, item):
    ts, ms = item[1]["timestamp"] - case["start"], item[1]["ms"]
    spans[t] = [min(ts, spans[t][0]), max(ts + ms, spans[t][1])] if t in spans else [ts, ts + ms]
  model = SyncModel(tracks, deliver, sync=case["sync"])
  for ts, t, a in events: model.push(t, ("d", {"timestamp": case["start"] + ts, "ms": len(a) * 1000 / rate}))
  async def main():
    rig = await Rig().start(lambda c: AudioMixerTask(c, conf), tracks, [OUT])
    for ts, t, a in events:
      await rig.send(t, {"timestamp": case["start"] + ts, "data": a.tobytes()})
    await settle(10)
    rig.check()
    out = [e[2] for e in rig.take() if e[1] == "d"]
    if len(spans) < len(tracks):
      if out: raise Violation("the mix began before all tracks had")
      return
    if not out: raise Violation("nothing was sent")
    at, first = None, None
    for m in out:
      a = np.frombuffer(m["data"], np.int16).reshape((-1, C))
      ts = m["timestamp"] - case["start"]
      if at is None: at = first = ts
      if abs(ts - at) > 2: raise Violation(f"after {at:.1f} ms of output the next part has the timestamp {ts}")
      for j in range(0, len(a), max(1, len(a) // 50)):
        x = ts + j * 1000 / rate
        lo, hi, exact = 0, 0, True
        want = sum(tr["value"] for t, tr in zip(tracks, case["tracks"]) if spans[t][0] + 4 <= x <= spans[t][1] - 4)
        unsure = any(abs(x - s) < 4 for t in tracks for s in spans[t])
        if not unsure and not (a[j] == want).all(): raise Violation(f"at {x:.1f} ms the mix is {a[j].tolist()}, expected {want} ({spans})")
      at = ts + len(a) * 1000 / rate
    want_end = min(s[1] for s in spans.values())
    if abs(first - min(s[0] for s in spans.values())) > 4: raise Violation(f"the mix begins at {first} ms, the tracks are at {spans}")
    if abs(at - want_end) > 4: raise Violation(f"the mix ends at {at:.1f} ms, the tracks are at {spans}")
    ctx.hit()
  vrun(main)

SUBS = [
  Sub("sequencer", seq_cases, run_seq, quick=2500, thorough=60000, rule="samples were returned"),
  Sub("stretch", stretch_cases, run_stretch, quick=1500, thorough=30000, rule="a drift was stretched away"),
  Sub("mixer", mixer_cases, run_mixer, quick=900, thorough=15000, rule="at least 5 ms of output"),
  Sub("drift", drift_cases, run_drift, quick=300, thorough=4000, rule="always"),
]
