from ..taskrig import *
from ..core import Sub
from streamtasks.media.video import VideoCodecInfo, VideoFrame, VideoReformatter, VideoReformatterInfo
from streamtasks.system.tasks.media.videoreformatter import VideoReformatterConfig, VideoReformatterTaskHost
from fractions import Fraction
import math
import numpy as np
VideoReformatterTask = hosted(VideoReformatterTaskHost)

TECHNIQUE = "property-based testing (Hypothesis): numbered frames at generated rates, starts, time bases, sizes and pixel formats through the reformatter, the transcoder and the reformatter task; every output frame is compared, in exact rational time, with the interval in which the source frame it shows was current"
NOTE = "Random search with shrinking; frames carry their number as a colour; the output frame may show any source frame that was current during its own interval."
IN, OUT = 10, 11

# ---- numbered pictures
COMPONENTS = {"rgb24": "rgb", "bgr24": "bgr", "rgba": "rgba", "bgra": "bgra", "argb": "argb"}
def paint(i, w, h, fmt):
  v = {"r": 8 + 16 * (i % 16), "g": 8 + 16 * (i // 16 % 16), "b": 8 + 16 * (i // 256 % 16), "a": 255}
  return np.tile(np.array([v[c] for c in COMPONENTS[fmt]], np.uint8), (h, w, 1))
def number(raw, w, h, fmt, what):
  if len(raw) != w * h * len(COMPONENTS[fmt]): raise Violation(f"{what} has {len(raw)} bytes instead of {w} x {h} pixels of {fmt}")
  x = np.frombuffer(raw, np.uint8).reshape(h, w, -1)
  if (x.max(axis=(0, 1)).astype(int) - x.min(axis=(0, 1))).max() > 3: raise Violation(f"{what}: the picture of one colour has several")
  d = {c: int(x[h // 2, w // 2, k]) // 16 for k, c in enumerate(COMPONENTS[fmt])}
  if "a" in d and d["a"] != 15 and fmt != "rgb24": raise Violation(f"{what} became transparent")
  return d["r"] + 16 * d["g"] + 256 * d["b"]

def exact(rate): return Fraction(rate).limit_denominator(100000) if isinstance(rate, int) or rate != 30000 / 1001 and rate != 60000 / 1001 else Fraction(round(rate * 1001), 1001)
RATES = st.one_of(st.sampled_from([30, 25, 60, 15, 24, 10, 1, 50, 29.97, 12.5, 59.94, 23.976, 30000 / 1001, 0.5, 0.1, 7.5]), st.integers(1, 120), st.sampled_from([[10, 30], [30, 10], [1, 2]]).map(lambda p: p[0]))
def pairs():
  return st.one_of(st.tuples(RATES, RATES), st.sampled_from([[30, 10], [10, 30], [60, 30], [30, 60], [25, 30], [30, 25], [24, 30], [3, 1], [49, 7], [30, 30], [1, 3], [7, 49], [90, 9]])).map(list)
fmts = st.sampled_from(list(COMPONENTS))
sizes = st.tuples(st.integers(1, 12), st.integers(1, 12)).map(list)
def even(size, out): return [size[0] + size[0] % 2, size[1]] if out else size       # the library scales odd widths with colour errors

def judge(outs, times, f, g, N, what, strict, ctx):
  """`outs`: (slot number, source number), `times`: the sources' times in seconds."""
  r = g / f
  last = None
  for k, i in outs:
    if not 0 <= i < N: raise Violation(f"{what}: the frame shown at {k} is none of the source")
    a, b = times[i], times[i] + 1 / f
    if last is not None:
      if k <= last[0]: raise Violation(f"{what}: output frame {k} comes after {last[0]}")
      if strict and k != last[0] + 1: raise Violation(f"{what}: output frame {last[0]} is followed by {k}: the spacing is not that of {g} frames per second")
      if i < last[1]: raise Violation(f"{what}: source frame {i} is shown after {last[1]}")
    if strict:
      if not (a < (k + 1) / g and k / g < b): raise Violation(f"{what}: output frame {k} ({float(k / g):.5f} to {float((k + 1) / g):.5f} s) shows source frame {i}, which is from {float(a):.5f} to {float(b):.5f} s")
    else:
      if not abs(k / g - a) <= 1 / f + 1 / g + Fraction(2, 1000): raise Violation(f"{what}: output frame {k} ({float(k / g):.5f} s) shows source frame {i} ({float(a):.5f} s)")
    last = (k, i)
  if abs(len(outs) - N * r) > 1: raise Violation(f"{what}: {N} frames at {f} frames per second became {len(outs)} at {g}, which should be {float(N * r):.3f}")
  if strict:
    first, end = math.ceil(times[0] * g), math.floor((times[-1] + 1 / f) * g)      # the output frames wholly within the source's time
    if first < end and not (outs and outs[0][0] <= first and outs[-1][0] >= end - 1): raise Violation(f"{what}: {N} frames from {float(times[0]):.5f} s on cover the output frames {first} to {end - 1}, but {outs[0][0] if outs else 'nothing'} to {outs[-1][0] if outs else 'nothing'} came out")
    count = {}
    for _, i in outs: count[i] = count.get(i, 0) + 1
    for i in range(N):
      if not math.floor(r) <= count.get(i, 0) <= math.ceil(r): raise Violation(f"{what}: source frame {i} is shown {count.get(i, 0)} times, the rates differ by {float(r):.4f}")
  ctx.hit(len(outs) >= 3 and r != 1)
  if r == 1: ctx.label("same rate")
  if r.denominator > 1 and r > 1: ctx.label("faster, not a multiple")
  if r < 1 and r.numerator > 1: ctx.label("slower, not a part")

# ---- the reformatter
def ref_cases():
  return st.fixed_dictionaries({"pair": pairs(), "n": st.one_of(st.integers(1, 12), st.integers(1, 80)), "start": st.one_of(st.just(0), st.just(0), st.integers(0, 40), st.integers(0, 100000), st.integers(-20, -1)), "base": st.sampled_from(["frame", "none", "fine", "ms"]), "gaps": st.lists(st.tuples(st.integers(0, 30), st.integers(1, 40)).map(list), max_size=2),
    "from": fmts, "to": fmts, "size": sizes, "out": st.one_of(st.none(), sizes)})
def run_ref(case, ctx):
  f, g = case["pair"]
  F, G = exact(f), exact(g)
  w, h = even(case["size"], case["out"])
  ow, oh = case["out"] or (w, h)
  if case["n"] * G / F > 2500: return
  ref = VideoReformatter(VideoReformatterInfo(g, case["to"], ow, oh), VideoReformatterInfo(f, case["from"], w, h))
  pos, at, times, outs = case["start"], [], [], []
  gaps = {i: n for i, n in case["gaps"]}
  for i in range(case["n"]):
    if i: pos += gaps.get(i, 0) + 1
    at.append(pos)
  base = 1 / F
  async def main():
    for i, p in enumerate(at):
      v = VideoFrame.from_ndarray(paint(i, w, h, case["from"]), case["from"])
      if case["base"] == "none": v.frame.pts, times_i = p, p / F
      elif case["base"] == "ms":
        ms = math.floor(p * 1000 / F)
        v.set_ts(Fraction(ms, 1000), Fraction(1, 1000))
        times_i = p / F
      elif case["base"] == "fine":
        v.frame.time_base, v.frame.pts, v.frame.dts = 1 / (F * 12), p * 12, p * 12
        times_i = p / F
      else:
        v.set_ts(p / F, base)
        times_i = p / F
      times.append(times_i)
      for o in await ref.reformat(v):
        fr = o.frame
        if fr.pts != fr.dts: raise Violation(f"an output frame is shown at {fr.pts} and decoded at {fr.dts}")
        if fr.time_base != 1 / G: raise Violation(f"an output frame at {g} frames per second has the time base {fr.time_base}")
        if (fr.width, fr.height, fr.format.name) != (ow, oh, case["to"]): raise Violation(f"an output frame has {fr.width} x {fr.height} pixels of {fr.format.name} instead of {ow} x {oh} of {case['to']}")
        outs.append((fr.pts, o))
  vrun(main)
  shown = [(k, number(o.to_bytes(), ow, oh, case["to"], f"output frame {k}")) for k, o in outs]   # after all frames: they must not share memory
  judge(shown, times, F, G, case["n"], f"{f} to {g} frames per second from frame {case['start']} on", case["base"] != "ms" and not gaps, ctx)
  if case["out"]: ctx.label("scaled")
  ctx.label("base " + case["base"])

# ---- transcoding between rates
LOSSLESS = [("rawvideo", "rgb24"), ("png", "rgb24"), ("png", "rgba"), ("ffv1", "bgra"), ("bmp", "bgr24")]
def trans_cases():
  return st.fixed_dictionaries({"pair": pairs(), "n": st.integers(1, 30), "start": st.one_of(st.just(0), st.integers(0, 20)), "a": st.integers(0, 4), "b": st.integers(0, 4), "w": st.integers(1, 6).map(lambda x: 2 * x), "h": st.integers(2, 12), "ow": st.integers(2, 12), "oh": st.integers(2, 12)})
def run_trans(case, ctx):
  f, g = case["pair"]
  F, G = exact(f), exact(g)
  if case["n"] * G / F > 600: return
  (ca, fa), (cb, fb) = LOSSLESS[case["a"]], LOSSLESS[case["b"]]
  async def main():
    a, b = VideoCodecInfo(case["w"], case["h"], f, fa, ca), VideoCodecInfo(case["ow"], case["oh"], g, fb, cb)
    enc, trans, dec = a.get_encoder(), a.get_transcoder(b), b.get_decoder()
    packets = []
    for i in range(case["n"]):
      v = VideoFrame.from_ndarray(paint(i, case["w"], case["h"], fa), fa)
      v.set_ts((case["start"] + i) / F, 1 / F)
      for p in enc.encode_sync(v): packets += await trans.transcode(p)
    for p in enc.flush_sync(): packets += await trans.transcode(p)
    packets += await trans.flush()
    if any(q.dts <= p.dts for p, q in zip(packets, packets[1:])): raise Violation(f"transcoding from {f} to {g} frames per second gives packets to be decoded at {[p.dts for p in packets]}")
    frames = []
    for p in packets: frames += await dec.decode(p)
    frames += await dec.flush()
    return [(x.frame.pts, number(x.to_bytes(), case["ow"], case["oh"], x.frame.format.name, "a transcoded frame")) for x in frames]
  import asyncio
  shown = asyncio.run(main())
  judge(shown, [(case["start"] + i) / F for i in range(case["n"])], F, G, case["n"], f"transcoding {ca} at {f} to {cb} at {g} frames per second", True, ctx)

# ---- the task
BAD = [{"timestamp": 5}, {"data": b"ab"}, {"timestamp": "x", "data": b""}, {"timestamp": 1, "data": 5}, {}, [], 3, "x"]
def task_cases():
  step = st.one_of(*[st.just(["f", 0])] * 6, st.tuples(st.just("f"), st.integers(0, 3)).map(list), st.tuples(st.just("bad"), st.integers(0, len(BAD) - 1)).map(list), st.tuples(st.just("size"), st.integers(1, 9)).map(list), st.tuples(st.just("pause")).map(list))
  return st.fixed_dictionaries({"pair": pairs(), "steps": st.lists(step, min_size=4, max_size=40), "t0": st.sampled_from([0, 1000, 1_700_000_000_000]), "round": st.sampled_from(["floor", "round"]), "from": fmts, "to": fmts, "size": sizes, "out": st.one_of(st.none(), sizes), "link": links()})
def run_task(case, ctx):
  f, g = case["pair"]
  F, G = exact(f), exact(g)
  if 40 * G / F > 1500: return
  w, h = even(case["size"], case["out"])
  ow, oh = case["out"] or (w, h)
  conf = {"in_pixel_format": case["from"], "in_rate": f, "in_width": w, "in_height": h, "out_pixel_format": case["to"], "out_rate": g, "out_width": ow, "out_height": oh, "in_topic": IN, "out_topic": OUT}
  async def main():
    rig = await Rig().start(lambda c: VideoReformatterTask(c, VideoReformatterConfig.model_validate(conf)), [IN], [OUT], case["link"])
    pos, i, times, got, paused, gaps = 0, 0, [], [], False, False
    def take(pauses=0):
      nonlocal pause_seen
      for _, k, v, _ in rig.take():
        if k == "p": pause_seen.append(v)
        else: got.append(v)
    pause_seen, pauses = [], []
    for kind, *v in case["steps"]:
      if kind == "pause":
        paused = not paused
        await rig.pause(IN, paused)
        pauses.append(paused)
        await settle()
        rig.check()
        take()
        if pause_seen != pauses: raise Violation(f"pausing the input {pauses} paused the output {pause_seen}")
        continue
      if paused: continue
      if kind == "bad": await rig.send(IN, BAD[v[0]])
      elif kind == "size":
        data = paint(i, w, h, case["from"]).tobytes()
        await rig.send(IN, {"timestamp": case["t0"] + math.floor(pos * 1000 / F), "data": data + data if v[0] == 1 else data[:-1] if v[0] == 2 else data + bytes(v[0])} if times else BAD[0])
        ctx.label("wrong size")
      else:
        if times:
          pos += 1 + v[0]
          if v[0]: gaps = True
        t = {"floor": math.floor, "round": round}[case["round"]](pos * 1000 / F)
        times.append(pos / F)
        await rig.send(IN, {"timestamp": case["t0"] + t, "data": paint(i, w, h, case["from"]).tobytes()})
        i += 1
      await settle()
      rig.check()
    await settle()
    take()
    rig.check()
    shown, last = [], None
    for m in got:
      if set(m) != {"timestamp", "data"}: raise Violation(f"the task sent {str(m)[:200]}")
      at = Fraction(m["timestamp"] - case["t0"], 1000)
      k = round(at * G)
      if 1 / G >= Fraction(4, 1000) and abs(at - k / G) > Fraction(1, 1000): raise Violation(f"an output frame has timestamp {m['timestamp']}, which is no multiple of the target interval after {case['t0']} ({g} frames per second)")
      shown.append((k if 1 / G >= Fraction(4, 1000) or not shown else shown[-1][0] + 1 if abs(k - shown[-1][0] - 1) <= math.ceil(G / 500) else k, number(m["data"], ow, oh, case["to"], f"output frame {k}")))
    if times: judge(shown, times, F, G, len(times), f"{f} to {g} frames per second", not gaps and F <= 400, ctx)
    elif shown: raise Violation("a frame came from nowhere")
    await rig.stop()
  vrun(main)

SUBS = [
  Sub("rates", ref_cases, run_ref, quick=1200, thorough=30000, rule="at least three frames came out at another rate",
    exact=[{"pair": [30, 10], "n": 60, "start": 0, "base": "frame", "gaps": [], "from": "rgb24", "to": "rgb24", "size": [2, 2], "out": None}, {"pair": [25, 37.5], "n": 20, "start": 1, "base": "frame", "gaps": [], "from": "rgb24", "to": "bgra", "size": [2, 2], "out": [4, 3]}]),
  Sub("transcode", trans_cases, run_trans, quick=900, thorough=12000, rule="at least three frames came out at another rate"),
  Sub("task", task_cases, run_task, quick=1200, thorough=20000, rule="at least three frames came out at another rate"),
]
