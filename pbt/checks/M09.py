from ..syncrig import *
from ..core import Sub
from streamtasks.system.tasks.media.videolayout import VideoLayoutConfig, VideoLayoutTaskHost
from streamtasks.system.tasks.media.videoactivitymeter import VideoActivityMeterConfig, VideoActivityMeterTaskHost
from streamtasks.system.tasks.media.imagerenderer import ImageRendererConfig, ImageRendererTaskHost
from fractions import Fraction
import os, tempfile, time
import numpy as np
VideoLayoutTask = hosted(VideoLayoutTaskHost)
VideoActivityMeterTask = hosted(VideoActivityMeterTaskHost)
ImageRendererTask = hosted(ImageRendererTaskHost)

TECHNIQUE = "property-based testing (Hypothesis): generated sizes, places, images and message sequences on the real tasks with their worker threads, compared pixel by pixel with an independent model of scaling, placing and measuring"
NOTE = "Random search with shrinking in real time with the tasks' own threads; scaled pixels may be off by 2 levels from bilinear interpolation in exact arithmetic."
IN, OUT = 10, 20
BAD = [{"timestamp": 5}, {"data": b"ab"}, {"timestamp": "x", "data": b""}, {"timestamp": 1, "data": 5}, {}, [], 3, "x"]

def image(kind, w, h, c, seed):
  r = np.random.default_rng(seed)
  if kind == "flat": return np.tile(r.integers(0, 256, c, dtype=np.uint8), (h, w, 1))
  if kind == "dark": return np.zeros((h, w, c), np.uint8)
  if kind == "bright": return np.full((h, w, c), 255, np.uint8)
  if kind == "ramp": return (np.arange(w)[None, :, None] * 7 + np.arange(h)[:, None, None] * 3 + np.arange(c) * 50 + seed).astype(np.uint8)
  return r.integers(0, 256, (h, w, c), dtype=np.uint8)
KINDS = st.sampled_from(["any", "any", "any", "flat", "ramp", "dark", "bright"])

def bilinear(x, ow, oh):
  """Bilinear interpolation between pixel centres, edges repeated."""
  h, w, c = x.shape
  def axis(n, o):
    p = np.clip((np.arange(o) + 0.5) * n / o - 0.5, 0, n - 1)
    i = np.floor(p).astype(int)
    return i, np.minimum(i + 1, n - 1), p - i
  i, j, fy = axis(h, oh)
  a, b, fx = axis(w, ow)
  x = x.astype(float)
  rows = x[i] * (1 - fy)[:, None, None] + x[j] * fy[:, None, None]
  return rows[:, a] * (1 - fx)[None, :, None] + rows[:, b] * fx[None, :, None]

# ---- placing
side = st.one_of(st.integers(1, 6), st.integers(1, 40))
def layout_cases():
  op = st.one_of(*[st.tuples(st.just("frame"), KINDS)] * 6, st.tuples(st.just("pause")), st.tuples(st.just("bad"), st.integers(0, len(BAD) - 1)), st.tuples(st.just("size"), st.sampled_from(["less", "more", "half", "rgb", "gray", "double", "empty"]))).map(list)
  return st.fixed_dictionaries({"in": st.tuples(side, side).map(list), "place": st.one_of(st.none(), st.tuples(side, side).map(list)), "out": st.tuples(side, side).map(list), "at": st.tuples(st.integers(0, 100), st.integers(0, 100)).map(list), "origin": st.booleans(), "format": st.sampled_from(["rgba", "bgra", "abgr", "argb"]), "rate": st.sampled_from([1, 30, 29.97]), "link": links(), "ops": st.lists(op, min_size=3, max_size=12), "seed": st.integers(0, 999)})
def run_layout(case, ctx):
  (w, h), (ow, oh) = case["in"], case["out"]
  pw, ph = case["place"] or case["in"]
  left, top = (0, 0) if case["origin"] else (case["at"][0] % ow, case["at"][1] % oh)
  conf = {"pixel_format": case["format"], "rate": case["rate"], "in_width": w, "in_height": h, "place_left_offset": left, "place_top_offset": top, "place_width": pw, "place_height": ph, "out_width": ow, "out_height": oh, "in_topic": IN, "out_topic": OUT}
  async def main():
    rig = await SyncRig().start(lambda c: VideoLayoutTask(c, VideoLayoutConfig.model_validate(conf)), [IN], [OUT], case["link"])
    await rig.quiet()
    want, done, paused = [], 0, False
    async def flush():
      nonlocal want
      got = await rig.collect(len(want), "laid out frames")
      for (ts, x), e in zip(want, got):
        if e[1] != "d" or set(e[2]) != {"timestamp", "data"}: raise Violation(f"the layout sent {str(e)[:200]}")
        m = e[2]
        if m["timestamp"] != ts: raise Violation(f"the frame with timestamp {ts} came out with {m['timestamp']}")
        if len(m["data"]) != ow * oh * 4: raise Violation(f"a frame of {ow} x {oh} pixels has {len(m['data'])} bytes")
        y = np.frombuffer(m["data"], np.uint8).reshape(oh, ow, 4)
        vw, vh = min(pw, ow - left), min(ph, oh - top)
        outside = np.ones((oh, ow), bool)
        outside[top:top + vh, left:left + vw] = False
        if y[outside].any(): raise Violation(f"something is drawn outside the place of {pw} x {ph} pixels at ({left}, {top}) in a frame of {ow} x {oh}")
        ref = x.astype(float) if (pw, ph) == (w, h) else bilinear(x, pw, ph)
        d = np.abs(y[top:top + vh, left:left + vw].astype(float) - ref[:vh, :vw]).max() if vw and vh else 0
        if d > (0 if (pw, ph) == (w, h) else 2): raise Violation(f"an image of {w} x {h} pixels placed with {pw} x {ph} at ({left}, {top}) in a frame of {ow} x {oh} is off by {d:.1f} levels")
      want = []
    n = 0
    for i, (kind, *v) in enumerate(case["ops"]):
      if kind == "pause":
        await flush()
        paused = not paused
        await rig.pause(IN, paused)
        ev = await rig.collect(1, "the pause state of the output")
        if [e[1:3] for e in ev] != [("p", paused)]: raise Violation(f"the input {'paused' if paused else 'resumed'}, the output sent {str(ev)[:200]}")
      elif paused: continue
      elif kind == "bad": await rig.send(IN, BAD[v[0]])
      elif kind == "size":
        full = w * h * 4
        size = {"less": full - 1, "more": full + 1, "half": full // 2, "rgb": w * h * 3, "gray": w * h, "double": full * 2, "empty": 0}[v[0]]
        await rig.send(IN, {"timestamp": 100 + i, "data": bytes([255]) * size})
        ctx.label("wrong size")
      else:
        x = image(v[0], w, h, 4, case["seed"] + i)
        want.append((1000 + 40 * i, x))
        n += 1
        await rig.send(IN, {"timestamp": 1000 + 40 * i, "data": x.tobytes()})
    await flush()
    await rig.stop()
    ctx.hit(n >= 2)
    if pw > ow - left or ph > oh - top: ctx.label("cut off")
    if (pw, ph) != (w, h): ctx.label("scaled")
  rrun(main)

# ---- measuring activity
def meter_cases():
  op = st.one_of(*[st.tuples(st.just("frame"), KINDS)] * 5, st.tuples(st.just("near"), st.integers(-3, 3)), st.tuples(st.just("same")), st.tuples(st.just("pause")), st.tuples(st.just("bad"), st.integers(0, len(BAD) - 1)), st.tuples(st.just("size"), st.integers(0, 3))).map(list)
  return st.fixed_dictionaries({"size": st.tuples(st.integers(1, 12), st.integers(1, 12)).map(list), "format": st.sampled_from(["rgb24", "bgr24", "gray", "rgba"]), "rate": st.sampled_from([1, 30, 29.97]), "link": links(), "ops": st.lists(op, min_size=3, max_size=14), "seed": st.integers(0, 999)})
def run_meter(case, ctx):
  w, h = case["size"]
  c = {"gray": 1, "rgba": 4}.get(case["format"], 3)
  conf = {"pixel_format": case["format"], "width": w, "height": h, "rate": case["rate"], "in_topic": IN, "out_topic": OUT}
  async def main():
    rig = await SyncRig().start(lambda t: VideoActivityMeterTask(t, VideoActivityMeterConfig.model_validate(conf)), [IN], [OUT], case["link"])
    await rig.quiet()
    want, last, paused, n, clock = [], None, False, 0, 0
    async def flush():
      nonlocal want, n
      got = await rig.collect(len(want), "activity values")
      for (ts, x), e in zip(want, got):
        if e[1] != "d" or set(e[2]) != {"timestamp", "value"}: raise Violation(f"the meter sent {str(e)[:200]}")
        if e[2]["timestamp"] != ts: raise Violation(f"the activity at {ts} came with the timestamp {e[2]['timestamp']}")
        if not isinstance(e[2]["value"], (int, float)) or not abs(e[2]["value"] - float(x)) <= 1e-6 * (1 + float(x)): raise Violation(f"the mean change of {w} x {h} pixels in {case['format']} is {float(x):.6f}, the meter says {e[2]['value']}")
      n += len(want)
      want = []
    for i, (kind, *v) in enumerate(case["ops"]):
      if kind == "pause":
        await flush()
        paused = not paused
        t = time.time()
        await rig.pause(IN, paused)
        ev = [e[1:3] for e in await rig.collect(2 if paused else 1, "the pause state of the output")]
        if paused:
          z = ev.pop(0)
          if z[0] != "d" or z[1].get("value") != 0: raise Violation(f"when the input pauses the activity is said to be {str(z)[:100]}")
          base = clock if last is not None or clock else None
        if ev != [("p", paused)]: raise Violation(f"the input {'paused' if paused else 'resumed'}, the output sent {str(ev)[:200]}")
      elif paused: continue
      elif kind == "bad": await rig.send(IN, BAD[v[0]])
      elif kind == "size":
        await rig.send(IN, {"timestamp": 1000 + 40 * i, "data": bytes([255]) * [0, w * h * c - 1, w * h * c + 1, w * h * c * 2][v[0]] if w * h * c > 1 or v[0] != 1 else b""})
        ctx.label("wrong size")
      else:
        if kind == "frame": x = image(v[0], w, h, c, case["seed"] + i)
        elif last is None: continue
        else: x = last if kind == "same" else np.clip(last.astype(int) + v[0], 0, 255).astype(np.uint8)
        clock = 1000 + 40 * i
        if last is not None: want.append((clock, Fraction(int(np.abs(x.astype(int) - last.astype(int)).sum()), x.size)))
        last = x
        await rig.send(IN, {"timestamp": clock, "data": x.tobytes()})
    await flush()
    await rig.stop()
    ctx.hit(n >= 2)
  rrun(main)

# ---- rendering an image file
def image_cases(): return st.fixed_dictionaries({"file": st.tuples(st.integers(1, 12), st.integers(1, 12)).map(list), "size": st.one_of(st.none(), st.tuples(st.integers(1, 20), st.integers(1, 20)).map(list)), "mode": st.sampled_from(["RGB", "RGBA", "L"]), "format": st.sampled_from(["rgb24", "rgba", "gray"]), "kind": KINDS, "type": st.sampled_from(["png", "bmp"]), "interval": st.sampled_from([0.001, 0.02]), "link": links(), "seed": st.integers(0, 999)})
def run_image(case, ctx):
  from PIL import Image
  (w, h), mode, fmt = case["file"], case["mode"], case["format"]
  ow, oh = case["size"] or case["file"]
  c = {"RGB": 3, "RGBA": 4, "L": 1}[mode]
  if case["type"] == "bmp" and mode == "RGBA": mode, c = "RGB", 3
  x = image(case["kind"], w, h, c, case["seed"])
  with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "image." + case["type"])
    Image.fromarray(x[:, :, 0] if c == 1 else x, mode).save(path)
    async def main():
      t0 = time.time()
      rig = await SyncRig().start(lambda t: ImageRendererTask(t, ImageRendererConfig.model_validate({"source": path, "pixel_format": fmt, "width": ow, "height": oh, "repeat_interval": case["interval"], "out_topic": OUT})), [], [OUT], case["link"])
      got = await rig.collect(3, "repeated images", extra=False)
      n, last = {"rgb24": 3, "rgba": 4, "gray": 1}[fmt], None
      for e in got:
        if e[1] != "d" or set(e[2]) != {"timestamp", "data"}: raise Violation(f"the image renderer sent {str(e)[:200]}")
        ts, data = e[2]["timestamp"], e[2]["data"]
        if not t0 * 1000 - 2 <= ts <= time.time() * 1000 + 2: raise Violation(f"an image sent at {time.time() * 1000:.0f} has timestamp {ts}")
        if last is not None and ts < last: raise Violation("the timestamps of repeated images decrease")
        last = ts
        if len(data) != ow * oh * n: raise Violation(f"an image of {ow} x {oh} pixels in {fmt} has {len(data)} bytes")
        y = np.frombuffer(data, np.uint8).reshape(oh, ow, n).astype(int)
        z = x.astype(int)
        if c >= 3 and n == 1: z, tol = (z[:, :, :3] @ np.array([299, 587, 114]) / 1000)[:, :, None], 1.01
        else:
          tol = 0
          if n >= 3 and c == 1: z = np.repeat(z, 3, axis=2)
          if n == 4 and z.shape[2] == 3: z = np.concatenate([z, np.full((h, w, 1), 255)], axis=2)
          if n == 3: z = z[:, :, :3]
        if (ow, oh) == (w, h):
          if np.abs(y - z).max() > tol: raise Violation(f"an image of {w} x {h} pixels in {mode} rendered as {fmt} is off by {np.abs(y - z).max()} levels")
        elif case["kind"] in ("flat", "dark", "bright") and c != 4:
          if np.abs(y - z[0, 0]).max() > 2: raise Violation(f"an image of one colour scaled from {w} x {h} to {ow} x {oh} is off by {np.abs(y - z[0, 0]).max()} levels")
      await rig.stop()
      ctx.hit()
      if (ow, oh) != (w, h): ctx.label("scaled")
    rrun(main)

SUBS = [
  Sub("layout", layout_cases, run_layout, quick=400, thorough=6000, rule="at least two frames laid out", hang_s=60),
  Sub("activity", meter_cases, run_meter, quick=300, thorough=5000, rule="at least two values measured", hang_s=60),
  Sub("image", image_cases, run_image, quick=60, thorough=1000, rule="three images received", hang_s=60),
]
