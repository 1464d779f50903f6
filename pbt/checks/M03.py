from ..syncrig import *
from ..core import Sub
from .. import ext
import numpy as np

TECHNIQUE = "property-based testing (Hypothesis): generated images, counts, sizes and track histories against compositing in exact arithmetic; the same calls under the address sanitizer"
NOTE = "Random search with shrinking; the extension is built from the repository's source for every run, once more with -fsanitize=address. Colours may differ by one per layer."
module = ext.load()
from streamtasks.system.tasks.media.videomixer import VideoMixerConfig, VideoMixerTaskHost
VideoMixerTask = hosted(VideoMixerTaskHost)

def image(kind, n, seed, front):
  """n pixels of 4 bytes."""
  r = np.random.default_rng(seed)
  a = r.integers(0, 256, (n, 4), dtype=np.uint8)
  i = 0 if front else 3
  if kind == "opaque": a[:, i] = 255
  elif kind == "clear": a[:, i] = 0
  elif kind == "mixed": a[:, i] = r.choice(np.array([0, 255, 128, 1, 254], np.uint8), n)
  elif kind == "white": a[:] = 255
  elif kind == "dim": a[:, i] = r.choice(np.array([1, 2, 254], np.uint8), n)
  return a
KINDS = ["any", "opaque", "clear", "mixed", "white", "dim"]
def compose(images, front, base=None):
  """(lower, upper) bounds of every byte: exact composite, and what rounding may make of it."""
  ai, ci = (0, [1, 2, 3]) if front else (3, [0, 1, 2])
  n = min(len(i) for i in images)
  color = np.zeros((n, 3)) if base is None else base
  slack = np.zeros((n, 1))
  for img in images:
    al = img[:n, ai:ai + 1].astype(np.float64) / 255
    color = color * (1 - al) + img[:n, ci].astype(np.float64) * al
    slack = np.where(al == 1, 0, np.where(al == 0, slack, slack * (1 - al) + 1))
  return color, slack
def judge(out, images, front, base=None):
  ai, ci = (0, [1, 2, 3]) if front else (3, [0, 1, 2])
  n = min(len(i) for i in images)
  if len(out) != 4 * n: raise Violation(f"images of {[len(i) for i in images]} pixels gave {len(out) / 4} pixels")
  o = np.frombuffer(out, np.uint8).reshape((n, 4))
  if not (o[:, ai] == 255).all(): raise Violation(f"the composite is not opaque: alpha {o[:, ai].tolist()[:10]}")
  color, slack = compose(images, front, base)
  bad = np.abs(o[:, ci] - color) > slack + 1e-9
  if bad.any():
    p = int(np.argwhere(bad)[0][0])
    raise Violation(f"pixel {p} of the layers {[i[p].tolist() for i in images]} (alpha {'first' if front else 'last'}) became {o[p].tolist()}, expected {np.round(color[p], 2).tolist()} ±{slack[p][0]:.2f}")

def merge_cases():
  return st.fixed_dictionaries({"layers": st.lists(st.sampled_from(KINDS), min_size=1, max_size=6), "n": st.one_of(st.integers(0, 8), st.integers(0, 300)), "front": st.booleans(), "seed": st.integers(0, 10000), "more": st.lists(st.integers(0, 5), max_size=3)})
def run_merge(case, ctx):
  images = [image(k, case["n"] + (case["more"][i] if i < len(case["more"]) else 0), case["seed"] + i, case["front"]) for i, k in enumerate(case["layers"])]
  given = [i.tobytes() for i in images]
  kept = [bytes(bytearray(g)) for g in given]
  out = module.merge_images(given, case["front"])
  if given != kept: raise Violation("an input image was changed")
  judge(out, images, case["front"])
  if module.merge_images(given, case["front"]) != out: raise Violation("the same images gave another result")
  ctx.hit(len(images) >= 2 and case["n"] > 0)

# ---- nothing outside the images, whatever their sizes
sanitized = ext.Sanitized()
def asan_cases(): return st.fixed_dictionaries({"sizes": st.lists(st.one_of(st.integers(0, 40), st.integers(0, 9), st.integers(0, 4000)), min_size=0, max_size=5), "front": st.booleans(), "same": st.booleans(), "seed": st.integers(0, 1000)})
def run_asan(case, ctx):
  sizes = case["sizes"]
  if case["same"] and sizes: sizes = [sizes[0]] * len(sizes)
  r = np.random.default_rng(case["seed"])
  images = [r.integers(0, 256, n, dtype=np.uint8).tobytes() for n in sizes]
  kind, out = sanitized.merge(images, case["front"])
  if kind != "ok": raise Violation(f"merging images of {sizes} bytes accessed other memory: {out}", key="asan")
  if out is not None and sizes and len(out) > min(sizes): raise Violation(f"images of {sizes} bytes gave {len(out)} bytes")
  ctx.hit(len(sizes) >= 2 and min(sizes) > 0)

# ---- the mixer
IN, OUT = [10, 11, 12], 20
BAD = [{"timestamp": 5}, {"data": b"abcd"}, {"timestamp": "x", "data": b""}, {"timestamp": 1, "data": 5}, {}, [], 3, "x"]
def mixer_cases():
  t = st.integers(0, 2)
  op = st.one_of(*[st.tuples(st.just("frame"), t, st.sampled_from(KINDS), st.integers(1, 3))] * 6, st.tuples(st.just("bad"), t, st.integers(0, len(BAD) - 1)), st.tuples(st.just("size"), t, st.integers(-9, 9)), st.tuples(st.just("pause"), t, st.booleans())).map(list)
  return st.fixed_dictionaries({"tracks": st.integers(1, 3), "w": st.integers(1, 5), "h": st.integers(1, 4), "format": st.sampled_from(["rgba", "bgra", "argb", "abgr"]), "bg": st.one_of(st.sampled_from(["#000000", "#ffffff", "#102030"]), st.integers(0, 2**24 - 1).map(lambda x: f"#{x:06X}")),
    "sync": st.booleans(), "link": links(), "rate": st.sampled_from([30, 1, 0.5, 60]), "ops": st.lists(op, min_size=10, max_size=30)})
def run_mixer(case, ctx):
  tracks, w, h, fmt = IN[:case["tracks"]], case["w"], case["h"], case["format"]
  front = fmt.startswith("a")
  bg = dict(zip("rgb", (int(case["bg"][i:i + 2], 16) for i in (1, 3, 5))))
  base = np.array([[bg[c] for c in fmt if c != "a"]] * (w * h), np.float64)
  conf = {"video_tracks": [{"in_topic": t} for t in tracks], "width": w, "height": h, "pixel_format": fmt, "rate": case["rate"], "bgcolor_hex": case["bg"], "synchronized": case["sync"], "out_topic": OUT}
  last, fresh, expected = {t: None for t in tracks}, set(), []
  def deliver(t, item):
    """A picture is complete when a track brings its next one."""
    kind, v = item
    if kind == "p":
      last[t] = None
      return
    if not (isinstance(v, dict) and type(v.get("timestamp")) is int and isinstance(v.get("data"), bytes)): return
    if len(v["data"]) != 4 * w * h: return
    if t in fresh or not fresh:
      shown = [last[x] for x in tracks if last[x] is not None]
      if shown: expected.append((min(m["timestamp"] for m in shown), [np.frombuffer(m["data"], np.uint8).reshape((-1, 4)) for m in shown]))
      fresh.clear()
    last[t] = v
    fresh.add(t)
  model = SyncModel(tracks, deliver, sync=case["sync"])
  async def main():
    rig = await SyncRig().start(lambda c: VideoMixerTask(c, VideoMixerConfig.model_validate(conf)), tracks, [OUT], case["link"])
    await rig.quiet()
    done, ts, isp = 0, 0, {t: False for t in tracks}
    for i, op in enumerate(case["ops"]):
      t = tracks[op[1] % len(tracks)]
      if op[0] == "pause":
        if isp[t] == op[2] or model.pending: continue
        isp[t] = op[2]
        model.push(t, ("p", op[2]))
        await rig.pause(t, op[2])
      else:
        if isp[t]: continue
        ts += op[3] if op[0] == "frame" else 1        # never two at the same time: their order would be open
        n = 4 * w * h
        if op[0] == "frame": msg = {"timestamp": ts, "data": image(op[2], w * h, i, front).tobytes()}
        elif op[0] == "bad": msg = BAD[op[2]]
        else:
          if op[2] == 0 or n + op[2] < 0: continue
          msg = {"timestamp": ts, "data": bytes(range(7, 7 + n + op[2]))}
          ctx.label("wrong size")
        model.push(t, ("d", msg))
        await rig.send(t, msg)
      await rig.quiet()
      if len(expected) == done and i < len(case["ops"]) - 1: continue
      got = await rig.collect(len(expected) - done, f"step {i} {op[0]}: mixed pictures")
      for (at, images), (_, kind, v, _) in zip(expected[done:], got):
        if kind != "d": raise Violation(f"the mixer paused its output: {v}")
        if len(v.get("data", b"")) != 4 * w * h: raise Violation(f"step {i}: a picture of {w}x{h} pixels has {len(v.get('data', b''))} bytes")
        if v.get("timestamp") != at: raise Violation(f"step {i}: a picture has the timestamp {v.get('timestamp')}, expected {at}")
        judge(v["data"], images, front, base)
      done = len(expected)
    ctx.hit(done >= 2)
    await rig.stop()
  rrun(main)

SUBS = [
  Sub("merge", merge_cases, run_merge, quick=1500, thorough=60000, rule="at least two non-empty images"),
  Sub("sanitizer", asan_cases, run_asan, quick=400, thorough=20000, rule="at least two non-empty images"),
  Sub("mixer", mixer_cases, run_mixer, quick=300, thorough=6000, rule="at least two pictures came out", hang_s=60),
]
