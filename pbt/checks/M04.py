from ..syncrig import *
from ..core import Sub
from streamtasks.media.audio import AudioCodecInfo, AudioFrame, AudioResampler, AudioResamplerInfo, audio_buffer_to_samples, audio_buffer_to_ndarray, get_audio_bytes_per_time_sample, sample_format_to_dtype
from streamtasks.media.video import VideoCodecInfo, VideoFrame, video_buffer_to_ndarray
from streamtasks.system.tasks.media.audioencoder import AudioEncoderConfig, AudioEncoderTaskHost
from streamtasks.system.tasks.media.audiodecoder import AudioDecoderConfig, AudioDecoderTaskHost
from streamtasks.system.tasks.media.videoencoder import VideoEncoderConfig, VideoEncoderTaskHost
from streamtasks.system.tasks.media.videodecoder import VideoDecoderConfig, VideoDecoderTaskHost
from streamtasks.system.tasks.media.audioresampler import AudioResamplerConfig, AudioResamplerTaskHost
from fractions import Fraction
import asyncio, math
import numpy as np
AudioEncoderTask = hosted(AudioEncoderTaskHost)
AudioDecoderTask = hosted(AudioDecoderTaskHost)
VideoEncoderTask = hosted(VideoEncoderTaskHost)
VideoDecoderTask = hosted(VideoDecoderTaskHost)
AudioResamplerTask = hosted(AudioResamplerTaskHost)

TECHNIQUE = "property-based testing (Hypothesis): round trips of generated samples and pixels through frames, resamplers, lossless codecs and the encoder and decoder tasks, compared byte by byte and with the time of each block or frame"
NOTE = "Random search with shrinking; formats are those the media library converts from arrays; planar pixel formats only inside codecs; tasks run with their own threads in real time."
IN, MID, OUT = 10, 11, 12

AUDIO_FORMATS = {"s16": (0, np.int16), "s16p": (1, np.int16), "s32": (0, np.int32), "s32p": (1, np.int32), "flt": (0, np.float32), "fltp": (1, np.float32), "dbl": (0, np.float64), "dblp": (1, np.float64), "u8": (0, np.uint8), "u8p": (1, np.uint8)}
def noise(dtype, shape, seed, tame=False):
  r = np.random.default_rng(seed)
  if np.issubdtype(dtype, np.integer):
    i = np.iinfo(dtype)
    return r.integers(i.min, i.max, shape, endpoint=True, dtype=dtype)
  return r.uniform(-1, 1, shape).astype(dtype)
def fail_diff(what, a, b):
  if len(a) != len(b): raise Violation(f"{what}: {len(a)} bytes became {len(b)}")
  i = next(i for i, (x, y) in enumerate(zip(a, b)) if x != y)
  raise Violation(f"{what}: byte {i} of {len(a)} was {a[i]} and is {b[i]}")

def exact(rate): return Fraction(round(rate * 1001), 1001) if rate == 30000 / 1001 else Fraction(rate).limit_denominator(100000)

# ---- audio bytes <-> frames
def audio_cases(): return st.fixed_dictionaries({"format": st.sampled_from(list(AUDIO_FORMATS)), "channels": st.integers(1, 6), "samples": st.one_of(st.integers(1, 5), st.integers(1, 70), st.integers(1, 3000)), "rate": st.one_of(st.sampled_from([8000, 44100, 48000]), st.integers(1, 192000)), "seed": st.integers(0, 999), "type": st.sampled_from(["bytes", "bytearray", "memoryview"])})
def run_audio(case, ctx):
  fmt, C, n = case["format"], case["channels"], case["samples"]
  planar, dtype = AUDIO_FORMATS[fmt]
  x = noise(dtype, (C, n) if planar else (n, C), case["seed"])
  raw = x.tobytes()
  buf = {"bytes": bytes, "bytearray": bytearray, "memoryview": lambda b: memoryview(bytes(b))}[case["type"]](raw)
  if get_audio_bytes_per_time_sample(fmt, C) * n != len(raw): raise Violation(f"{C} channels of {fmt} are said to take {get_audio_bytes_per_time_sample(fmt, C)} bytes")
  if sample_format_to_dtype(fmt) is not dtype: raise Violation(f"{fmt} is said to have samples of type {sample_format_to_dtype(fmt)}")
  y = audio_buffer_to_samples(buf, fmt, C)
  if y.shape != x.shape or y.dtype != x.dtype or not np.array_equal(x, y): raise Violation(f"{n} samples of {C} channels of {fmt} have the shape {y.shape} and type {y.dtype}")
  z, p = audio_buffer_to_ndarray(buf, fmt)
  if p != bool(planar) or z.tobytes() != raw: raise Violation(f"the samples of {fmt} are {'planar' if p else 'interleaved'}")
  f = AudioFrame.from_buffer(buf, fmt, C, case["rate"])
  if (f.frame.samples, f.frame.format.name, f.frame.sample_rate, len(f.frame.layout.channels)) != (n, fmt, case["rate"], C): raise Violation(f"{n} samples of {C} channels at {case['rate']} Hz in {fmt} became a frame of {f.frame}")
  back = f.to_bytes()
  if back != raw: fail_diff(f"{n} samples of {C} channels of {fmt}", raw, back)
  ctx.hit(C > 1 and n > 1)
  if bytes(buf) != raw: raise Violation("the buffer itself changed")

# ---- video bytes <-> frames
VIDEO_FORMATS = {"rgb24": 3, "bgr24": 3, "rgba": 4, "bgra": 4, "argb": 4, "abgr": 4, "gray": 1, "rgb8": 1, "bgr8": 1}
sizes = st.one_of(st.just(1), st.integers(1, 9), st.integers(1, 70))
def video_cases(): return st.fixed_dictionaries({"format": st.sampled_from(list(VIDEO_FORMATS)), "width": sizes, "height": sizes, "seed": st.integers(0, 999)})
def run_video(case, ctx):
  fmt, w, h = case["format"], case["width"], case["height"]
  x = np.random.default_rng(case["seed"]).integers(0, 256, (h, w, VIDEO_FORMATS[fmt]), dtype=np.uint8)
  raw = x.tobytes()
  y = video_buffer_to_ndarray(raw, w, h)
  if y.shape != (x.shape if VIDEO_FORMATS[fmt] > 1 else x.shape[:2]) or y.tobytes() != raw: raise Violation(f"an image of {w} x {h} pixels in {fmt} became an array of the shape {y.shape}")
  f = VideoFrame.from_buffer(raw, w, h, fmt)
  if (f.frame.width, f.frame.height, f.frame.format.name) != (w, h, fmt): raise Violation(f"an image of {w} x {h} pixels in {fmt} became a frame of {f.frame.width} x {f.frame.height} in {f.frame.format.name}")
  back = f.to_bytes()
  if back != raw: fail_diff(f"{w} x {h} pixels of {fmt}", raw, back)
  if fmt not in ("gray", "rgb8", "bgr8") and w > 1:
    order = {"rgb24": "rgb", "bgr24": "bgr"}.get(fmt, fmt)
    for to in ("rgb24", "bgra", "bgr24", "rgba"):
      o2 = {"rgb24": "rgb", "bgr24": "bgr"}.get(to, to)
      z = np.frombuffer(f.convert(pixel_format=to).to_bytes(), np.uint8).reshape(h, w, -1)
      for i, c in enumerate(o2):
        if c in order and not np.array_equal(z[:, :, i], x[:, :, order.index(c)]): raise Violation(f"converting {w} x {h} pixels from {fmt} to {to} changes the {c} channel")
    ctx.hit()

# ---- changing the sample format without loss
WIDER = {"u8": ["s16", "s32", "flt", "dbl", "u8p", "s16p", "fltp"], "s16": ["s32", "flt", "dbl", "s16p", "s32p", "fltp", "dblp"], "s32": ["dbl", "s32p", "dblp"], "flt": ["dbl", "fltp", "dblp"], "s16p": ["s16", "flt", "fltp"], "fltp": ["flt", "dblp"], "u8p": ["s16", "u8"], "dblp": ["dbl"], "s32p": ["dblp", "s32"], "dbl": ["dblp"]}
def resample_cases():
  return st.fixed_dictionaries({"pair": st.sampled_from([[a, b] for a in WIDER for b in WIDER[a]]), "channels": st.integers(1, 2), "blocks": st.lists(st.one_of(st.integers(1, 50), st.integers(1, 1200)), min_size=1, max_size=8), "rate": st.sampled_from([8000, 16000, 44100, 48000]), "to": st.sampled_from([0, 0, 0, 8000, 16000, 44100, 48000]), "start": st.sampled_from([0, 0, 7, 100000]), "seed": st.integers(0, 999)})
def run_resample(case, ctx):
  (a, b), C, rate = case["pair"], case["channels"], case["rate"]
  planar, dtype = AUDIO_FORMATS[a]
  to = case["to"] or rate
  async def main():
    A, B = AudioCodecInfo("pcm_s16le", C, rate, a), AudioCodecInfo("pcm_s16le", C, to, b)
    there, back = B.get_reformatter(A), A.get_reformatter(B)
    pos, src, got, mid = case["start"], [], [], []
    for i, n in enumerate(case["blocks"]):
      x = noise(dtype, (C, n) if planar else (n, C), case["seed"] + i)
      src.append(x if planar else x.T)
      f = AudioFrame.from_buffer(x.tobytes(), a, C, rate)
      f.set_ts(Fraction(pos, rate), Fraction(1, rate))
      pos += n
      fs = await there.reformat_all([f])
      mid += [(g.ptime, g.dtime, g.frame.samples, g.frame.format.name, g.frame.sample_rate) for g in fs]
      got += await back.reformat_all(fs) if to == rate else fs
    at = Fraction(case["start"], rate)
    for p, d, n, fmt, r in mid:
      if fmt != b or r != to: raise Violation(f"resampling to {b} at {to} Hz gave {fmt} at {r} Hz")
      if p != d: raise Violation(f"a resampled block is shown at {p} and decoded at {d}")
      if abs(p - at) > Fraction(3, 2) / min(rate, to) + (Fraction(40, min(rate, to)) if rate != to else 0): raise Violation(f"the resampled block ({a} at {rate} Hz to {b} at {to} Hz) with time {float(p):.6f} should be at {float(at):.6f}")
      at += Fraction(n, r)
    total = sum(case["blocks"])
    if to == rate:
      out = [np.frombuffer(g.to_bytes(), dtype).reshape((C, -1) if planar else (-1, C)) for g in got]
      out = np.concatenate([o if planar else o.T for o in out], axis=1) if out else np.zeros((C, 0))
      src_all = np.concatenate(src, axis=1)
      if out.shape != src_all.shape: raise Violation(f"{src_all.shape[1]} samples became {out.shape[1]} going from {a} to {b} and back")
      if not np.array_equal(out, src_all): raise Violation(f"samples change going from {a} to {b} and back")
      ctx.hit(len(case["blocks"]) > 1)
    else:
      n, want = sum(m[2] for m in mid), Fraction(total * to, rate)
      if not want - 40 * max(1, Fraction(to, rate)) - 2 <= n <= want + 2: raise Violation(f"{total} samples at {rate} Hz became {n} at {to} Hz")
      ctx.label("another rate")
  asyncio.run(main())

# ---- lossless codecs, alone and transcoding one into another
PCM = [("pcm_s16le", "s16"), ("pcm_s32le", "s32"), ("pcm_f32le", "flt"), ("pcm_f64le", "dbl"), ("pcm_u8", "u8"), ("pcm_s16le_planar", "s16p"), ("pcm_s16be", "s16"), ("pcm_s32be", "s32")]
PCM_TO = {"s16": ["pcm_s32le", "pcm_f32le", "pcm_s16be"], "s32": ["pcm_f64le", "pcm_s32be"], "flt": ["pcm_f64le", "pcm_f32le"], "dbl": ["pcm_f64le"], "u8": ["pcm_s16le", "pcm_u8"], "s16p": ["pcm_s16le"]}
VID = [("ffv1", "yuv420p"), ("ffv1", "bgra"), ("ffv1", "gray"), ("rawvideo", "rgb24"), ("rawvideo", "yuv420p"), ("rawvideo", "bgr24"), ("png", "rgb24"), ("png", "rgba"), ("magicyuv", "gbrp"), ("bmp", "bgr24"), ("tiff", "rgb24"), ("ffv1", "yuv444p")]
VID_TO = {"rgb24": [("rawvideo", "rgb24"), ("png", "rgb24"), ("bmp", "bgr24"), ("png", "rgba")], "bgr24": [("rawvideo", "rgb24"), ("bmp", "bgr24")], "bgra": [("png", "rgba"), ("ffv1", "bgra")], "rgba": [("ffv1", "bgra")], "yuv420p": [("ffv1", "yuv420p"), ("rawvideo", "yuv420p")], "gray": [("ffv1", "gray")], "gbrp": [("magicyuv", "gbrp")], "yuv444p": [("ffv1", "yuv444p")]}
def codec_cases():
  return st.fixed_dictionaries({"kind": st.sampled_from(["audio", "video"]), "codec": st.integers(0, 11), "to": st.one_of(st.none(), st.integers(0, 3)), "channels": st.integers(1, 2), "width": st.integers(2, 20).map(lambda x: 2 * x), "height": st.integers(2, 20).map(lambda x: 2 * x),
    "rate": st.sampled_from([10, 15, 25, 30, 50, 60, 30, 25, 29.97, 12.5, 0.5, 30000 / 1001]), "start": st.sampled_from([0, 0, 3, 1000]), "steps": st.lists(st.one_of(st.just(1), st.integers(1, 4)), min_size=1, max_size=8), "seed": st.integers(0, 999)})
def picture(fmt, w, h, seed):
  return VideoFrame.from_ndarray(np.random.default_rng(seed).integers(0, 256, (h, w, 3), dtype=np.uint8), "rgb24").convert(pixel_format=fmt)
def run_codec(case, ctx):
  async def main():
    audio = case["kind"] == "audio"
    if audio:
      codec, fmt = PCM[case["codec"] % len(PCM)]
      rate, C = int(case["rate"] * 800), case["channels"]
      info = AudioCodecInfo(codec, C, rate, fmt)
    else:
      codec, fmt = VID[case["codec"] % len(VID)]
      rate = case["rate"]
      info = VideoCodecInfo(case["width"], case["height"], rate, fmt, codec)
    R = exact(rate)
    last = info
    trans = None
    if case["to"] is not None:
      if audio:
        c = PCM_TO[fmt][case["to"] % len(PCM_TO[fmt])]
        last = AudioCodecInfo(c, case["channels"], rate, dict(PCM)[c])
      else:
        c, f2 = VID_TO[fmt][case["to"] % len(VID_TO[fmt])]
        last = VideoCodecInfo(case["width"], case["height"], rate, f2, c)
      trans = info.get_transcoder(last)
    enc, dec = info.get_encoder(), last.get_decoder()
    at, want, packets = case["start"], [], []
    for i, step in enumerate(case["steps"]):
      if audio:
        n, (planar, dtype) = step * 50, AUDIO_FORMATS[fmt]
        x = noise(dtype, (C, n) if planar else (n, C), case["seed"] + i)
        f = AudioFrame.from_buffer(x.tobytes(), fmt, C, rate)
        content = (x if planar else x.T)
      else: f, n = picture(fmt, case["width"], case["height"], case["seed"] + i), step
      if not audio: content = f.to_bytes()
      f.set_ts(at / R, 1 / R)
      if f.ptime != at / R or f.dtime != f.ptime: raise Violation(f"a frame put at {at / R} s is at {f.ptime}")
      want.append((at, content))
      packets += await enc.encode(f)
      at += n
    packets += await enc.flush()
    if any(b.dts <= a.dts for a, b in zip(packets, packets[1:])): raise Violation(f"{codec}: packets are to be decoded at {[p.dts for p in packets]}")
    if trans is not None:
      ps = []
      for p in packets: ps += await trans.transcode(p)
      ps += await trans.flush()
      if not trans.flushed: raise Violation("a flushed transcoder does not say so")
      packets = ps
    frames = []
    for p in packets: frames += await dec.decode(p)
    frames += await dec.flush()
    if audio:
      # blocks may be cut differently: compare sample by sample, and each block's time with that of its first sample
      src = np.concatenate([c for _, c in want], axis=1)
      planar, dtype = AUDIO_FORMATS[frames[0].frame.format.name] if frames else (0, np.int16)
      pos = 0
      for f in frames:
        y = np.frombuffer(f.to_bytes(), dtype).reshape((C, -1) if planar else (-1, C))
        y = y if planar else y.T
        if f.frame.pts != case["start"] + pos: raise Violation(f"{codec}: the block from sample {pos} has time {f.frame.pts} instead of {case['start'] + pos}")
        x = src[:, pos:pos + y.shape[1]]
        if trans is None and f.frame.format.name.rstrip("p") != fmt.rstrip("p"): raise Violation(f"{fmt} was decoded as {f.frame.format.name}")
        if dtype is not src.dtype.type: y = rescale(y, src.dtype.type)
        if x.shape != y.shape or not np.array_equal(x, y): raise Violation(f"{codec}{' to ' + last.codec if trans else ''}: samples from {pos} on changed")
        pos += y.shape[1]
      if pos != src.shape[1]: raise Violation(f"{codec}: {src.shape[1]} samples became {pos}")
    else:
      times = [f.frame.pts for f in frames]
      if times != [t for t, _ in want]: raise Violation(f"{codec}: frames at {[t for t, _ in want]} came back at {times}")
      for (t, x), f in zip(want, frames):
        if trans is None and f.frame.format.name != fmt: raise Violation(f"{fmt} was decoded as {f.frame.format.name}")
        y = f.convert(pixel_format=fmt).to_bytes() if f.frame.format.name != fmt else f.to_bytes()
        if x != y: raise Violation(f"{codec}{' to ' + last.codec if trans else ''}: pixels of the frame at {t} changed")
    ctx.hit(len(want) > 2)
    ctx.label(codec + ("" if trans is None else " to " + last.codec))
  asyncio.run(main())
def rescale(y, dtype):
  """Back from a wider sample format."""
  full = lambda t: 2.0 ** (8 * np.dtype(t).itemsize - 1)
  src = y.dtype.type
  v = y.astype(np.float64)
  if np.issubdtype(src, np.integer): v = (v - (128 if src is np.uint8 else 0)) / full(src)
  if np.issubdtype(dtype, np.integer): v = np.round(v * full(dtype) + (128 if dtype is np.uint8 else 0))
  return v.astype(dtype)

# ---- the encoder and decoder tasks in a row
BAD = [{"timestamp": 5}, {"data": b"ab"}, {"timestamp": "x", "data": b""}, {"timestamp": 1, "data": 5}, {}, [], 3, "x", {"timestamp": 1, "packet": 5}, {"timestamp": 1, "packet": {"data": b"x"}}]
def task_cases():
  step = st.one_of(st.just(["d", 1]), st.just(["d", 1]), st.tuples(st.just("d"), st.integers(1, 5)).map(list), st.tuples(st.just("bad"), st.integers(0, len(BAD) - 1)).map(list), st.tuples(st.just("size"), st.integers(1, 7)).map(list))
  return st.fixed_dictionaries({"kind": st.sampled_from(["audio", "video", "video"]), "codec": st.integers(0, 5), "out": st.integers(0, 2), "channels": st.integers(1, 2), "width": st.integers(1, 10).map(lambda x: 2 * x), "height": st.integers(1, 10).map(lambda x: 2 * x),
    "rate": st.sampled_from([1, 10, 15, 24, 25, 30, 60, 29.97, 12.5, 0.5]), "start": st.sampled_from([0, 1000, 1_700_000_000_000]), "late": st.integers(0, 100), "round": st.sampled_from(["floor", "round", "ceil"]), "steps": st.lists(step, min_size=2, max_size=12), "link": links(), "seed": st.integers(0, 999)})
TASK_AUDIO = [("pcm_s16le", "s16", "s16"), ("pcm_f32le", "flt", "flt"), ("pcm_s32le", "s16", "s32"), ("pcm_u8", "u8", "u8"), ("pcm_f64le", "fltp", "dbl"), ("pcm_s16le", "s16p", "s16")]
TASK_VIDEO = [("ffv1", "bgra", "bgra"), ("rawvideo", "rgb24", "rgb24"), ("png", "rgb24", "rgb24"), ("rawvideo", "bgr24", "rgb24"), ("ffv1", "gray", "gray"), ("png", "bgra", "rgba")]
VIDEO_OUT = {"bgra": ["bgra", "rgba", "argb"], "rgb24": ["rgb24", "bgr24", "rgb24"], "bgr24": ["bgr24", "rgb24", "bgr24"], "gray": ["gray", "gray", "gray"]}
def run_tasks(case, ctx):
  audio = case["kind"] == "audio"
  if audio:
    codec, fmt, coded = TASK_AUDIO[case["codec"]]
    C, rate = case["channels"], 8000
    planar, dtype = AUDIO_FORMATS[fmt]
    econf = {"in_sample_format": fmt, "out_sample_format": coded, "channels": C, "encoder": codec, "codec": codec, "rate": rate, "in_topic": IN, "out_topic": MID}
    dconf = {"in_sample_format": coded, "out_sample_format": fmt, "channels": C, "decoder": codec, "codec": codec, "rate": rate, "in_topic": MID, "out_topic": OUT}
    build = (lambda c: AudioEncoderTask(c, AudioEncoderConfig.model_validate(econf))), (lambda c: AudioDecoderTask(c, AudioDecoderConfig.model_validate(dconf)))
  else:
    codec, fmt, coded = TASK_VIDEO[case["codec"]]
    out, w, h, rate = VIDEO_OUT[fmt][case["out"]], case["width"], case["height"], case["rate"]
    econf = {"in_pixel_format": fmt, "out_pixel_format": coded, "encoder": codec, "codec": codec, "width": w, "height": h, "rate": rate, "in_topic": IN, "out_topic": MID}
    dconf = {"in_pixel_format": coded, "out_pixel_format": out, "decoder": codec, "codec": codec, "width": w, "height": h, "rate": rate, "in_topic": MID, "out_topic": OUT}
    build = (lambda c: VideoEncoderTask(c, VideoEncoderConfig.model_validate(econf))), (lambda c: VideoDecoderTask(c, VideoDecoderConfig.model_validate(dconf)))
  rnd = {"floor": math.floor, "round": round, "ceil": math.ceil}[case["round"]]
  msgs, want, pos = [], [], 0
  for i, (kind, v) in enumerate(case["steps"]):
    if kind == "bad": msgs.append(BAD[v])
    else:
      ts = case["start"] + rnd(pos * 1000 / exact(rate))
      if audio:
        n = v * 40
        x = noise(dtype, (C, n) if planar else (n, C), case["seed"] + i)
        data = x.tobytes()
        content = x if planar else x.T
      else:
        n = v
        x = np.random.default_rng(case["seed"] + i).integers(0, 256, (h, w, VIDEO_FORMATS[fmt]), dtype=np.uint8)
        data = content = x.tobytes()
      if kind == "size":
        unit = dtype().itemsize * C if audio else w * h
        if v == 1: bad = b""
        elif v == 2 and not audio: bad = data + data
        else:
          bad = data + bytes(v if v % unit else 1)
          if len(bad) % unit == 0: continue
        msgs.append({"timestamp": ts, "data": bad})
        ctx.label("wrong size")
        continue
      pos += n
      msgs.append({"timestamp": ts, "data": data})
      want.append((ts, content))
  async def main():
    rig = await SyncRig().start(build[0], [IN], [MID], case["link"])
    await rig.quiet()
    for m in msgs: await rig.send(IN, m)
    packets = [e[2] for e in await rig.collect(len(want), "coded packets") if e[1] == "d"]
    await rig.stop()
    for i, p in enumerate(packets):
      if set(p) != {"timestamp", "packet"}: raise Violation(f"the encoder sent {str(p)[:200]}")
    t = [p["packet"]["pts"] for p in packets]
    if any(b <= a for a, b in zip(t, t[1:])): raise Violation(f"{codec}: frames at {[x for x, _ in want]} ms were encoded to be shown at {t} (rate {rate})")
    late = min(case["late"], len(packets) - 1) if case["late"] % 3 == 0 else 0           # the decoder may join later
    while late and late < len(packets) and not packets[late]["packet"]["is_keyframe"]: late += 1
    early = [p for p in packets[:late] if not p["packet"]["is_keyframe"]][-1:] if late else []   # cannot be decoded: nothing is known yet
    if late == len(packets): return
    if early: ctx.label("joined between key frames")
    rig = await SyncRig().start(build[1], [MID], [OUT], case["link"])
    await rig.quiet()
    for p in [BAD[case["seed"] % len(BAD)]] + early + packets[late:]: await rig.send(MID, p)
    got = [e[2] for e in await rig.collect(len(want) - late, "decoded blocks") if e[1] == "d"]
    await rig.stop()
    slack = 3
    for (ts, x), m in zip(want[late:], got):
      if set(m) != {"timestamp", "data"}: raise Violation(f"the decoder sent {str(m)[:200]}")
      if abs(m["timestamp"] - ts) > slack: raise Violation(f"{codec}: the {'block' if audio else 'frame'} with timestamp {ts} (first {want[0][0]}, decoded from {want[late][0]}) came out with {m['timestamp']} (rate {rate})")
      if audio:
        y = np.frombuffer(m["data"], dtype).reshape((C, -1) if planar else (-1, C))
        if not np.array_equal(y if planar else y.T, x): raise Violation(f"{codec}: samples changed between {fmt} and {coded}")
      else:
        y = m["data"]
        if out != fmt and len(y) == len(x):
          letters = lambda f: {"rgb24": "rgb", "bgr24": "bgr"}.get(f, f)
          y = np.frombuffer(y, np.uint8).reshape(h, w, -1)[:, :, [letters(out).index(c) for c in letters(fmt)]].tobytes()
        if y != x: fail_diff(f"{codec}: an image in {fmt}, coded as {coded}, decoded to {out}", x, y)
    ts = [m["timestamp"] for m in got]
    if any(b <= a for a, b in zip(ts, ts[1:])) : raise Violation(f"{codec}: blocks with timestamps {[t for t, _ in want[late:]]} came out with {ts}")
    ctx.hit(len(want) > 2)
    ctx.label(case["kind"])
  if not want: return
  rrun(main)

# ---- the resampler task
def rtask_cases():
  op = st.one_of(*[st.tuples(st.just("block"), st.integers(1, 8))] * 6, st.tuples(st.just("pause")), st.tuples(st.just("bad"), st.integers(0, len(BAD) - 1)), st.tuples(st.just("size"), st.integers(0, 7)), st.tuples(st.just("gap"), st.integers(1, 50))).map(list)
  return st.fixed_dictionaries({"pair": st.sampled_from([[a, b] for a in WIDER for b in WIDER[a]] + [["s16", "s16"], ["fltp", "fltp"]]), "channels": st.integers(1, 2), "rate": st.sampled_from([8000, 16000, 32000]), "to": st.sampled_from([0, 0, 0, 8000, 16000, 44100]), "start": st.sampled_from([0, 1_700_000_000_000]), "link": links(), "ops": st.lists(op, min_size=3, max_size=16), "seed": st.integers(0, 999)})
def run_rtask(case, ctx):
  (a, b), C, rate = case["pair"], case["channels"], case["rate"]
  to = case["to"] or rate
  (pa, da), (pb, db) = AUDIO_FORMATS[a], AUDIO_FORMATS[b]
  conf = {"in_sample_format": a, "in_rate": rate, "in_channels": C, "out_sample_format": b, "out_rate": to, "out_channels": C, "in_topic": IN, "out_topic": OUT}
  async def main():
    rig = await SyncRig().start(lambda c: AudioResamplerTask(c, AudioResamplerConfig.model_validate(conf)), [IN], [OUT], case["link"])
    await rig.quiet()
    src, got, at, paused, marks = [], [], 0, False, []       # marks: (time in ms, sample number) of the block's beginnings
    total = 0
    async def flush():
      def more():
        for e in rig.take(): got.append(e)
        return to != rate or sum(len(e[2]["data"]) for e in got if e[1] == "d") >= total * C * db().itemsize
      await rig.until(more, f"resampled audio is missing ({total} samples of {C} channels)")
      await rig.quiet()
      await asyncio.sleep(0.01 if to == rate else 0.05)
      more()
    for i, (kind, *v) in enumerate(case["ops"]):
      if kind == "pause":
        await flush()
        paused = not paused
        await rig.pause(IN, paused)
        await rig.until(lambda: got.extend(rig.take()) or [e[2] for e in got if e[1] == "p"][-1:] == [paused], "the pause state of the output is missing")
      elif paused: continue
      elif kind == "gap":
        if to == rate: at += v[0]
      elif kind == "bad": await rig.send(IN, BAD[v[0]])
      elif kind == "size":
        unit = C * da().itemsize
        if unit > 1: await rig.send(IN, {"timestamp": case["start"] + at, "data": bytes(v[0] * unit + 1)} if src else BAD[0])
      else:
        n = v[0] * rate // 1000 * 5
        x = noise(da, (C, n) if pa else (n, C), case["seed"] + i)
        marks.append((at, total))
        await rig.send(IN, {"timestamp": case["start"] + at, "data": x.tobytes()})
        src.append(x if pa else x.T)
        at += v[0] * 5
        total += n
    await flush()
    await rig.stop()
    out, n = [], 0
    for e in got:
      if e[1] != "d": continue
      if set(e[2]) != {"timestamp", "data"}: raise Violation(f"the resampler sent {str(e[2])[:200]}")
      y = np.frombuffer(e[2]["data"], db).reshape((C, -1) if pb else (-1, C))
      y = y if pb else y.T
      out.append(y)
      pos = Fraction(n * rate, to)
      base = [m for m in marks if m[1] <= pos][-1:]
      if not base: raise Violation("a block came from nowhere")
      want = case["start"] + base[0][0] + (pos - base[0][1]) * 1000 / rate
      if abs(e[2]["timestamp"] - want) > (2 if to == rate else 12): raise Violation(f"the resampled block from sample {n} on ({a} at {rate} Hz to {b} at {to} Hz) has timestamp {e[2]['timestamp']}, its first sample was at {float(want):.2f}")
      n += y.shape[1]
    if to == rate:
      y, x = (np.concatenate(o, axis=1) if o else np.zeros((C, 0), d) for o, d in ((out, db), (src, da)))
      if y.shape != x.shape: raise Violation(f"{x.shape[1]} samples became {y.shape[1]}")
      if not np.array_equal(rescale(y, da) if da is not db else y, x): raise Violation(f"samples changed between {a} and {b}")
    elif not total * to / rate * 0.9 - 400 <= n <= total * to / rate + 2: raise Violation(f"{total} samples at {rate} Hz became {n} at {to} Hz")
    ctx.hit(len(src) > 1)
  rrun(main)

SUBS = [
  Sub("audio-bytes", audio_cases, run_audio, quick=1500, thorough=40000, rule="several channels and samples"),
  Sub("video-bytes", video_cases, run_video, quick=1000, thorough=30000, rule="a format with several components and more than one column"),
  Sub("resample", resample_cases, run_resample, quick=600, thorough=8000, rule="several blocks converted to another format and back"),
  Sub("codec", codec_cases, run_codec, quick=600, thorough=8000, rule="more than two frames or blocks"),
  Sub("tasks", task_cases, run_tasks, quick=500, thorough=5000, rule="more than two frames or blocks", hang_s=60),
  Sub("resampler-task", rtask_cases, run_rtask, quick=200, thorough=4000, rule="at least two blocks", hang_s=60),
]
