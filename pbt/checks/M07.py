from ..taskrig import *
from ..core import Sub
from streamtasks.media.audio import AudioCodecInfo, AudioFrame, sample_format_to_dtype
from streamtasks.media.video import VideoCodecInfo, VideoFrame
from streamtasks.media.container import InputContainer, OutputContainer
from streamtasks.media.packet import MediaMessage, MediaPacket
from streamtasks.system.tasks.media.inputcontainer import InputContainerConfig, InputContainerTaskHost
from streamtasks.system.tasks.media.outputcontainer import OutputContainerConfig, OutputContainerTaskHost
from streamtasks.utils import get_timestamp_ms
from fractions import Fraction
from functools import lru_cache
import asyncio, dataclasses, math, os, tempfile, uuid
import av
import numpy as np
InputContainerTask = hosted(InputContainerTaskHost)
OutputContainerTask = hosted(OutputContainerTaskHost)

TECHNIQUE = "property-based testing (Hypothesis): generated tracks, codecs, container formats, interleavings and message histories are written with the real containers and tasks and read back, compared packet by packet with an independent model of the timing"
NOTE = "Random search with shrinking; formats and codecs that keep packets as they are (others are compared after decoding); tasks run in virtual time with their blocking calls inline."

# codec -> (formats it is stored in unchanged, sample or pixel formats)
VIDEO = {"mpeg4": (["matroska", "nut", "avi", "mov", "mp4", "mpegts"], ["yuv420p"]), "ffv1": (["matroska", "nut", "avi"], ["yuv420p", "bgra", "gray"]), "png": (["nut", "avi", "mov", "mp4"], ["rgb24", "rgba"]),
  "mjpeg": (["matroska", "nut", "avi", "mov", "mp4"], ["yuvj420p"]), "vp8": (["matroska", "nut", "avi", "webm"], ["yuv420p"]), "rawvideo": (["nut", "avi", "mov"], ["yuv420p"])}
AUDIO = {"aac": (["matroska", "nut", "mov", "mp4"], ["fltp"]), "libmp3lame": (["matroska", "nut", "avi", "mov", "mp4", "mpegts"], ["fltp"]), "ac3": (["matroska", "nut", "avi", "mov", "mp4", "mpegts"], ["fltp"]),
  "pcm_s16le": (["matroska", "nut", "avi", "mov"], ["s16"]), "pcm_f32le": (["matroska", "nut", "avi", "mov"], ["flt"]), "pcm_s24le": (["matroska", "nut", "avi", "mov"], ["s32"]), "pcm_u8": (["nut", "avi"], ["u8"])}
FORMATS = ["nut", "matroska", "mp4", "mov", "avi", "mpegts"]
RATES = [25, 30, 10, 60, 50, 12.5, 29.97, 1]
def exact(rate): return Fraction(rate).limit_denominator(100000)

def info_of(t):
  if t["kind"] == "video": return VideoCodecInfo(t["w"], t["h"], t["rate"], t["pf"], t["codec"])
  return AudioCodecInfo(t["codec"], t["channels"], t["rate"], t["sf"])
def content(info, n, seed, pcm=(), back=False):
  r = np.random.default_rng(seed)
  pos = 0
  base = r.integers(0, 256, (info.height, info.width, 3), dtype=np.uint8) if info.type == "video" else None
  for i in range(n):
    if info.type == "video":
      x = r.integers(0, 256, base.shape, dtype=np.uint8) if not back else np.roll(base, 2 * i, 1) + r.integers(0, 4, base.shape, dtype=np.uint8)
      v, step = VideoFrame.from_ndarray(x, "rgb24").convert(pixel_format=info.pixel_format), 1
    else:
      step = 1024 if not pcm else pcm[i % len(pcm)]
      dt = sample_format_to_dtype(info.sample_format)
      x = r.uniform(-1, 1, step * info.channels).astype(dt) if np.issubdtype(dt, np.floating) else r.integers(np.iinfo(dt).min, np.iinfo(dt).max, step * info.channels).astype(dt)
      v = AudioFrame.from_buffer(x.tobytes(), info.sample_format, info.channels, info.sample_rate)
    v.set_ts(pos * info.time_base, info.time_base)
    pos += step
    yield v
@lru_cache(maxsize=300)
def packets(key, n, seed, pcm, back=False):
  """The first `n` packets of generated content; for raw samples with the number of samples of each."""
  info = info_of(dict(key))
  enc, out, size = info.get_encoder(), [], []
  if info.type == "audio" and enc.codec_context.frame_size: pcm = (enc.codec_context.frame_size,)
  for v in content(info, n, seed, pcm, back):
    ps = enc.encode_sync(v)
    out += ps
    if info.type == "audio": size += [v.frame.samples] * len(ps)
  rest = enc.flush_sync()
  if info.type == "audio" and enc.codec_context.frame_size: size = [enc.codec_context.frame_size] * (len(out) + len(rest))
  out += rest
  return [dataclasses.replace(p) for p in out[:n]], tuple(size[:n]) if info.type == "audio" else (1,) * len(out[:n])
def is_pcm(t): return t["codec"].startswith("pcm_")
def key_of(t): return tuple(sorted((k, v) for k, v in t.items() if k in ("kind", "codec", "rate", "w", "h", "pf", "channels", "sf")))
def packets_of(t):
  ps, sizes = packets(key_of(t), t["n"], t["seed"], tuple(t.get("blocks") or ()))
  return [dataclasses.replace(p, pts=p.pts + t["start"]) for p in ps], sizes

def track(fmt, kinds=("video", "audio"), maxn=30):
  vids = [(c, pf) for c, (fs, pfs) in VIDEO.items() if fmt in fs for pf in pfs]
  auds = [(c, sf) for c, (fs, sfs) in AUDIO.items() if fmt in fs for sf in sfs]
  even = st.integers(4, 12).map(lambda x: 2 * x)
  n = st.one_of(st.integers(1, 5), st.integers(3, maxn))
  v = st.tuples(st.sampled_from(vids), st.sampled_from([25, 24, 30, 50] if fmt == "mpegts" else RATES), st.sampled_from([[16, 16], [32, 16], [18, 24]]), n).map(lambda x: {"kind": "video", "codec": x[0][0], "pf": x[0][1], "rate": x[1] if x[0][0] != "mpeg4" or x[1] == int(x[1]) else 15, "w": x[2][0], "h": x[2][1], "n": x[3]})
  a = st.tuples(st.sampled_from(auds), st.sampled_from([32000, 48000, 44100]), st.integers(1, 2), n, st.lists(st.one_of(st.integers(50, 700), st.integers(100, 4000)), min_size=1, max_size=3)).map(lambda x: {"kind": "audio", "codec": x[0][0], "sf": x[0][1], "rate": x[1], "channels": x[2], "n": x[3], **({"blocks": x[4]} if x[0][0].startswith("pcm") else {})})
  return st.tuples(st.one_of(*[{"video": v, "audio": a}[k] for k in kinds]), st.integers(0, 5), st.sampled_from([0, 0, 0, 7, 1000000])).map(lambda x: {**x[0], "seed": x[1], "start": x[2]})
def tracks(fmt, maxn=30):
  if fmt == "avi": one = track(fmt, ("video",), maxn)
  else: one = track(fmt, maxn=maxn)
  return st.lists(one, min_size=1, max_size=3 if fmt != "avi" else 1).map(lambda ts: {"format": fmt, "tracks": ts})

def label_of(t): return f"{t['codec']}"
def tolerance(fmt, tb):
  """How far times may be off after being stored: the resolution of the container."""
  res = {"matroska": Fraction(1, 1000), "mpegts": Fraction(1, 90000), "nut": 0}.get(fmt, 0)
  return max(res, 0) + (tb if res > tb / 2 else 0)

def compare(what, t, fmt, want, got):
  """want: [(time, shown time, packet)], got: [(dts, pts, data, key)] in seconds relative to the same start."""
  if is_pcm(t):
    a, b = b"".join(bytes(p.data) for _, _, p in want), b"".join(g[2] for g in got)
    if a != b: raise Violation(f"{what}: {len(a)} bytes of raw samples came back as {len(b)}" + (" others" if len(a) == len(b) else ""), key="pcm data")
    return
  if len(want) != len(got): raise Violation(f"{what}: {len(want)} packets came back as {len(got)}", key="count")
  for i, ((d, p, q), g) in enumerate(zip(want, got)):
    if g[2] is not None and bytes(q.data) != g[2]: raise Violation(f"{what}: the data of packet {i} of {len(want)} changed" + (" (another packet's)" if g[2] in [bytes(x[2].data) for x in want] else ""), key="data")
    if q.is_keyframe != g[3]: raise Violation(f"{what}: the key frame mark of packet {i} of {len(want)} is {g[3]}", key="key")
def timing(what, fmt, tb, want, got, key="time"):
  tol = tolerance(fmt, tb)
  for i, (a, b) in enumerate(zip(want, got)):
    if abs(a - b) > tol: raise Violation(f"{what}: packet {i} of {len(want)} at {float(a):.6f} s came back at {float(b):.6f} s", key=key)

async def read_all(stream, delay):
  out = []
  try:
    while True:
      out += await stream.demux()
      for _ in range(next(delay)): await asyncio.sleep(0)
  except EOFError: return out
def delays(seed):
  r = np.random.default_rng(seed)
  while True: yield int(r.integers(0, 4)) if r.random() < 0.5 else 0

class Scratch:
  def __enter__(self):
    self.dir = tempfile.TemporaryDirectory(prefix="m07-")
    return os.path.join(self.dir.name, "media")
  def __exit__(self, *_): self.dir.cleanup()

# ---- writing and reading with the containers themselves
def file_cases():
  return st.sampled_from(FORMATS).flatmap(tracks).flatmap(lambda c: st.fixed_dictionaries({"order": st.permutations(list(range(len(c["tracks"])))), "seed": st.integers(0, 999), "stall": st.one_of(st.none(), st.tuples(st.integers(0, 2), st.integers(0, 10)).map(list))}).map(lambda x: {**c, **x}))
def run_file(case, ctx):
  fmt, ts = case["format"], case["tracks"]
  src = [packets_of(t) for t in ts]
  infos = [info_of(t) for t in ts]
  with Scratch() as path:
    async def main():
      oc = await OutputContainer.open(path, format=fmt)
      outs = [(oc.add_video_stream if i.type == "video" else oc.add_audio_stream)(i) for i in infos]
      starts = [[] for _ in ts]
      for (ps, sizes), s in zip(src, starts):
        at = 0
        for n in sizes:
          s.append(at)
          at += n
        s.append(at)
      done = [0] * len(ts)
      def now(k): return starts[k][done[k]] * infos[k].time_base if done[k] < len(src[k][0]) else None
      stall = case["stall"] and (case["stall"][0] % len(ts), case["stall"][1])
      go = asyncio.Event()
      async def write(k):
        d = delays(case["seed"] + k)
        for i, p in enumerate(src[k][0]):
          if stall == (k, i): await go.wait()
          for _ in range(next(d)): await asyncio.sleep(0)
          before = dataclasses.replace(p)
          await outs[k].mux(p)
          if p != before: raise Violation("writing a packet changes it")
          t = now(k)
          others = [x for x in (now(j) for j in range(len(ts)) if j != k) if x is not None]
          if others and min(others) < t: raise Violation(f"a packet of track {k} at {float(t):.4f} s was written although another track is only at {float(min(others)):.4f} s", key="order")
          done[k] += 1
          if outs[k].duration != (starts[k][done[k]]) * infos[k].time_base: raise Violation(f"track {k} ({ts[k]['codec']}) is {float(outs[k].duration):.4f} s long after packets for {float(starts[k][done[k]] * infos[k].time_base):.4f} s", key="duration")
        outs[k].duration = Fraction(10 ** 6) # lets the others go on
      jobs = [asyncio.create_task(write(k)) for k in range(len(ts))]
      try:
        if stall and stall[1] < len(src[stall[0]][0]):
          await asyncio.sleep(1)
          for j in jobs:
            if j.done(): await j
          at = starts[stall[0]][stall[1]] * infos[stall[0]].time_base
          for k in range(len(ts)):
            if k == stall[0]: continue
            want = sum(s * infos[k].time_base <= at for s in starts[k][:-1])
            if len(ts) == 2 and done[k] != want: raise Violation(f"while track {stall[0]} waits at {float(at):.4f} s, {done[k]} instead of {want} packets of track {k} were written", key="stalled")
            if done[k] > want: raise Violation(f"while track {stall[0]} waits at {float(at):.4f} s, {done[k]} instead of {want} packets of track {k} were written", key="ahead")
          ctx.label("one waits")
        go.set()
        fin, pend = await asyncio.wait(jobs, timeout=100)
        for j in fin: await j
        if pend: raise Violation(f"writing does not finish: {done} of {[len(s[0]) for s in src]} packets were written", key="stuck")
      finally:
        for j in jobs: j.cancel()
        await asyncio.wait(jobs)
      await oc.close()
      ic = await InputContainer.open(path, format=fmt)
      try:
        nth = {"video": 0, "audio": 0}
        ins = []
        for i in infos:
          ins.append((ic.get_video_stream if i.type == "video" else ic.get_audio_stream)(nth[i.type], i))
          nth[i.type] += 1
        got = [None] * len(ts)
        async def read(k): got[k] = await read_all(ins[k], delays(case["seed"] + 7 * k))
        rs = [asyncio.create_task(read(k)) for k in case["order"]]
        try:
          fin, pend = await asyncio.wait(rs, timeout=100)
          for j in fin: await j
          if pend: raise Violation("reading does not finish")
        finally:
          for j in rs: j.cancel()
          await asyncio.wait(rs)
      finally: await ic.close()
      zero = None
      for k, t in enumerate(ts):
        what = f"track {k} of {len(ts)} ({t['codec']} in {fmt})"
        tb = infos[k].time_base
        want = [(s * tb, s * tb + p.rel_dts * tb, p) for s, p in zip(starts[k], src[k][0])]
        try: same = infos[k].compatible_with(ins[k].codec_info)
        except (TypeError, AttributeError): same = True # too few packets to know the rate of: they are passed on as they are
        if not same: raise Violation(f"{what}: written with {vars(infos[k])}, read as {vars(ins[k].codec_info)}", key="properties")
        compare(what, t, fmt, want, [(p.dts * tb, p.pts * tb, bytes(p.data), p.is_keyframe) for p in got[k]])
        if not is_pcm(t):
          off = got[k][0].dts * tb
          timing(what, fmt, tb, [w[0] for w in want], [p.dts * tb - off for p in got[k]])
          timing(what, fmt, tb, [w[1] for w in want], [p.pts * tb - off for p in got[k]])
        elif got[k]:
          pos = 0
          off = got[k][0].dts * tb
          width = len(b"".join(p.data for p in src[k][0])) // starts[k][-1]
          at, sizes = [], []
          for p in got[k]:
            at.append(pos * tb)
            pos += len(p.data) // width
          timing(what, fmt, tb, at, [p.dts * tb - off for p in got[k]])
        # tracks written from the same time on begin together
        if len(ts) > 1 and fmt != "mpegts":
          if abs(got[k][0].dts * tb - (zero or 0)) > 2 * tolerance(fmt, tb) + Fraction(1, 1000) + (Fraction(1, 10) if t["codec"] in ("aac", "libmp3lame", "ac3") else 0): ctx.label(f"{fmt}: begins later")
      ctx.hit(sum(t["n"] for t in ts) > 3)
      for t in ts: ctx.label(f"{fmt} {t['codec']}")
      ctx.label(f"{len(ts)} tracks")
    vrun(main, lazy=True)


# ---- reading with other codecs than those in the file
LOSSLESS_V = {"yuv420p": [("ffv1", "yuv420p"), ("rawvideo", "yuv420p")], "rgb24": [("png", "rgb24"), ("png", "rgba"), ("rawvideo", "rgb24")], "bgra": [("ffv1", "bgra"), ("png", "rgba")], "gray": [("ffv1", "gray")]}
LOSSLESS_A = {"pcm_s16le": ["pcm_s16le", "pcm_f32le", "pcm_s32le", "pcm_f64le"], "pcm_f32le": ["pcm_f32le", "pcm_f64le"]}
SF = {"pcm_s16le": "s16", "pcm_f32le": "flt", "pcm_s32le": "s32", "pcm_f64le": "dbl", "pcm_s24le": "s32"}
FILES_V = [("matroska", "ffv1", "yuv420p"), ("nut", "ffv1", "bgra"), ("avi", "ffv1", "gray"), ("mov", "png", "rgb24"), ("nut", "rawvideo", "yuv420p"), ("matroska", "h264", "yuv420p"), ("mp4", "h264", "yuv420p"), ("nut", "h264", "yuv420p"), ("mov", "mpeg4", "yuv420p"), ("matroska", "vp8", "yuv420p")]
FILES_A = [("matroska", "pcm_s16le", "s16"), ("nut", "pcm_f32le", "flt"), ("mov", "pcm_s16le", "s16")]
def transcode_cases():
  v = st.tuples(st.sampled_from(FILES_V), st.integers(0, 5), st.sampled_from([25, 30, 10, 50, 60]), st.integers(3, 24)).map(lambda x: {"format": x[0][0], "track": {"kind": "video", "codec": x[0][1], "pf": x[0][2], "rate": x[2], "w": 32, "h": 16, "n": x[3]}, "to": x[1]})
  a = st.tuples(st.sampled_from(FILES_A), st.integers(0, 5), st.sampled_from([8000, 16000, 48000]), st.integers(1, 12), st.lists(st.integers(100, 2000), min_size=1, max_size=3), st.integers(1, 2)).map(lambda x: {"format": x[0][0], "track": {"kind": "audio", "codec": x[0][1], "sf": x[0][2], "rate": x[2], "n": x[3], "blocks": x[4], "channels": x[5]}, "to": x[1]})
  return st.tuples(st.one_of(v, v, a), st.integers(0, 5), st.booleans(), st.booleans()).map(lambda x: {**x[0], "track": {**x[0]["track"], "seed": x[1], "start": 0}, "force": x[2], "back": x[3]})
def decode_all(info, ps, drop=0):
  dec, out = info.get_decoder(), []
  for p in ps: out += dec._decode(p.to_av_packet(info.time_base))
  return out + dec._decode(None)
def pixels(f, pf): return VideoFrame(f).convert(pixel_format=pf).to_bytes() if f.format.name != pf else VideoFrame(f).to_bytes()
def samples(f, C): return np.asarray(f.to_ndarray()).reshape(-1, C) if not f.format.is_planar else np.asarray(f.to_ndarray()).T
def scaled(x, dtype):
  if x.dtype == dtype: return x
  if np.issubdtype(x.dtype, np.integer) and np.issubdtype(dtype, np.floating): return (x / float(2 ** (8 * x.dtype.itemsize - 1))).astype(dtype)
  if np.issubdtype(x.dtype, np.integer): return x.astype(dtype) << (8 * (np.dtype(dtype).itemsize - x.dtype.itemsize))
  return x.astype(dtype)
def run_transcode(case, ctx):
  fmt, t = case["format"], case["track"]
  info = info_of(t)
  ps, sizes = packets(key_of(t), t["n"], t["seed"], tuple(t.get("blocks") or ()), case["back"])
  if t["kind"] == "video":
    c, pf = LOSSLESS_V[t["pf"]][case["to"] % len(LOSSLESS_V[t["pf"]])]
    target = VideoCodecInfo(t["w"], t["h"], t["rate"], pf, c)
  else:
    c = LOSSLESS_A[t["codec"]][case["to"] % len(LOSSLESS_A[t["codec"]])]
    target = AudioCodecInfo(c, t["channels"], t["rate"], SF[c])
  what = f"{t['codec']} in {fmt} read as {target.codec}"
  with Scratch() as path:
    async def main():
      oc = await OutputContainer.open(path, format=fmt)
      out = (oc.add_video_stream if info.type == "video" else oc.add_audio_stream)(info)
      for p in ps: await out.mux(dataclasses.replace(p))
      await oc.close()
      ic = await InputContainer.open(path, format=fmt)
      try:
        s = (ic.get_video_stream if info.type == "video" else ic.get_audio_stream)(0, target, case["force"])
        return await read_all(s, delays(0))
      finally: await ic.close()
    got = vrun(main, lazy=True)
  if any(b.dts <= a.dts for a, b in zip(got, got[1:])): raise Violation(f"{what}: packets are to be decoded at {[p.dts for p in got]}", key="dts")
  src, res = decode_all(info, ps), decode_all(target, got)
  if info.type == "video":
    if len(src) != len(res): raise Violation(f"{what}: {len(src)} frames became {len(res)}", key="count")
    t0, r0 = src[0].pts, res[0].pts
    if [f.pts - t0 for f in src] != [f.pts - r0 for f in res]: raise Violation(f"{what}: frames at {[f.pts - t0 for f in src]} came back at {[f.pts - r0 for f in res]}", key="times")
    for i, (f, g) in enumerate(zip(src, res)):
      if f.format.name == t["pf"] and pixels(f, t["pf"]) != pixels(g, t["pf"]): raise Violation(f"{what}: frame {i} of {len(src)} changed", key="pixels")
    if t["codec"] == "h264" and any(p.rel_dts != ps[0].rel_dts for p in ps): ctx.label("packets out of order")
  else:
    C = t["channels"]
    x, y = np.concatenate([samples(f, C) for f in src]), np.concatenate([samples(f, C) for f in res]) if res else np.zeros((0, C))
    if len(x) != len(y): raise Violation(f"{what}: {len(x)} samples became {len(y)}", key="count")
    if not np.array_equal(scaled(x, y.dtype), y): raise Violation(f"{what}: samples changed", key="samples")
    pos = got[0].pts
    for g in res:
      if abs(g.pts - pos) > 2 + t["rate"] * tolerance(fmt, Fraction(1, t["rate"])): raise Violation(f"{what}: the block from sample {pos} has the time {g.pts}", key="times")
      pos += g.samples
  ctx.hit(len(ps) > 2)
  ctx.label(what + (" (forced)" if case["force"] else ""))

# ---- the task reading a file onto topics
def input_cases():
  return st.sampled_from(FORMATS).flatmap(lambda f: tracks(f, 20)).flatmap(lambda c: st.fixed_dictionaries({"real_time": st.booleans(), "link": links(), "cancel": st.one_of(st.none(), st.none(), st.integers(0, 1500)), "secret": st.sampled_from([False] * 9 + [True]), "damage": st.one_of(*[st.none()] * 4, st.tuples(st.just("cut"), st.integers(0, 99)).map(list), st.tuples(st.just("noise"), st.integers(5, 99), st.integers(1, 40), st.integers(0, 99)).map(list))}).map(lambda x: {**c, **x}))
def conf_of(t, topic, key):
  if t["kind"] == "video": return {"pixel_format": t["pf"], "encoder": t["codec"], "codec": t["codec"], "width": t["w"], "height": t["h"], "rate": t["rate"], key: topic}
  return {"sample_format": t["sf"], "encoder": t["codec"], "codec": t["codec"], "channels": t["channels"], "rate": t["rate"], key: topic}
def write_plain(path, fmt, ts):
  """Writes the tracks with the media library alone."""
  with av.open(path, "w", format=fmt) as o:
    ss, ev = [], []
    for k, t in enumerate(ts):
      info = info_of(t)
      ss.append(o.add_stream(codec_name=t["codec"], rate=1 / info.time_base, **({"width": t["w"], "height": t["h"], "format": info.to_av_format()} if t["kind"] == "video" else {"channels": t["channels"], "format": info.to_av_format()})))
      at = 0
      for i, (p, n) in enumerate(zip(*packets_of(t))):
        ev.append((at * info.time_base, k, i, p, info.time_base))
        at += n
    for at, k, i, p, tb in sorted(ev, key=lambda e: e[:3]):
      q = av.Packet(p.data)
      q.time_base, q.dts, q.pts, q.is_keyframe, q.stream = tb, int(at / tb), int(at / tb) + p.rel_dts, p.is_keyframe, ss[k]
      o.mux(q)
def run_input(case, ctx):
  fmt, ts = case["format"], case["tracks"]
  topics = [20 + k for k in range(len(ts))]
  with Scratch() as path:
    write_plain(path, fmt, ts)
    if case["damage"]:
      with open(path, "rb") as f: raw = bytearray(f.read())
      at = len(raw) * case["damage"][1] // 100
      if case["damage"][0] == "cut": del raw[at:]
      else: raw[at:at + case["damage"][2]] = np.random.default_rng(case["damage"][3]).bytes(len(raw[at:at + case["damage"][2]]))
      with open(path, "wb") as f: f.write(raw)
    conf = {"source": path, "real_time": case["real_time"], "video_tracks": [conf_of(t, k, "out_topic") for t, k in zip(ts, topics) if t["kind"] == "video"], "audio_tracks": [conf_of(t, k, "out_topic") for t, k in zip(ts, topics) if t["kind"] == "audio"], "container_options": {"format": fmt}}
    if case["secret"]: conf["source_secret"] = str(uuid.UUID(int=5, version=4))
    src = [packets_of(t) for t in ts]
    length = max(float(sum(n) * info_of(t).time_base) for t, (_, n) in zip(ts, src))
    async def main():
      rig = await Rig().start(lambda c: InputContainerTask(c, InputContainerConfig.model_validate(conf)), [], topics, case["link"], ready=False, near=True)
      def ended():
        e = rig.bg.exception() if not rig.bg.cancelled() else None
        if e is not None: raise Violation(f"reading a file ended with {type(e).__name__}: {str(e)[:300]}", key="ended:" + type(e).__name__)
      stop = case["cancel"]
      if case["secret"] and stop is None: stop = 1000
      t0 = vnow()
      if stop is not None:
        await asyncio.sleep(stop / 1000)
        rig.bg.cancel()
      await asyncio.wait([rig.bg], timeout=length + 60)
      if not rig.bg.done(): raise Violation(f"a file of {length:.2f} s is not read to the end" if stop is None else "the task does not stop when cancelled", key="stuck")
      if case["damage"] and not case["secret"]:
        ctx.hit()
        ctx.label(case["damage"][0])
        if not rig.bg.cancelled(): rig.bg.exception()
        return
      ended()
      if not case["real_time"] and vnow() - t0 > 5 and stop is None: raise Violation("reading without keeping to the time takes time")
      await asyncio.sleep(0.5)
      got = {k: [] for k in topics}
      for topic, kind, obj, at in rig.take():
        if kind == "d": got[topic].append((obj, at))
      if case["secret"]:
        if any(got.values()): raise Violation("the file was read without its secret")
        ctx.label("secret not there")
        return
      epoch = None
      for k, t in enumerate(ts):
        what = f"track {k} of {len(ts)} ({t['codec']} in {fmt})"
        msgs = got[topics[k]]
        tb = info_of(t).time_base
        ps = []
        for obj, at in msgs:
          if set(obj) != {"timestamp", "packet"} or set(obj["packet"]) != {"data", "pts", "rel_dts", "is_keyframe"}: raise Violation(f"{what}: message {str(obj)[:200]}")
          ps.append((obj["packet"]["pts"] - obj["packet"]["rel_dts"], obj["packet"]["pts"], bytes(obj["packet"]["data"]), obj["packet"]["is_keyframe"]))
        want, at = [], 0
        for p, n in zip(*src[k]):
          want.append((at * tb, (at + p.rel_dts) * tb, p))
          at += n
        if stop is None: compare(what, t, fmt, want, ps)
        elif not is_pcm(t): compare(what, t, fmt, want[:len(ps)], ps)
        if not ps: continue
        off = ps[0][0] * tb
        if not is_pcm(t):
          timing(what, fmt, tb, [w[0] for w in want], [p[0] * tb - off for p in ps])
          timing(what, fmt, tb, [w[1] for w in want], [p[1] * tb - off for p in ps])
        for (obj, at), p in zip(msgs, ps):
          zero = obj["timestamp"] - math.trunc(p[0] * tb * 1000) # the time the file's beginning has
          if epoch is None: epoch = zero
          if abs(zero - epoch) > 1: raise Violation(f"{what}: the message for {float(p[0] * tb):.3f} s has the timestamp {obj['timestamp']}, the first one's is {epoch} for the beginning", key="timestamp")
          if case["real_time"]:
            real = 1_700_000_000_000 + at * 1000
            if abs(real - obj["timestamp"]) > 20: raise Violation(f"{what}: the message with timestamp {obj['timestamp']} came at {real:.0f}", key="pace")
      ctx.hit(sum(len(g) for g in got.values()) > 3)
      ctx.label("cancelled" if stop is not None else fmt)
      if len(ts) > 1: ctx.label("several tracks")
    vrun(main, lazy=True)

# ---- the task writing messages into a file
OUT_V = [("mpeg4", "yuv420p"), ("ffv1", "yuv420p"), ("mjpeg", "yuvj420p")]
OUT_A = [("pcm_s16le", "s16"), ("ac3", "fltp"), ("libmp3lame", "fltp"), ("pcm_u8", "u8")]
BADMSG = [{"packet": 5}, {"packet": {"data": b"", "pts": 1}}, {"packet": {"data": b"ab", "pts": "x", "rel_dts": 0, "is_keyframe": True}}, {}]
def output_cases():
  v = st.tuples(st.sampled_from(OUT_V), st.sampled_from([25, 30, 10, 50, 20, 15]), st.integers(2, 20)).map(lambda x: {"kind": "video", "codec": x[0][0], "pf": x[0][1], "rate": x[1], "w": 16, "h": 16, "n": x[2], "start": 0})
  a = st.tuples(st.sampled_from(OUT_A), st.sampled_from([32000, 48000]), st.integers(2, 20), st.lists(st.integers(400, 3000), min_size=1, max_size=3)).map(lambda x: {"kind": "audio", "codec": x[0][0], "sf": x[0][1], "rate": x[1], "channels": 1, "n": x[2], "blocks": x[3], "start": 0})
  # what happens to the timestamp of a message: in time, a little early or late, after a gap, or faster than it should
  how = st.one_of(*[st.just(["ok"])] * 12, st.tuples(st.just("jitter"), st.integers(0, 15)).map(list), st.tuples(st.just("gap"), st.integers(1, 400)).map(list), st.tuples(st.just("bad"), st.integers(0, len(BADMSG) - 1)).map(list), st.just(["late"]), st.just(["junk"]))
  one = st.tuples(st.one_of(v, a), st.lists(how, max_size=20), st.integers(0, 5), st.sampled_from([0, 0, 0, 0, 30, 60, 95]), st.sampled_from([0, 0, 10, 80, 500])).map(lambda x: {**x[0], "how": x[1], "seed": x[2], "rush": x[3], "begin": x[4]})
  pause = st.tuples(st.integers(0, 2), st.integers(1, 15), st.integers(1, 8)).map(list)
  return st.fixed_dictionaries({"tracks": st.lists(one, min_size=1, max_size=3), "base": st.sampled_from([0, 1, 1000, 1_700_000_000_000]), "max_desync": st.sampled_from([100, 100, 300, 1000, 20]), "delays": st.integers(0, 999), "pauses": st.one_of(st.just([]), st.just([]), st.lists(pause, max_size=2)), "link": links(), "end": st.permutations([0, 1, 2]), "real": st.booleans()})
def run_output(case, ctx):
  ts, base, desync = case["tracks"], case["base"], case["max_desync"]
  topics = [20 + k for k in range(len(ts))]
  r = np.random.default_rng(case["delays"])
  # the messages of each track: (timestamp, packet or None, message)
  plan = []
  for k, t in enumerate(ts):
    tb, at, shift, rows, last = info_of(t).time_base, 0, 0, [], 0
    for i, (p, n) in enumerate(zip(*packets_of(t))):
      how = t["how"][i] if i < len(t["how"]) else ["ok"]
      if how[0] == "gap": shift += how[1]
      x = base + t["begin"] + shift + math.floor(at * tb * 1000 * (100 - t["rush"]) / 100)
      if how[0] == "jitter": x += how[1] - 7
      x = max(x, last, base)
      if how[0] == "bad": rows.append((x, None, n, {"timestamp": x, **BADMSG[how[1]]}))
      if how[0] == "junk": rows.append((x, None, n, [{"timestamp": "x"}, 5, {"packet": 1}][i % 3]))
      if how[0] == "late" and last > 0 and i and not case["pauses"]: rows.append((x, None, n, {"timestamp": last - 1, "packet": {"data": b"late", "pts": 0, "rel_dts": 0, "is_keyframe": True}}))
      rows.append((x, p, n, {"timestamp": x, "packet": {"data": bytes(p.data), "pts": int(r.integers(0, 10 ** 6)), "rel_dts": p.rel_dts, "is_keyframe": p.is_keyframe}}))
      last = x
      at += n
    plan.append(rows)
  t0 = min(rows[0][0] for rows in plan)
  with Scratch() as path:
    conf = {"destination": path, "max_desync": desync, "video_tracks": [conf_of(t, k, "in_topic") for t, k in zip(ts, topics) if t["kind"] == "video"], "audio_tracks": [conf_of(t, k, "in_topic") for t, k in zip(ts, topics) if t["kind"] == "audio"], "container_options": {"format": "nut"}}
    sent, past = [[] for _ in ts], [0] * len(ts) # what is older than the other tracks when a track goes on may be left out
    async def main():
      rig = await Rig().start(lambda c: OutputContainerTask(c, OutputContainerConfig.model_validate(conf)), topics, [], case["link"])
      # in the order of their time, with pauses in between
      ev = sorted([(x[0], i, k) for k, rows in enumerate(plan) for i, x in enumerate(rows)], key=lambda e: (e[0], e[1], e[2]))
      off = {}                       # topic -> events until it is unpaused
      pauses = {(p[0] % len(ts), p[1]): p[2] for p in case["pauses"]}
      for x, i, k in ev:
        if (k, i) in pauses and all(any(y[1] is not None for y in rows) for rows in sent) and k not in off and len(off) < len(ts) - 1:
          await rig.pause(topics[k], True)
          off[k] = pauses[(k, i)]
          ctx.label("pause")
        if k in off:
          off[k] -= 1
          if off[k] > 0: continue
          del off[k]
          past[k] = max(past[k], max((next((y[0] for y in plan[j] if y[0] >= x), plan[j][-1][0]) for j in range(len(ts)) if j != k), default=0))
          await rig.pause(topics[k], False)
        sent[k].append(plan[k][i])
        await rig.send(topics[k], plan[k][i][3])
        if case["pauses"]: await asyncio.sleep(0.02)
        if case["real"] or r.random() < 0.3: await asyncio.sleep(float(r.integers(0, 50)) / 1000)
      await settle(2)
      rig.check()
      for k in case["end"]:
        if k < len(ts):
          await rig.pause(topics[k], True)
          await settle(1)
      rig.check()
      await rig.stop()
      e = rig.bg.exception() if not rig.bg.cancelled() else None
      if e is not None: raise Violation(f"writing ended with {type(e).__name__}: {str(e)[:300]}", key="ended:" + type(e).__name__)
    vrun(main, lazy=True)
    got = [[] for _ in ts]
    order = [k for k, t in enumerate(ts) if t["kind"] == "video"] + [k for k, t in enumerate(ts) if t["kind"] == "audio"]
    with av.open(path, "r", format="nut") as f:
      if len(f.streams) != len(ts): raise Violation(f"{len(ts)} tracks were written as {len(f.streams)}")
      for q in f.demux():
        if q.size == 0 and q.pts is None: continue
        got[order[q.stream_index]].append((q.dts * q.time_base, bytes(q), q.is_keyframe))
  maxtb = max(Fraction(max(packets_of(t)[1])) * info_of(t).time_base for t in ts)
  ok = []
  for k, t in enumerate(ts):
    tb, pos, worst = info_of(t).time_base, 0, Fraction(0)
    for x, p, n, m in sent[k]:
      want = math.floor(Fraction(x - t0, 1000) / tb)
      pos = max(pos, want)
      if p is None: continue
      worst = max(worst, pos * tb - Fraction(x - t0, 1000))
      pos += n
    ok.append(worst)
  for k, t in enumerate(ts):
    what = f"track {k} of {len(ts)} ({t['codec']}, {t['rate']} Hz)"
    tb = info_of(t).time_base
    rows = [x for x in sent[k] if x[1] is not None]
    matched, j = [], 0
    for at, data, key in got[k]:
      while j < len(rows) and bytes(rows[j][1].data) != data: j += 1
      if j == len(rows): raise Violation(f"{what}: packet {len(matched)} of {len(got[k])} in the file was not sent" if data not in [bytes(x[1].data) for x in rows] else f"{what}: packet {len(matched)} of {len(got[k])} in the file is out of order or there twice", key="order")
      if rows[j][1].is_keyframe != key: raise Violation(f"{what}: the key frame mark of packet {j} is {key}", key="key")
      matched.append((j, at))
      j += 1
    slack = desync - (maxtb + tb + Fraction(2, 1000)) * 1000 - (1000 * (max(ok) + 2 * maxtb) if case["pauses"] else 0)
    if (1000 * ok[k] <= slack or len(ts) == 1) and not (case["pauses"] and max(ok) > Fraction(1, 100)):
      missing = sorted(j for j in set(range(len(rows))) - {j for j, _ in matched} if rows[j][0] >= past[k])
      if missing:
        raise Violation(f"{what}: packets {missing[:10]} of {len(rows)}, which are in time, are not in the file (of the other tracks {[len(g) for g in got]} were written)", key="missing")
      ctx.label("in time")
    elif len(matched) < len(rows): ctx.label("dropped")
    pos = 0
    for j, at in matched:
      want = max(pos, math.floor(Fraction(rows[j][0] - t0, 1000) / tb)) * tb
      if at < want: raise Violation(f"{what}: packet {j} with timestamp {rows[j][0]} is at {float(at):.4f} s in the file, it should be at {float(want):.4f} s (the beginning is {t0})", key="time")
      if at > want and not case["pauses"]: raise Violation(f"{what}: packet {j} with timestamp {rows[j][0]} is at {float(at):.4f} s in the file, it should be at {float(want):.4f} s (the beginning is {t0})", key="time")
      if at > want + max(ok) + 2 * maxtb and at > want + max(ok) + Fraction(2, 1000): raise Violation(f"{what}: packet {j} with timestamp {rows[j][0]} is at {float(at):.4f} s in the file, after a pause it should be near {float(want):.4f} s", key="time after pause")
      if not case["pauses"]:
        ahead = 1000 * at - (rows[j][0] - t0)
        for c in range(len(ts)):
          if c == k or ok[c] > Fraction(1, 100): continue
          gap = max([sent[c][0][0] - t0] + [b[0] - a[0] for a, b in zip(sent[c], sent[c][1:])])
          if 1000 * at <= sent[c][-1][0] - t0 and ahead > desync + gap + 1000 * (tb + maxtb) + 12: raise Violation(f"{what}: packet {j} with timestamp {rows[j][0]} is {float(ahead):.0f} ms late in the file, with {desync} ms allowed", key="desync")
          if ahead > 50: ctx.label("ahead, within bounds")
      pos = round(at / tb) + rows[j][2]
    if ts[k]["rush"]: ctx.label("rushed")
  ctx.hit(sum(map(len, got)) > 4 and len(ts) > 1)
  ctx.label(f"{len(ts)} tracks")

SUBS = [Sub("file", file_cases, run_file, quick=900, thorough=6000, rule="packets written on several tracks and read back; non-trivial: the case wrote packets that had to be read back"), Sub("transcode", transcode_cases, run_transcode, quick=500, thorough=4000, rule="lossless clips written and read with another codec; non-trivial: frames were compared"), Sub("input-task", input_cases, run_input, quick=600, thorough=10000, rule="files of one or more tracks sent by the task; non-trivial: packets were compared"), Sub("output-task", output_cases, run_output, quick=600, thorough=10000, rule="histories of packets, gaps and pauses through the task; non-trivial: packets were compared with what the file holds")]
