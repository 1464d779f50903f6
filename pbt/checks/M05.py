from ..gen import *
from ..core import Sub, Violation
from streamtasks.media.packet import MediaPacket, MediaMessage
from streamtasks.media.video import VideoCodecInfo, VideoFrame
from streamtasks.media.audio import AudioCodecInfo, AudioFrame, sample_format_to_dtype
from streamtasks.net.serialization import RawData, serialize_message, deserialize_message
from streamtasks.net.messages import TopicDataMessage
from fractions import Fraction
import asyncio, math
import av
import numpy as np

TECHNIQUE = "property-based testing (Hypothesis): generated packets and packet streams taken through messages and media-library packets, compared field by field, with exact rational time, and by the frames they decode to"
NOTE = "Random search with shrinking; timestamps within +-2**60; codecs are the lossless ones of the installed media library."

BIG = st.one_of(st.integers(-3, 3), st.integers(-1000, 100_000), st.integers(-2**40, 2**40), st.integers(2**53 - 5, 2**53 + 5), st.integers(-2**60, 2**60))
REL = st.one_of(st.just(0), st.integers(0, 5), st.integers(0, 100_000), st.integers(0, 2**40))
RATES = st.one_of(st.sampled_from([[1, 30], [1, 25], [1001, 30000], [1, 90000], [1, 1000], [1, 44100], [1, 48000], [1, 15], [1, 1], [1, 1000000], [1, 12800]]), st.tuples(st.integers(1, 2000), st.integers(1, 100_000)).map(list))
packets = st.fixed_dictionaries({"pts": BIG, "rel": REL, "key": st.booleans(), "data": st.one_of(st.binary(max_size=40), st.binary(min_size=1, max_size=4).map(lambda b: b * 300))})

def transport(message, how):
  raw = RawData(message.model_dump())
  if how == "copy": raw = raw.copy()
  elif how == "wire":
    m = deserialize_message(bytes(serialize_message(TopicDataMessage(3, raw))))
    raw = RawData(bytes(m.data.serialize())) if isinstance(m.data, RawData) else RawData(m.data)
  elif how == "bytes": raw = RawData(bytes(raw.serialize()))
  return MediaMessage.model_validate(raw.data)

# ---- one packet
def field_cases(): return st.fixed_dictionaries({"packet": packets, "base": RATES, "timestamp": BIG, "how": st.sampled_from(["object", "copy", "wire", "bytes"]), "shift": BIG})
def fields(p): return {"data": bytes(p.data), "pts": p.pts, "dts": p.dts, "rel_dts": p.rel_dts, "key frame": p.is_keyframe}
def same(a, b, what):
  for k in a:
    if a[k] != b[k] or type(a[k]) is not type(b[k]): raise Violation(f"{what}: {k} is {b[k]!r:.80} instead of {a[k]!r:.80} (packet {str(a)[:200]})")
def run_fields(case, ctx):
  c, base = case["packet"], Fraction(*case["base"])
  p = MediaPacket(c["data"], c["pts"], c["rel"], c["key"])
  want = {"data": c["data"], "pts": c["pts"], "dts": c["pts"] - c["rel"], "rel_dts": c["rel"], "key frame": c["key"]}
  same(want, fields(p), "a new packet")
  m = transport(MediaMessage(timestamp=case["timestamp"], packet=p), case["how"])
  if m.timestamp != case["timestamp"]: raise Violation(f"the message's timestamp {case['timestamp']} became {m.timestamp}")
  same(want, fields(m.packet), "after transport")
  a = m.packet.to_av_packet(base)
  if (bytes(a), a.pts, a.dts, bool(a.is_keyframe), a.time_base) != (c["data"], want["pts"], want["dts"], c["key"], base): raise Violation(f"{want!s:.200} became the library's packet {(bytes(a)[:20], a.pts, a.dts, a.is_keyframe, a.time_base)}")
  back = MediaPacket.from_av_packet(a, base)
  same(want, {**fields(back), "key frame": bool(back.is_keyframe)}, "after going through a packet of the media library")
  same(want, fields(p), "the original")
  p.dts = case["shift"]
  same({**want, "dts": case["shift"], "pts": case["shift"] + c["rel"]}, fields(p), f"moved to the decoding time {case['shift']}")
  if c["rel"] and c["pts"]: ctx.hit()
  if want["dts"] == 0 and c["rel"]: ctx.label("decoded at zero, shown later")
  if want["dts"] < 0: ctx.label("negative decoding time")

# ---- other time bases: every timestamp is the nearest one of the new base
def scale_cases():
  step = st.tuples(st.one_of(st.integers(1, 4), st.integers(1, 5000)), st.integers(0, 5), st.booleans()).map(list)
  return st.fixed_dictionaries({"from": RATES, "to": RATES, "start": st.one_of(st.integers(-10, 10), st.integers(-2**40, 2**40), st.integers(-2**55, 2**55)), "steps": st.lists(step, min_size=1, max_size=20), "nodts": st.booleans(), "aligned": st.booleans()})
def run_scale(case, ctx):
  fb, tb = Fraction(*case["from"]), Fraction(*case["to"])
  if not Fraction(1, 10**6) <= fb / tb <= 10**4: return
  unit = 1
  if case["aligned"]: unit = (tb / fb).numerator                 # every timestamp is a whole number in both
  dts, prev = case["start"] // max(1, unit) * unit, None
  for gap, rel, key in case["steps"]:
    pts = dts + rel * unit
    a = av.Packet(b"x")
    a.pts, a.time_base, a.is_keyframe = pts, fb, key
    a.dts = dts
    if case["nodts"]: a.dts, dts = None, pts
    p = MediaPacket.from_av_packet(a, tb)
    for name, got, exact in (("presentation", p.pts, pts * fb / tb), ("decoding", p.dts, dts * fb / tb)):
      if not isinstance(got, int): raise Violation(f"the {name} time is {got!r}")
      if abs(got - exact) > Fraction(1, 2): raise Violation(f"{name} time {pts if name[0] == 'p' else dts} in units of {fb} s became {got} units of {tb} s, which is {float(abs(got - exact)):.3f} of a unit off")
    if p.pts < p.dts: raise Violation(f"a packet is shown ({p.pts}) before it is decoded ({p.dts})")
    if bytes(p.data) != b"x" or bool(p.is_keyframe) != key: raise Violation("data or key-frame mark changed")
    if prev is not None:
      if p.dts < prev[0] or (dts - prev[1]) * fb >= tb and p.dts <= prev[0]: raise Violation(f"packets decoded one after the other ({prev[1]} and {dts} x {fb} s) got the decoding times {prev[0]} and {p.dts} x {tb} s")
    prev = (p.dts, dts)
    if dts == 0 and rel: ctx.label("decoded at zero, shown later")
    dts += gap * unit
  if len(case["steps"]) > 3 and fb != tb: ctx.hit()

# ---- a stream of packets decodes to the same frames after transport
VIDEO = [("ffv1", "yuv420p"), ("rawvideo", "rgb24"), ("png", "rgb24"), ("h264", "yuv420p"), ("mpeg4", "yuv420p"), ("magicyuv", "gbrp")]
AUDIO = [("pcm_s16le", "s16"), ("pcm_f32le", "flt"), ("pcm_u8", "u8"), ("aac", "fltp"), ("pcm_s16le_planar", "s16p")]
def stream_cases():
  gaps = st.lists(st.one_of(st.just(1), st.just(1), st.integers(1, 5)), min_size=1, max_size=10)
  return st.fixed_dictionaries({"kind": st.sampled_from(["video", "video", "audio"]), "codec": st.integers(0, 5), "start": st.one_of(st.integers(0, 3), st.integers(0, 10**6)), "gaps": gaps, "rate": st.sampled_from([10, 30, 25, 8000]), "bframes": st.integers(0, 2), "how": st.sampled_from(["copy", "wire", "bytes"]), "seed": st.integers(0, 99)})
def run_stream(case, ctx):
  r = np.random.default_rng(case["seed"])
  async def main():
    if case["kind"] == "video":
      codec, fmt = VIDEO[case["codec"] % len(VIDEO)]
      rate = min(case["rate"], 60)
      opts = {"bf": str(case["bframes"])} if codec in ("h264", "mpeg4") else {}
      info = lambda: VideoCodecInfo(16, 16, rate, fmt, codec, {**opts, "threads": "1"})
    else:
      codec, fmt = AUDIO[case["codec"] % len(AUDIO)]
      rate = 8000
      info = lambda: AudioCodecInfo(codec, 1, rate, fmt)
    enc = info().get_encoder()
    n, at, packets = enc.codec_context.frame_size or 32 if case["kind"] == "audio" else 1, case["start"], []
    for gap in case["gaps"]:
      if case["kind"] == "video":
        f = VideoFrame.from_ndarray(r.integers(0, 256, (16, 16, 3), dtype=np.uint8), "rgb24").convert(pixel_format=fmt)
        # the converted frame has its own timing
      else:
        dtype = sample_format_to_dtype(fmt)
        x = r.integers(0, 255, n).astype(dtype) if np.issubdtype(dtype, np.integer) else r.uniform(-1, 1, n).astype(dtype)
        f, gap = AudioFrame.from_buffer(x.tobytes(), fmt, 1, rate), n
      f.set_ts(Fraction(at, rate), Fraction(1, rate))
      packets += await enc.encode(f)
      at += gap
    packets += await enc.flush()
    moved = [transport(MediaMessage(timestamp=int(p.dts * 1000 / rate), packet=p), case["how"]).packet for p in packets]
    for p, q in zip(packets, moved): same(fields(p), fields(q), "after transport")
    outs = []
    for ps in (packets, moved):
      dec, out = info().get_decoder(), []
      for p in ps: out += await dec.decode(p)
      out += await dec.flush()
      outs.append([(f.frame.pts, f.to_bytes()) for f in out])
    if outs[0] != outs[1]: raise Violation(f"{codec}: {len(packets)} packets decode to {len(outs[0])} frames with times {[t for t, _ in outs[0]]} before transport and {len(outs[1])} with {[t for t, _ in outs[1]]} after it")
    if outs[0] and codec not in ("aac",):
      if len(outs[0]) != len(case["gaps"]) and case["kind"] == "video": raise Violation(f"{codec}: {len(case['gaps'])} frames became {len(outs[0])}")
      times = [t for t, _ in outs[0]]
      want, at = [], case["start"]
      for gap in case["gaps"]:
        want.append(at)
        at += gap if case["kind"] == "video" else n
      if times != want: raise Violation(f"{codec}: frames with the times {want} were decoded with the times {times} (packets {[(p.pts, p.dts) for p in packets]})")
    dts = [p.dts for p in moved]
    if any(b <= a for a, b in zip(dts, dts[1:])): raise Violation(f"{codec}: the packets of frames at increasing times are to be decoded at {dts}")
    if any(p.rel_dts < 0 for p in moved): raise Violation(f"{codec}: a packet is decoded after it is shown")
    if len(outs[0]) >= 3: ctx.hit()
    if any(p.rel_dts for p in packets): ctx.label("reordered frames")
    ctx.label(codec)
  asyncio.run(main())

SUBS = [
  Sub("fields", field_cases, run_fields, quick=3000, thorough=60000, rule="counts when the packet has a nonzero time and is shown after it is decoded",
    exact=[{"packet": {"pts": 5, "rel": 5, "key": True, "data": b"abc"}, "base": [1, 30], "timestamp": 0, "how": "wire", "shift": 0}, {"packet": {"pts": 0, "rel": 2, "key": False, "data": b""}, "base": [1, 30], "timestamp": -5, "how": "bytes", "shift": -7}]),
  Sub("time-bases", scale_cases, run_scale, quick=4000, thorough=60000, rule="more than three packets and two different time bases"),
  Sub("streams", stream_cases, run_stream, quick=300, thorough=6000, rule="at least three frames came out of the decoder"),
]
