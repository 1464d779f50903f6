from ..gen import *
from ..core import Sub, Violation
from streamtasks.media.util import AudioChunker, PaddedAudioChunker, AudioSmoother
from fractions import Fraction
import math
import numpy as np

TECHNIQUE = "property-based testing (Hypothesis): generated splittings of a numbered sample stream, its chunks compared with slices of the whole stream and with the time of their first sample"
NOTE = "Random search with shrinking; a chunk's timestamp may be off by the rounding of the timestamps it is computed from (2 ms)."

DTYPES = [np.int16, np.int32, np.float32, np.float64]
def cases(padded):
  sizes = st.lists(st.one_of(st.integers(0, 40), st.integers(0, 40), st.integers(0, 2000), st.just(0)), min_size=1, max_size=12)
  return st.fixed_dictionaries({"chunk": st.one_of(st.integers(1, 12), st.integers(1, 300), st.sampled_from([441, 1024, 480])), "rate": st.one_of(st.sampled_from([8000, 16000, 22050, 44100, 48000, 1000, 100]), st.integers(1, 96000)),
    "padding": st.one_of(st.just(0), st.integers(0, 20), st.integers(0, 200)) if padded else st.just(0), "padded": st.just(padded), "sizes": sizes, "start": st.sampled_from([0, 1000, 1_700_000_000_000, -40, -5000]), "dtype": st.integers(0, 3), "shape": st.sampled_from(["flat", "column", "row"]),
    "times": st.sampled_from(["floor", "round", "ceil"])})

def run(case, ctx):
  n, pad, rate = case["chunk"], case["padding"], case["rate"]
  dtype = DTYPES[case["dtype"]]
  total = sum(case["sizes"])
  stream = (np.arange(total) % 30000).astype(dtype)
  chunker = PaddedAudioChunker(n, rate, pad) if case["padded"] else AudioChunker(n, rate)
  pos, chunks = 0, []
  for size in case["sizes"]:
    block = stream[pos:pos + size].copy()
    t = Fraction(pos * 1000, rate)
    ts = case["start"] + {"floor": math.floor, "round": round, "ceil": math.ceil}[case["times"]](t)
    pos += size
    shape = {"flat": (-1,), "column": (-1, 1), "row": (1, -1)}[case["shape"]]
    for c, cts in chunker.next(block.reshape(shape), ts):
      i = len(chunks)
      want = stream[i * n:i * n + n + 2 * pad]
      if c.shape != (n + 2 * pad,): raise Violation(f"chunk {i} has the shape {c.shape} instead of {(n + 2 * pad,)}")
      if c.dtype != dtype: raise Violation(f"chunk {i} has the type {c.dtype} instead of {dtype}")
      if not np.array_equal(c, want): raise Violation(f"chunk {i} is {c.tolist()[:20]} instead of {want.tolist()[:20]} (padding {pad})")
      if i * n + n + 2 * pad > pos: raise Violation(f"chunk {i} contains samples that have not come yet")
      if case["padded"]:
        core = chunker.strip_padding(c)
        if not np.array_equal(core, stream[i * n + pad:i * n + pad + n]): raise Violation(f"without its padding of {pad} chunk {i} has {core.size} samples instead of {n}: {core.tolist()[:20]}")
      at = case["start"] + Fraction((i * n + pad) * 1000, rate)
      if not isinstance(cts, (int, np.integer)): raise Violation(f"the timestamp of chunk {i} is {cts!r}")
      if abs(cts - at) > 2: raise Violation(f"chunk {i} of {n} samples at {rate} Hz has timestamp {cts}, its first sample was at {float(at):.2f}")
      chunks.append(c.copy())
    block[:] = 0                       # the caller may use its buffer again
    held = pos - len(chunks) * n
    if held > 2 * n + 2 * pad: raise Violation(f"{held} samples are held back, chunks have {n} and padding {pad}")
  if len(chunks) >= 3: ctx.hit()
  if len(chunks) > len(case["sizes"]): ctx.label("more chunks than blocks")

# ---- joining overlapping chunks
def smooth_cases(): return st.fixed_dictionaries({"overlap": st.integers(1, 8), "extra": st.lists(st.integers(0, 12), min_size=2, max_size=6), "dtype": st.sampled_from([2, 3]), "seed": st.integers(0, 1000)})
def run_smooth(case, ctx):
  dtype = DTYPES[case["dtype"]]
  r = np.random.default_rng(case["seed"])
  o = case["overlap"]
  fade = np.linspace(0, 1, o)
  s = AudioSmoother(o)
  before = None
  for i, e in enumerate(case["extra"]):
    chunk = r.uniform(-1, 1, o + o + e).astype(dtype)    # at most two chunks overlap
    out = s.smooth(chunk.copy())
    if out.shape != chunk.shape: raise Violation(f"chunk {i}: {out.shape} instead of {chunk.shape}")
    want = chunk.astype(np.float64)
    if before is not None: want[:o] = want[:o] * fade + before * (1 - fade)
    if not np.allclose(out, want, atol=1e-6): raise Violation(f"chunk {i} became {out.tolist()}, expected {want.tolist()}")
    before = chunk[-o:].astype(np.float64)
  ctx.hit()

def constant_cases(): return st.fixed_dictionaries({"overlap": st.integers(1, 8), "extra": st.lists(st.integers(1, 12), min_size=2, max_size=6), "value": st.sampled_from([0.0, 1.0, -0.5])})
def run_constant(case, ctx):
  s = AudioSmoother(case["overlap"])
  for e in case["extra"]:
    out = s.smooth(np.full(case["overlap"] + e, case["value"], np.float32))
    if not np.allclose(out, case["value"], atol=1e-6): raise Violation(f"joining chunks of the constant {case['value']} gave {out.tolist()}")
  ctx.hit()

SUBS = [
  Sub("plain", lambda: cases(False), run, quick=600, thorough=30000, rule="at least three chunks"),
  Sub("padded", lambda: cases(True), run, quick=600, thorough=30000, rule="at least three chunks"),
  Sub("smooth", smooth_cases, run_smooth, quick=300, thorough=10000, rule="at least two chunks"),
  Sub("constant", constant_cases, run_constant, quick=200, thorough=5000, rule="always"),
]
