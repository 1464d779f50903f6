from ..gen import *
from ..core import Sub, Violation
from ..vloop import vrun
from streamtasks.connection import RawStreamConnection
from streamtasks.net import ConnectionClosedError
import asyncio, struct

TECHNIQUE = "property-based testing (Hypothesis): round trip of generated frame sequences over generated fragmentations, noise, truncation and concurrent senders/receivers, with shrinking"
NOTE = "Random search with shrinking; the byte stream is simulated with asyncio's real StreamReader; frames up to 300 kB."

MARK = bytes(getattr(RawStreamConnection, "SYNC_WORD", b"\xb8\x23\xa0\x6f"))
marky = st.lists(st.sampled_from([MARK[0:1], MARK[1:2], MARK[2:3], MARK[3:4], MARK[:2], MARK[:3], b"\x00", b"\xff"]), max_size=10).map(b"".join)
def frame():
  return st.one_of(st.binary(max_size=12), marky, st.just(b""), st.just(MARK), st.just(MARK + struct.pack("<L", 3) + b"abc"),
    st.tuples(st.just("big"), st.sampled_from([127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70001, 131072, 300000]), st.integers(0, 255)).map(list))
def expand(f):
  if isinstance(f, list): return bytes((f[2] + i * 7 + (i >> 8)) & 255 for i in range(f[1]))
  return f

def cases():
  return st.fixed_dictionaries({
    "frames": st.lists(frame(), min_size=1, max_size=6),
    "cuts": st.lists(st.sampled_from([1, 1, 2, 3, 4, 5, 7, 8, 9, 11, 100, 4096, 65536]), min_size=1, max_size=6),
    "noise": st.lists(st.one_of(st.just(b""), marky, st.binary(max_size=6)), max_size=7),
    "keep": st.one_of(st.just(None), st.integers(0, 400)),
    "patience": st.lists(st.sampled_from([0, 0.001, 1.5, 2.5]), max_size=5),
    "pause": st.sampled_from([0, 0, 1]),
  })

class Sink:
  """Collects what a sender writes; draining may take a while (a congested socket)."""
  def __init__(self, drains=None): self.data, self.drains, self.n, self.closed = bytearray(), drains or [0], 0, False
  def write(self, d): self.data += d
  def writelines(self, ds):
    for d in ds: self.write(d)
  async def drain(self):
    d = self.drains[self.n % len(self.drains)]
    self.n += 1
    await asyncio.sleep(d)
  def close(self): self.closed = True
  def is_closing(self): return self.closed
  async def wait_closed(self): pass
  def get_extra_info(self, *_): return None

async def feed(reader, data, cuts, pause):
  i = n = 0
  while i < len(data):
    step = cuts[n % len(cuts)]
    if len(data) > 5000: step = max(step, len(data) // 40)
    reader.feed_data(bytes(data[i:i + step]))
    i, n = i + step, n + 1
    await asyncio.sleep(pause)
  reader.feed_eof()

async def collect(conn, patience=()):
  """Everything received until the end; `patience`: how long to wait before giving up and asking again."""
  out, n = [], 0
  try:
    while True:
      n += 1
      if n <= len(patience):
        t = asyncio.create_task(conn.recv())
        await asyncio.wait([t], timeout=patience[n - 1])
        if not t.done():
          t.cancel()
          try: d = await t
          except asyncio.CancelledError: continue
        else: d = t.result()
      else: d = await asyncio.wait_for(conn.recv(), 10000)
      if not isinstance(d, (bytes, bytearray, memoryview)): raise Violation(f"received {type(d).__name__}")
      out.append(bytes(d))
  except ConnectionClosedError: pass
  except asyncio.TimeoutError: raise Violation("the receiver waits for ever although the stream ended")
  return out

def run_stream(case, ctx):
  frames = [expand(f) for f in case["frames"]]
  async def main():
    loop = asyncio.get_running_loop()
    sink = Sink()
    conn = RawStreamConnection(None, sink)
    stream, ends, clean = bytearray(), [], 0
    for i, f in enumerate(frames):
      noise = case["noise"][i] if i < len(case["noise"]) else b""
      if MARK in noise: noise = noise.replace(MARK, b"")
      if MARK in noise: noise = b""
      sink.data.clear()
      await conn.send(f)
      if noise: ctx.label("noise"); ctx.hit()
      if noise.endswith((MARK[:1], MARK[:2], MARK[:3])): ctx.label("noise ends like a marker")
      stream += noise + sink.data
      ends.append(len(stream))
    keep = len(stream) if case["keep"] is None else min(len(stream), case["keep"])
    if keep < len(stream): ctx.label("cut off")
    stream = stream[:keep]
    reader = asyncio.StreamReader(loop=loop)
    rx = RawStreamConnection(reader, Sink())
    t = asyncio.create_task(feed(reader, stream, case["cuts"], case["pause"]))
    got = await collect(rx, case["patience"])
    if case["patience"]: ctx.label("abandoned receives")
    await t
    want = [f for f, e in zip(frames, ends) if e <= keep]
    if got != want: raise Violation(f"sent {[x[:20] for x in want]} (sizes {[len(x) for x in want]}), received {[x[:20] for x in got]} (sizes {[len(x) for x in got]})")
    if await collect(rx): raise Violation("a frame appeared after the end of the stream")
    ctx.hit(len(want) > 1)
  vrun(main)

def conc_cases():
  return st.fixed_dictionaries({
    "senders": st.lists(st.tuples(frame(), st.sampled_from([0, 0, 0.001, 0.01]), st.sampled_from([None, None, None, 0, 0.0005, 0.002, 0.02])).map(list), min_size=2, max_size=8),
    "drains": st.lists(st.sampled_from([0, 0.001, 0.01]), min_size=1, max_size=3),
    "cuts": st.lists(st.sampled_from([1, 3, 8, 50, 65536]), min_size=1, max_size=4),
    "receivers": st.integers(1, 4),
  })

def run_conc(case, ctx):
  async def main():
    loop = asyncio.get_running_loop()
    sink = Sink(case["drains"])
    conn = RawStreamConnection(None, sink)
    async def sender(i, f, start):
      await asyncio.sleep(start)
      # the number makes every frame unique
      await conn.send(bytes([i]) + expand(f))
      return True
    tasks = []
    for i, (f, start, cancel) in enumerate(case["senders"]):
      t = asyncio.create_task(sender(i, f, start))
      if cancel is not None: loop.call_later(start + cancel, t.cancel)
      tasks.append(t)
    res = await asyncio.gather(*tasks, return_exceptions=True)
    await asyncio.sleep(10)
    frames = [bytes([i]) + expand(f) for i, (f, *_ ) in enumerate(case["senders"])]
    reader = asyncio.StreamReader(loop=loop)
    rx = RawStreamConnection(reader, Sink())
    parts = [asyncio.create_task(collect(rx)) for _ in range(case["receivers"])]
    await asyncio.sleep(0)
    t = asyncio.create_task(feed(reader, bytes(sink.data), case["cuts"], 0))
    got = [x for p in parts for x in await p]
    await t
    for g in got:
      if g not in frames: raise Violation(f"received a frame nobody sent: {g[:30]!r} ({len(g)} bytes)")
    if len(set(got)) != len(got): raise Violation("a frame was received twice")
    for i, r in enumerate(res):
      if r is True and frames[i] not in got: raise Violation(f"frame {i} was sent but not received")
      if isinstance(r, BaseException) and not isinstance(r, asyncio.CancelledError): raise Violation(f"sending failed: {r!r}")
    if len(tasks) > 1: ctx.hit()
    if any(isinstance(r, asyncio.CancelledError) for r in res): ctx.label("cancelled sender")
    if case["receivers"] > 1: ctx.label("several receivers")
  vrun(main)

SUBS = [
  Sub("stream", cases, run_stream, quick=3000, thorough=60000, rule="A case is non-trivial if noise was inserted or at least two frames were delivered."),
  Sub("concurrent", conc_cases, run_conc, quick=1500, thorough=30000, rule="A case is non-trivial with at least two senders on one connection."),
]
