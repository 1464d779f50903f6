"""Building blocks for simulated networks: delayed links of every kind, recording endpoints."""
import asyncio
from streamtasks.net import QueueLink, RawQueueLink, Switch, ConnectionClosedError
from streamtasks.net.messages import (AddressedMessage, AddressesChangedMessage, InTopicsChangedMessage, OutTopicsChangedMessage,
  OutTopicsChangedRecvMessage, AddressesChangedRecvMessage, PricedId, TopicControlMessage, TopicDataMessage)
from streamtasks.net.serialization import RawData
from streamtasks.connection import RawConnection, RawConnectionLink
from streamtasks.client import Client
from streamtasks.client.receiver import Receiver, TopicsReceiver

class DelayQueue:
  """asyncio.Queue look-alike whose items become available (in order) a chosen delay after put."""
  def __init__(self, delays):
    self._delays = delays or [0]
    self._n = 0
    self._last = 0.0
    self._q = asyncio.Queue()
  def put_nowait(self, item):
    loop = asyncio.get_running_loop()
    d = self._delays[self._n % len(self._delays)]
    self._n += 1
    if d <= 0 and self._last <= loop.time(): self._q.put_nowait(item)
    else:
      self._last = max(self._last, loop.time() + max(d, 0))
      # equal deadlines keep their order: asyncio's timer heap is not stable, so nudge
      self._last += 1e-9
      loop.call_at(self._last, self._q.put_nowait, item)
  async def put(self, item): self.put_nowait(item)
  async def get(self): return await self._q.get()
  def get_nowait(self): return self._q.get_nowait()
  def task_done(self): self._q.task_done()
  def qsize(self): return self._q.qsize()
  def empty(self): return self._q.empty()

_EOF = object()
class MemConnection(RawConnection):
  """An in-memory raw connection (bytes frames with delays), for links with arbitrary cost."""
  def __init__(self, out, inp):
    super().__init__()
    self.out, self.inp, self.closed = out, inp, False
    self.slow = False           # every send has to wait first, as on a congested socket
  def close(self):
    if self.closed: return
    self.closed = True
    try: self.out.put_nowait(_EOF)
    except RuntimeError: pass # no running loop any more
  async def _send(self, data):
    if self.closed: raise ConnectionClosedError()
    if self.slow:
      await asyncio.sleep(0.003)
      if self.closed: raise ConnectionClosedError()
    self.out.put_nowait(bytes(data))
  async def _recv(self):
    d = await self.inp.get()
    if d is _EOF:
      self.inp.put_nowait(_EOF)
      raise ConnectionClosedError()
    return d

def mem_connections(delays_ab=None, delays_ba=None):
  qa, qb = DelayQueue(delays_ab), DelayQueue(delays_ba)
  return MemConnection(qa, qb), MemConnection(qb, qa)

def make_link(kind, cost=1, delays_ab=None, delays_ba=None, slow=False):
  """kind: plain (objects), raw (serialised), cost (serialised, arbitrary cost, real close)."""
  if kind == "cost":
    a, b = mem_connections(delays_ab, delays_ba)
    a.slow = b.slow = bool(slow)
    return RawConnectionLink(a, cost), RawConnectionLink(b, cost)
  qa, qb = DelayQueue(delays_ab), DelayQueue(delays_ba)
  cls = RawQueueLink if kind == "raw" else QueueLink
  a, b = cls(qa, qb), cls(qb, qa)
  a.on_closed.append(b.close)
  b.on_closed.append(a.close)
  return a, b

def link_cost(kind, cost): return cost if kind == "cost" else 1

class Recorder(Receiver):
  """Records everything a client lets through."""
  def __init__(self, client):
    super().__init__(client)
    self.messages = []
  def on_message(self, message): self.messages.append(message)

class LinkRecorder:
  """Reads a link like a bare endpoint and records what arrives."""
  def __init__(self, link):
    self.link, self.messages = link, []
    self.task = asyncio.create_task(self._run())
  async def _run(self):
    try:
      while True: self.messages.append(await self.link.recv())
    except ConnectionClosedError: pass

async def settle(t=1000.0): await asyncio.sleep(t)
