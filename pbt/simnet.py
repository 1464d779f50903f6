"""A simulated internet for asyncio streams (and `websockets` calls) in virtual time.

Patches asyncio.open_connection / open_unix_connection / start_server / start_unix_server and
websockets.connect / serve while active. Streams are real StreamReader/StreamWriter objects on
in-memory transports, so closing, draining and end-of-stream behave as on sockets.
"""
import asyncio
import contextlib
import urllib.parse
import websockets

def ws_key(uri):
  u = urllib.parse.urlparse(uri)
  return ("ws", u.scheme, u.hostname, u.port)

class MemTransport(asyncio.Transport):
  def __init__(self, net, protocol, name):
    super().__init__()
    self.net, self.protocol, self.name = net, protocol, name
    self.peer = None
    self.closed = False        # closed on this side
    self.dead = False          # connection_lost was called
    self.sent = bytearray()
    self.last = 0.0
    self.paused, self.backlog = False, []
  def get_extra_info(self, name, default=None): return default
  def is_closing(self): return self.closed
  def set_protocol(self, p): self.protocol = p
  def get_protocol(self): return self.protocol
  def pause_reading(self): self.paused = True
  def resume_reading(self):
    self.paused = False
    backlog, self.backlog = self.backlog, []
    for f in backlog: self._incoming(f)
  def is_reading(self): return not self.paused
  def get_write_buffer_size(self): return 0
  def set_write_buffer_limits(self, high=None, low=None): pass
  def can_write_eof(self): return True
  def write_eof(self): self._later(self.peer._incoming, ("eof", b""))
  def write(self, data):
    if self.closed: return
    self.sent += bytes(data)
    self._later(self.peer._incoming, ("data", bytes(data)))
  def _later(self, fn, *a):
    loop = self.net.loop
    d = self.net.delay()
    at = max(self.last, loop.time() + d) + 1e-9
    self.last = at
    loop.call_at(at, fn, *a)
  def _incoming(self, item):
    if self.dead or self.closed: return
    if self.paused: return self.backlog.append(item)
    kind, data = item
    if kind == "data": self.protocol.data_received(data)
    else:
      # the peer closed: end of file, then our side goes down as well unless kept half-open
      if not self.protocol.eof_received(): self.close()
  def close(self):
    if self.closed: return
    self.closed = True
    self._later(self.peer._incoming, ("eof", b""))
    self.net.loop.call_soon(self._lost, None)
  def abort(self):
    self.closed = True
    self.net.loop.call_soon(self._lost, None)
    self._later(self.peer._reset)
  def _reset(self):
    if self.dead: return
    self.closed = True
    self._lost(ConnectionResetError("reset by peer"))
  def _lost(self, exc):
    if self.dead: return
    self.dead = True
    self.protocol.connection_lost(exc)

def mem_stream(net, client_connected_cb=None):
  reader = asyncio.StreamReader(loop=net.loop, limit=2**16)
  protocol = asyncio.StreamReaderProtocol(reader, client_connected_cb, loop=net.loop)
  return reader, protocol

class Listener:
  def __init__(self, net, key, cb, register=True):
    self.net, self.key, self.cb, self.open = net, key, cb, True
    self.transports = []
    if register:
      if key in net.listeners: raise OSError(98, "address already in use")
      net.listeners[key] = self
    self._waiter = None
  async def __aenter__(self): return self
  async def __aexit__(self, *_):
    self.close()
    await self.wait_closed()
  def is_serving(self): return self.open
  async def start_serving(self): pass
  def close(self):
    self.open = False
    if self.net.listeners.get(self.key) is self: self.net.listeners.pop(self.key)
  def close_clients(self):
    for t in self.transports: t.close()
  def abort_clients(self):
    for t in self.transports: t.abort()
  async def wait_closed(self):
    # as asyncio does since 3.12.1: waits for the last connection
    while any(not t.dead for t in self.transports): await asyncio.sleep(0.01)
  async def serve_forever(self):
    try: await self.net.loop.create_future()
    except asyncio.CancelledError:
      self.close()
      await self.wait_closed()
      raise

class WsClosed(websockets.ConnectionClosedOK):
  def __init__(self): super().__init__(None, None)

class FakeWs:
  """One side of an in-memory websocket."""
  def __init__(self, net):
    self.net, self.q, self.closed, self.peer = net, asyncio.Queue(), False, None
    self.last = 0.0
  async def send(self, data):
    if self.closed: raise WsClosed()
    if isinstance(data, (bytearray, memoryview)): data = bytes(data)
    self._put(data)
  def _put(self, item):
    loop = self.net.loop
    self.last = max(self.last, loop.time() + self.net.delay()) + 1e-9
    loop.call_at(self.last, self.peer._got, item)
  def _got(self, item):
    if item is None:
      if not self.closed:
        self.closed = True
      self.q.put_nowait(None)
    elif not self.closed: self.q.put_nowait(item)
  async def recv(self):
    if self.closed and self.q.empty(): raise WsClosed()
    item = await self.q.get()
    if item is None:
      self.q.put_nowait(None)
      raise WsClosed()
    return item
  async def close(self, *_a, **_k):
    if self.closed: return
    self.closed = True
    self.q.put_nowait(None)
    self._put(None)
  async def wait_closed(self):
    while not self.closed: await asyncio.sleep(0.01)
  def __aiter__(self): return self
  async def __anext__(self):
    try: return await self.recv()
    except WsClosed: raise StopAsyncIteration

class WsListener(Listener):
  def __init__(self, net, key, handler, register=True):
    super().__init__(net, key, handler, register)
    self.tasks = []
    self.socks = []
  def __await__(self):
    async def me(): return self
    return me().__await__()
  async def __aexit__(self, *_):
    self.close()
    for s in self.socks: await s.close()      # websockets closes its connections when the server closes
    if self.tasks: await asyncio.wait(self.tasks)

class SimNet:
  def __init__(self, delays=None):
    self.delays, self.n = delays or [0.001], 0
    self.listeners = {}
    self.pairs = []            # (client transport, server transport, key)
    self.dials = []            # every attempted target
    self.dial_times = []
    self.refuse = []           # exceptions to raise for the next dials (None = let through)
    self.bound = []            # every server started
  def delay(self):
    d = self.delays[self.n % len(self.delays)]
    self.n += 1
    return d

  async def dial(self, key):
    self.dials.append(key)
    self.dial_times.append(self.loop.time())
    await asyncio.sleep(self.delay())
    if self.refuse:
      e = self.refuse.pop(0)
      if callable(e): return e(self, key)          # a stand-in listener for this dial
      if e is not None: raise e
    l = self.listeners.get(key)
    if l is None or not l.open: raise ConnectionRefusedError("nobody listens on " + repr(key))
    return l

  async def open_stream(self, key):
    l = await self.dial(key)
    reader, protocol = mem_stream(self)
    _, sprotocol = mem_stream(self, l.cb)
    a, b = MemTransport(self, protocol, "client"), MemTransport(self, sprotocol, "server")
    a.peer, b.peer = b, a
    l.transports.append(b)
    self.pairs.append((a, b, key))
    sprotocol.connection_made(b)
    protocol.connection_made(a)
    return reader, asyncio.StreamWriter(a, protocol, reader, self.loop)

  async def open_ws(self, key):
    l = await self.dial(key)
    a, b = FakeWs(self), FakeWs(self)
    a.peer, b.peer = b, a
    async def handle():
      try: await l.cb(b)
      except asyncio.CancelledError: raise
      except BaseException: pass
      finally: await b.close()
    l.socks.append(b)
    l.tasks.append(asyncio.create_task(handle()))
    self.pairs.append((a, b, key))
    return a

  @contextlib.contextmanager
  def active(self):
    self.loop = asyncio.get_running_loop()
    net = self
    async def open_connection(host=None, port=None, **kw): return await net.open_stream(("tcp", host, port))
    async def open_unix_connection(path=None, **kw): return await net.open_stream(("unix", str(path)))
    async def start_server(client_connected_cb, host=None, port=None, **kw):
      net.bound.append(("tcp", host, port))
      return Listener(net, ("tcp", host, port), client_connected_cb)
    async def start_unix_server(client_connected_cb, path=None, **kw):
      net.bound.append(("unix", str(path)))
      return Listener(net, ("unix", str(path)), client_connected_cb)
    class ws_connect:
      def __init__(self, uri, **kw): self.uri, self.s = uri, None
      def __await__(self): return net.open_ws(ws_key(self.uri)).__await__()
      async def __aenter__(self):
        self.s = await net.open_ws(ws_key(self.uri))
        return self.s
      async def __aexit__(self, *_): await self.s.close()
    def ws_serve(handler, host=None, port=None, **kw):
      net.bound.append(("ws", host, port))
      return WsListener(net, ("ws", "ws", host, port), handler)
    from unittest.mock import patch
    with contextlib.ExitStack() as es:
      for target, name, fn in ((asyncio, "open_connection", open_connection), (asyncio, "open_unix_connection", open_unix_connection),
          (asyncio, "start_server", start_server), (asyncio, "start_unix_server", start_unix_server),
          (websockets, "connect", ws_connect), (websockets, "serve", ws_serve)):
        es.enter_context(patch.object(target, name, fn))
      yield self
