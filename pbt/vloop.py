"""A deterministic asyncio event loop with virtual time.

Time advances only when no callback is ready, so the generator owns every delay; a state in
which nothing can ever happen again is reported as Deadlock, endless activity as Livelock.
"""
import asyncio
import selectors
import time as _time

class Deadlock(Exception): pass
class Livelock(Exception): pass

class _VSelector(selectors.DefaultSelector):
  loop = None
  def select(self, timeout=None):
    loop = self.loop
    if timeout is not None and timeout <= 0: return super().select(0)
    if loop._real_pending > 0:
      deadline = _time.monotonic() + 30
      while loop._real_pending > 0:
        ev = super().select(0.05)
        if ev: return ev
        if _time.monotonic() > deadline: raise Livelock("a thread did not finish within 30 s")
      return []
    if timeout is None:
      ev = super().select(0)
      if ev: return ev
      raise Deadlock("nothing can run any more")
    if loop._real_io:
      ev = super().select(0.003)          # give the kernel a chance before time moves on
      if ev: return ev
    loop._vtime += timeout
    return super().select(0)

class VLoop(asyncio.SelectorEventLoop):
  EPOCH_NS = 1_700_000_000_000_000_000

  def __init__(self, max_steps=400_000, threads=False, real_io=False, drag=0, lazy=False):
    sel = _VSelector()
    super().__init__(sel)
    sel.loop = self
    self._vtime = 0.0
    self._real_pending = 0
    self._steps = 0
    self._lazy = lazy              # whether results of blocking calls arrive one step later, as from a thread
    self._drag = drag              # time every step takes, in seconds
    self._max_steps = max_steps
    self._threads = threads
    self._real_io = real_io
    self.unhandled = []
    self.set_exception_handler(lambda loop, ctx: self.unhandled.append(ctx))

  def time(self): return self._vtime

  def _run_once(self):
    self._steps += 1
    if self._steps > self._max_steps: raise Livelock(f"more than {self._max_steps} scheduler steps")
    self._vtime += self._drag
    super()._run_once()

  def run_in_executor(self, executor, func, *args):
    if self._threads:
      fut = super().run_in_executor(executor, func, *args)
      self._real_pending += 1
      def done(_): self._real_pending -= 1
      fut.add_done_callback(done)
      return fut
    fut = self.create_future()
    try: res = func(*args)
    except (KeyboardInterrupt, SystemExit): raise
    except BaseException as e: done, res = fut.set_exception, e
    else: done = fut.set_result
    if self._lazy: self.call_soon(lambda: fut.done() or done(res))
    else: done(res)
    return fut

class VirtualClock:
  """Makes time.time / time.time_ns follow the virtual loop."""
  def __init__(self, loop): self.loop = loop
  def __enter__(self):
    self.saved = (_time.time, _time.time_ns)
    _time.time_ns = lambda: VLoop.EPOCH_NS + int(round(self.loop._vtime * 1e9))
    _time.time = lambda: _time.time_ns() / 1e9
    return self
  def __exit__(self, *_): _time.time, _time.time_ns = self.saved

def _drain(loop):
  for _ in range(20):
    tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
    if not tasks: break
    for t in tasks: t.cancel()
    loop._max_steps = loop._steps + 20_000
    try: loop.run_until_complete(asyncio.wait(tasks, timeout=60))
    except (Deadlock, Livelock): pass
    except BaseException as e:
      if type(e).__name__ == "CaseHang": raise
  try: loop.run_until_complete(loop.shutdown_asyncgens())
  except BaseException as e:
    if type(e).__name__ == "CaseHang": raise

def vrun(main, *, max_steps=400_000, threads=False, clock=True, real_io=False, drag=0, lazy=False):
  """Runs the coroutine function `main()` on a fresh virtual loop and cleans up after it."""
  loop = VLoop(max_steps=max_steps, threads=threads, real_io=real_io, drag=drag, lazy=lazy)
  asyncio.set_event_loop(loop)
  vc = VirtualClock(loop) if clock else None
  if vc: vc.__enter__()
  try: return loop.run_until_complete(main())
  finally:
    try: _drain(loop)
    finally:
      if vc: vc.__exit__()
      asyncio.set_event_loop(None)
      if threads and loop._default_executor is not None: loop._default_executor.shutdown(wait=False)
      loop.close()

def vnow(): return asyncio.get_running_loop().time()
