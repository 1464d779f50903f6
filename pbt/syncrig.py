"""A task with a worker thread between a test client and its topics, on a real event loop."""
from .taskrig import *
import queue, time
from concurrent.futures import ThreadPoolExecutor

# idle workers look for the stop signal every half second or so; here they look more often, which only makes cases shorter
_get = queue.Queue.get
queue.Queue.get = lambda self, block=True, timeout=None: _get(self, block, None if timeout is None else min(timeout, 0.01))

PATIENCE = 15                      # seconds of real time after which something that should happen counts as missing
class SyncRig(Rig):
  async def start(self, build, ins, outs, link=None):
    await super().start(build, ins, outs, link, ready=False)
    return self
  async def until(self, cond, what):
    end = time.monotonic() + PATIENCE
    while not cond():
      if time.monotonic() > end:
        self.check()
        raise Violation(f"{what} (waited {PATIENCE} s)", key="missing")
      self.check()
      await asyncio.sleep(0.0005)
  async def quiet(self):
    """Lets everything that is on its way through the event loop arrive."""
    for _ in range(40): await asyncio.sleep(0)
    await asyncio.sleep(0.004)
    for _ in range(40): await asyncio.sleep(0)
  async def collect(self, n, what, extra=True):
    """Waits for the events to be `n`; returns them."""
    out = []
    def more():
      out.extend(self.take())
      return len(out) >= n
    await self.until(more, f"{what}: only {len(out)} of {n} messages came")
    if extra:
      await self.quiet()
      out.extend(self.take())
      if len(out) > n: raise Violation(f"{what}: {len(out) - n} messages too many came: {str(out[n:])[:300]}")
    return out
  async def stop(self):
    self.bg.cancel()
    await asyncio.wait([self.bg], timeout=PATIENCE)
    if not self.bg.done(): raise Violation("the task does not stop when cancelled")

def rrun(main):
  loop = asyncio.new_event_loop()
  loop.set_default_executor(ThreadPoolExecutor(4))
  asyncio.set_event_loop(loop)
  try: return loop.run_until_complete(asyncio.wait_for(main(), 60))
  finally:
    try:
      for _ in range(5):
        ts = asyncio.all_tasks(loop)
        if not ts: break
        for t in ts: t.cancel()
        loop.run_until_complete(asyncio.wait(ts, timeout=5))
      loop.run_until_complete(loop.shutdown_asyncgens())
    finally:
      asyncio.set_event_loop(None)
      loop.close()
