"""The browser code of /repo (web-packages), bundled as it is and run in a Node process that
speaks JSON lines. React, MUI, mobx and the DOM are small stand-ins (pbt/front/)."""
from . import boot
import json
import os
import subprocess

class FrontError(Exception):
  """The browser code answered a command with an exception."""

class Front:
  proc = None
  def start(self):
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "front")
    self.owner = os.getpid()
    self.proc = subprocess.Popen(["node", "--max-old-space-size=1024", os.path.join(here, "driver.mjs"), boot.REPO],
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, bufsize=1)
    first = self.proc.stdout.readline()
    if not first:
      err = self.proc.stderr.read()
      self.proc = None
      raise RuntimeError("the browser code does not build or load:\n" + err[-3000:])
  def stop(self):
    p, self.proc = self.proc, None
    if p is not None:
      p.kill()
      p.stdin.close(); p.stdout.close(); p.stderr.close()
      p.wait()
  def _line(self, msg):
    try:
      self.proc.stdin.write(json.dumps(msg) + "\n")
      self.proc.stdin.flush()
      text = self.proc.stdout.readline()
    except BaseException:
      self.stop()
      raise
    if not text:
      self.stop()
      raise RuntimeError("the browser code ended its process")
    return json.loads(text)
  def ensure(self):
    if self.proc is not None and self.owner != os.getpid(): self.proc = None
    if self.proc is None: self.start()
  def do(self, op, serve=None, **args):
    """Runs one command; `serve(call)` -> (status, body) or the text of a failure answers the page's requests."""
    self.ensure()
    a = self._line({"op": op, **args})
    while serve is not None and "call" in a:
      r = serve(a["call"])
      a = self._line({"fail": r} if isinstance(r, str) else {"status": r[0], "body": r[1]})
    if "call" in a:
      self.stop()
      raise RuntimeError("request without a server: " + str(a["call"]))
    if "error" in a: raise FrontError(a["error"])
    return a["ok"]
  async def ado(self, serve, op, **args):
    """As `do`, with the page's requests answered by `await serve(call)` -> (status, body)."""
    self.ensure()
    a = self._line({"op": op, **args})
    while "call" in a:
      r = await serve(a["call"])
      a = self._line({"fail": r} if isinstance(r, str) else {"status": r[0], "body": r[1]})
    if "error" in a: raise FrontError(a["error"])
    return a["ok"]
  def page(self, **opts):
    self.ensure()
    self.do("drop")
    return self.do("page", **opts)

front = Front()
