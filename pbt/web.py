"""Calling ASGI applications directly, as a server would."""
import asyncio
from .core import Violation

class Response:
  def __init__(self, events, error=None):
    self.events, self.error = events, error
    starts = [e for e in events if e["type"] == "http.response.start"]
    self.started = len(starts)
    self.status = starts[0]["status"] if starts else None
    self.headers = [(bytes(k), bytes(v)) for k, v in starts[0].get("headers", [])] if starts else []
    self.body = b"".join(bytes(e.get("body", b"")) for e in events if e["type"] == "http.response.body")
    self.complete = bool(events) and events[-1]["type"] == "http.response.body" and not events[-1].get("more_body", False)
  def header(self, name): return [v.decode("latin1") for k, v in self.headers if k.lower() == name.encode()]
  def well_formed(self):
    """Exactly one complete response: a start event, then body events of which the last one ends it."""
    if self.started != 1 or self.events[0]["type"] != "http.response.start": return "no single response start"
    if not self.complete: return "the response does not end"
    if any(not e.get("more_body", False) for e in self.events[1:-1]): return "events after the end of the response"
    n = self.header("content-length")
    if n and [len(self.body)] != [int(x) for x in n]: return f"content-length {n} but {len(self.body)} bytes"
    return None

def http_scope(method, path, headers=(), query=b"", **kw):
  return {"type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1", "server": ("127.0.0.1", 80), "client": ("127.0.0.1", 5000),
    "scheme": "http", "root_path": "", "method": method, "path": path, "raw_path": path.encode(), "query_string": query, "headers": [(k, v) for k, v in headers], **kw}

def ws_scope(path, headers=(), query=b"", **kw):
  return {"type": "websocket", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1", "server": ("127.0.0.1", 80), "client": ("127.0.0.1", 5000),
    "scheme": "ws", "root_path": "", "path": path, "raw_path": path.encode(), "query_string": query, "headers": [(k, v) for k, v in headers], "subprotocols": [], **kw}

async def http(app, method, path, body=b"", headers=(), chunks=None, query=b"", timeout=1000, disconnect=False):
  """One request; after the body has been read, the client stays connected."""
  events = []
  chunks = list(chunks) if chunks is not None else [body]
  pending = [{"type": "http.request", "body": c, "more_body": i + 1 < len(chunks)} for i, c in enumerate(chunks)] or [{"type": "http.request", "body": b"", "more_body": False}]
  if disconnect: pending.append({"type": "http.disconnect"})
  async def receive():
    if pending: return pending.pop(0)
    await asyncio.Future()
  async def send(event): events.append(event)
  error = None
  try: await asyncio.wait_for(app(http_scope(method, path, headers, query), receive, send), timeout)
  except asyncio.TimeoutError: raise Violation(f"{method} {path} was not answered: {events}", key="hang")
  except asyncio.CancelledError: raise
  except BaseException as e:
    if isinstance(e, (Violation, KeyboardInterrupt)): raise
    error = e
  return Response(events, error)

async def json_request(app, method, path, data=None):
  import json
  body = b"" if data is None else json.dumps(data).encode()
  r = await http(app, method, path, body, [(b"content-type", b"application/json; charset=utf-8")])
  bad = r.well_formed()
  if bad: raise Violation(f"{method} {path}: {bad}: {r.events}")
  try: value = json.loads(r.body)
  except ValueError: value = None
  return r.status, value
