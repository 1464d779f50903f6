from hypothesis import strategies as st
from ..core import Sub, Violation
from ..web import http_scope, ws_scope, Response
from streamtasks.asgiserver import ASGIServer, ASGIRouter, HTTPContext, WebsocketContext, http_context_handler, websocket_context_handler, transport_context_handler, static_content_handler
from streamtasks.asgi import asgi_default_http_error_handler
from streamtasks.client.fetch import FetchError, new_fetch_body_bad_request, new_fetch_body_not_found, new_fetch_body_general_error
from pydantic import BaseModel
import asyncio, json

TECHNIQUE = "property-based testing (Hypothesis): fault injection, generated failures at every point of a response in generated nestings of handlers"
NOTE = "Random search with shrinking; after a failure in the middle of a response nothing but its end may follow."

class Model(BaseModel): x: int
class Odd(BaseException): pass

def fail(kind):
  if kind == "validation": Model.model_validate({"x": "y"})
  if kind == "value": raise ValueError("bad")
  if kind == "json": json.loads("{")
  if kind == "decode": b"\xff".decode("utf-8")
  if kind == "int": int("x")
  if kind == "key": {}["missing"]
  if kind == "fetch not found": raise FetchError(new_fetch_body_not_found("no"))
  if kind == "fetch bad request": raise FetchError(list(new_fetch_body_bad_request("no")))
  if kind == "fetch general": raise FetchError(list(new_fetch_body_general_error("no")))
  if kind == "fetch unknown": raise FetchError(["teapot", "no"])
  if kind == "fetch none": raise FetchError(None)
  if kind == "fetch text": raise FetchError("not_found")
  if kind == "fetch empty": raise FetchError([])
  if kind == "fetch dict": raise FetchError({"status": 1})
  if kind == "fetch nested": raise FetchError([["not_found"], {}])
  if kind == "runtime": raise RuntimeError("no")
  if kind == "type": None + 1
  if kind == "attribute": None.x
  if kind == "os": open("/nonexistent/x")
  if kind == "index": [][0]
  if kind == "zero": 1 / 0
  if kind == "timeout": raise asyncio.TimeoutError()
  if kind == "assert": assert False
  if kind == "odd": raise Odd()
  if kind == "stop": raise StopAsyncIteration()
  if kind == "group": raise ExceptionGroup("g", [ValueError()])
BAD = {k: 400 for k in ("validation", "value", "json", "decode", "int", "fetch bad request")} | {k: 404 for k in ("key", "fetch not found")}
KINDS = [*BAD, "fetch general", "fetch unknown", "fetch none", "fetch text", "fetch empty", "fetch dict", "fetch nested", "runtime", "type", "attribute", "os", "index", "zero", "timeout", "assert", "odd", "stop", "group"]

def cases():
  http = st.tuples(st.just("http"), st.lists(st.sampled_from(["read", "wait"]), max_size=2), st.sampled_from(["before", "before", "before", "after start", "after part", "after flush", "after end", "never"]))
  ws = st.tuples(st.just("websocket"), st.lists(st.sampled_from(["wait"]), max_size=1), st.sampled_from(["before", "after connect", "after accept", "after message", "after close", "after refuse", "after disconnect", "never"]))
  return st.fixed_dictionaries({"what": st.one_of(http, http, ws).map(list), "kind": st.sampled_from(KINDS), "errors": st.lists(st.sampled_from(["default", "pass", "server", "router", "stack"]), max_size=4),
    "matched": st.sampled_from([True, True, True, False]), "extra": st.lists(st.just([b"x-a", b"1"]), max_size=1), "other_first": st.booleans()})

async def behave(case, c, sent):
  typ, steps, point = case["what"]
  for s in steps:
    if s == "wait": await asyncio.sleep(0)
    else: await c.body.read_all()
  def at(p):
    if point == p: fail(case["kind"])
  at("before")
  if typ == "http":
    c.add_response_headers([tuple(h) for h in case["extra"]])
    w = await c.respond(200, [(b"content-type", b"x/y")])
    at("after start")
    w.write(b"part")
    at("after part")
    await w.flush()
    at("after flush")
    w.write(b"end")
    await w.close()
    at("after end")
    return
  if point == "after connect": await c.receive()
  at("after connect")
  if point == "after refuse": await c.receive(); await c.close(1008)
  at("after refuse")
  await c.accept()
  at("after accept")
  await c.send_message("x")
  at("after message")
  if point == "after disconnect": await c.receive_disconnect()
  at("after disconnect")
  await c.close(1000)
  at("after close")

def run(case, ctx):
  typ, steps, point = case["what"]
  events, sent = [], []
  @transport_context_handler
  async def app(c): await behave(case, c, sent)
  server = ASGIServer()
  level, handled = server, False
  for e in case["errors"]:
    if e == "default": level.add_handler(asgi_default_http_error_handler)
    elif e == "pass":
      @transport_context_handler
      async def h(c): await c.next()
      level.add_handler(h)
    else:
      sub = {"server": ASGIServer, "router": ASGIRouter, "stack": ASGIRouter}[e]()
      level.add_handler(sub)
      level = sub
  r = ASGIRouter()
  if case["other_first"]: r.add_http_route(static_content_handler(b"other", "x/y"), "/other", ["GET"])
  r.add_transport_route(app, "/here/{x}")
  level.add_handler(r)
  # what handles the failure: the innermost server or default handler around the application
  inner = None
  for e in case["errors"]: inner = e if e in ("default", "server") else inner
  path = "/here/1" if case["matched"] else "/nowhere"
  scope = http_scope("GET", path) if typ == "http" else ws_scope(path)
  pending = [{"type": "http.request", "body": b"q", "more_body": False}] if typ == "http" else [{"type": "websocket.connect"}, {"type": "websocket.disconnect", "code": 1001}] if point == "after disconnect" else [{"type": "websocket.connect"}]
  async def receive():
    if not pending: await asyncio.Future()
    return pending.pop(0)
  async def send(e): events.append(e)
  what = f"{typ}, {case['kind']} {point}, handlers {case['errors']}, {'matched' if case['matched'] else 'not matched'}"
  async def main():
    try: await asyncio.wait_for(server(scope, receive, send), 5)
    except TimeoutError as e:
      if point == "never" or case["kind"] != "timeout": raise Violation(f"{what}: does not end", key="hang")
    except (Violation, KeyboardInterrupt, asyncio.CancelledError): raise
    except BaseException as e: return e
  error = asyncio.run(main())
  what += f": {events}"
  if typ == "websocket":
    n = [i for i, e in enumerate(events) if e["type"] == "websocket.close"]
    acc = [i for i, e in enumerate(events) if e["type"] == "websocket.accept"]
    if len(acc) > 1 or len(n) > 1 or (n and n[0] != len(events) - 1): raise Violation(f"{what}", key="second")
    if point == "after disconnect" and case["matched"]: return       # nobody is there any more
    if not n: raise Violation(f"{what}: the websocket is not closed", key="open")
    code = events[n[0]]["code"]
    if not case["matched"]: ctx.hit(); ctx.label("not matched"); want = None if code != 1011 and not acc else 0
    elif point in ("never", "after close"): want = 1000
    elif point == "after refuse": want = 1008
    else: ctx.hit(); ctx.label("failed websocket"); want = 1011
    if want is not None and code != want: raise Violation(f"{what}: closed with {code}, expected {want}", key="code")
    return
  started = case["matched"] and point != "before"
  if started:
    if point != "never": ctx.hit(); ctx.label("failed after the start")
    starts = [e for e in events if e["type"] == "http.response.start"]
    ends = [i for i, e in enumerate(events) if e["type"] == "http.response.body" and not e.get("more_body", False)]
    if len(starts) != 1 or events[0] is not starts[0] or starts[0]["status"] != 200: raise Violation(f"{what}", key="second")
    if len(ends) > 1 or (ends and ends[0] != len(events) - 1): raise Violation(f"{what}", key="second")
    body = b"".join(e.get("body", b"") for e in events[1:])
    if body != {"after start": b"", "after part": b"", "after flush": b"part"}.get(point, b"partend"): raise Violation(f"{what}: body {body!r}", key="second")
    if point in ("never", "after end") and not ends: raise Violation(f"{what}: no end", key="form")
    return
  ctx.hit()
  res = Response(events)
  bad = res.well_formed()
  if bad: raise Violation(f"{what}: {bad} ({error!r})", key="form")
  if not case["matched"]: want = 404; ctx.label("not matched")
  else:
    want = BAD.get(case["kind"], 500) if inner == "default" else 500
    ctx.label(f"failed, {want}")
  if res.status != want: raise Violation(f"{what}: answered {res.status}, expected {want}", key="status")

SUBS = [Sub("failures", cases, run, 4000, 80000, "26 kinds of failures at 6 points of http responses and 7 points of websocket conversations, in nestings of error handlers, servers and routers; unmatched requests; non-trivial: a failure or an unmatched request")]
