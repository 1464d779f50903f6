from hypothesis import strategies as st
from ..core import Sub, Violation
from ..web import http_scope, ws_scope, Response
from streamtasks.asgiserver import HTTPContext, WebsocketContext, http_context_handler, websocket_context_handler, decode_data_uri, static_content_handler
import asyncio, base64, codecs, json, mimetypes, os, tempfile

TECHNIQUE = "property-based testing (Hypothesis): round trips of generated bodies, charsets, chunkings and messages through handlers of every style"
NOTE = "Random search with shrinking; bodies are valid in the character set they declare."

blob = st.one_of(st.binary(max_size=10), st.sampled_from([b"", b"\0", b"a" * 7, b"b" * 8, b"c" * 16, bytes(range(256)), b"\xff\xfe", b"\xef\xbb\xbf"]))
text = st.one_of(st.text(alphabet=st.characters(exclude_categories=["Cs"]), max_size=10), st.sampled_from(["", "ä", "€", "\U0001f600", "\ufeff", "a\r\nb", "</", "\0"]))
jsonv = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-2**70, 2**70), st.floats(allow_nan=False, allow_infinity=False), text), lambda s: st.one_of(st.lists(s, max_size=3), st.dictionaries(text, s, max_size=3)), max_leaves=6)
status = st.sampled_from([200, 201, 400, 404, 500, 299])
mime = st.sampled_from(["text/plain", "text/html", "application/json", "image/png", "x/y"])
hdr = st.tuples(st.sampled_from([b"x-a", b"x-b", b"set-cookie"]), st.binary(max_size=4).map(lambda b: b.hex().encode())).map(list)

# ---- responses
def response_cases():
  ops = st.lists(st.one_of(blob.map(lambda b: ["write", b]), blob.map(lambda b: ["write", b]), st.just(["flush"]), st.just(["wait"])), max_size=8)
  style = st.one_of(
    st.tuples(st.just("buffer"), status, blob, mime, st.sampled_from([None, "utf-8", "latin-1"])), st.tuples(st.just("text"), status, text, mime), st.tuples(st.just("text default"), text), st.tuples(st.just("string"), status, text, mime),
    st.tuples(st.just("json"), status, jsonv), st.tuples(st.just("json string"), status, jsonv), st.tuples(st.just("json raw"), status, jsonv, st.sampled_from(["utf-8", "utf-16", "latin-1"])),
    st.tuples(st.just("file"), status, blob, st.sampled_from(["a.txt", "b.png", "c", "d.json"]), st.sampled_from([None, "x/y"]), st.sampled_from([None, 1, 7, 8, 16, 1000])),
    st.tuples(st.just("stream"), status, ops, st.booleans()), st.tuples(st.just("stream"), status, ops, st.booleans()), st.tuples(st.just("status"), status), st.tuples(st.just("static"), blob, mime, st.sampled_from([None, "utf-8"]))).map(list)
  return st.fixed_dictionaries({"style": style, "extra": st.lists(hdr, max_size=3), "headers": st.lists(hdr, max_size=2), "as": st.sampled_from(["list", "list", "tuple", "iter"]), "read": st.booleans()})

async def respond(ctx, case, tmp):
  s, *a = case["style"]
  if case["read"]: await ctx.body.read_all()
  ctx.add_response_headers([tuple(h) for h in case["extra"]])
  if s == "buffer": await ctx.respond_buffer(*a)
  elif s == "text": await ctx.respond_text(a[1], a[0], a[2])
  elif s == "text default": await ctx.respond_text(a[0])
  elif s == "string": await ctx.respond_string(*a)
  elif s == "json": await ctx.respond_json(a[1], a[0])
  elif s == "json string": await ctx.respond_json_string(json.dumps(a[1]), a[0])
  elif s == "json raw": await ctx.respond_json_raw(json.dumps(a[1]).encode(a[2]), a[0], a[2])
  elif s == "status": await ctx.respond_status(a[0])
  elif s == "static": await ctx.delegate(static_content_handler(*a))
  elif s == "file":
    p = os.path.join(tmp, a[2])
    with open(p, "wb") as f: f.write(a[1])
    kw = {} if a[4] is None else {"buffer_size": a[4]}
    await ctx.respond_file(p, a[0], a[3], **kw)
  else:
    hs = [tuple(h) for h in case["headers"]]
    w = await ctx.respond(a[0], {"list": hs, "tuple": tuple(hs), "iter": iter(hs)}[case["as"]])
    for op, *b in a[1]:
      if op == "write": w.write(b[0])
      elif op == "flush": await w.flush()
      else: await asyncio.sleep(0)
    if a[2]: await w.close()
    else: await w.flush(close=True)

def run_response(case, ctx):
  s, *a = case["style"]
  with tempfile.TemporaryDirectory() as tmp:
    events = []
    async def send(e): events.append(e)
    async def receive(): return {"type": "http.request", "body": b"x", "more_body": False}
    state = {}
    @http_context_handler
    async def app(c):
      state["ctx"] = c
      await respond(c, case, tmp)
    try: asyncio.run(app(http_scope("GET", "/"), receive, send))
    except Exception as e: raise Violation(f"responding with {case['style']} raised {e!r}", key="raise")
  r = Response(events)
  bad = r.well_formed()
  what = f"{case['style']}"
  if bad: raise Violation(f"{what}: {bad}: {events}", key="form")
  if state["ctx"].more_response_body: raise Violation(f"{what}: the response is complete, but reported as unfinished", key="state")
  want_status = {"text default": lambda: 200, "static": lambda: 200}.get(s, lambda: a[0])()
  if r.status != want_status: raise Violation(f"{what}: status {r.status}", key="status")
  def expect(body, ctype):
    if r.body != body: raise Violation(f"{what}: sent {body!r}, the client receives {r.body!r}", key="body")
    if r.header("content-length") != [str(len(body))]: raise Violation(f"{what}: content-length {r.header('content-length')} for {len(body)} bytes", key="length")
    if [x.replace(" ", "").lower() for x in r.header("content-type")] != [ctype.replace(" ", "").lower()]: raise Violation(f"{what}: content-type {r.header('content-type')}, expected {ctype}", key="type")
    if body: ctx.hit()
  def expect_json(value, cs):
    m = [x.replace(" ", "").lower() for x in r.header("content-type")]
    if m != ["application/json;charset=" + cs]: raise Violation(f"{what}: content-type {m}", key="type")
    if r.header("content-length") != [str(len(r.body))]: raise Violation(f"{what}: content-length", key="length")
    got = json.loads(r.body.decode(cs))
    if json.dumps(got) != json.dumps(value): raise Violation(f"{what}: the client reads {got!r}", key="body")
    ctx.hit()
  ctx.label(s)
  if s == "buffer": expect(a[1], a[2] + (f"; charset={a[3]}" if a[3] else ""))
  elif s == "static": expect(a[0], a[1] + (f"; charset={a[2]}" if a[2] else ""))
  elif s in ("text", "string"): expect(a[1].encode(), a[2] + "; charset=utf-8")
  elif s == "text default": expect(a[0].encode(), "text/plain; charset=utf-8")
  elif s in ("json", "json string"): expect_json(a[1], "utf-8")
  elif s == "json raw": expect_json(a[1], a[2])
  elif s == "file": expect(a[1], a[3] or mimetypes.guess_type(a[2])[0] or "application/octet-stream")
  elif s == "stream":
    body = b"".join(b[0] for op, *b in a[1] if op == "write")
    if r.body != body: raise Violation(f"{what}: wrote {body!r}, the client receives {r.body!r}", key="body")
    # what was flushed has been sent by then
    sent, so_far, n = b"", b"", 0
    if body: ctx.hit()
  want = sorted(tuple(h) for h in case["extra"] + (case["headers"] if s == "stream" else []))
  got = sorted((k, v) for k, v in r.headers if k in (b"x-a", b"x-b", b"set-cookie"))
  if want != got: raise Violation(f"{what}: headers {got}, expected {want}", key="headers")

# ---- requests
CHARSETS = [None, "utf-8", "UTF-8", "latin-1", "utf-16", "utf-16-le", "ascii", "cp1252", "utf-32", "iso-8859-15"]
def request_cases():
  other = st.lists(st.sampled_from(["boundary=x", "q=0.9", "version=\"1;2\"", "flag", "x=\"a=b\"", "profile=\"https://x/y?a=b\"", "x=\"a\\\"b\"", "Other=Value"]), max_size=2, unique=True)
  return st.fixed_dictionaries({"style": st.sampled_from(["all", "loop", "text", "text", "json", "json", "json raw"]), "body": blob, "text": text, "json": jsonv, "charset": st.sampled_from(CHARSETS), "quoted": st.booleans(), "mime": st.sampled_from(["text/plain", "Text/HTML", "application/json"]),
    "params": other, "after": st.booleans(), "sep": st.sampled_from(["; ", ";", " ; "]), "name": st.sampled_from(["charset", "Charset", "CHARSET"]), "cuts": st.lists(st.integers(0, 40), max_size=5), "slow": st.booleans(), "bare": st.booleans(), "end": st.sampled_from(["wait", "wait", "disconnect"]), "hname": st.sampled_from([b"content-type", b"Content-Type"])})

PARAMS = {"boundary=x": ("boundary", "x"), "q=0.9": ("q", "0.9"), "version=\"1;2\"": ("version", "1;2"), "x=\"a=b\"": ("x", "a=b"), "profile=\"https://x/y?a=b\"": ("profile", "https://x/y?a=b"), "x=\"a\\\"b\"": ("x", "a\"b"), "Other=Value": ("other", "Value")}

def run_request(case, ctx):
  style = case["style"]
  cs = case["charset"]
  charset = cs or "utf-8"
  if style in ("text",):
    value = case["text"]
    try: body = value.encode(charset)
    except UnicodeEncodeError: body, value = b"", ""
    if charset in ("utf-16", "utf-32") and value == "": body = b""
  elif style in ("json", "json raw"):
    value = json.dumps(case["json"], ensure_ascii=not charset.lower().startswith("utf"))
    body = value.encode(charset)
  else: value = body = case["body"]
  want_mime = "application/json" if style.startswith("json") else case["mime"]
  params = list(case["params"])
  if len({p.split("=")[0] for p in params}) < len(params): params = params[:1]
  cp = [] if cs is None else [f'{case["name"]}="{cs}"' if case["quoted"] else f'{case["name"]}={cs}']
  header = case["sep"].join([want_mime, *(cp + params if case["after"] else params + cp)])
  cuts = sorted({min(c, len(body)) for c in case["cuts"]})
  chunks = [body[i:j] for i, j in zip([0, *cuts], [*cuts, len(body)])]
  async def main():
    pending = [{"type": "http.request", "body": c, "more_body": i + 1 < len(chunks)} for i, c in enumerate(chunks)]
    if case["bare"]: pending = [{k: v for k, v in e.items() if not (k == "body" and v == b"") and not (k == "more_body" and v is False)} for e in pending]
    if case["end"] == "disconnect": pending.append({"type": "http.disconnect"})
    taken = 0
    async def receive():
      nonlocal taken
      if case["slow"]: await asyncio.sleep(0)
      if not pending: await asyncio.Future()
      taken += 1
      return pending.pop(0)
    got = {}
    @http_context_handler
    async def app(c):
      got["ct"] = c.content_type
      if style == "all": got["value"] = await c.body.read_all()
      elif style == "loop":
        parts = []
        while not c.body.ended:
          if c.more_request_body is False: raise Violation("the request is reported complete before it was read", key="state")
          parts.append(await c.body.read())
        got["value"] = b"".join(parts)
        if parts != chunks: raise Violation(f"sent {chunks}, read {parts}", key="chunks")
      elif style == "text": got["value"] = await c.receive_text({case["mime"].lower()})
      elif style == "json": got["value"] = await c.receive_json()
      else: got["value"] = await c.receive_json_raw()
      got["more"], got["connected"] = c.more_request_body, c.connected
    try: await asyncio.wait_for(app(http_scope("POST", "/", [(case["hname"], header.encode())]), receive, None), 5)
    except asyncio.TimeoutError: raise Violation(f"reading {style} of {chunks} ({header!r}) does not end", key="hang")
    if taken != len(chunks): raise Violation(f"{len(chunks)} events had to be read, {taken} were", key="state")
    return got
  what = f"{style} of {chunks} ({header!r})"
  try: got = asyncio.run(main())
  except Violation: raise
  except Exception as e: raise Violation(f"{what}: raised {e!r}", key="raise")
  if body: ctx.hit()
  ctx.label(style)
  if len(chunks) > 1: ctx.label("several chunks")
  if style.startswith("text") or style.startswith("json"): ctx.label(f"charset {cs}")
  want = case["json"] if style == "json" else value
  if (json.dumps(got["value"]) != json.dumps(want)) if style == "json" else (type(got["value"]) is not type(want) or got["value"] != want): raise Violation(f"{what}: read {got['value']!r} instead of {want!r}", key="value")
  want_params = dict(PARAMS[p] for p in params if p in PARAMS) | ({} if cs is None else {"charset": cs})
  gp = {k: v for k, v in got["ct"][1].items() if k != "flag"}
  if got["ct"][0] != want_mime.lower() or gp != want_params: raise Violation(f"{what}: content type read as {got['ct']!r}, expected {(want_mime.lower(), want_params)}", key="content type")
  if got["more"] or not got["connected"]: raise Violation(f"{what}: after reading: more {got['more']}, connected {got['connected']}", key="state")

# ---- websockets
def ws_cases():
  msg = st.one_of(blob.map(lambda b: ["bytes", b]), text.map(lambda t: ["text", t]))
  return st.fixed_dictionaries({"in": st.lists(msg, max_size=6), "out": st.lists(msg, max_size=4), "both": st.booleans(), "headers": st.lists(hdr, max_size=2), "extra": st.lists(hdr, max_size=2), "proto": st.sampled_from([None, "p"]), "again": st.booleans(),
    "style": st.sampled_from(["messages", "receive"]), "close": st.sampled_from([None, [1000, None], [1008, None], [4001, "why"], [1011, ""]])})

def run_ws(case, ctx):
  events, got, flags = [], [], {}
  pending = [{"type": "websocket.connect"}] + [{"type": "websocket.receive", k: v, **({("text" if k == "bytes" else "bytes"): None} if case["both"] else {})} for k, v in case["in"]] + [{"type": "websocket.disconnect", "code": 1005}]
  async def receive():
    if not pending: await asyncio.Future()
    return pending.pop(0)
  async def send(e): events.append(e)
  @websocket_context_handler
  async def app(c):
    if c.connected or c.accepted: raise Violation("connected before anything happened", key="state")
    c.add_accept_headers([tuple(h) for h in case["extra"]])
    hs = [tuple(h) for h in case["headers"]]
    if case["style"] == "messages" and not case["again"]: it = c.messages(hs, case["proto"])
    else:
      await c.accept(hs, case["proto"])
      if case["again"]: await c.accept()
      if not (c.connected and c.accepted): raise Violation("not connected after accepting", key="state")
      it = c.messages()
    if case["style"] == "messages":
      async for m in it: got.append(m)
    else:
      while True:
        t, m = await c.receive()
        if t == "disconnect": break
        if t != "message": raise Violation(f"received {t}", key="value")
        got.append(m)
    if c.connected: raise Violation("connected after the disconnect", key="state")
    for k, v in case["out"]: await c.send_message(v)
    if case["close"]: await c.close(*case["close"])
  what = f"{case}"
  async def main():
    try: await asyncio.wait_for(app(ws_scope("/"), receive, send), 5)
    except asyncio.TimeoutError: raise Violation(f"{what}: does not end", key="hang")
  try: asyncio.run(main())
  except Violation: raise
  except Exception as e: raise Violation(f"{what}: raised {e!r}", key="raise")
  if case["in"] or case["out"]: ctx.hit()
  want = [v for _, v in case["in"]]
  if len(want) != len(got) or any(type(a) is not type(b) or a != b for a, b in zip(want, got)): raise Violation(f"messages {want!r} were sent, {got!r} handed over", key="messages")
  acc = [e for e in events if e["type"] == "websocket.accept"]
  if len(acc) != 1 or events[0] is not acc[0]: raise Violation(f"accepted {len(acc)} times: {events}", key="accept")
  if acc[0].get("subprotocol") != case["proto"] or sorted(map(tuple, acc[0].get("headers", []))) != sorted(tuple(h) for h in case["headers"] + case["extra"]): raise Violation(f"accepted with {acc[0]}", key="accept")
  sent = [e for e in events if e["type"] == "websocket.send"]
  out = [("bytes", e["bytes"]) if e.get("bytes") is not None else ("text", e.get("text")) for e in sent]
  if out != [tuple(o) for o in case["out"]]: raise Violation(f"handler sent {case['out']!r}, the client got {out!r}", key="messages")
  closes = [e for e in events if e["type"] == "websocket.close"]
  if [e["code"] for e in closes] != ([case["close"][0]] if case["close"] else []): raise Violation(f"closed with {closes}", key="close")
  if case["close"] and case["close"][1] is not None and closes[0].get("reason") != case["close"][1]: raise Violation(f"closed with {closes}", key="close")

# ---- data uris
def uri_cases(): return st.fixed_dictionaries({"data": st.one_of(blob, text.map(str.encode), st.sampled_from([b"a+b", b"a,b", b"a%2Bb", b"x=1;y", b"#", b"base64,"])), "base64": st.booleans(), "mime": st.sampled_from(["", "text/plain", "image/svg+xml", "application/octet-stream"]), "charset": st.sampled_from([None, None, "utf-8", "iso-8859-1"]), "safe": st.sampled_from(["", "+,;=/:"]), "quoted": st.booleans(), "defaults": st.sampled_from([[None, None], ["a/b", "a/b"]]),
  "before": st.lists(st.sampled_from(["format=flowed", "name=a.txt", "x-charset=utf-16", "foo=base64"]), max_size=2), "after": st.lists(st.sampled_from(["format=flowed", "name=charset"]), max_size=1)})
def run_uri(case, ctx):
  from urllib.parse import quote
  d = case["data"]
  enc = base64.b64encode(d).decode() if case["base64"] else quote(d, safe=case["safe"])
  if case["base64"] and case["quoted"]: enc = quote(enc, safe="")
  uri = "data:" + case["mime"] + "".join(";" + p for p in case["before"]) + (f";charset={case['charset']}" if case["charset"] else "") + "".join(";" + p for p in case["after"]) + (";base64" if case["base64"] else "") + "," + enc
  try: got, mt, cs = decode_data_uri(uri, tuple(case["defaults"]))
  except Exception as e: raise Violation(f"{uri!r} raised {e!r}", key="raise")
  if d: ctx.hit()
  if bytes(got) != d: raise Violation(f"{uri!r} holds {d!r}, decoded to {bytes(got)!r}", key="data")
  want = case["mime"] or case["defaults"][1 if case["base64"] else 0] or ("application/octet-stream" if case["base64"] else "text/plain")
  if mt != want: raise Violation(f"{uri!r} is of type {want!r}, decoded as {mt!r}", key="type")
  if case["charset"] and (cs or "").lower() != case["charset"]: raise Violation(f"{uri!r} declares {case['charset']}, decoded as {cs!r}", key="charset")

SUBS = [
  Sub("responses", response_cases, run_response, 1800, 40000, "responses of every style with generated bodies, headers and buffer sizes; non-trivial: the body is not empty"),
  Sub("requests", request_cases, run_request, 2500, 60000, "requests of generated bodies, chunkings, character sets and content-type headers read in every style; non-trivial: the body is not empty"),
  Sub("websockets", ws_cases, run_ws, 1200, 30000, "messages of both kinds, also empty ones, both ways; non-trivial: at least one message"),
  Sub("data uris", uri_cases, run_uri, 1200, 30000, "data URIs of generated bytes in both encodings; non-trivial: not empty"),
]
