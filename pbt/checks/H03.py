from hypothesis import strategies as st
from ..core import Sub, Violation
from ..web import http_scope, ws_scope, Response
from streamtasks.asgiserver import PathPattern, ASGIRouter, ASGIServer, HTTPContext, WebsocketContext, TransportContext, http_context_handler, websocket_context_handler, transport_context_handler, path_rewrite_handler
import asyncio, functools, re

TECHNIQUE = "property-based testing (Hypothesis): generated patterns, paths and trees of routers against a reference matcher that tries every reading of the path"
NOTE = "Random search with shrinking; parameter names within one pattern are distinct, handlers of routes do not pass their request on."

LIT = ["/", "/", "a", "b", "ab", "/a", "/b", "/a/", ".", "+", "(", "*", "-", "a/b", "ä", "\n"]
VAL = ["", "a", "b", "ab", "aab", "/", "a/b", "/a", "b/", "//", "x", ".", "ä", "\n", "{a}"]
names = ["a", "b", "id", "path", "X_1", "9"]

@st.composite
def pattern(draw, max_params=3):
  """A pattern as its pieces: literals and [name or None, wildcard]."""
  out, free = [], list(names)
  for _ in range(draw(st.integers(0, max_params))):
    out.append("".join(draw(st.lists(st.sampled_from(LIT), max_size=2))))
    name = draw(st.sampled_from([None, *free, *free]))
    if name: free.remove(name)
    out.append([name, draw(st.integers(0, 2)) == 0])
  out.append("".join(draw(st.lists(st.sampled_from(LIT), max_size=2))))
  return out

def source(pieces, pad=""): return "".join(p if isinstance(p, str) else "{" + pad + (p[0] or "") + ("*" if p[1] else "") + pad + "}" for p in pieces)

def readable(pieces, path, params=None):
  """Can the path be read as the pattern (with these values of its named parameters)?"""
  @functools.lru_cache(None)
  def go(i, at):
    if i == len(pieces): return at == len(path)
    p = pieces[i]
    if isinstance(p, str): return path.startswith(p, at) and go(i + 1, at + len(p))
    for end in range(at, len(path) + 1):
      v = path[at:end]
      if "/" in v and not p[1]: return False
      if (p[0] is None or params is None or params.get(p[0]) == v) and go(i + 1, end): return True
    return False
  return go(0, 0)

@st.composite
def path_for(draw, pieces):
  """Mostly paths that nearly or really match."""
  kind = draw(st.integers(0, 5))
  s = "".join(p if isinstance(p, str) else draw(st.sampled_from(VAL)) for p in pieces)
  if kind <= 3: return s
  if kind == 4:
    if not s: return draw(st.sampled_from(LIT))
    i = draw(st.integers(0, len(s)))
    return draw(st.sampled_from([s[:i] + s[i + 1:], s[:i] + draw(st.sampled_from(LIT)) + s[i:], s + draw(st.sampled_from(LIT))]))
  return "".join(draw(st.lists(st.sampled_from(LIT + VAL), max_size=5)))

@st.composite
def match_case(draw):
  pieces = draw(pattern())
  return {"pattern": pieces, "pad": draw(st.sampled_from(["", "", " "])), "paths": draw(st.lists(path_for(pieces), min_size=1, max_size=4)),
    "values": draw(st.dictionaries(st.sampled_from(names), st.sampled_from(VAL), max_size=5)), "default": draw(st.sampled_from([None, "", "a", "a/b"]))}

def run_match(case, ctx):
  pieces = case["pattern"]
  src = source(pieces, case["pad"])
  p = PathPattern(src)
  wanted = {x[0] for x in pieces if not isinstance(x, str) and x[0]}
  for path in case["paths"]:
    got, can = p.match(path), readable(pieces, path)
    ctx.label("match" if can else "no match")
    if can != (got is not None): raise Violation(f"pattern {src!r} {'does not match' if can else 'matches'} {path!r}: {got!r}", key="match")
    if got is None: continue
    if wanted or len(pieces) > 1: ctx.hit()
    if set(got) != wanted or not readable(pieces, path, got): raise Violation(f"pattern {src!r} read {path!r} as {got!r}", key="params")
    if all(isinstance(x, str) or x[0] for x in pieces):
      back = p.construct(got)
      if back != path: raise Violation(f"pattern {src!r}: {path!r} is read as {got!r}, which builds {back!r}", key="rebuild")
  vals = [case["values"].get(x[0], case["default"]) for x in pieces if not isinstance(x, str)]
  bad = any(v is None or ("/" in v and not x[1]) for v, x in zip(vals, [x for x in pieces if not isinstance(x, str)]))
  it = iter(vals)
  try: got = p.construct(dict(case["values"]), case["default"])
  except ValueError: got = None
  want = None if bad else "".join(x if isinstance(x, str) else next(it) for x in pieces)
  ctx.label("built" if want is not None else "can not be built")
  if got != want: raise Violation(f"pattern {src!r} with {case['values']!r} (else {case['default']!r}) builds {got!r} instead of {want!r}", key="construct")
  if want is not None and p.match(want) is None: raise Violation(f"pattern {src!r} does not match the path {want!r} it built", key="match")

def syntax_cases(): return st.fixed_dictionaries({"text": st.lists(st.sampled_from(["{", "}", "{a}", "{b*}", "{}", "{*}", "{a-b}", "{a/b}", "{a**}", "{*a}", "/", "a", "*", " "]), max_size=6).map("".join)})
def run_syntax(case, ctx):
  t = case["text"]
  ok = re.fullmatch(r"(?:[^{}]|\{\s*[a-zA-Z0-9_]*\*?\s*\})*", t) is not None
  try: PathPattern(t); got = True
  except ValueError: got = False
  if "{" in t or "}" in t: ctx.hit()
  ctx.label("valid" if ok else "invalid")
  if got != ok: raise Violation(f"the {'valid' if ok else 'invalid'} pattern {t!r} is {'accepted' if got else 'refused'}", key="syntax")

# ---- routers
METHODS = ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH"]
PATTERNS = [["/"], ["/a"], ["/b"], ["/a/", ["id", False]], ["/", ["id", False], "/b"], ["/", ["path", True]], ["/a/", ["path", True]], ["/task/", ["id", False], "/", ["path", True]], [["path", True], "/b"], ["/a/"], ["/", ["a", False], "/", ["b", False]]]
PATHS = ["/", "/a", "/b", "/a/", "/a/b", "/a/b/b", "/task/1/", "/task/1/a", "/task/1/a/b", "/task/1/task/2/a", "/x", "", "/a/b/", "//b"]
@st.composite
def rewrite_for(draw, pieces):
  have = [p for p in pieces if not isinstance(p, str) and p[0]]
  if not have: return ["/new"]
  return draw(st.sampled_from([["/", [have[-1][0], True]], ["/b/", [have[-1][0], True]], [["missing", True], "/a"], ["/", [have[0][0], True], "/b"], ["/", [have[0][0], False], "/x"]]))

@st.composite
def node(draw, depth):
  kind = draw(st.sampled_from(["http", "http", "http", "ws", "transport", "router", "pass", "only"] if depth else ["http", "http", "ws", "transport", "pass"]))
  if kind == "router": return [kind, draw(st.lists(node(depth - 1), max_size=4))]
  if kind == "pass": return [kind]
  if kind == "only": return [kind, draw(st.sampled_from(["http", "websocket", "transport"]))]
  pat = draw(st.sampled_from(PATTERNS))
  rewrite = draw(st.one_of(st.none(), st.none(), rewrite_for(pat)))
  inner = draw(st.lists(node(depth - 1), max_size=3)) if depth and draw(st.integers(0, 2)) == 0 else None
  return [kind, pat, draw(st.lists(st.sampled_from(METHODS[:3] * 3 + METHODS), min_size=1, max_size=3)) if kind == "http" else None, rewrite, draw(st.sampled_from([None, "d"])), inner]

def tree_cases():
  req = st.one_of(st.tuples(st.just("http"), st.sampled_from(METHODS[:3]), st.sampled_from(PATHS)), st.tuples(st.just("websocket"), st.none(), st.sampled_from(PATHS)), st.just(("lifespan", None, "")))
  return st.fixed_dictionaries({"handlers": st.lists(node(2), min_size=1, max_size=7), "shortcuts": st.booleans(), "requests": st.lists(req.map(list), min_size=3, max_size=8), "state": st.booleans()})

def number(nodes, n=0):
  out = []
  for x in nodes:
    if x[0] == "router": sub, n = number(x[1], n); out.append(["router", sub])
    elif x[0] in ("pass", "only"): out.append(x + [None] if x[0] == "pass" else [x[0], x[1], n]); n += x[0] == "only"
    else:
      me, n = n, n + 1
      inner = None
      if x[5] is not None: inner, n = number(x[5], n)
      out.append([*x[:5], inner, me])
  return out, n

def expected(nodes, typ, method, path):
  """The (handler, path, pattern) called, "none" when everything is passed on, "error", or None to go on."""
  for x in nodes:
    if x[0] == "pass": continue
    if x[0] == "only":
      if typ == x[1] or (x[1] == "transport" and typ in ("http", "websocket")): return (x[2], path, None)
      continue
    if x[0] == "router":
      r = expected(x[1], typ, method, path)
      if r is not None: return r
      continue
    if typ not in {"http": ("http",), "ws": ("websocket",), "transport": ("http", "websocket")}[x[0]]: continue
    if x[0] == "http" and method not in x[2]: continue
    if not readable(x[1], path): continue
    return ("route", x, path)
  return None

def build(nodes, stack, log, shortcuts):
  for x in nodes:
    if x[0] == "pass":
      @transport_context_handler
      async def h(ctx): await ctx.next()
      stack.add_handler(h)
    elif x[0] == "only":
      deco = {"http": http_context_handler, "websocket": websocket_context_handler, "transport": transport_context_handler}[x[1]]
      stack.add_handler(deco(functools.partial(final, x[2], log)))
    elif x[0] == "router":
      r = ASGIRouter()
      build(x[1], r, log, shortcuts)
      stack.add_handler(r)
    else:
      kind, pat, methods, rewrite, default, inner, me = x
      h = transport_context_handler(functools.partial(final, me, log))
      if inner is not None:
        r = ASGIRouter()
        build(inner, r, log, shortcuts)
        async def h(scope, receive, send, r=r, me=me):
          ctx = TransportContext(scope, receive, send)
          log.append((me, ctx.path, dict(ctx.params), scope))
          await ctx.delegate(r)
      if rewrite is not None: h = path_rewrite_handler(source(rewrite), default)(h)
      # `stack` may be the server itself, which has handlers only
      if not isinstance(stack, ASGIRouter):
        r = ASGIRouter()
        stack.add_handler(r)
      else: r = stack
      if kind == "http" and shortcuts and len(set(methods)) == 1: getattr(r, methods[0].lower())(source(pat))(h)
      elif kind == "http": r.add_http_route(h, source(pat), methods) if not shortcuts else r.http_route(source(pat), methods)(h)
      elif kind == "ws": r.websocket_route(source(pat))(h)
      else: r.transport_route(source(pat))(h)

async def final(me, log, ctx):
  log.append((me, ctx.path, dict(ctx.params), ctx.scope))
  if isinstance(ctx, HTTPContext): await ctx.respond_text(f"handled by {me}")
  else: await ctx.close(code=4000 + me)

def run_tree(case, ctx):
  nodes, _ = number(case["handlers"])
  log = []
  server = ASGIServer()
  build(nodes, server, log, case["shortcuts"])
  for typ, method, path in case["requests"]:
    log.clear()
    events = []
    async def receive(): return {"type": "http.request", "body": b"", "more_body": False} if typ == "http" else {"type": "websocket.connect"}
    async def send(e): events.append(e)
    extra = {"state": {"mine": [1]}} if case["state"] else {}
    scope = {"http": lambda: http_scope(method, path, **extra), "websocket": lambda: ws_scope(path, **extra), "lifespan": lambda: {"type": "lifespan", "asgi": {"version": "3.0"}, **extra}}[typ]()
    before = repr(scope)
    asyncio.run(server(scope, receive, send))
    what = f"{typ} {method or ''} {path!r}"
    if repr(scope) != before: raise Violation(f"{what}: the caller's scope was changed", key="scope")
    if typ == "lifespan":
      if events or log: raise Violation(f"a lifespan scope caused {events} {log}")
      continue
    # follow the request through the tree
    at, level, outcome, i = path, nodes, None, 0
    while True:
      r = expected(level, typ, method, at)
      if r is None: outcome = "none"; break
      if r[0] != "route":
        me, pat = r[0], None
        if i >= len(log) or log[i][0] != me: raise Violation(f"{what}: handler {me} should have been called with {at!r}, called: {[(l[0], l[1]) for l in log]}", key="called")
        if log[i][1] != at: raise Violation(f"{what}: handler {me} saw the path {log[i][1]!r} instead of {at!r}", key="path")
        i += 1; outcome = me; break
      _, (kind, pat, methods, rewrite, default, inner, me), at = r
      # any valid reading of the path may be bound; rewriting must be consistent with it
      readings = [dict(v) for v in all_readings(pat, at)]
      targets = []
      for b in readings:
        if rewrite is None: targets.append((b, at)); continue
        vals = [b.get(p[0], default) for p in rewrite if not isinstance(p, str)]
        ps = [p for p in rewrite if not isinstance(p, str)]
        if any(v is None or ("/" in v and not p[1]) for v, p in zip(vals, ps)): targets.append((b, None)); continue
        it = iter(vals)
        targets.append((b, "".join(p if isinstance(p, str) else next(it) for p in rewrite)))
      if i >= len(log):
        if any(t is None for _, t in targets): outcome = "error"; break
        raise Violation(f"{what}: route {me} ({source(pat)!r}) should have been called with {at!r}, called: {[(l[0], l[1]) for l in log]}", key="called")
      if log[i][0] != me: raise Violation(f"{what}: route {me} ({source(pat)!r}) should have been called with {at!r}, called: {[(l[0], l[1]) for l in log]}", key="called")
      if not any(log[i][2] == b and log[i][1] == t for b, t in targets): raise Violation(f"{what}: route {me} ({source(pat)!r}{' rewritten to ' + source(rewrite) if rewrite else ''}) got parameters {log[i][2]!r} and path {log[i][1]!r}; possible: {targets}", key="params")
      ctx.hit()
      at = log[i][1]
      if rewrite: ctx.label("rewritten")
      i += 1
      if inner is None: outcome = me; break
      ctx.label("nested")
      level = inner
    if i != len(log): raise Violation(f"{what}: handlers were called after the request was handled: {[(l[0], l[1]) for l in log]}", key="called")
    for l in log:
      if case["state"] and l[3].get("state", {}).get("mine") != [1]: raise Violation(f"{what}: the state of the scope was lost", key="state")
    ctx.label("outcome " + (outcome if isinstance(outcome, str) else "handled"))
    if typ == "http":
      r = Response(events)
      bad = r.well_formed()
      if bad: raise Violation(f"{what}: {bad}: {events}")
      want = {"none": 404, "error": 500}.get(outcome, 200)
      if r.status != want or (want == 200 and r.body != f"handled by {outcome}".encode()): raise Violation(f"{what}: answered {r.status} {r.body!r}, expected {want} ({outcome})", key="response")
    else:
      if len(events) != 1 or events[0]["type"] != "websocket.close": raise Violation(f"{what}: {events}", key="response")
      want = {"none": 1000, "error": 1011}.get(outcome, 4000 + outcome if isinstance(outcome, int) else None)
      if events[0]["code"] != want: raise Violation(f"{what}: closed with {events[0]['code']}, expected {want} ({outcome})", key="response")

def all_readings(pieces, path):
  def go(i, at, b):
    if i == len(pieces):
      if at == len(path): yield b
      return
    p = pieces[i]
    if isinstance(p, str):
      if path.startswith(p, at): yield from go(i + 1, at + len(p), b)
      return
    for end in range(at, len(path) + 1):
      v = path[at:end]
      if "/" in v and not p[1]: return
      yield from go(i + 1, end, {**b, p[0]: v} if p[0] else b)
  return list(go(0, 0, {}))

SUBS = [
  Sub("patterns", match_case, run_match, 6000, 200000, "patterns of up to 3 parameters and paths made from them, matching or nearly so; building paths with missing or unsuitable values; non-trivial: a pattern with parameters that matches"),
  Sub("syntax", syntax_cases, run_syntax, 800, 10000, "texts of braces and names; non-trivial: the text has a brace"),
  Sub("routers", tree_cases, run_tree, 2500, 60000, "trees of routers with routes of every kind, rewriting handlers and nested routers behind them; http, websocket and lifespan requests; non-trivial: a route handles the request"),
]
