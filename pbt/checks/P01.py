from ..simple import *
from ..core import Sub, Violation
from ..vloop import vrun, vnow
from streamtasks.client.fetch import *
from streamtasks.client.receiver import Receiver
from streamtasks.net.messages import AddressedMessage
from streamtasks.services.constants import NetworkPorts
from pydantic import BaseModel
import asyncio

TECHNIQUE = "property-based testing (Hypothesis): generated mixes of concurrent, failing, cancelled and malformed requests on random networks against a per-request oracle"
NOTE = "Random search with shrinking in virtual time; handlers are harness code whose outcome is part of the generated request."

class Model(BaseModel):
  x: int

KINDS = ["value", "value", "value", "none", "raise", "raise_after", "validation", "validation_after", "error", "not_found", "bad_request", "general", "base", "kill"]
def cases():
  ep = st.integers(0, 3)
  req = st.fixed_dictionaries({
    "from": ep, "to": st.integers(0, 5), "route": st.sampled_from(["a", "a", "b"]), "kind": st.sampled_from(KINDS), "v": msgpack_value(4), "d": st.sampled_from([0, 0, 0.001, 0.3, 2]),
    "start": st.sampled_from([0, 0, 0, 0.01, 1, 5]), "cancel": st.sampled_from([None] * 6 + [0, 0.01, 0.5]),
  })
  junk = st.fixed_dictionaries({"junk": st.one_of(st.just(b"\xc0"), st.text(max_size=3), st.lists(st.integers(0, 2), max_size=2), st.fixed_dictionaries({}, optional={"return_address": st.one_of(st.integers(0, 5), st.text(max_size=1)), "return_port": st.integers(0, 9), "descriptor": st.one_of(st.just("a"), st.just("nope"), st.integers(0, 3)), "body": st.integers(0, 3)}), st.sampled_from([b"\xc1", b"\x92\x01", b"\xd9\x05ab"])),
    "from": ep, "to": st.integers(0, 5), "start": st.sampled_from([0, 0.01, 1])})
  unknown = st.fixed_dictionaries({"unknown": st.sampled_from(["nope", "", "A", "a "]), "from": ep, "to": st.integers(0, 5), "start": st.sampled_from([0, 0.01])})
  return st.fixed_dictionaries({"net": net_strategy(), "servers": st.lists(st.tuples(ep, st.sampled_from([0, 0, 77, 78])).map(list), min_size=1, max_size=3),
    "reqs": st.lists(st.one_of(req, req, req, req, junk, unknown), min_size=4, max_size=12)})

def expected(r, n):
  """(is_error, body or status code, text that must be carried)"""
  k = r["kind"]
  if k in ("value", "raise_after", "validation_after"): return (False, {"n": n, "v": r["v"]}, None)
  if k == "none": return (False, None, None)
  if k in ("raise", "base"): return (True, FetchErrorStatusCode.GENERAL, f"failure {n}")
  if k == "validation": return (True, FetchErrorStatusCode.BAD_REQUEST, "validation error")
  if k == "error": return (True, None, ["custom", n])
  if k == "kill": return (True, FetchErrorStatusCode.GENERAL, "")
  return (True, FetchErrorStatusCode(k), f"message {n}")

class Odd(BaseException): pass

class Answers(Receiver):
  """Everything addressed to a client, other than requests to its servers."""
  def __init__(self, client):
    super().__init__(client)
    self.seen = []
  def on_message(self, message):
    if isinstance(message, AddressedMessage) and isinstance(message.data.data, dict) and "error" in message.data.data: self.seen.append((message.port, message.data.data))

def run(case, ctx):
  async def main():
    net = await Net().start(case["net"])
    reqs = list(case["reqs"])
    cs = net.clients
    calls = {}
    servers = {}
    spies = [Answers(c) for c in cs]
    for spy in spies: await spy.start_recv()
    for e, port in case["servers"]:
      e %= len(cs)
      key = (e, port)
      if key in servers: continue
      server = FetchServer(cs[e]) if port == 0 else FetchServer(cs[e], port)
      for route in ("a", "b"):
        def make(route, key):
          @server.route(route)
          async def handler(req):
            n, r = req.body["n"], reqs[req.body["n"]]
            calls.setdefault(n, []).append((key, route))
            if r["d"]: await asyncio.sleep(r["d"])
            k = r["kind"]
            if k in ("value", "raise_after", "validation_after"): await req.respond({"n": n, "v": req.body["v"]})
            if k in ("raise", "raise_after"): raise ValueError(f"failure {n}")
            if k == "base": raise Odd(f"failure {n}")
            if k in ("validation", "validation_after"): Model.model_validate({"x": "no"})
            if k == "error": await req.respond_error(["custom", n])
            if k == "kill": raise KeyError()
            if k == "not_found": await req.respond_error(new_fetch_body_not_found(f"message {n}"))
            if k == "bad_request": await req.respond_error(new_fetch_body_bad_request(f"message {n}"))
            if k == "general": await req.respond_error(new_fetch_body_general_error(f"message {n}"))
        make(route, key)
      servers[key] = (server, asyncio.create_task(server.run()))
    await settle()
    keys = list(servers)
    def target(i):
      e, port = keys[i % len(keys)]
      return 1000 + e, (port or NetworkPorts.FETCH)
    async def one(n, r):
      await asyncio.sleep(r["start"])
      c = cs[r["from"] % len(cs)]
      ep = target(r["to"])
      if "junk" in r:
        await c.send_to(ep, RawData(r["junk"])); return "junk"
      if "unknown" in r:
        try: return ("answer", await asyncio.wait_for(c.fetch(ep, r["unknown"], {"n": n}), 100))
        except asyncio.TimeoutError: return "silence"
        except FetchError as e: return ("answer", e)
      try: return (False, await c.fetch(ep if ep[1] != NetworkPorts.FETCH else ep[0], r["route"], {"n": n, "v": r["v"]}))
      except FetchError as e: return (True, e)
    tasks = []
    for n, r in enumerate(case["reqs"]):
      t = asyncio.create_task(one(n, r))
      tasks.append(t)
      if r.get("cancel") is not None: asyncio.get_running_loop().call_later(r["start"] + r["cancel"], t.cancel)
    await asyncio.sleep(300)
    live = 0
    for n, (r, t) in enumerate(zip(case["reqs"], tasks)):
      if not t.done(): raise Violation(f"request {n} {r} is never answered")
      if t.cancelled(): ctx.label("cancelled"); continue
      if t.exception() is not None: raise t.exception()
      res = t.result()
      if res == "junk": ctx.label("junk"); continue
      if "unknown" in r:
        if isinstance(res, tuple) and not isinstance(res[1], FetchError): raise Violation(f"a request for an unknown procedure succeeded: {res}")
        ctx.label("unknown"); continue
      live += 1
      ctx.label(r["kind"])
      is_err, body, text = expected(r, n)
      if res[0] != is_err: raise Violation(f"request {n} {r} ended with {res!r}")
      if not is_err:
        if res[1] != body: raise Violation(f"request {n} returned {res[1]!r} instead of {body!r}")
      else:
        e = res[1]
        if r["kind"] == "error":
          if list(e.body) != text: raise Violation(f"request {n} failed with {e.body!r} instead of {text!r}")
        else:
          if e.status_code != body: raise Violation(f"request {n} failed with status {e.status_code} instead of {body}")
          if text not in str(e.body[1]): raise Violation(f"the error of request {n} carries {e.body!r} instead of {text!r}")
      want = [(keys[r["to"] % len(keys)], r["route"])]
      if calls.get(n) != want: raise Violation(f"request {n} was handled by {calls.get(n)} instead of {want}")
    for key, (s, t) in servers.items():
      if t.done(): raise Violation(f"the server {key} ended: {t.exception()!r}")
    # one answer each, also on the wire
    for i, spy in enumerate(spies):
      per = {}
      for port, d in spy.seen:
        if port in per: raise Violation(f"client {i} was sent two answers to one request: {per[port]} and {d}")
        per[port] = d
    # every server still works
    for i, key in enumerate(keys):
      c = cs[(key[0] + 1) % len(cs)]
      reqs.append({"kind": "value", "d": 0, "v": 1})
      n = len(reqs) - 1
      try: got = await asyncio.wait_for(c.fetch(target(i), "a", {"n": n, "v": 5}), 300)
      except (asyncio.TimeoutError, FetchError) as e: raise Violation(f"afterwards server {key} does not answer any more: {e!r}")
      if got != {"n": n, "v": 5}: raise Violation(f"afterwards server {key} answers {got!r}")
    ctx.hit(live > 1)
  vrun(main)

SUBS = [Sub("requests", cases, run, quick=3000, thorough=60000, rule="A case is non-trivial if at least two requests were judged.")]
