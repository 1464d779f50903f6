from ..gen import *
from ..core import Sub, Violation
from ..vloop import vrun
from ..net import LinkRecorder
from ..simnet import SimNet, Listener, WsListener
from streamtasks.connection import connect, create_server, RawStreamConnection, RawWebsocketConnection
from streamtasks.net import ConnectionClosedError
from streamtasks.net.utils import endpoint_to_str, str_to_endpoint
from streamtasks.net.messages import OutTopicsChangedMessage, OutTopicsChangedRecvMessage, PricedId
from streamtasks.net.serialization import serialize_message
from importlib.metadata import version
import asyncio, msgpack, os
from urllib.parse import urlencode

TECHNIQUE = "property-based testing (Hypothesis): URLs composed from generated parts, the dialled/bound targets, handshakes and costs compared with the parts"
NOTE = "Random search with shrinking; targets are observed at asyncio's and websockets' connect/serve functions; the default costs are those of the pinned commit (documented only in code)."

VER = ".".join(version("streamtasks").split(".")[:2])
DEFAULT = {"ws": 150, "wss": 150, "tcp": 100, "unix": 50, "node": 25}
HOSTS = ["localhost", "a", "my-host.example", "127.0.0.1", "10.0.0.7", "[::1]", "[fe80::1:2]", "h_1"]
word = st.text("abcXYZ019-_.~", min_size=1, max_size=6)
val = st.one_of(word, st.text("aZ0 &=?#/+%:@é", min_size=1, max_size=5))
def params():
  return st.fixed_dictionaries({}, optional={"auth": val, "cost": st.one_of(st.integers(1, 500), st.sampled_from([1, 24, 25, 26, 10**6])), "x": val, "y2": val})
def url_case():
  return st.fixed_dictionaries({
    "scheme": st.sampled_from(["tcp", "tcp", "ws", "wss", "unix", "unix", "node"]),
    "host": st.sampled_from(HOSTS), "port": st.sampled_from([1, 80, 443, 8080, 9002, 65535]),
    "path": st.lists(word, min_size=1, max_size=3).map(lambda p: "/" + "/".join(p)),
    "node": st.text("abc019-", min_size=1, max_size=5).filter(lambda s: s[0].isalnum() and s[-1].isalnum()),
    "user": st.one_of(st.none(), st.none(), word), "pass": st.one_of(st.none(), word),
    "params": params(), "badcost": st.sampled_from([None, None, None, "", "x", "-3", "1.5", "2,3", "dup"]), "first": st.booleans(),
  })

def build(c):
  s = c["scheme"]
  ui = ""
  if c["user"] is not None: ui = c["user"] + (":" + c["pass"] if c["pass"] is not None else "") + "@"
  if s in ("tcp", "ws", "wss"): base = f"{s}://{ui}{c['host']}:{c['port']}"
  elif s == "unix": base, ui = f"unix://{c['path']}", ""
  else: base = f"node://{ui}{c['node']}"
  q = list(c["params"].items())
  if not c["first"]: q.reverse()
  if c["badcost"] is not None and "cost" not in c["params"]:
    q += [("cost", 3), ("cost", 4)] if c["badcost"] == "dup" else [("cost", c["badcost"])]
  url = base + ("?" + urlencode(q) if q else "")
  key = {"tcp": ("tcp", c["host"].strip("[]").lower(), c["port"]), "unix": ("unix", c["path"]), "ws": ("ws", "ws", c["host"].strip("[]"), c["port"]), "wss": ("ws", "wss", c["host"].strip("[]"), c["port"])}.get(s)
  hs = {k: str(v) for k, v in c["params"].items() if k != "cost"}
  if ui: hs["username"] = c["user"]
  if ui and c["pass"] is not None: hs["password"] = c["pass"]
  return url, key, hs, c["params"].get("cost", DEFAULT[s])

async def accept_and_announce(net, key, seen, cls=Listener):
  """A hand-made server: records the handshake, accepts, and announces topic 5 at cost 0."""
  async def serve(conn):
    seen.append(msgpack.unpackb(await conn.recv()))
    await conn.send(msgpack.packb({"version": VER, "accepted": True}))
    await conn.send(serialize_message(OutTopicsChangedMessage({PricedId(5, 0)}, set())))
    try: await conn.recv()
    except ConnectionClosedError: pass
  if key[0] == "ws": WsListener(net, key, lambda s: serve(RawWebsocketConnection(s)))
  else: Listener(net, key, lambda r, w: serve(RawStreamConnection(r, w)))

async def dial(net, url):
  """Returns (dialled target, link or None)."""
  n = len(net.dials)
  link = None
  try: link = await asyncio.wait_for(connect(url), 100)
  except (OSError, ConnectionError): pass
  if len(net.dials) != n + 1: raise Violation(f"connect({url!r}) dialled {net.dials[n:]!r}")
  return net.dials[n], link

def norm(key): return (key[0], str(key[1]).lower(), key[2]) if key[0] == "tcp" else tuple(x.lower() if isinstance(x, str) else x for x in key) if key[0] == "ws" else key

def run_client(case, ctx):
  url, key, hs, cost = build(case)
  ctx.trace(url)
  async def main():
    net = SimNet()
    with net.active():
      if key is None: target, _ = await dial(net, url)
      else: target = key
      seen = []
      await accept_and_announce(net, target, seen)
      try: got, link = await dial(net, url)
      except Violation: raise
      except Exception as e: raise Violation(f"connect({url!r}) failed: {e!r}")
      if norm(got) != norm(target): raise Violation(f"connect({url!r}) dialled {got!r} instead of {target!r}")
      if link is None: raise Violation(f"connect({url!r}) failed")
      for k, v in hs.items():
        if seen[0].get(k) != v: raise Violation(f"{url!r}: handshake has {k}={seen[0].get(k)!r} instead of {v!r}")
      extra = set(seen[0]) - set(hs) - {"version", "cost"}
      if extra: raise Violation(f"{url!r}: handshake has unwritten fields {extra}")
      m = await asyncio.wait_for(link.recv(), 100)
      if not isinstance(m, OutTopicsChangedRecvMessage) or {(p.id, p.cost) for p in m.add} != {(5, cost)}: raise Violation(f"{url!r}: a topic of cost 0 is seen at {m!r} instead of {cost}")
      link.close()
      ctx.hit(); ctx.label(case["scheme"])
      if "cost" in case["params"]: ctx.label("cost")
      if case["user"]: ctx.label("user")
  vrun(main)

def run_server(case, ctx):
  c = dict(case["url"])
  if c["scheme"] == "wss": c["scheme"] = "ws"
  url, key, hs, cost = build(c)
  peer = dict(c, params={k: v for k, v in c["params"].items() if k != "cost"}, badcost=None)
  if case["auth"] == "drop": peer["params"].pop("auth", None)
  elif case["auth"] == "other": peer["params"]["auth"] = c["params"].get("auth", "") + "1"
  elif case["auth"] == "case": peer["params"]["auth"] = c["params"].get("auth", "q").swapcase()
  if case["pcost"]: peer["params"]["cost"] = case["pcost"]
  purl, _, _, pcost = build(peer)
  ok = peer["params"].get("auth") == c["params"].get("auth")
  ctx.trace(url, purl)
  async def main():
    net = SimNet()
    with net.active():
      server = create_server(url)
      rec = LinkRecorder(await server.create_link())
      task = asyncio.create_task(server.run())
      await asyncio.sleep(1)
      if len(net.bound) != 1: raise Violation(f"create_server({url!r}) bound {net.bound!r}")
      bound = net.bound[0]
      if key is not None:
        want = ("ws", key[2], key[3]) if key[0] == "ws" else key
        if norm(bound) != norm(want): raise Violation(f"create_server({url!r}) bound {bound!r} instead of {want!r}")
      link = None
      try: link = await asyncio.wait_for(connect(purl), 100)
      except Exception as e:
        if ok: raise Violation(f"{purl!r} does not connect to the server of {url!r}: {e!r}")
      if link is not None and not ok: raise Violation(f"{purl!r} connects to the server of {url!r}")
      ctx.hit(); ctx.label("agree" if ok else "disagree")
      if link:
        await link.send(OutTopicsChangedMessage({PricedId(5, 2)}, set()))
        await asyncio.sleep(10)
        got = {(p.id, p.cost) for m in rec.messages if isinstance(m, OutTopicsChangedRecvMessage) for p in m.add}
        if got != {(5, 2 + cost + 1)}: raise Violation(f"server {url!r}: a topic announced at cost 2 is seen at {got} instead of {2 + cost + 1}")
        link.close()
        await asyncio.sleep(10)
      task.cancel()
      await asyncio.wait([task], timeout=100)
  vrun(main)
def server_cases(): return st.fixed_dictionaries({"url": url_case(), "auth": st.sampled_from(["same", "same", "drop", "other", "case"]), "pcost": st.sampled_from([0, 0, 7])})

name = st.one_of(st.text("abcXYZ09-_. ", min_size=1, max_size=6), st.sampled_from(["localhost", "my-node", "a.b.c", "node", "tcp"]))
def name_cases(): return st.fixed_dictionaries({"a": name, "b": name, "env": st.text("abcXY-9", min_size=1, max_size=5), "scheme": st.sampled_from(["http", "https", "udp", "ftp", "file", "tcps", "unixx", "wsss", "nodes", "TCPX", "x"])})
def run_names(case, ctx):
  async def main():
    net = SimNet()
    with net.active():
      ta, _ = await dial(net, case["a"])
      tb, _ = await dial(net, case["b"])
      if (ta == tb) != (case["a"] == case["b"]): raise Violation(f"names {case['a']!r} and {case['b']!r} lead to {ta!r} and {tb!r}")
      if ta[0] != "unix": raise Violation(f"the name {case['a']!r} leads to {ta!r}")
      server = create_server(case["a"])
      rec = LinkRecorder(await server.create_link())
      task = asyncio.create_task(server.run())
      await asyncio.sleep(1)
      if net.bound != [ta]: raise Violation(f"the server named {case['a']!r} listens on {net.bound!r}, clients dial {ta!r}")
      link = await asyncio.wait_for(connect(case["a"]), 100)
      await link.send(OutTopicsChangedMessage({PricedId(5, 2)}, set()))
      await asyncio.sleep(10)
      got = {(p.id, p.cost) for m in rec.messages if isinstance(m, OutTopicsChangedRecvMessage) for p in m.add}
      if got != {(5, 2 + 25 + 1)}: raise Violation(f"a node link has another cost: {got}")
      link.close()
      if case["a"] == case["a"].lower() and all(ch.isalnum() or ch == "-" for ch in case["a"]) and case["a"][0].isalnum():
        tn, _ = await dial(net, "node://" + case["a"])
        if tn != ta: raise Violation(f"node://{case['a']} leads to {tn!r}, the name itself to {ta!r}")
        ctx.label("node url")
      old = os.environ.get("NODE_NAME")
      os.environ["NODE_NAME"] = case["env"]
      try:
        t0, _ = await dial(net, None)
        t1, _ = await dial(net, case["env"])
        t2, _ = await dial(net, "node://")
      finally: os.environ["NODE_NAME"] = old
      if not (t0 == t1 == t2): raise Violation(f"without a name {t0!r} is dialled, the node is at {t1!r}, node:// leads to {t2!r}")
      n = len(net.dials)
      for f in (connect, create_server):
        for u in (f"{case['scheme']}://host:1", f"{case['scheme']}:///path"):
          try:
            r = f(u)
            if f is connect: await asyncio.wait_for(r, 100)
          except ValueError: pass
          except Exception as e: raise Violation(f"{u!r} fails with {e!r}")
          else: raise Violation(f"{u!r} is not refused")
      if len(net.dials) != n: raise Violation("a refused URL was dialled")
      task.cancel()
      await asyncio.wait([task], timeout=100)
      ctx.hit()
  vrun(main)

def endpoint_cases():
  name = st.one_of(st.text(max_size=8), st.from_regex(r"[0-9a-zA-Z_./@: -]{0,8}", fullmatch=True), st.sampled_from(["task_manager", "a b", "x:1", "1x", "é", "#", "name\n"]))
  return st.fixed_dictionaries({"address": st.one_of(st.integers(0, 2**40), name, name), "port": st.integers(0, 2**32), "junk": st.one_of(st.text(":0a -", max_size=6), st.text(max_size=6))})
def run_endpoints(c, ctx):
  ep = (c["address"], c["port"])
  name = c["address"] if isinstance(c["address"], str) else None
  bad = name is not None and (":" in name or name[:1].isdecimal() and name[:1].isascii())
  try: text = endpoint_to_str(ep)
  except ValueError:
    if not bad: raise Violation(f"the endpoint {ep!r} cannot be written")
    ctx.label("refused")
  else:
    if bad: raise Violation(f"the endpoint {ep!r} is written as {text!r}, which cannot be told from another")
    got = str_to_endpoint(text)
    if tuple(got) != ep or type(got[0]) is not type(ep[0]): raise Violation(f"the endpoint {ep!r} is written as {text!r} and read as {got!r}")
  ctx.hit()
  junk = c["junk"]
  try: got = str_to_endpoint(junk)
  except ValueError: return
  address, _, port = junk.partition(":")
  if junk.count(":") != 1 or str(got[0]) != address and not (address[:1].isdecimal() and got[0] == int(address)) or got[1] != int(port): raise Violation(f"{junk!r} was read as the endpoint {got!r}")

SUBS = [
  Sub("client", url_case, run_client, quick=2500, thorough=60000, rule="Every connected URL counts."),
  Sub("server", server_cases, run_server, quick=1500, thorough=40000, rule="Every pair of server and client URL counts."),
  Sub("names", name_cases, run_names, quick=800, thorough=20000, rule="Every pair of names counts."),
  Sub("endpoints", endpoint_cases, run_endpoints, quick=800, thorough=20000, rule="Every endpoint counts."),
]
