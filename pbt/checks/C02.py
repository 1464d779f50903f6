from ..gen import *
from ..core import Sub, Violation
from ..vloop import vrun
from ..simnet import SimNet, FakeWs, WsClosed
from streamtasks.connection import connect, create_server, RawStreamConnection
from streamtasks.client import Client
from streamtasks.net import Switch, ConnectionClosedError
from streamtasks.net.messages import TopicDataMessage
from streamtasks.net.serialization import RawData
from ..net import Recorder
from importlib.metadata import version
import asyncio, msgpack, struct

TECHNIQUE = "property-based testing (Hypothesis): generated histories of good, wrong and malformed connection attempts and disconnects on a simulated network against a counting model"
NOTE = "Random search with shrinking; sockets are simulated (asyncio streams on in-memory transports, an in-memory websocket)."

VER = ".".join(version("streamtasks").split(".")[:2])
URLS = {"tcp": "tcp://host:7000", "unix": "unix:///run/x.sock", "ws": "ws://host:7000"}
AUTHS = [None, "a", "ABC", "abc", "", "ABCD", "AB"]

def with_auth(url, auth): return url if auth is None else f"{url}?auth={auth}"

raw_hs = st.one_of(
  st.fixed_dictionaries({"version": st.sampled_from([VER, VER, VER, "0.0", "999.1", VER + ".1", VER + "0", VER + " ", "0" + VER, VER[:-1], VER.split(".")[0], "", float(VER), None, 1])}, optional={"auth": st.sampled_from([*AUTHS, "=", "=", "=", "=", "=", "=", 0, False, [], {}, "ABC\0", b"ABC"]), "accepted": st.booleans(), "x": st.integers(0, 3)}),
  st.dictionaries(st.sampled_from(["version", "auth"]), st.sampled_from([VER, "a"]), max_size=2),
)
VERSIONS = [VER, VER + "0", VER + ".1", VER[:-1], "0" + VER, VER + " ", VER.split(".")[0], "", "0.0", None]
near = st.one_of(   # right but for one thing
  st.sampled_from(VERSIONS).map(lambda v: {"version": v, "auth": "="}),
  st.sampled_from([*AUTHS, "abc ", "Abc", 0, b"a", ["a"]]).map(lambda a: {"version": VER, "auth": a}),
)
hello = st.one_of(
  st.tuples(st.just("hs"), near).map(list), st.tuples(st.just("hs"), near).map(list),
  st.tuples(st.just("hs"), raw_hs).map(list),
  st.tuples(st.just("hs"), st.one_of(st.lists(st.integers(0, 3), max_size=2), st.just(VER), st.integers(0, 5), st.none())).map(list),
  st.tuples(st.just("bytes"), st.one_of(st.binary(max_size=12), st.just(b"\xc1"), st.just(b"\xd9\xff"), st.just(b"\xa5\xff\xff\xff\xff\xff"))).map(list),
  st.tuples(st.just("silent"), st.just(0)).map(list),
  st.tuples(st.just("part"), st.integers(1, 12)).map(list),
)
def cases():
  op = st.one_of(
    st.tuples(st.just("try"), st.sampled_from(AUTHS + ["=", "=", "="])).map(list),
    st.tuples(st.just("try"), st.just("=")).map(list),
    st.tuples(st.just("raw"), hello, st.sampled_from([None, None, 0, 0.01, 5]), st.sampled_from([None, None, b"", b"\xc1\xc1", b"\x93"])).map(list),
    st.tuples(st.just("close"), st.integers(0, 5), st.sampled_from(["link", "abort", "half"])).map(list),
    st.tuples(st.just("wait"), st.sampled_from([0, 0.002, 1])).map(list),
  )
  return st.fixed_dictionaries({
    "transport": st.sampled_from(["tcp", "tcp", "unix", "ws"]),
    "auth": st.sampled_from(AUTHS[:3] + AUTHS[1:3]),
    "delays": st.lists(st.sampled_from([0, 0.001, 0.02, 0.3]), min_size=1, max_size=4),
    "ops": st.lists(op, min_size=2, max_size=10),
    "stop": st.booleans(),
  })

def run(case, ctx):
  async def main():
    url, auth = URLS[case["transport"]], case["auth"]
    ws = case["transport"] == "ws"
    net = SimNet(case["delays"])
    with net.active():
      server = create_server(with_auth(url, auth))
      mark = await server.create_client()
      mark.start()
      topic = mark.out_topic(77)
      await topic.start()
      await topic.set_registered(True)
      task = asyncio.create_task(server.run())
      await asyncio.sleep(0.1)
      if server.connection_count != 0: raise Violation("a new server reports connections")
      model = []                # open accepted connections
      pending = []

      async def attempt(a):
        a = auth if a == "=" else a
        good = (a or None) == (auth or None) if a == "" or auth == "" else a == auth
        try: link = await asyncio.wait_for(connect(with_auth(url, a)), 500)
        except asyncio.TimeoutError: raise Violation(f"connect with auth {a!r} never completes")
        except Exception as e:
          if good: raise Violation(f"an attempt with the right credentials {a!r} failed: {e!r}")
          ctx.label("rejected"); return
        if not good: raise Violation(f"an attempt with auth {a!r} was accepted by a server with auth {auth!r}")
        ctx.label("accepted")
        sw = Switch()
        tp = [p for p in net.pairs if p[2]]
        await sw.add_link(link)
        c = Client(await sw.add_local_connection())
        rec = Recorder(c)
        await rec.start_recv()
        c.start()
        await c.register_in_topics([77])
        model.append(dict(link=link, sw=sw, c=c, rec=rec))

      async def raw(h, close_after, garbage):
        kind, what = h
        if kind == "hs" and isinstance(what, dict) and what.get("auth") == "=":
          what = {k: v for k, v in what.items() if k != "auth"} if auth is None else {**what, "auth": auth}
        key = ("ws", "ws", "host", 7000) if ws else (("tcp", "host", 7000) if case["transport"] == "tcp" else ("unix", "/run/x.sock"))
        accept = kind == "hs" and isinstance(what, dict) and what.get("version") == VER and what.get("auth") == auth and type(what.get("auth")) is type(auth)
        data = msgpack.packb(what) if kind == "hs" else (bytes(what) if kind == "bytes" else b"")
        if kind == "part": data = msgpack.packb({"version": VER, "auth": auth})
        got = []
        if ws:
          s = await net.open_ws(key)
          if kind == "part": await s.send(data[:max(1, len(data) - what)])
          elif kind != "silent": await s.send(data)
          async def reader():
            try:
              while True: got.append(await s.recv())
            except WsClosed: got.append(None)
          closer = s.close
          async def send(b): await s.send(b)
          abort = None
        else:
          r, w = await net.open_stream(key)
          conn = RawStreamConnection(r, w)
          if kind == "part":
            w.write(b"\xb8\x23\xa0\x6f" + struct.pack("<L", len(data)) + data[:-min(what, len(data))])
          elif kind != "silent": await conn.send(data)
          async def reader():
            try:
              while True: got.append(await conn.recv())
            except ConnectionClosedError: got.append(None)
          async def closer(): w.close()
          send = conn.send
        t = asyncio.create_task(reader())
        entry = None
        if accept:
          entry = dict(raw=True, closer=closer, got=got)
          model.append(entry)
        if garbage is not None and accept:
          await asyncio.sleep(20)
          await send(garbage)
          ctx.label("garbage after acceptance")
          await asyncio.sleep(20)
          if entry in model: model.remove(entry)
        elif close_after is not None:
          await asyncio.sleep(close_after)
          await closer()
          if entry in model: model.remove(entry)
        # judged at the end of the phase
        rawlog.append(dict(h=h, accept=accept, got=got, closed=close_after is not None, kind=kind))
      rawlog = []

      async def settled(what):
        await asyncio.sleep(300)
        n = len(pending)
        for t in pending:
          if not t.done(): raise Violation(f"an attempt is still waiting after {what}")
          t.result()
        pending.clear()
        if server.connection_count != len(model): raise Violation(f"{len(model)} connections are open, the server reports {server.connection_count} (after {what})")
        for r in rawlog:
          frames = [g for g in r["got"] if g is not None]
          if not r["accept"]:
            if len(frames) > 1: raise Violation(f"a rejected attempt {r['h']!r} received more than the refusal: {frames!r}")
            for f in frames:
              try: d = msgpack.unpackb(f)
              except Exception: raise Violation(f"the refusal is malformed: {f!r}")
              if d.get("accepted"): raise Violation(f"attempt {r['h']!r} was accepted by a server with auth {auth!r}")
            if r["kind"] in ("hs", "bytes") and not r["closed"] and (not r["got"] or r["got"][-1] is not None) : raise Violation(f"the rejected attempt {r['h']!r} is kept open")
          elif not r["closed"] and not frames: raise Violation(f"the good attempt {r['h']!r} got no answer")
          elif frames and not msgpack.unpackb(frames[0]).get("accepted"): raise Violation(f"the good attempt {r['h']!r} was refused")
          ctx.label("raw accepted" if r["accept"] else "raw rejected")
        rawlog.clear()
        for m in model:
          if "link" in m:
            if m["link"].closed: raise Violation(f"an open connection was closed after {what}")
            k = len(m["rec"].messages)
            m["k"] = k
        await mark.send_stream_data(77, RawData(what))
        await asyncio.sleep(50)
        for m in model:
          if "link" in m:
            new = [x.data.data for x in m["rec"].messages[m["k"]:] if isinstance(x, TopicDataMessage)]
            if new != [what]: raise Violation(f"a connected client received {new!r} instead of one message (after {what})")

      tries = 0
      for op, *a in case["ops"]:
        ctx.trace(op, *a)
        if op == "wait": await asyncio.sleep(a[0]) if a[0] < 1 else await settled(f"wait {len(model)}")
        elif op == "try": pending.append(asyncio.create_task(attempt(a[0]))); tries += 1; await asyncio.sleep(0)
        elif op == "raw": pending.append(asyncio.create_task(raw(*a))); tries += 1; await asyncio.sleep(0)
        elif op == "close":
          await settled("before close")
          live = [m for m in model]
          if not live: continue
          m = live[a[0] % len(live)]
          model.remove(m)
          ctx.label("close")
          if "link" in m: m["link"].close()
          else: await m["closer"]()
          await settled("close")
      await settled("all")
      if tries > 1: ctx.hit()
      if case["stop"]:
        ctx.label("stop")
        task.cancel()
        done, _ = await asyncio.wait([task], timeout=300)
        if not done: raise Violation(f"the server does not stop while {len(model)} connections are open")
        await asyncio.sleep(300)
        if any(not p[1].closed for p in net.pairs): raise Violation("a connection stays open after its server was stopped")
        if server.connection_count != 0: raise Violation(f"a stopped server reports {server.connection_count} connections")
  vrun(main)

# ---------------------------------------------------------------- the client's side
reply = st.one_of(
  st.tuples(st.just("hs"), st.fixed_dictionaries({}, optional={"version": st.sampled_from([VER, VER, "0.0", None, 5]), "accepted": st.sampled_from([True, True, False, None, "yes", 0]), "auth": st.just("x")})).map(list),
  st.tuples(st.just("hs"), st.one_of(st.lists(st.integers(0, 2), max_size=2), st.none(), st.just("ok"), st.integers(0, 3))).map(list),
  st.tuples(st.just("bytes"), st.binary(max_size=8)).map(list),
  st.just(["eof", 0]), st.just(["rst", 0]),
)
def client_cases(): return st.fixed_dictionaries({"reply": reply, "transport": st.sampled_from(["tcp", "unix"]), "auth": st.sampled_from(AUTHS[:3])})
def run_client(case, ctx):
  kind, what = case["reply"]
  ok = kind == "hs" and isinstance(what, dict) and what.get("version") == VER and what.get("accepted") is True
  async def main():
    net = SimNet()
    with net.active():
      seen = []
      async def on_conn(r, w):
        conn = RawStreamConnection(r, w)
        try:
          seen.append(msgpack.unpackb(await conn.recv()))
          if kind == "eof": return w.close()
          if kind == "rst": return w.transport.abort()
          await conn.send(msgpack.packb(what) if kind == "hs" else what)
          await conn.recv()
        except ConnectionClosedError: seen.append("closed")
      key = ("tcp", "host", 7000) if case["transport"] == "tcp" else ("unix", "/run/x.sock")
      from ..simnet import Listener
      Listener(net, key, on_conn)
      link = None
      try: link = await asyncio.wait_for(connect(with_auth(URLS[case["transport"]], case["auth"])), 300)
      except asyncio.TimeoutError: raise Violation(f"connect never completes on reply {case['reply']!r}")
      except Exception: pass
      await asyncio.sleep(10)
      if (link is not None) != ok: raise Violation(f"reply {case['reply']!r}: connect {'succeeded' if link else 'failed'}")
      if seen[0].get("version") != VER or seen[0].get("auth") != case["auth"]: raise Violation(f"the client presented {seen[0]!r}")
      if not ok and kind in ("hs", "bytes") and "closed" not in seen: raise Violation(f"a failed attempt ({case['reply']!r}) keeps its socket open")
      ctx.hit(not ok); ctx.label("ok" if ok else "refused")
  vrun(main)

SUBS = [
  Sub("attempts", cases, run, quick=3000, thorough=20000, rule="A case is non-trivial with at least two attempts on one server."),
  Sub("client", client_cases, run_client, quick=300, thorough=5000, rule="A case is non-trivial if the server's answer must make the attempt fail."),
]
