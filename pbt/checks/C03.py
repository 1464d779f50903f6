from ..gen import *
from ..core import Sub, Violation
from ..vloop import vrun
from ..net import Recorder
from ..simnet import SimNet, Listener, WsListener
from streamtasks.connection import AutoReconnector, connect, create_server, RawStreamConnection, RawWebsocketConnection
from streamtasks.client import Client
from streamtasks.net import ConnectionClosedError, Switch, create_queue_connection
from streamtasks.net.messages import TopicDataMessage, AddressedMessage
from streamtasks.net.serialization import RawData
from importlib.metadata import version
import asyncio, functools, msgpack, socket, websockets

TECHNIQUE = "property-based testing (Hypothesis): generated fault sequences (failed attempts, lost connections, server restarts) against an up/down model on a simulated network in virtual time"
NOTE = "Random search with shrinking; sockets are simulated; failed attempts are OS, connection, handshake and websocket errors."

VER = ".".join(version("streamtasks").split(".")[:2])
URLS = {"tcp": "tcp://host:7000", "unix": "unix:///run/x.sock", "ws": "ws://host:7000"}
ERRS = {
  "refused": lambda: ConnectionRefusedError("refused"), "reset": lambda: ConnectionResetError("reset"), "nofile": lambda: FileNotFoundError(2, "no socket"),
  "dns": lambda: socket.gaierror(-2, "unknown host"), "timeout": lambda: TimeoutError("timed out"), "unreach": lambda: OSError(113, "no route"), "closed": lambda: ConnectionClosedError(),
  "ws": lambda: websockets.exceptions.InvalidMessage("bad"),
}
def bad_listener(kind):
  def make(net, key):
    async def serve(conn, close, abort):
      if kind == "drop": return close()
      if kind == "rst": return abort()
      await conn.recv()
      if kind == "drop2": return close()
      await conn.send(msgpack.packb({"version": VER if kind == "reject" else "0.0", "accepted": kind != "reject"}))
      await asyncio.sleep(1)
      close()
    async def stream(r, w):
      try: await serve(RawStreamConnection(r, w), w.close, w.transport.abort)
      except ConnectionClosedError: w.close()
    async def ws(s):
      close = lambda: asyncio.create_task(s.close())
      try: await serve(RawWebsocketConnection(s), close, close)
      except ConnectionClosedError: pass
    return WsListener(net, key, ws, False) if key[0] == "ws" else Listener(net, key, stream, False)
  return make

fail = st.sampled_from([*ERRS, "drop", "rst", "drop2", "reject", "version"])
def cases():
  op = st.one_of(
    st.tuples(st.just("lose"), st.sampled_from(["cclose", "cabort", "sclose", "sabort", "part", "link"]), st.lists(fail, max_size=4)).map(list),
    st.tuples(st.just("down"), st.sampled_from([0.2, 3, 17]), st.lists(fail, max_size=2)).map(list),
    st.tuples(st.just("send"), st.integers(0, 3)).map(list),
    st.tuples(st.just("sub"), st.booleans()).map(list),
  )
  return st.fixed_dictionaries({
    "transport": st.sampled_from(["tcp", "unix", "ws"]), "delay": st.sampled_from([None, 0.5, 1, 5, 30]),
    "delays": st.lists(st.sampled_from([0, 0.001, 0.02]), min_size=1, max_size=3),
    "first": st.lists(fail, max_size=4), "ops": st.lists(op, min_size=1, max_size=6), "early": st.booleans(),
  })

def run(case, ctx):
  async def main():
    loop = asyncio.get_running_loop()
    ws = case["transport"] == "ws"
    net = SimNet(case["delays"])
    delay = 1 if case["delay"] is None else case["delay"]
    with net.active():
      url = URLS[case["transport"]]
      def failures(names): return [ERRS[n]() if n in ERRS else bad_listener(n) for n in names if ws or n != "ws"]
      server = stask = None
      core = []                       # clients on the server's side, kept over restarts of the server on one switch
      from streamtasks.net import Switch
      hub = Switch()
      async def up():
        nonlocal server, stask
        server = create_server(url)
        await hub.add_link(await server.create_link())
        stask = asyncio.create_task(server.run())
        await asyncio.sleep(0)
      async def down():
        nonlocal stask
        stask.cancel()
        await asyncio.wait([stask], timeout=200)
        if not stask.done(): raise Violation("the server does not stop")
      rec = AutoReconnector(functools.partial(connect, url)) if case["delay"] is None else AutoReconnector(functools.partial(connect, url), delay)
      async def client(sw_link, out, addr):
        c = Client(sw_link)
        c.start()
        r = Recorder(c)
        await r.start_recv()
        o = c.out_topic(out)
        await o.start()
        await o.set_registered(True)
        await c.set_address(addr)
        return c, r
      net.refuse = failures(case["first"])
      nfirst = len(net.refuse)
      await up()
      if rec.connected: raise Violation("reported as connected before running")
      t0 = loop.time()
      rtask = asyncio.create_task(rec.run())
      if not case["early"]: await asyncio.sleep(3)
      near, nrec = await client(await rec.create_link(), 11, 901)
      far, frec = await client(await hub.add_local_connection(), 22, 902)
      await near.register_in_topics([22])
      await far.register_in_topics([11])
      subs = {True: True, False: True}
      serial = 0

      def judge_dials(n0, t_from, what):
        """Attempts since index n0: each one comes one delay after the failure before it."""
        times = net.dial_times[n0:]
        prev = t_from
        for i, t in enumerate(times):
          gap = t - prev
          # an attempt takes up to a handshake (1 s for a rejecting stand-in)
          if gap < delay - 1e-6 and not (i == 0 and t_from is None): raise Violation(f"an attempt came {gap:.3f} s after the one before although the delay is {delay} s ({what})")
          if gap > delay + 1.6: raise Violation(f"an attempt came only {gap:.3f} s after the one before, the delay is {delay} s ({what})")
          prev = t

      async def check(what):
        nonlocal serial
        if rtask.done(): raise Violation(f"the reconnector ended after {what}: {rtask.exception() if not rtask.cancelled() else 'cancelled'!r}")
        if not rec.connected: raise Violation(f"not connected again after {what}")
        if server.connection_count != 1: raise Violation(f"connected, but the server has {server.connection_count} connections after {what}")
        alive = [p for p in net.pairs if not (p[0].closed or p[1].closed)]
        if len(alive) != 1: raise Violation(f"{len(alive)} transports are open after {what}")
        marks = {id(r): len(r.messages) for r in (nrec, frec)}
        serial += 1
        await near.send_stream_data(11, RawData(["n", serial]))
        await far.send_stream_data(22, RawData(["f", serial]))
        await near.send_to((902, 5), RawData(["na", serial]))
        await far.send_to((901, 6), RawData(["fa", serial]))
        await asyncio.sleep(2)
        for r, sub, d, a, who in ((nrec, subs[True], "f", "fa", "near"), (frec, subs[False], "n", "na", "far")):
          got = [m.data.data for m in r.messages[marks[id(r)]:] if isinstance(m, (TopicDataMessage, AddressedMessage))]
          want = ([[d, serial]] if sub else []) + [[a, serial]]
          if sorted(got) != sorted(want): raise Violation(f"the {who} side received {got} instead of {want} after {what}")

      await asyncio.sleep((nfirst + 1) * (delay + 1.6) + 5)
      if len(net.dial_times) != nfirst + 1: raise Violation(f"{len(net.dial_times)} attempts were made instead of {nfirst} failing and one good one")
      judge_dials(1, net.dial_times[0], "the start")
      await check("the start")
      for op, *a in case["ops"]:
        ctx.trace(op, *a)
        if op == "send": await check("nothing")
        elif op == "sub":
          c, topic = (near, 22) if a[0] else (far, 11)
          if subs[a[0]]: await c.unregister_in_topics([topic])
          else: await c.register_in_topics([topic])
          subs[a[0]] = not subs[a[0]]
          await asyncio.sleep(1)
        elif op == "lose":
          kind, fails = a
          net.refuse = failures(fails)
          nf = len(net.refuse)
          n0, t_l = len(net.dial_times), loop.time()
          ca, sb, _ = next(p for p in net.pairs if not (p[0].closed or p[1].closed))
          if ws:
            await (ca if kind[0] == "c" else sb).close()
          elif kind == "cclose": ca.close()
          elif kind == "cabort": ca.abort()
          elif kind == "sabort": sb.abort()
          elif kind == "part":
            sb.write(b"\xb8\x23\xa0\x6f\x50\0\0\0abc")
            sb.close()
          else: sb.close()
          await asyncio.sleep(0.3)
          if rec.connected: raise Violation(f"still reported as connected after the connection was lost ({kind})")
          ctx.label("lost"); ctx.hit()
          await asyncio.sleep((nf + 1) * (delay + 1.6) + 3)
          if len(net.dial_times) != n0 + nf + 1: raise Violation(f"{len(net.dial_times) - n0} attempts were made after a loss instead of {nf} failing and one good one")
          judge_dials(n0, t_l, f"losing the connection ({kind})")
          await check(f"losing the connection ({kind}) and {nf} failed attempts")
        elif op == "down":
          dur, fails = a
          n0, t_l = len(net.dial_times), loop.time()
          await down()
          await asyncio.sleep(0.2)
          if rec.connected: raise Violation("still reported as connected after the server went down")
          await asyncio.sleep(dur)
          net.refuse = failures(fails)
          nf = len(net.refuse)
          await up()
          ctx.label("server restart"); ctx.hit()
          await asyncio.sleep((nf + 2) * (delay + 1.6) + 3)
          judge_dials(n0, t_l, "a server restart")
          await check(f"a server restart after {dur} s")
      rtask.cancel()
      await asyncio.wait([rtask], timeout=100)
      await down()
  vrun(main)

# ---------------------------------------------------------------- any kind of link
def link_cases(): return st.fixed_dictionaries({
  "attempts": st.lists(st.one_of(st.sampled_from(["refused", "reset", "timeout", "closed"]), st.just("dead"),
    st.tuples(st.just("lost"), st.sampled_from([0, 1, 2, 3, 5, 8]), st.sampled_from([0, 0, 0.001, 0.4, 30])).map(list)), max_size=6),
  "raw": st.booleans(), "delay": st.sampled_from([0.5, 1, 7]), "provide": st.booleans(), "near": st.booleans()})
def run_link(case, ctx):
  async def main():
    loop = asyncio.get_running_loop()
    hub, script, starts, live = Switch(), list(case["attempts"]), [], []
    async def lose(end, steps, after):
      if after: await asyncio.sleep(after)
      for _ in range(steps): await asyncio.sleep(0)
      end.close()
      live.remove(end)
      ctx.label("lost")
    async def dial():
      starts.append(loop.time())
      a = script.pop(0) if script else None
      if isinstance(a, str) and a != "dead": raise ERRS[a]()
      ours, theirs = create_queue_connection(case["raw"])
      if a == "dead":
        theirs.close()
        return ours
      await hub.add_link(theirs)
      live.append(theirs)
      if a is not None: lost.append(asyncio.create_task(lose(theirs, a[1], a[2])))
      return ours
    lost = []
    rec = AutoReconnector(dial, case["delay"])
    near, far = Client(await rec.create_link()), Client(await hub.add_local_connection())
    near.start(); far.start()
    got = Recorder(far)
    await got.start_recv()
    await far.register_in_topics([5])
    if case["provide"]: await near.register_out_topics([5])
    if case["near"]: await near.register_in_topics([6])
    task = asyncio.create_task(rec.run())
    n = len(case["attempts"])
    await asyncio.sleep((n + 1) * (case["delay"] + 0.5) + 31 * n + 5)
    if len(starts) != n + 1: raise Violation(f"{len(starts)} attempts instead of {n + 1}, reported as {'connected' if rec.connected else 'not connected'}")
    if not rec.connected: raise Violation("not connected in the end")
    if len(live) != 1: raise Violation(f"{len(live)} links are up")
    if not case["provide"]: await near.register_out_topics([5])
    await asyncio.sleep(1)
    await near.send_stream_data(5, RawData({"n": 1}))
    await asyncio.sleep(1)
    if [m.data.data for m in got.messages if isinstance(m, TopicDataMessage)] != [{"n": 1}]: raise Violation("no traffic in the end")
    live[0].close()
    await asyncio.sleep(0.1)
    if rec.connected: raise Violation("reported as connected although the link is closed")
    ctx.hit(n > 0)
    task.cancel()
    await asyncio.wait([task], timeout=100)
  vrun(main)

SUBS = [Sub("faults", cases, run, quick=900, thorough=20000, rule="A case is non-trivial if an established connection was lost at least once."),
  Sub("links", link_cases, run_link, quick=600, thorough=10000, rule="links of any kind that fail, are closed already or are lost within a few steps; non-trivial: at least one such attempt.")]
