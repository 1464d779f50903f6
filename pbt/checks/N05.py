from ..nethist import *
from ..core import Sub
from streamtasks.net import TopicRemappingLink

INNER = [1, 2, 3, 4, 5]

def case():
  ops = st.lists(st.one_of(
    st.tuples(st.just("c.prov"), st.integers(0, 4)), st.tuples(st.just("c.unprov"), st.integers(0, 4)),
    st.tuples(st.just("c.sub"), st.integers(0, 4)), st.tuples(st.just("c.sub"), st.integers(0, 4)), st.tuples(st.just("c.unsub"), st.integers(0, 4)),
    st.tuples(st.just("c.send"), st.integers(0, 4), st.integers(0, 9)), st.tuples(st.just("c.ctl"), st.integers(0, 4), st.booleans()),
    st.tuples(st.just("c.addr"), st.sampled_from([None, 50, 51])), st.tuples(st.just("c.msg"), st.sampled_from([1, 2, 60, 61]), st.integers(0, 3)),
    st.tuples(st.just("p.prov"), st.integers(0, 6), st.integers(0, 5)), st.tuples(st.just("p.unprov"), st.integers(0, 6)),
    st.tuples(st.just("p.sub"), st.integers(0, 6)), st.tuples(st.just("p.sub"), st.integers(0, 6)), st.tuples(st.just("p.unsub"), st.integers(0, 6)),
    st.tuples(st.just("p.send"), st.integers(0, 6), st.integers(0, 9)), st.tuples(st.just("p.ctl"), st.integers(0, 6), st.booleans()),
    st.tuples(st.just("p.msg"), st.sampled_from([50, 51]), st.integers(0, 3)), st.tuples(st.just("p.addr"), st.sampled_from([1, 2, 60])),
    st.tuples(st.sampled_from(["c.send", "p.send", "c.prov", "p.prov", "c.sub", "p.sub"]), st.integers(0, 4), st.integers(0, 9)),
    st.tuples(st.sampled_from(["c.send", "p.send", "c.prov", "p.prov", "c.sub", "p.sub"]), st.integers(0, 4), st.integers(0, 9)),
    st.tuples(st.just("wait"), st.sampled_from([0, 0.01, 2])),
  ).map(list), min_size=14, max_size=40)
  return st.fixed_dictionaries({
    # outer ids: unmapped ids, a permutation of the inner ids, or fresh ids
    "map": st.one_of(
      st.permutations(INNER).map(lambda p: [[a, b] for a, b in zip(INNER, p)]),
      st.lists(st.integers(0, 4), unique=True, max_size=5).map(lambda ks: [[INNER[k], 9000 + k] for k in ks]),
      st.just([[1, 2**40], [2, 2**63], [3, 0]]),
    ),
    "second": st.booleans(), "kind": st.sampled_from(["plain", "raw", "cost"]), "cost": st.sampled_from([1, 3]), "d1": delays(), "d2": delays(),
    "pkind": st.sampled_from(["plain", "raw", "cost"]), "ops": ops, "close": st.sampled_from([None, "outer", "inner", "switch"]),
  })

def outer_map(case): return {a: b for a, b in case["map"]}

async def play(case, remap):
  m = outer_map(case)
  f = lambda t: m.get(t, t)
  sw = Switch()
  a, b = make_link(case["kind"], case["cost"], case["d1"], case["d2"])
  await sw.add_link(a)
  inner = b
  if remap:
    if case["second"]:
      # the same mapping in two steps: inner -> unique intermediate -> outer
      step = {i: 700000 + n for n, i in enumerate(m)}
      b = TopicRemappingLink(TopicRemappingLink(b, {step[i]: o for i, o in m.items()}), step)
    else: b = TopicRemappingLink(b, m)
  c = Client(b)
  rec = Recorder(c)
  await rec.start_recv()
  c.start()
  peers = []
  for i in range(2):
    x, y = make_link(case["pkind"], 1)
    await sw.add_link(x)
    peers.append((y, LinkRecorder(y)))
  p = peers[0][0]
  g = (lambda t: t) if remap else f              # ids the program of the client uses
  outs = {}
  # ids the peers use: everything the client's ids map to, and two nobody maps
  world = [f(t) for t in INNER] + [777, 778]
  provided, psubs, seq = set(), set(), 0
  cprov, csub = set(), set()
  await settle()
  for op, *x in case["ops"]:
    if op == "wait": await asyncio.sleep(x[0]); continue
    if op == "c.addr": await c.set_address(x[0]); continue
    if op == "c.msg": seq += 1; await c.send_to((x[0], x[1]), RawData([seq])); continue
    if op == "p.addr": await p.send(AddressesChangedMessage({PricedId(x[0], 0)}, set())); continue
    if op == "p.msg": seq += 1; await p.send(AddressedMessage(x[0], x[1], RawData([seq]))); continue
    def pick(cands): return sorted(cands)[x[0] % len(cands)] if cands else None
    if op.startswith("c."):
      i = INNER[x[0]]
      if op in ("c.send", "c.ctl", "c.unprov"): i = pick(cprov)
      elif op == "c.unsub": i = pick(csub)
      elif op == "c.sub" and x[0] % 2: i = pick({i for i in INNER if f(i) in provided}) or i
      if i is None: continue
      t = g(i)
      if op in ("c.sub", "c.unsub"): await settle(20)   # a message in flight may or may not pass the client's filter
      if op == "c.prov":
        if i in cprov or i in csub or f(i) in provided: continue
        cprov.add(i)
        if t not in outs: outs[t] = c.out_topic(t); await outs[t].start()
        await outs[t].set_registered(True)
      elif op == "c.unprov" and i in cprov: cprov.discard(i); await outs[t].set_registered(False)
      elif op == "c.sub" and i not in csub and i not in cprov: csub.add(i); await c.register_in_topics([t])
      elif op == "c.unsub" and i in csub: csub.discard(i); await c.unregister_in_topics([t])
      elif op == "c.send" and i in cprov: seq += 1; await outs[t].send(RawData([seq, x[1]]))
      elif op == "c.ctl" and i in cprov: await outs[t].set_paused(x[1])
    else:
      t = world[x[0]]
      if op in ("p.send", "p.ctl", "p.unprov"): t = pick(provided)
      elif op == "p.unsub": t = pick(psubs)
      elif op == "p.sub" and x[0] % 2: t = pick({f(i) for i in cprov}) if cprov else t
      elif op == "p.prov" and x[0] % 2: t = pick({f(i) for i in csub} - provided) if {f(i) for i in csub} - provided else t
      if t is None: continue
      own = {f(i) for i in cprov}
      if op == "p.prov" and t not in own and t not in psubs: provided.add(t); await p.send(OutTopicsChangedMessage({PricedId(t, x[1])}, set()))
      elif op == "p.unprov" and t in provided: provided.discard(t); await p.send(OutTopicsChangedMessage(set(), {t}))
      elif op == "p.sub" and t not in psubs and t not in provided: psubs.add(t); await p.send(InTopicsChangedMessage({t}, set()))
      elif op == "p.unsub" and t in psubs: psubs.discard(t); await p.send(InTopicsChangedMessage(set(), {t}))
      elif op == "p.send" and t in provided: seq += 1; await p.send(TopicDataMessage(t, RawData([seq, x[1]])))
      elif op == "p.ctl" and t in provided: await p.send(TopicControlMessage(t, x[1]))
  await settle()
  requested = {f(i): outs[g(i)].is_requested for i in INNER if g(i) in outs}
  state = {"out": dict(b.out_topics) if not remap else None}
  closed = None
  if case["close"]:
    await settle()
    if case["close"] == "outer": b.close()
    elif case["close"] == "inner": inner.close()
    else: a.close()
    await settle()
    closed = (b.closed, inner.closed, a.closed)
  # messages as seen by the client, in outer ids
  def norm(msg, out):
    q = f if (remap and not out) else (lambda t: t)
    if isinstance(msg, TopicDataMessage): return ("data", q(msg.topic), msg.data.data)
    if isinstance(msg, TopicControlMessage): return ("ctl", q(msg.topic), msg.paused)
    if isinstance(msg, AddressedMessage): return ("msg", msg.address, msg.port, msg.data.data)
    if isinstance(msg, InTopicsChangedMessage): return ("in", sorted(q(t) for t in msg.add), sorted(q(t) for t in msg.remove))
    if isinstance(msg, OutTopicsChangedRecvMessage): return ("out", sorted((q(t.id), t.cost) for t in msg.add), sorted((q(t.id), t.cost) for t in msg.remove))
    if isinstance(msg, AddressesChangedRecvMessage): return ("addr", sorted((t.id, t.cost) for t in msg.add), sorted((t.id, t.cost) for t in msg.remove))
    return (type(msg).__name__,)
  return {"client": [norm(x, False) for x in rec.messages], "peer0": [norm(x, True) for x in peers[0][1].messages], "peer1": [norm(x, True) for x in peers[1][1].messages], "requested": requested, "closed": closed}

def run(case, ctx):
  got, want = {}, {}
  async def one(): got.update(await play(case, True))
  async def two(): want.update(await play(case, False))
  vrun(one); vrun(two)
  for k in ("client", "peer0", "peer1"):
    if got[k] != want[k]:
      i = next((i for i, (x, y) in enumerate(zip(got[k], want[k])) if x != y), min(len(got[k]), len(want[k])))
      raise Violation(f"{k} sees different messages from #{i}: with remapping {got[k][i:i+3]}, with the mapped ids {want[k][i:i+3]}")
  if got["requested"] != want["requested"]: raise Violation(f"requested topics: with remapping {got['requested']}, with the mapped ids {want['requested']}")
  if got["closed"] and case["close"] == "switch":
    if got["closed"] != want["closed"]: raise Violation(f"closing the far end left (outer, inner, far) closed = {got['closed']}, without remapping {want['closed']}")
  elif got["closed"] and (not got["closed"][0] or not got["closed"][1]): raise Violation(f"closing the {case['close']} link left (outer, inner) closed = {got['closed'][:2]}")
  if got["closed"] and case["close"] != "switch" and got["closed"][2] != want["closed"][2]: raise Violation(f"closing the {case['close']} link: far end closed {got['closed'][2]}, without remapping {want['closed'][2]}")
  m = outer_map(case)
  moved = {f for f in m if m[f] != f}
  n = sum(1 for x in got["client"] + got["peer0"] if x[0] in ("data", "ctl") and x[1] in {m[i] for i in moved})
  ctx.hit(n > 0); ctx.label("mapped traffic", 1 if n else 0)
  if case["close"]: ctx.label("close " + case["close"])

SUBS = [Sub("differential", case, run, 4000, 100000, "the same program run behind a remapping link and with the mapped ids on a direct link, everything every party sees compared; non-trivial: data or control on a mapped topic was delivered")]
