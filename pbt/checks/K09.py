from ..taskrig import *
from ..system import *
from ..core import Sub
from streamtasks.system.named_topic_manager import NamedTopicManager
from streamtasks.system.tasks.namedinput import NamedInputConfig, NamedInputTaskHost
from streamtasks.system.tasks.namedoutput import NamedOutputConfig, NamedOutputTaskHost
from pydantic import ValidationError
import os, shutil, tempfile
NamedInputTask = hosted(NamedInputTaskHost)
NamedOutputTask = hosted(NamedOutputTaskHost)

TECHNIQUE = "property-based testing (Hypothesis): generated networks of named inputs and outputs that start and stop at any time, with generated data and pause histories, against a model of the streams"
NOTE = "Random search with shrinking in virtual time; one named output per name at a time; what is sent while an output or input is only just starting or stopping is not judged."

NAMES = ["a", "b", "A", "a b", "", "ä/x"]
def contents(): return st.one_of(st.fixed_dictionaries({"timestamp": st.integers(0, 10**12)}, optional={"value": msgpack_value(3), "data": st.binary(max_size=5)}), msgpack_value(3).filter(lambda v: v is not None and not isinstance(v, (bytes, bytearray, memoryview))))
def cases():
  hop = st.fixed_dictionaries({"kind": st.sampled_from(["plain", "raw", "cost"]), "d1": delays(2), "d2": delays(2)})
  o, i = st.integers(0, 2), st.integers(0, 3)
  item = st.one_of(st.tuples(o, st.just("d"), contents()), st.tuples(o, st.just("d"), contents()), st.tuples(o, st.just("p"), st.booleans())).map(list)
  op = st.one_of(st.tuples(st.just("burst"), st.lists(item, min_size=1, max_size=6)), st.tuples(st.just("burst"), st.lists(item, min_size=1, max_size=6)), st.tuples(st.just("burst"), st.lists(item, min_size=1, max_size=6)),
    st.tuples(st.just("in"), i), st.tuples(st.just("in"), i), st.tuples(st.just("out"), o)).map(list)
  return st.fixed_dictionaries({"hops": st.lists(hop, max_size=2), "names": st.lists(st.sampled_from(NAMES), min_size=3, max_size=3, unique=True),
    "outs": st.lists(st.tuples(hop, st.integers(0, 2)).map(list), min_size=3, max_size=3), "ins": st.lists(st.tuples(hop, st.integers(0, 2), st.sampled_from([0, 0, 1, 2])).map(list), min_size=4, max_size=4),
    "first": st.lists(st.booleans(), min_size=7, max_size=7), "ops": st.lists(op, min_size=2, max_size=12)})

def run(case, ctx):
  base = tempfile.mkdtemp(prefix="k09-")
  old = os.environ["DATA_DIR"]
  os.environ["DATA_DIR"] = base
  try: vrun(lambda: main(case, ctx))
  finally:
    os.environ["DATA_DIR"] = old
    shutil.rmtree(base)

async def main(case, ctx):
  S = await System().start_system({"hops": case["hops"], "eps": [[{"kind": "plain", "d1": [0], "d2": [0]}, 0]]}, 0, tm=False)
  await S.attach(NamedTopicManager([]), 0)
  await settle(5)
  client = S.clients[0]
  rec = Recorder(client)
  await rec.start_recv()
  INS, OUTS = [3000 + i for i in range(3)], [4000 + i for i in range(4)]
  await client.register_out_topics(INS)
  await settle(20)
  meta = [{"content": "x", "n": i} for i in range(3)]
  running = {}                              # ("out" / "in", index) -> task
  sent = {t: False for t in INS}            # pause state of each stream
  seen = 0
  async def start(kind, i):
    hop, sw = case[kind + "s"][i][:2]
    a, b = make_link(hop["kind"], 2, hop["d1"], hop["d2"])
    await S.switches[sw % len(S.switches)].add_link(a)
    await settle(20)
    c = b
    c.calm = 20
    if kind == "out": task = await NamedOutputTask(c, NamedOutputConfig(name=case["names"][i], metadata=meta[i], in_topic=INS[i]))
    else:
      OUTS[i] += 10                         # a topic that never had another source
      state[OUTS[i]] = False
      await client.register_in_topics([OUTS[i]])
      task = await NamedInputTask(c, NamedInputConfig(name=case["names"][case["ins"][i][2]], out_topic=OUTS[i]))
    await task.setup()
    running[kind, i] = asyncio.create_task(task.run())
    await settle(60)
    check()
  async def stop(kind, i):
    t = running.pop((kind, i))
    t.cancel()
    await asyncio.wait([t], timeout=100)
    if not t.done(): raise Violation(f"named {kind}put {i} does not stop when cancelled")
    await settle(30)
  def check():
    for (kind, i), t in running.items():
      if t.done(): raise Violation(f"named {kind}put {i} ended: {type(t.exception()).__name__}: {str(t.exception())[:300]}", key=f"ended {kind}")
  def events():
    nonlocal seen
    ms = rec.messages[seen:]
    seen = len(rec.messages)
    out = {t: [] for t in OUTS}
    for m in ms:
      if isinstance(m, (TopicControlMessage, TopicDataMessage)):
        if m.topic not in out: raise Violation(f"something arrived on topic {m.topic}")
        out[m.topic].append(("p", m.paused) if isinstance(m, TopicControlMessage) else ("d", m.data.data))
    return out
  state = {t: False for t in OUTS}          # what the receivers of each named input's output were told about pausing
  def note(ev):
    for t, es in ev.items():
      for k, v in es:
        if k == "p": state[t] = v
        elif state[t]: raise Violation(f"data {v!r} came while the output was paused")
  def stream(i): return case["ins"][i][2]
  def connected(i): return ("in", i) in running and ("out", stream(i)) in running
  async def verify(what):
    for i in range(4):
      if connected(i) and state[OUTS[i]] != sent[INS[stream(i)]]: raise Violation(f"{what}: named input {i} is {'' if state[OUTS[i]] else 'not '}paused, its named output's input is {'' if sent[INS[stream(i)]] else 'not '}")
    check()
  async def settled_note(what, nodata=True):
    ev = events()
    note(ev)
    if nodata and any(k == "d" for es in ev.values() for k, _ in es): raise Violation(f"{what} made data come out: {ev}")
    await verify(what)
  order = [("out", i) for i in range(3)] + [("in", i) for i in range(4)]
  for (kind, i), on in zip(order, case["first"]):
    if on or kind == "out" and i == 0 or kind == "in" and i == 0: await start(kind, i)
  await settled_note("starting")
  n, total = 0, 0
  for op in case["ops"]:
    if op[0] in ("in", "out"):
      key = (op[0], op[1])
      await (stop(*key) if key in running else start(*key))
      await settled_note(f"{'starting' if key in running else 'stopping'} named {op[0]}put {op[1]}")
      if key in running and op[0] == "out":
        got = await asyncio.wait_for(client.fetch(NetworkAddressNames.NAMED_TOPIC_MANAGER, "get_named_topic", {"name": case["names"][op[1]]}), 1000)
        if got["metadata"] != meta[op[1]]: raise Violation(f"the named output's metadata are listed as {got}")
      continue
    want = {t: [] for t in OUTS}
    for o, k, v in op[1]:
      if k == "d":
        if sent[INS[o]]: continue
        await client.send_stream_data(INS[o], RawData(v))
      else:
        await client.send_stream_control(INS[o], TopicControlData(paused=v))
      for i in range(4):
        if stream(i) == o and connected(i):
          if k == "d" or v != sent[INS[o]]: want[OUTS[i]].append((k, v))
      if k == "p": sent[INS[o]] = v
    await settle(30)
    got = events()
    for i in range(4):
      t = OUTS[i]
      if not same(got[t], want[t]) and not (("in", i) in running and not connected(i) and not any(k == "d" for k, _ in got[t])): raise Violation(f"named input {i} ({case['names'][stream(i)]!r}, {'connected' if connected(i) else 'not connected'}): {got[t]}, expected {want[t]}; sent {op[1]}")
      total += sum(k == "d" for k, _ in want[t])
      n = max(n, sum(bool(want[t]) for t in OUTS))
    note(got)
    await verify("after sending")
  if n >= 2 and total >= 2: ctx.hit()

def name_cases(): return st.fixed_dictionaries({"name": st.one_of(st.sampled_from(NAMES + ["named topic", "Named topic", "named topic "]), st.text(max_size=8))})
def run_name(case, ctx):
  for make in (lambda: NamedInputConfig(name=case["name"], out_topic=1), lambda: NamedOutputConfig(name=case["name"], in_topic=1, metadata={})):
    try:
      if make().name != case["name"]: raise Violation(f"{case['name']!r} became {make().name!r}")
      ok = True
    except ValidationError: ok = False
    if ok != (case["name"] != "named topic"): raise Violation(f"the name {case['name']!r} is {'accepted' if ok else 'refused'}")
  ctx.hit()

SUBS = [
  Sub("streams", cases, run, quick=300, thorough=6000, rule="data reached at least two named inputs in one burst"),
  Sub("names", name_cases, run_name, quick=100, thorough=1000, rule="always"),
]
