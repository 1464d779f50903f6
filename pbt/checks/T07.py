from ..system import *
from ..core import Sub, Violation
from ..vloop import vrun
from streamtasks.system.fntask import fntask
import asyncio, dataclasses, json, threading
from typing import Annotated
from pydantic import BaseModel

TECHNIQUE = "property-based testing (Hypothesis): generated functions (signatures, bodies, configurations) run as tasks of a real task host, driven with generated message histories, against a model of the calls"
NOTE = "Random search with shrinking in virtual time; with slow (or threaded) unsynchronised functions and messages in quick succession, any merge of the inputs that keeps the order of each is accepted."

TYPES = {"int": int, "float": float, "str": str, "bytes": bytes}
NAMES = ["a", "b", "in_1", "value"]
CONFIG_FIELDS = {"rate": (int, 7), "scale": (float, 0.5), "flag": (bool, True), "text": (str, "x")}

def config_type(kind):
  if kind == "dataclass": return dataclasses.make_dataclass("Config", [(k, t, dataclasses.field(default=d)) for k, (t, d) in CONFIG_FIELDS.items()])
  return type("Config", (BaseModel,), {"__annotations__": {k: t for k, (t, d) in CONFIG_FIELDS.items()}, **{k: d for k, (t, d) in CONFIG_FIELDS.items()}})

class PlainState:
  count = 0
@dataclasses.dataclass
class DataState:
  count: int = 0
class StrictState:
  def __init__(self, count): self.count = count
@dataclasses.dataclass
class StrictConfig:
  rate: int
STATES = {"plain": PlainState, "data": DataState, "dict": dict}
def state_count(s):
  if isinstance(s, dict):
    s["count"] = s.get("count", 0) + 1
    return s["count"]
  s.count += 1
  return s.count

def io(): return st.fixed_dictionaries({"type": st.sampled_from(list(TYPES)), "meta": st.sampled_from([None, None, {}, {"content": "x", "rate": 3}]), "map": st.sampled_from([None, None, ["rate"], {"scale": "s", "text": "t"}])})
def signatures(min_inputs=1):
  return st.fixed_dictionaries({
    "inputs": st.lists(io(), min_size=min_inputs, max_size=3), "outputs": st.lists(io(), max_size=3), "single": st.booleans(),
    "timestamp": st.booleans(), "state": st.sampled_from([None, "plain", "data", "dict"]), "config": st.sampled_from([None, "dataclass", "model"]),
    "kind": st.sampled_from(["sync", "async", "async", "threads"]), "safe": st.booleans(), "kwonly": st.booleans(), "rotate": st.integers(0, 5), "none": st.booleans()})

def annotated(d, has_config, bare=None):
  t = TYPES[d["type"]]
  m = d["map"] if has_config else None
  if m is not None: return Annotated[t, d["meta"] or {}, m]
  if d["meta"] is not None: return Annotated[t, d["meta"]]
  return t

def build(sig, body, extra=()):
  """A function with this signature that passes its arguments to body(kwargs) and returns what that returns."""
  ns = {"body": body}
  params = []
  for i, d in enumerate(sig["inputs"]):
    ns[f"T{i}"] = annotated(d, sig["config"])
    params.append(f"{NAMES[i]}: T{i}")
  if sig["timestamp"]: params.append("timestamp: int")
  if sig["state"]:
    ns["S"] = STATES[sig["state"]]
    params.append("state: S")
  if sig["config"]:
    ns["C"] = config_type(sig["config"])
    params.append("config: C")
  r = sig["rotate"] % max(1, len(params))
  params = params[r:] + params[:r]
  names = [p.split(":")[0] for p in params]
  if sig["kwonly"] and params: params.insert(len(params) // 2, "*")
  outs = [annotated(d, sig["config"]) for d in sig["outputs"]]
  if not outs: ns["R"] = None
  elif len(outs) == 1 and sig["single"]: ns["R"] = outs[0]
  else: ns["R"] = tuple[tuple(outs)]
  ann = "" if not outs and sig["none"] else " -> R"
  kw = ", ".join(f"{n}={n}" for n in names)
  if sig["kind"] == "async": src = f"async def my_fn({', '.join(params)}){ann}: return await body(dict({kw}))"
  else: src = f"def my_fn({', '.join(params)}){ann}: return body(dict({kw}))"
  exec(src, ns)
  return ns["my_fn"]

# ------------------------------------------------ running
def cases():
  msg = st.tuples(st.integers(0, 2), st.integers(0, 3), st.sampled_from(["ok", "ok", "ok", "ok", "zero", "bad"])).map(list)
  return st.fixed_dictionaries({"sig": signatures(), "sync": st.sampled_from([None, True, False, False]), "hurry": st.booleans(), "slow": st.sampled_from([0, 0.5]),
    "config": st.dictionaries(st.sampled_from(list(CONFIG_FIELDS)), st.integers(0, 3), max_size=4), "twin": st.booleans(), "wrong": st.sampled_from([[], [], [0], [1], [0, 2]]), "boom": st.booleans(), "messages": st.lists(msg, min_size=2, max_size=14)})

def value(t, n):
  if n == 0: return {"int": 0, "float": 0.0, "str": "", "bytes": b""}[t]
  return {"int": n, "float": n + 0.25, "str": f"v{n} ", "bytes": b" b%d\0" % n}[t]
def config_value(k, n): return {"rate": n, "scale": n + 0.25, "flag": bool(n % 2), "text": f"c{n}"}[k]
def message(t, ts, v): return {"timestamp": ts, "data" if t == "bytes" else "value": v}

def run(case, ctx):
  sig = case["sig"]
  async def main():
    loop_thread, here, booms = threading.get_ident(), set(), []
    calls, results = {}, {}      # by instance: the numbers of the configurations tell them apart, or the order of the inputs
    def call(kw):
      who = next((who for who in kw_owner(kw)), None)
      here.add(threading.get_ident() == loop_thread)
      if booms and who == 0: raise ValueError("boom")
      calls.setdefault(who, []).append({**kw, **({"state": (kw["state"], state_count(kw["state"]))} if "state" in kw else {})})
      n = len(calls[who]) * 10 + 1000 * who
      res = tuple({} if i in case["wrong"] and len(calls[who]) % 3 == 2 else value(o["type"], n + i) for i, o in enumerate(sig["outputs"]))
      if {} in res: ctx.label("wrong result")
      results.setdefault(who, []).append(res)
      if not res: return None if n % 20 else "ignored"
      return res[0] if len(res) == 1 and sig["single"] else res
    def kw_owner(kw):
      """Inputs of the second instance have values above 10000."""
      if not case["twin"]: yield 0
      for i, d in enumerate(sig["inputs"]):
        v = kw[NAMES[i]]
        n = int(v) if d["type"] in ("int", "float") else int(v[1:]) if d["type"] == "str" else int(v[2:].strip(b"\0"))
        yield 1 if n >= 10000 else 0
    async def acall(kw):
      if case["slow"]: await asyncio.sleep(case["slow"])
      return call(kw)
    fn = build(sig, acall if sig["kind"] == "async" else call)
    task_fn = fntask(label="some Label", **({"thread_safe": True} if sig["kind"] == "threads" or sig["kind"] == "async" and sig["safe"] else {}))(fn)
    S = await System().start_system({"hops": [], "eps": [[{"kind": "raw", "d1": [0], "d2": [0]}, 0], [{"kind": "plain", "d1": [0], "d2": [0]}, 0]]}, 0)
    b = await S.switches[0].add_local_connection()
    asyncio.create_task(task_fn.run(b, register_endpoits=[NetworkAddressNames.TASK_MANAGER]))
    await settle(50)
    hosts = await asyncio.wait_for(S.tmc[0].list_task_hosts(), 1000)
    if len(hosts) != 1: raise Violation(f"{len(hosts)} task hosts are registered")
    meta = hosts[0].metadata
    inputs, outputs, keys = json.loads(meta["cfg:inputs"]), json.loads(meta["cfg:outputs"]), json.loads(meta["cfg:outputkeys"])
    default = json.loads(meta["cfg:config"])
    labels = [n.replace("_", " ") for n in NAMES[:len(sig["inputs"])]]      # in order of declaration they may be rotated
    if sorted(i.get("label") for i in inputs) != sorted(labels): raise Violation(f"the inputs {labels} are described as {inputs}")
    inputs.sort(key=lambda i: labels.index(i["label"]))
    def described(d, label):
      m = {"type": "ts", "label": label, **({} if d["type"] == "bytes" else {"content": "text" if d["type"] == "str" else "number"})}
      m.update((d["meta"] or {}) if d["meta"] is not None or (d["map"] is not None and sig["config"]) else {})
      if d["map"] is not None and sig["config"]:
        for k, to in ({x: x for x in d["map"]} if isinstance(d["map"], list) else d["map"]).items(): m[to] = CONFIG_FIELDS[k][1]
      return m
    if meta["cfg:label"] != "Some Label": raise Violation(f"the label is {meta['cfg:label']}")
    if [{k: v for k, v in i.items() if k != "key"} for i in inputs] != [described(d, NAMES[i].replace("_", " ")) for i, d in enumerate(sig["inputs"])]: raise Violation(f"inputs {sig['inputs']} are described as {inputs}")
    if outputs != [described(d, f"output {i}") for i, d in enumerate(sig["outputs"])]: raise Violation(f"outputs {sig['outputs']} are described as {outputs}")
    allkeys = [i["key"] for i in inputs] + keys
    if len(set(allkeys)) != len(allkeys) or None in allkeys: raise Violation(f"the keys {allkeys} are not distinct")
    if sig["config"]:
      if {k: default.get(k) for k in CONFIG_FIELDS} != {k: d for k, (t, d) in CONFIG_FIELDS.items()}: raise Violation(f"the default configuration is {default}")
      editor = json.loads(meta["cfg:editorfields"])
      got = {e["key"]: (e["type"], e.get("integer")) for e in editor}
      want_types = {k: ({int: "number", float: "number", bool: "boolean", str: "text"}[t], {int: True, float: False}.get(t)) for k, (t, d) in CONFIG_FIELDS.items()}
      if any(k in got and (got[k][0] != t or integer is not None and bool(got[k][1]) != integer) for k, (t, integer) in want_types.items()): raise Violation(f"the configuration {CONFIG_FIELDS} is edited as {got}")
      if not set(CONFIG_FIELDS) <= set(got): raise Violation(f"the editor has fields for {sorted(got)} only")
    # instances
    src = Client(await S.switches[0].add_local_connection())
    src.start()
    dst = S.clients[0]
    inst, got, recv = [], [[], []], []
    async def read(who, idx, topic):
      async with topic, topic.RegisterContext():
        while True: got[who].append((idx, (await topic.recv_data()).data))
    configs = []
    for who in range(2 if case["twin"] else 1):
      cfg = {k: config_value(k, n + who) for k, n in case["config"].items()} if sig["config"] else {}
      configs.append({k: cfg.get(k, d) for k, (t, d) in CONFIG_FIELDS.items()})
      full = {**default, **cfg, **({"std_synchronized": case["sync"]} if case["sync"] is not None else {})}
      for i, m in enumerate(inputs): full[m["key"]] = 300 + who * 20 + i
      for i, k in enumerate(keys): full[k] = 310 + who * 20 + i
      await src.register_out_topics([300 + who * 20 + i for i in range(len(inputs))])
      for i in range(len(keys)): asyncio.create_task(read(who, i, dst.in_topic(310 + who * 20 + i)))
      ti = await asyncio.wait_for(S.tmc[0].schedule_start_task(hosts[0].id, full), 1000)
      if ti.status is not TaskStatus.running: raise Violation(f"the task could not be started: {ti.error}")
      inst.append(ti)
    await settle(30)
    # messages: each instance gets the same history with other values
    sync = case["sync"] is not False
    ts, sent, allsent = 0, [[] for _ in inputs], []
    expected = []
    def ready():
      """Model: the messages handled so far, in order."""
      if not sync: return allsent
      last = {}
      for m in allsent: last[m[0]] = m[1]
      low = min(last.values())
      return [m for m in allsent if m[1] <= low]
    async def check(final):
      await settle(20)
      for who in range(len(inst)):
        verify(who, ready(), final)
    def verify(who, done, final):
      vals, want = {}, []
      for i, t, n in done:
        if n is None: continue
        vals[i] = value(sig["inputs"][i]["type"], n + 10000 * who)
        if len(vals) == len(inputs): want.append((dict(vals), t))
      mine = calls.get(who, [])
      shown = [tuple(c[NAMES[i]] for i in range(len(inputs))) for c in mine]
      if case["hurry"] and not sync and (sig["kind"] == "async" and case["slow"] or sig["kind"] == "threads"): stamps = merged(who, mine, shown, want)
      else:
        if shown != [tuple(v[i] for i in range(len(inputs))) for v, t in want]: raise Violation(f"called with {shown} instead of {want}")
        stamps = [t for _, t in want]
      for n, (c, t) in enumerate(zip(mine, stamps)):
        if sig["timestamp"] and c["timestamp"] != t: raise Violation(f"call {n} got the timestamp {c['timestamp']} instead of {t}")
        if sig["state"]:
          if type(c["state"][0]) is not STATES[sig["state"]] or c["state"][0] is not mine[0]["state"][0] or c["state"][1] != n + 1: raise Violation(f"call {n} of instance {who} got another state: {c['state']}")
        if sig["config"]:
          shown_config = {k: getattr(c["config"], k) for k in CONFIG_FIELDS}
          if shown_config != configs[who]: raise Violation(f"called with the configuration {shown_config} instead of {configs[who]}")
        if set(c) != {*NAMES[:len(inputs)], *(k for k in ("timestamp", "state", "config") if sig[k])}: raise Violation(f"called with {c}")
      if sig["state"] and len(inst) == 2 and calls.get(0) and calls.get(1) and calls[0][0]["state"][0] is calls[1][0]["state"][0]: raise Violation("two instances share a state")
      for i, o in enumerate(sig["outputs"]):
        out = [d for j, d in got[who] if j == i]
        want_out = [message(o["type"], t, r[i]) for r, t in zip(results.get(who, []), stamps) if r[i] != {}]
        if out != want_out: raise Violation(f"output {i} carried {out} instead of {want_out}")
      if len(want) > 1: ctx.hit()
    def merged(who, mine, shown, want):
      """Any merge of the inputs: from call to call, one input advances to its next message."""
      seqs = [[(value(sig["inputs"][i]["type"], n + 10000 * who), t) for j, t, n in allsent if j == i and n is not None] for i in range(len(inputs))]
      ptr, stamps = None, []
      for s in shown:
        now = []
        for i, v in enumerate(s):
          k = next((k for k, (w, _) in enumerate(seqs[i]) if w == v), None)
          if k is None: raise Violation(f"called with {v!r}, which was not sent")
          now.append(k)
        if ptr is None:
          if 0 not in now: raise Violation(f"the first call was made with {s}, although every input had a value before")
          moved = [i for i, k in enumerate(now) if k == 0]
        else:
          moved = [i for i in range(len(now)) if now[i] != ptr[i]]
          if len(moved) != 1 or now[moved[0]] != ptr[moved[0]] + 1: raise Violation(f"calls {shown}: not one new message per call")
        stamps.append([seqs[i][now[i]][1] for i in moved])
        ptr = now
      if all(seqs) and ptr != [len(s) - 1 for s in seqs]: raise Violation(f"after {seqs}, the last call was made with {ptr and shown[-1]}")
      # which input completed the first call shows in the timestamp
      if stamps and sig["timestamp"] and mine[0]["timestamp"] in stamps[0]: stamps[0] = [mine[0]["timestamp"]]
      elif stamps and sig["outputs"]:
        first = next((d for _, d in got[who]), None)
        if first is not None and first["timestamp"] in stamps[0]: stamps[0] = [first["timestamp"]]
      return [s[0] for s in stamps]
    for i, dt, kind in case["messages"]:
      i %= len(inputs)
      ts += 1 + dt
      n = None if kind == "bad" else 0 if kind == "zero" and not case["twin"] and not case["hurry"] else ts
      allsent.append((i, ts, n))
      ctx.trace("send", i, ts, kind)
      t = sig["inputs"][i]["type"]
      for who in range(len(inst)):
        if n is None: data = [{"timestamp": ts}, {"timestamp": ts, "value": None, "data": 5}, {"timestamp": ts, "value": {}, "data": []}][ts % 3]
        else: data = message(t, ts, value(t, n + 10000 * who))
        await src.send_stream_data(300 + who * 20 + i, RawData(data))
      if not case["hurry"]: await check(False)
    await check(True)
    for ti in inst:
      now = await asyncio.wait_for(S.tmc[0].get_task(ti.id), 1000)
      if now.status is not TaskStatus.running: raise Violation(f"the task ended: {now.error}")
    if here - {sig["kind"] != "threads"}: raise Violation(f"a function that is {'' if sig['kind'] == 'threads' else 'not '}thread safe was {'' if True in here else 'not '}called in the thread of the network")
    if not case["boom"]: return
    # the function fails: so does its task, and only this one
    booms.append(1)
    before = len(calls.get(1, []))
    async with S.tmc[0].task_receiver([ti.id for ti in inst]) as updates:
      for i, d in enumerate(sig["inputs"]):
        for who in range(len(inst)): await src.send_stream_data(300 + who * 20 + i, RawData(message(d["type"], ts + 1, value(d["type"], ts + 1 + 10000 * who))))
      try: ended = await asyncio.wait_for(updates.get(), 100)
      except asyncio.TimeoutError: raise Violation("the function raised an error, but its task did not end")
    if ended.id != inst[0].id or ended.status is not TaskStatus.failed or "boom" not in (ended.error or ""): raise Violation(f"the function raised an error, but the task {ended.id == inst[0].id} is {ended.status}: {ended.error}")
    await settle(20)
    if len(inst) == 2:
      now = await asyncio.wait_for(S.tmc[0].get_task(inst[1].id), 1000)
      if now.status is not TaskStatus.running or len(calls.get(1, [])) == before: raise Violation(f"the function raised an error in another task: {now}, {len(calls.get(1, [])) - before} calls")
    ctx.label("failed")
  with quiet(): vrun(main, threads=sig["kind"] == "threads")

# ------------------------------------------------ definition
BAD = {
  "unsupported input": "def f(a: list) -> int: pass", "no annotation": "def f(a) -> int: pass", "unsupported output": "def f(a: int) -> list: pass", "unsupported output in a tuple": "def f(a: int) -> tuple[int, dict]: pass",
  "timestamp of another type": "def f(a: int, timestamp: str) -> int: pass", "state with arguments": "def f(a: int, state: StrictState) -> int: pass", "config with arguments": "def f(a: int, config: StrictConfig) -> int: pass",
  "state with arguments next to a fine config": "def f(a: int, state: StrictState, config: DataState) -> int: pass", "variable arguments": "def f(a: int, *b: int) -> int: pass", "variable keyword arguments": "def f(a: int, **b: int) -> int: pass",
  "positional only": "def f(a: int, /, b: int) -> int: pass", "unknown config value": "def f(a: Annotated[int, {}, ['nothing']]) -> int: pass", "unknown config value with a config": "def f(a: Annotated[int, {}, ['nothing']], config: DataState) -> int: pass",
  "unknown config value of an output": "def f(a: int, config: DataState) -> Annotated[int, {}, {'nothing': 'x'}]: pass", "metadata that is none": "def f(a: Annotated[int, 5]) -> int: pass", "annotated unsupported type": "def f(a: Annotated[set, {}]) -> int: pass",
}
def define_cases(): return st.fixed_dictionaries({"bad": st.one_of(st.none(), st.sampled_from(list(BAD))), "sig": signatures(0), "async": st.booleans()})
def define(case, ctx):
  if case["bad"] is None:
    try:
      host = fntask()(build(case["sig"], lambda kw: None)).TaskHost()
      host.metadata
      f1, f2 = build(case["sig"], lambda kw: None), build(case["sig"], lambda kw: None)
      f2.__name__ = "other"
      same, others = fntask(label="x")(f1).TaskHost(), fntask(label="x")(f2).TaskHost()
    except Exception as e: raise Violation(f"a supported signature was refused: {case['sig']}: {e!r}")
    if same.id != host.id or others.id == host.id: raise Violation(f"two hosts of one function are {same.id} and {host.id}; of another {others.id}")
    ctx.hit(case["sig"]["timestamp"] or case["sig"]["state"] or case["sig"]["config"])
    return
  ns = {"Annotated": Annotated, "StrictState": StrictState, "StrictConfig": StrictConfig, "DataState": DataState}
  exec(("async " if case["async"] else "") + BAD[case["bad"]], ns)
  try: fntask()(ns["f"])
  except Exception: ctx.hit()
  else: raise Violation(f"{BAD[case['bad']]!r} was accepted")

SUBS = [
  Sub("calls", cases, run, quick=600, thorough=6000, rule="A case is non-trivial if the function had to be called at least twice."),
  Sub("definition", define_cases, define, quick=300, thorough=3000, rule="A case is non-trivial if the signature had special parameters or was invalid."),
]
