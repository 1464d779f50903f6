from ..gen import *
from ..core import Sub, Violation
from streamtasks.net import messages as M
from streamtasks.net.serialization import RawData, serialize_message, deserialize_message, to_raw_data
import copy, math

ids = st.one_of(st.integers(0, 10), st.integers(0, 2**64 - 1), st.sampled_from([2**32, 2**32 - 1, 2**31, 127, 128, 255, 256, 65535, 65536]))
costs = st.integers(0, 2**33)
priced = st.lists(st.tuples(ids, costs).map(list), max_size=6)
idset = st.lists(ids, max_size=6)
def topval(): return msgpack_value().filter(lambda v: v is not None and not isinstance(v, bytes))

def message():
  return st.one_of(
    st.fixed_dictionaries({"k": st.just("data"), "topic": ids, "v": topval()}),
    st.fixed_dictionaries({"k": st.just("ctl"), "topic": ids, "paused": st.booleans()}),
    st.fixed_dictionaries({"k": st.just("addr"), "address": ids, "port": ids, "v": topval()}),
    st.fixed_dictionaries({"k": st.sampled_from(["addrs", "outs"]), "add": priced, "remove": idset}),
    st.fixed_dictionaries({"k": st.just("ins"), "add": idset, "remove": idset}),
  )

def same(a, b):
  """Deep equality including types (lists and tuples are one MessagePack type)."""
  if isinstance(a, (list, tuple)): return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(a, dict): return isinstance(b, dict) and list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in a)
  if isinstance(a, (bytes, bytearray, memoryview)): return isinstance(b, (bytes, bytearray, memoryview)) and bytes(a) == bytes(b)
  if isinstance(a, float): return isinstance(b, float) and (a == b and math.copysign(1, a) == math.copysign(1, b))
  return type(a) is type(b) and a == b

def build(d):
  k = d["k"]
  if k == "data": return M.TopicDataMessage(d["topic"], RawData(copy.deepcopy(d["v"])))
  if k == "ctl": return M.TopicControlMessage(d["topic"], d["paused"])
  if k == "addr": return M.AddressedMessage(d["address"], d["port"], RawData(copy.deepcopy(d["v"])))
  if k == "addrs": return M.AddressesChangedMessage(set(M.PricedId(*p) for p in d["add"]), set(d["remove"]))
  if k == "outs": return M.OutTopicsChangedMessage(set(M.PricedId(*p) for p in d["add"]), set(d["remove"]))
  return M.InTopicsChangedMessage(set(d["add"]), set(d["remove"]))

def run_msgs(case, ctx):
  # several messages in a row: nothing may leak from one into the next
  for twice in (False, True):
    wires = [serialize_message(build(d)) for d in case]
    outs = [deserialize_message(w) for w in wires]
    if twice: outs = [deserialize_message(serialize_message(o)) for o in outs]
    for d, o in zip(case, outs):
      want = build(d)
      if type(o) is not type(want): raise Violation(f"{d} came back as {type(o).__name__}")
      k = d["k"]
      if k in ("data", "addr"):
        if not same(d["v"], o.data.data): raise Violation(f"content {d['v']!r} came back as {o.data.data!r}")
        if k == "data" and o.topic != d["topic"]: raise Violation(f"topic {d['topic']} -> {o.topic}")
        if k == "addr" and (o.address, o.port) != (d["address"], d["port"]): raise Violation(f"{d} -> {o.address},{o.port}")
        if not same(deserialize_message(serialize_message(o)).data.data, d["v"]): raise Violation("forwarding a received message changes it")
      elif k == "ctl":
        if (o.topic, o.paused) != (d["topic"], d["paused"]) or type(o.paused) is not bool: raise Violation(f"{d} -> {o}")
        td = o.to_data()
        if td.paused != d["paused"] or td.to_message(d["topic"]) != want: raise Violation("control data conversion changes the message")
      elif k in ("addrs", "outs"):
        if {(p.id, p.cost) for p in o.add} != {tuple(p) for p in d["add"]} or o.remove != set(d["remove"]): raise Violation(f"{d} -> {o}")
      else:
        if o.add != set(d["add"]) or o.remove != set(d["remove"]): raise Violation(f"{d} -> {o}")
      ctx.label(k)
      ctx.hit(bool(d.get("v") or d.get("add") or d.get("remove") or k == "ctl"))

# ------------------------------------------------ payload objects
def payload_case():
  step = st.one_of(
    st.tuples(st.sampled_from(["read", "ser", "copy", "reser", "scopy", "upd"])).map(list),
    st.tuples(st.just("set"), text(3), topval()).map(list),
    st.tuples(st.just("del"), st.integers(0, 5)).map(list),
  )
  return st.fixed_dictionaries({"v": st.dictionaries(text(3), msgpack_value(5), max_size=4), "from": st.sampled_from(["obj", "bytes", "memoryview", "bytearray"]), "steps": st.lists(st.tuples(st.integers(0, 3), step).map(list), max_size=14)})

def run_payload(case, ctx):
  def mk(v, how):
    if how == "obj": return RawData(copy.deepcopy(v))
    raw = bytes(RawData(copy.deepcopy(v)).serialize())
    return RawData({"bytes": bytes, "memoryview": memoryview, "bytearray": bytearray}[how](raw))
  objs = [mk(case["v"], case["from"])]
  model = [copy.deepcopy(case["v"])]
  for tgt, (op, *args) in case["steps"]:
    i = tgt % len(objs)
    o, m = objs[i], model[i]
    if op == "read":
      if not same(m, o.data): raise Violation(f"payload reads {o.data!r}, expected {m!r}")
    elif op == "ser":
      if not same(m, RawData(bytes(o.serialize())).data): raise Violation(f"payload serialises to {RawData(bytes(o.serialize())).data!r}, expected {m!r}")
    elif op == "reser":
      if bytes(o.serialize()) != bytes(o.serialize()): raise Violation("serialising twice differs")
      objs[i] = RawData(memoryview(bytes(o.serialize())))
    elif op == "copy" and len(objs) < 4:
      objs.append(o.copy()); model.append(copy.deepcopy(m)); ctx.hit()
    elif op == "scopy" and len(objs) < 4:
      objs.append(o.shallow_copy()); model.append(copy.deepcopy(m)); ctx.hit()
    elif op == "set":
      # the documented way to change a payload: change .data and call update()
      o.data[args[0]] = copy.deepcopy(args[1]); o.update(); m[args[0]] = args[1]; ctx.hit()
    elif op == "upd":
      o.update()     # nothing was changed
      ctx.label("idle update")
    elif op == "del" and len(m) > 0:
      k = list(m)[args[0] % len(m)]
      del o.data[k]; o.update(); del m[k]; ctx.hit()
  for o, m in zip(objs, model):
    if not same(m, o.data): raise Violation(f"payload reads {o.data!r}, expected {m!r}")
    if not same(m, RawData(bytes(o.serialize())).data): raise Violation(f"payload serialises to {RawData(bytes(o.serialize())).data!r}, expected {m!r}")

def run_value(v, ctx):
  a = RawData(copy.deepcopy(v))
  b = RawData(memoryview(a.serialize()))
  c = b.copy()
  for x in (a, b, c, to_raw_data(copy.deepcopy(v)), to_raw_data(a)):
    if not same(v, x.data): raise Violation(f"{v!r} reads back as {x.data!r}")
  if bytes(a.serialize()) != bytes(c.serialize()): raise Violation("a copy serialises differently")
  ctx.hit(isinstance(v, (list, dict)) and len(v) > 0)

SUBS = [
  Sub("messages", lambda: st.lists(message(), min_size=1, max_size=4), run_msgs, 3000, 120000, "random messages of all six kinds, 1-4 in a row, serialised and read back (also forwarded once more); non-trivial: carries content, ids or a pause state"),
  Sub("payload", payload_case, run_payload, 3000, 120000, "operation sequences on payload objects against a plain dict model; non-trivial: copies or mutates"),
  Sub("values", topval, run_value, 3000, 120000, "nested MessagePack values through payload objects; non-trivial: non-empty container"),
]
