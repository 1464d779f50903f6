from ..gen import *
from ..core import Sub, Violation
from streamtasks.net.serialization import RawData
from streamtasks.pydanticdb import PydanticDB
from streamtasks.rawdatabuffer import RawDataBuffer
from pydantic import BaseModel
from typing import Any, Literal
import math, os, resource, shutil, tempfile

TECHNIQUE = "property-based testing (Hypothesis): stateful histories of store and buffer operations against a list model"
NOTE = "Random search with shrinking against real files in a scratch directory; floats are finite (JSON has no others)."

# ------------------------------------------------------------------ buffer
def buffer_cases():
  value = st.one_of(msgpack_value(6), st.integers(0, 3).map(lambda n: {"timestamp": n}), st.binary(min_size=1, max_size=6), st.sampled_from([1100, 70000, 300000])).filter(lambda v: v is not None)
  i = st.integers(-6, 6)
  op = st.one_of(st.tuples(st.just("append"), value), st.tuples(st.just("append"), value), st.tuples(st.just("append"), value), st.tuples(st.just("raw"), value), st.tuples(st.just("pop")), st.tuples(st.just("popleft")),
    st.tuples(st.just("popi"), i), st.tuples(st.just("get"), i), st.tuples(st.just("set"), i, value), st.tuples(st.just("del"), i), st.tuples(st.just("iter")), st.tuples(st.just("clear")), st.tuples(st.just("mutate"), i)).map(list)
  return st.fixed_dictionaries({"ops": st.lists(op, min_size=8, max_size=30)})

def message(v, raw=False):
  if type(v) is int and v in (1100, 70000, 300000): v = {"data": bytes(v), "timestamp": v}
  # bytes handed to RawData are an already serialized message
  d = RawData(v) if not isinstance(v, bytes) else RawData({"b": v})
  return RawData(bytes(d.serialize())) if raw else d

def run_buffer(case, ctx):
  folder = tempfile.mkdtemp(prefix="t05-")
  old, tempfile.tempdir = tempfile.tempdir, folder
  try:
    m, b, other = None, RawDataBuffer(), RawDataBuffer()
    other.append(RawData("other"))
    model = []
    def same(x, y): return x == y and type(x) is type(y) and repr(x) == repr(y)
    for op, *a in case["ops"]:
      ctx.trace(op, *a)
      if op in ("append", "raw"):
        m = message(a[0], op == "raw")
        want = message(a[0]).serialize()
        b.append(m)
        model.append(RawData(bytes(want)).data)
        continue
      want = got = None
      try:
        if op == "pop": want = ("ok", model.pop())
        elif op == "popleft": want = ("ok", model.pop(0))
        elif op == "popi": want = ("ok", model.pop(a[0]))
        elif op in ("get", "mutate"): want = ("ok", model[a[0]])
        elif op == "set": model[a[0]] = RawData(bytes(message(a[1]).serialize())).data; want = ("ok", None)
        elif op == "del": del model[a[0]]; want = ("ok", None)
        elif op == "iter": want = ("ok", list(model))
        elif op == "clear": model.clear(); want = ("ok", None)
      except IndexError: want = ("IndexError",); ctx.label("out of range")
      try:
        if op == "pop": got = ("ok", b.pop().data)
        elif op == "popleft": got = ("ok", b.popleft().data)
        elif op == "popi": got = ("ok", b.pop(a[0]).data)
        elif op == "get": got = ("ok", b[a[0]].data)
        elif op == "mutate":
          m = b[a[0]]
          got = ("ok", RawData(bytes(m.serialize())).data)
          if isinstance(m.data, dict): m.data["changed"] = 1; m.update(); ctx.label("changed a loaded message")
        elif op == "set": b[a[0]] = message(a[1]); got = ("ok", None)
        elif op == "del": del b[a[0]]; got = ("ok", None)
        elif op == "iter": got = ("ok", [m.data for m in b])
        elif op == "clear": b.clear(); got = ("ok", None); ctx.label("clear")
      except IndexError: got = ("IndexError",)
      if not same(got, want): raise Violation(f"{op} {a}: {got!r:.300} instead of {want!r:.300}")
      if len(b) != len(model): raise Violation(f"after {op}: {len(b)} messages instead of {len(model)}")
      ctx.hit(len(model) >= 2)
    if not same([m.data for m in b], model): raise Violation(f"at the end: {[m.data for m in b]!r:.300} instead of {model!r:.300}")
    if [m.data for m in other] != ["other"]: raise Violation("another buffer has changed")
    b = other = m = None
    left = os.listdir(folder)
    if left: raise Violation(f"files left behind by buffers that are gone: {left}")
    shutil.rmtree(folder)            # after a failure, the files may still be in use
  finally:
    b = other = m = None
    tempfile.tempdir = old

# ------------------------------------------------------------------ store of models
class Inner(BaseModel):
  name: str
  items: list[int] = []
class Entry(BaseModel):
  id: int
  kind: Literal["a", "b"] = "a"
  inner: Inner | None = None
  extra: dict[str, Any] = {}
  number: float = 0.0

def store_cases():
  text = st.text(alphabet=st.characters(exclude_categories=["Cs"]), max_size=5)
  jv = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-2**70, 2**70), st.floats(allow_nan=False, allow_infinity=False), text), lambda s: st.one_of(st.lists(s, max_size=2), st.dictionaries(text, s, max_size=2)), max_leaves=4)
  entry = st.fixed_dictionaries({"id": st.integers(-3, 2**66), "kind": st.sampled_from("ab"), "inner": st.one_of(st.none(), st.fixed_dictionaries({"name": text, "items": st.lists(st.integers(-9, 2**65), max_size=3)})),
    "extra": st.dictionaries(text, jv, max_size=2), "number": st.floats(allow_nan=False, allow_infinity=False)})
  op = st.one_of(st.tuples(st.just("update"), st.lists(entry, max_size=3), st.booleans()), st.tuples(st.just("add"), entry, st.booleans()), st.tuples(st.just("save")), st.tuples(st.just("save")), st.tuples(st.just("full"), st.one_of(st.integers(0, 40), st.integers(0, 400))), st.tuples(st.just("full"), st.one_of(st.integers(0, 40), st.integers(0, 400))), st.tuples(st.just("reopen")),
    st.tuples(st.just("load")), st.tuples(st.just("mutate"), st.integers(0, 3))).map(list)
  return st.fixed_dictionaries({"ops": st.lists(op, min_size=5, max_size=14)})

def run_store(case, ctx):
  folder = tempfile.mkdtemp(prefix="t05-")
  try:
    path = os.path.join(folder, "x.json")
    dbs = PydanticDB(Entry, path)
    current, saved = [], None
    dump = lambda es: [e.model_dump() for e in es]
    for op, *a in case["ops"]:
      ctx.trace(op, *a)
      if op == "update":
        es = [Entry.model_validate(e) for e in a[0]]
        dbs.update(iter(es) if a[1] else es)
        current = dump(es)
      elif op == "add":
        e = Entry.model_validate(a[0])
        dbs.update(dbs.entries + [e] if a[1] else [x for x in dbs.entries if x.id != e.id] + [e])
        current = ([x for x in current] if a[1] else [x for x in current if x["id"] != e.id]) + dump([e])
      elif op == "save": dbs.save(); saved = list(current)
      elif op == "full":
        # no space left on the disk
        limits = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (a[0], limits[1]))
        try: dbs.save()
        except OSError: ctx.label("could not be saved")
        else: saved = list(current)
        finally: resource.setrlimit(resource.RLIMIT_FSIZE, limits)
      elif op == "reopen": dbs = PydanticDB(Entry, path); current = list(saved or []); ctx.hit(bool(current)); ctx.label("reopened")
      elif op == "load" and saved is not None: dbs.load(); current = list(saved)
      elif op == "mutate":
        es = dbs.entries
        if es:
          e = es[a[0] % len(es)]
          e.number += 1; e.extra["zz"] = 1
          if e.inner: e.inner.items.append(7)
          es.pop()
          ctx.label("changed loaded entries")
      got = dump(dbs.entries)
      if repr(got) != repr(current): raise Violation(f"after {op}: {got!r:.600} instead of {current!r:.600}")
  finally: shutil.rmtree(folder, ignore_errors=True)

SUBS = [
  Sub("buffer", buffer_cases, run_buffer, quick=1200, thorough=30000, rule="A case is non-trivial if the buffer held two or more messages."),
  Sub("store", store_cases, run_store, quick=1500, thorough=30000, rule="A case is non-trivial if a store with something in it was reopened."),
]
