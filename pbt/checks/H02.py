from hypothesis import strategies as st
from ..core import Sub, Violation
from streamtasks.asgi import JSONValueTransformer, MessagePackValueTransformer
from streamtasks.net.serialization import RawData
import json, copy

TECHNIQUE = "property-based testing (Hypothesis): round trip of generated values through both transport encodings and the bytes they become"
NOTE = "Random search with shrinking over nested values; integers within 64 bits as the transport allows, character strings without lone surrogates."

# words the encoding itself uses, so that a value looking like an encoded one is told apart
WORDS = ["list", "dict", "tuple", "set", "bytes", "bytearray", "int", "float", "bool", "str", "none", "unknown", "NoneType", "", "type"]
text = st.one_of(st.text(alphabet=st.characters(exclude_categories=["Cs"]), max_size=8), st.sampled_from(WORDS))
number = st.one_of(st.integers(-5, 5), st.integers(-2**63, 2**64 - 1), st.floats(allow_nan=False), st.sampled_from([0.0, -0.0, 1.0, 0, 1, 2**53 + 1, 2**63, -2**63, float("inf"), float("-inf"), 5e-324, 1e22]))
leaf = st.one_of(st.none(), st.booleans(), number, text, st.binary(max_size=8))
def extend(s): return st.one_of(st.lists(s, max_size=4), st.lists(s, max_size=4).map(tuple), st.dictionaries(text, s, max_size=4), st.tuples(st.sampled_from(WORDS), s).map(list), st.tuples(st.sampled_from(WORDS), s))
value = st.recursive(leaf, extend, max_leaves=12)

def enc(v):
  """Values as JSON, so that a replay file holds them exactly."""
  if isinstance(v, bool) or v is None or isinstance(v, str): return v
  if isinstance(v, int): return {"i": str(v)}
  if isinstance(v, float): return {"f": v.hex()}
  if isinstance(v, bytes): return {"b": v.hex()}
  if isinstance(v, list): return {"l": [enc(x) for x in v]}
  if isinstance(v, tuple): return {"t": [enc(x) for x in v]}
  return {"d": [[k, enc(x)] for k, x in v.items()]}
def dec(v):
  if not isinstance(v, dict): return v
  (k, x), = v.items()
  return {"i": int, "f": float.fromhex, "b": bytes.fromhex, "l": lambda x: [dec(y) for y in x], "t": lambda x: tuple(dec(y) for y in x), "d": lambda x: {a: dec(b) for a, b in x}}[k](x)

def same(a, b):
  if type(a) is not type(b): return False
  if isinstance(a, dict): return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
  if isinstance(a, (list, tuple)): return len(a) == len(b) and all(map(same, a, b))
  if isinstance(a, float): return a.hex() == b.hex()
  return a == b

def depth(v): return 1 + max(map(depth, v.values() if isinstance(v, dict) else v), default=0) if isinstance(v, (dict, list, tuple)) else 0

def in_message(x): return RawData(bytes(RawData({"v": x}).serialize())).data["v"]

def run(case, ctx):
  v = dec(case["value"])
  ctx.label(f"depth {min(depth(v), 4)}"); ctx.label(type(v).__name__)
  before = copy.deepcopy(v)
  for name, T, wires in [("JSON", JSONValueTransformer, [("directly", lambda x: x), ("as JSON", lambda x: json.loads(json.dumps(x))), ("in a message", in_message)]),
                         ("MessagePack", MessagePackValueTransformer, [("directly", lambda x: x), ("in a message", in_message)])]:
    for how, wire in wires:
      try: got = T.deannotate_value(wire(T.annotate_value(v)))
      except Exception as e: raise Violation(f"{name} encoding, {how}: {v!r} raised {e!r}", key="raise")
      if not same(got, v): raise Violation(f"{name} encoding, {how}: {v!r} became {got!r}", key="value")
      if not same(v, before): raise Violation(f"{name} encoding changed the value it was given: {before!r} to {v!r}", key="mutated")
  if depth(v): ctx.hit()

def cases(): return st.fixed_dictionaries({"value": value.map(enc)})

SUBS = [Sub("values", cases, run, 6000, 200000, "values nested up to several levels, some of which look like encoded values; both encodings, directly and through the bytes they are sent as; non-trivial: a container")]
