"""Shared Hypothesis strategies."""
from . import boot
from hypothesis import strategies as st

# Hypothesis drops alternatives that are the same strategy object; here they count as often as they are named.
_one_of = st.one_of
def one_of(*args):
  if len(args) == 1 and not isinstance(args[0], st.SearchStrategy): args = tuple(args[0])
  seen, out = set(), []
  for s in args:
    out.append(s.map(_same) if id(s) in seen else s)
    seen.add(id(s))
  return _one_of(*out)
def _same(x): return x
st.one_of = one_of

def delays(maxn=3): return st.one_of(st.just([0]), st.lists(st.sampled_from([0, 0, 0.001, 0.01, 0.5, 3]), min_size=1, max_size=maxn))

def text(max_size=12): return st.text(st.characters(codec="utf-8", exclude_categories=("Cs",)), max_size=max_size)
def ident(): return st.text("abcxyz", min_size=1, max_size=4)

def msgpack_value(max_leaves=12, keys=None):
  leaf = st.one_of(st.none(), st.booleans(), st.integers(-2**63, 2**64 - 1), st.integers(-5, 5), st.floats(allow_nan=False), text(), st.binary(max_size=16))
  return st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=4), st.dictionaries(keys if keys is not None else text(6), c, max_size=4)), max_leaves=max_leaves)
