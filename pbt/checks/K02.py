from ..taskrig import *
from ..core import Sub
from streamtasks.system.tasks.calculator import CalculatorConfig, CalculatorTaskHost
import math
CalculatorTask = hosted(CalculatorTaskHost)

TECHNIQUE = "property-based testing (Hypothesis): generated message histories over several inputs, synchronised or not, against a reference of the formula and of reading in timestamp order, in virtual time"
NOTE = "Random search with shrinking; formulas from a fixed set of shapes with generated coefficients (K01 covers the language)."

NAMES = ["a", "bb", "_c", "D1"]
OUT = 50
class Undefined(Exception): pass
def checked(f):
  def g(*a):
    try: r = f(*a)
    except (ArithmeticError, ValueError): raise Undefined()
    if isinstance(r, complex): raise Undefined()
    return float(r)
  return g
# shape -> (formula text over the names, value)
SHAPES = {
  "lin": (lambda n, c: " + ".join(f"{abs(k)} * {x}" if k >= 0 else f"-{abs(k)} * {x}" for k, x in zip(c, n)), lambda v, c: _sum(k * x for k, x in zip(c, v))),
  "div": (lambda n, c: " / ".join(n) if len(n) > 1 else f"1 / {n[0]}", lambda v, c: _div(v) if len(v) > 1 else 1.0 / v[0]),
  "mod": (lambda n, c: f"{n[0]} % {n[-1]} - 1", lambda v, c: v[0] % v[-1] - 1),
  "sqrt": (lambda n, c: f"sqrt({n[0]}) * 2", lambda v, c: math.sqrt(v[0]) * 2),
  "exp": (lambda n, c: f"exp({n[-1]})", lambda v, c: math.exp(v[-1])),
  "pow": (lambda n, c: f"{n[0]} ** {n[-1]}", lambda v, c: v[0] ** v[-1]),
  "max": (lambda n, c: f"max({', '.join(n)}) - min({', '.join(n)})", lambda v, c: max(v) - min(v)),
  "cmp": (lambda n, c: f"{n[0]} >= {n[-1]} ? {n[0]} : 7", lambda v, c: v[0] if v[0] >= v[-1] else 7.0),
  "lazy": (lambda n, c: f"{n[0]} == 0 ? -1 : 1 / {n[0]}", lambda v, c: -1.0 if v[0] == 0 else 1 / v[0]),
}
def _sum(it):
  it = list(it)
  r = it[0]
  for x in it[1:]: r = r + x
  return r
def _div(v):
  r = v[0]
  for x in v[1:]: r = r / x
  return r

value = st.one_of(st.sampled_from([0, 0.0, 1, -1, 2.5, 1000.0, -0.5, 1e308, INF]), st.integers(-100, 100), st.floats(-1e6, 1e6))
def cases(sync):
  op = st.one_of(
    st.tuples(st.just("num"), st.integers(0, 3), st.integers(0, 6), value).map(list),
    st.tuples(st.just("num"), st.integers(0, 3), st.integers(0, 6), value).map(list),
    st.tuples(st.just("num"), st.integers(0, 3), st.integers(0, 6), value).map(list),
    st.tuples(st.just("old"), st.integers(0, 3), st.integers(1, 9), value).map(list),
    st.tuples(st.just("bad"), st.integers(0, 3), bad_messages(st.integers(1, 400), BAD_NUM)).map(list),
    st.tuples(st.just("pause"), st.integers(0, 3), st.booleans()).map(list))
  return st.fixed_dictionaries({
    "sync": st.just(sync), "shape": st.sampled_from(sorted(SHAPES)), "coef": st.lists(st.integers(-9, 9), min_size=4, max_size=4),
    "defaults": st.lists(value.map(float), min_size=1, max_size=4), "link": links(), "start": st.integers(1, 10**13), "base": st.booleans(),
    "ops": st.lists(op, min_size=4, max_size=30)})

def run(case, ctx):
  async def main():
    n = len(case["defaults"])
    names, c = NAMES[:n], case["coef"]
    text, value_of = SHAPES[case["shape"]]
    f = checked(value_of)
    ins = [10 + i for i in range(n)]
    config = CalculatorConfig.model_validate({"out_topic": OUT, "formula": text(names, c), "synchronized": case["sync"],
      "variable_tracks": [{"name": x, "default_value": d, "in_topic": t} for x, d, t in zip(names, case["defaults"], ins)]})
    rig = await Rig().start(lambda client: CalculatorTask(client, config), ins, [OUT], case["link"])
    vals, want = list(case["defaults"]), []
    def deliver(t, item):
      i = t - 10
      if item[0] == "p": vals[i] = case["defaults"][i]; return
      m = item[1]
      if not valid(m): return
      vals[i] = float(m["value"])
      try: want.append({"timestamp": m["timestamp"], "value": f(vals, c)})
      except Undefined: ctx.label("no value")
    def valid(m): return isinstance(m, dict) and isinstance(m.get("timestamp"), int) and isinstance(m.get("value"), (int, float))
    model = SyncModel(ins, deliver, sync=case["sync"])
    last = {t: (case["start"] // 64) * 64 + t - 10 for t in ins}     # timestamps of different inputs differ
    got = []
    for op in case["ops"]:
      t = 10 + op[1] % n
      if any(k == "p" for k, _ in model.q[t]): continue
      if op[0] == "num":
        last[t] += 16 * op[2]
        m = {"timestamp": last[t], "value": op[3]}
      elif op[0] == "old":
        if model.pending: continue
        m = {"timestamp": last[t] - 16 * op[2], "value": op[3]}
        if m["timestamp"] < 0: continue
        ctx.label("late message")
      elif op[0] == "bad":
        m = op[2]
        if isinstance(m, dict) and isinstance(m.get("timestamp"), int) and not isinstance(m.get("timestamp"), bool):
          last[t] += 16
          m = {**m, "timestamp": last[t]}
        ctx.label("invalid message")
      else:
        if model.pending and not op[2]: continue
        await rig.pause(t, op[2])
        model.push(t, ("p", op[2]))
        m = None
      if m is not None:
        await rig.send(t, m)
        model.push(t, ("d", m))
      await settle(0.01)
      got += [(e[1], e[2]) for e in rig.take()]
      rig.check()
      ctx.trace(op, m, "->", want[len(got) - 1:] if want else "")
      if not same(got, [("d", w) for w in want]): raise Violation(f"formula {config.formula!r} over {dict(zip(names, vals))}: sent {got[-3:]} expected (ending) {want[-3:]}; {len(got)} results, expected {len(want)}")
      if model.pending: ctx.label("waits for other inputs")
    if len(want) >= 2: ctx.hit()
    await rig.stop()
  vrun(main)

SUBS = [
  Sub("unsynchronised", lambda: cases(False), run, quick=700, thorough=20000, rule="at least two results were sent"),
  Sub("synchronised", lambda: cases(True), run, quick=900, thorough=25000, rule="at least two results were sent"),
]
