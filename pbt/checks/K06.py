from ..taskrig import *
from ..core import Sub
from streamtasks.system.tasks.stringmatcher import StringMatcherConfig, StringMatcherTaskHost
from streamtasks.system.tasks.textformatter import TextFormatterConfig, TextFormatterTaskHost
from streamtasks.system.tasks.stringconcatenator import StringConcatenatorConfig, StringConcatenatorTaskHost
from streamtasks.system.tasks.numbertotext import NumberToTextConfig, NumberToTextTaskHost
from streamtasks.system.tasks.timetotext import TimeToTextConfig, TimeToTextTaskHost
import os, time
StringMatcherTask = hosted(StringMatcherTaskHost)
TextFormatterTask = hosted(TextFormatterTaskHost)
StringConcatenatorTask = hosted(StringConcatenatorTaskHost)
NumberToTextTask = hosted(NumberToTextTaskHost)
TimeToTextTask = hosted(TimeToTextTaskHost)

TECHNIQUE = "property-based testing (Hypothesis): generated patterns, templates, numbers, times and message histories against independent references (a small regular expression matcher, a template renderer, calendar arithmetic), in virtual time"
NOTE = "Random search with shrinking; regular expressions, format specifications and date formats from a subset with an own reference."
IN, CONTROL, OUT = 10, 11, 90

ts = st.integers(0, 10**13)
def text_message(m): return isinstance(m, dict) and type(m.get("timestamp")) is int and isinstance(m.get("value"), str)
def num_message(m): return isinstance(m, dict) and type(m.get("timestamp")) is int and isinstance(m.get("value"), (int, float))

async def converse(rig, case, ctx, expected):
  """Sends the messages and pauses of a case one by one; `expected(message)` is the one message due, or None."""
  n = 0
  for op in case["ops"]:
    if op[0] == "pause": await rig.pause(IN, op[1])
    else: await rig.send(IN, op[1])
    await settle(0.01)
    got = rig.take()
    rig.check()
    if op[0] == "pause":
      if any(k != "p" or v != op[1] for _, k, v, _ in got): raise Violation(f"after {op}: {got}")
      continue
    want = expected(op[1])
    n += want is not None
    if not same([(k, v) for _, k, v, _ in got], [] if want is None else [("d", want)]): raise Violation(f"{case.get('what', '')} after {op[1]!r}: sent {[e[2] for e in got]!r} expected {want!r}")
  return n

# ---- matcher
ALPHA = "abAB .*[$\n1"
def lit(): return st.text(ALPHA, max_size=4)
# a regular expression as a tree: ["lit", c] ["any"] ["set", chars, negated] ["cat", ...] ["alt", ...] ["rep", t, min, max or None]
def trees():
  leaf = st.one_of(st.tuples(st.just("lit"), st.sampled_from(ALPHA)).map(list), st.just(["any"]), st.tuples(st.just("set"), st.text("abB1 ", min_size=1, max_size=3), st.booleans()).map(list))
  return st.recursive(leaf, lambda c: st.one_of(
    st.lists(c, min_size=1, max_size=3).map(lambda x: ["cat", *x]), st.lists(c, min_size=2, max_size=3).map(lambda x: ["alt", *x]),
    st.tuples(st.just("rep"), c, st.sampled_from([[0, None], [1, None], [0, 1], [2, 2]])).map(list)), max_leaves=6)
def to_text(t):
  k = t[0]
  if k == "lit": return "\\" + t[1] if t[1] in ".*[$" else t[1]
  if k == "any": return "."
  if k == "set": return "[" + ("^" if t[2] else "") + t[1] + "]"
  if k == "cat": return "".join(to_text(x) for x in t[1:])
  if k == "alt": return "(" + "|".join(to_text(x) for x in t[1:]) + ")"
  return "(?:" + to_text(t[1]) + ")" + {(0, None): "*", (1, None): "+", (0, 1): "?", (2, 2): "{2}"}[tuple(t[2])]
def ends(t, s, at, flags):
  """All positions at which a match of t starting at `at` can end."""
  k = t[0]
  fold = (lambda c: c.lower()) if "i" in flags else (lambda c: c)
  if k == "cat":
    cur = {at}
    for x in t[1:]: cur = {e for c in cur for e in ends(x, s, c, flags)}
    return cur
  if k == "alt": return {e for x in t[1:] for e in ends(x, s, at, flags)}
  if k == "rep":
    low, high = t[2]
    cur, out = {at}, ({at} if low == 0 else set())
    for n in range(1, (high or len(s) + low + 1) + 1):
      cur = {e for c in cur for e in ends(t[1], s, c, flags)}
      if not cur: break
      if n >= low: out |= cur
    return out
  if at >= len(s): return set()
  c = s[at]
  if k == "lit": ok = fold(c) == fold(t[1])
  elif k == "any": ok = c != "\n" or "s" in flags
  else: ok = (fold(c) in {fold(x) for x in t[1]}) != t[2]
  return {at + 1} if ok else set()

def matcher_cases():
  op = st.one_of(st.tuples(st.just("d"), st.builds(lambda t, v, x: {"timestamp": t, "value": v, **x}, ts, st.text(ALPHA, max_size=8), st.sampled_from([{}, {}, {"x": 1}]))).map(list),
    st.tuples(st.just("d"), st.builds(lambda t, v: {"timestamp": t, "value": v}, ts, st.text(ALPHA, max_size=8))).map(list),
    st.tuples(st.just("hit"), ts, st.text(ALPHA, max_size=3), st.text(ALPHA, max_size=3)).map(list),
    st.tuples(st.just("d"), bad_messages(ts, BAD_TEXT)).map(list), st.tuples(st.just("pause"), st.booleans()).map(list))
  return st.fixed_dictionaries({"regex": st.one_of(st.none(), trees()), "plain": st.text(ALPHA, max_size=3), "flags": st.sampled_from(["i", "", "", "s", "is", "IS", "m", "qz?", "a", "mais", "amsi"]), "link": links(), "ops": st.lists(op, min_size=3, max_size=12)})

def run_matcher(case, ctx):
  async def main():
    plain_text = case["regex"] is None
    pattern = case["plain"] if plain_text else to_text(case["regex"])
    config = StringMatcherConfig.model_validate({"pattern": pattern, "flags": case["flags"], "is_regex": not plain_text, "in_topic": IN, "out_topic": OUT})
    rig = await Rig().start(lambda c: StringMatcherTask(c, config), [IN], [OUT], case["link"])
    flags = case["flags"].lower()
    def fold(s): return s.lower() if "i" in flags else s
    ops = [["d", {"timestamp": o[1], "value": o[2] + (case["plain"] if plain_text else "") + o[3]}] if o[0] == "hit" else o for o in case["ops"]]
    seen = set()
    def expected(m):
      if not text_message(m): return None
      if plain_text: r = fold(pattern) in fold(m["value"])
      else: r = bool(ends(case["regex"], m["value"], 0, flags))
      seen.add(r)
      return {"timestamp": m["timestamp"], "value": 1.0 if r else 0.0}
    await converse(rig, {"ops": ops, "what": f"pattern {pattern!r} flags {case['flags']!r} regex {not plain_text}:"}, ctx, expected)
    ctx.hit(len(seen) == 2)
    await rig.stop()
  vrun(main)

# ---- formatter
VARS = ["a", "bb", "_c", "D1"]
def formatter_cases():
  vals = st.one_of(st.sampled_from(["", "{a}", "{", "}}", "x\ny", "long text", "%s", "é"]), text(6))
  part = st.one_of(st.tuples(st.just("lit"), st.text("ab {}%\n$é", max_size=4)).map(list),
    st.tuples(st.just("var"), st.integers(0, 3)).map(list), st.tuples(st.just("var"), st.integers(0, 3)).map(list),
    st.tuples(st.just("pad"), st.integers(0, 3), st.sampled_from("<>^"), st.integers(1, 9)).map(list), st.tuples(st.just("cut"), st.integers(0, 3), st.integers(0, 3)).map(list))
  op = st.one_of(st.tuples(st.just("text"), st.integers(0, 3), st.integers(0, 4), vals).map(list), st.tuples(st.just("text"), st.integers(0, 3), st.integers(0, 4), vals).map(list),
    st.tuples(st.just("text"), st.integers(0, 3), st.integers(0, 4), vals).map(list),
    st.tuples(st.just("bad"), st.integers(0, 3), bad_messages(st.just(1), BAD_TEXT)).map(list), st.tuples(st.just("pause"), st.integers(0, 3), st.booleans()).map(list))
  return st.fixed_dictionaries({"sync": st.booleans(), "defaults": st.lists(vals, min_size=1, max_size=4), "template": st.lists(part, min_size=1, max_size=6), "link": links(), "start": st.integers(0, 10**12),
    "ops": st.lists(op, min_size=4, max_size=20)})

def run_formatter(case, ctx):
  async def main():
    n = len(case["defaults"])
    ins = [10 + i for i in range(n)]
    def name(p): return VARS[p[1] % n]
    template = "".join(p[1].replace("{", "{{").replace("}", "}}") if p[0] == "lit" else "{" + name(p) + "}" if p[0] == "var" else "{" + name(p) + ":" + p[2] + str(p[3]) + "}" if p[0] == "pad" else "{" + name(p) + ":." + str(p[2]) + "}" for p in case["template"])
    def render(vals):
      out = ""
      for p in case["template"]:
        if p[0] == "lit": out += p[1]; continue
        v = vals[p[1] % n]
        if p[0] == "pad":
          gap = max(0, p[3] - len(v))
          left = {"<": 0, ">": gap, "^": gap // 2}[p[2]]
          v = " " * left + v + " " * (gap - left)
        elif p[0] == "cut": v = v[:p[2]]
        out += v
      return out
    config = TextFormatterConfig.model_validate({"template": template, "synchronized": case["sync"], "out_topic": OUT,
      "variable_tracks": [{"name": VARS[i], "default_text": d, "in_topic": ins[i]} for i, d in enumerate(case["defaults"])]})
    rig = await Rig().start(lambda c: TextFormatterTask(c, config), ins, [OUT], case["link"])
    vals, want = list(case["defaults"]), []
    def deliver(t, item):
      if item[0] == "p": vals[t - 10] = case["defaults"][t - 10]
      elif text_message(item[1]):
        vals[t - 10] = item[1]["value"]
        want.append({"timestamp": item[1]["timestamp"], "value": render(vals)})
    model = SyncModel(ins, deliver, sync=case["sync"])
    now = {t: case["start"] * 4 + i for i, t in enumerate(ins)}
    got = []
    for op in case["ops"]:
      t = ins[op[1] % n]
      if any(k == "p" for k, _ in model.q[t]): continue
      if op[0] == "pause":
        if model.pending and not op[2]: continue
        await rig.pause(t, op[2])
        model.push(t, ("p", op[2]))
      else:
        if op[0] == "text": now[t] += 4 * op[2]; m = {"timestamp": now[t], "value": op[3]}
        else:
          m = op[2]
          if isinstance(m, dict) and isinstance(m.get("timestamp"), int): m = {**m, "timestamp": now[t]}
        await rig.send(t, m)
        model.push(t, ("d", m))
      await settle(0.01)
      got += [(e[1], e[2]) for e in rig.take()]
      rig.check()
      if not same(got, [("d", w) for w in want]): raise Violation(f"template {template!r} after {op}: sent {got[-2:]} expected (ending) {want[-2:]}")
    if len(want) >= 2 and any(p[0] != "lit" for p in case["template"]): ctx.hit()
    await rig.stop()
  vrun(main)

# ---- concatenator
def concat_cases():
  control = st.sampled_from([0, 1, 1, 0.0, 1.0, 0.5, 0.51, -3, 8])
  op = st.one_of(st.tuples(st.just("text"), st.integers(0, 2), text(4)).map(list), st.tuples(st.just("text"), st.integers(0, 2), text(4)).map(list),
    st.tuples(st.just("control"), st.integers(0, 2), control).map(list), st.tuples(st.just("control"), st.integers(0, 2), control).map(list),
    st.tuples(st.just("rise"), st.booleans()).map(list),
    st.tuples(st.just("badt"), bad_messages(st.just(1), BAD_TEXT)).map(list), st.tuples(st.just("badc"), bad_messages(st.just(1), BAD_NUM)).map(list),
    st.tuples(st.just("pause"), st.booleans(), st.booleans()).map(list))
  return st.fixed_dictionaries({"sync": st.booleans(), "link": links(), "start": st.integers(0, 10**12), "ops": st.lists(op, min_size=6, max_size=30)})

def run_concat(case, ctx):
  async def main():
    config = StringConcatenatorConfig.model_validate({"synchronized": case["sync"], "control_topic": CONTROL, "in_topic": IN, "out_topic": OUT})
    rig = await Rig().start(lambda c: StringConcatenatorTask(c, config), [IN, CONTROL], [OUT], case["link"])
    collected, last, want, paused = "", 0, [], False
    def deliver(t, item):
      nonlocal collected, last, paused
      k, m = item
      if k == "p":
        if t == CONTROL: paused = m
      elif t == IN:
        if text_message(m): collected += m["value"]
      elif num_message(m):
        if last <= 0.5 < m["value"] and collected:
          want.append({"timestamp": m["timestamp"], "value": collected})
          collected = ""
        last = m["value"]
    model = SyncModel([IN, CONTROL], deliver, prio={IN: 1, CONTROL: 0}, sync=case["sync"])
    now = {IN: case["start"], CONTROL: case["start"]}
    got, gp = [], False
    async def put(t, item):
      if any(k == "p" for k, _ in model.q[t]): return
      if item[0] == "p":
        if model.pending and not item[1]: return
        await rig.pause(t, item[1])
      else: await rig.send(t, item[1])
      model.push(t, item)
      await settle(0.01)
    for op in case["ops"]:
      k = op[0]
      if k == "text":
        now[IN] += op[1]
        await put(IN, ("d", {"timestamp": now[IN], "value": op[2]}))
      elif k == "control":
        now[CONTROL] += op[1]
        await put(CONTROL, ("d", {"timestamp": now[CONTROL], "value": op[2]}))
      elif k == "rise":
        # text and the rising control at the same time, in either order of arrival
        t = max(now.values()) + 1
        await put(CONTROL, ("d", {"timestamp": t, "value": 0}))
        now[IN] = now[CONTROL] = t + 1
        items = [(IN, ("d", {"timestamp": t + 1, "value": "T"})), (CONTROL, ("d", {"timestamp": t + 1, "value": 1}))]
        for x in items if op[1] else items[::-1]: await put(*x)
      elif k in ("badt", "badc"):
        t = IN if k == "badt" else CONTROL
        m = op[1]
        if isinstance(m, dict) and isinstance(m.get("timestamp"), int): m = {**m, "timestamp": now[t]}
        await put(t, ("d", m))
      else: await put(IN if op[1] else CONTROL, ("p", op[2]))
      for _, kind, v, _ in rig.take():
        if kind == "d": got.append(v)
        else: gp = v
      rig.check()
      if not same(got, want): raise Violation(f"after {op}: sent {got[-2:]} expected (ending) {want[-2:]}; collected {collected!r}")
      if gp != paused: raise Violation(f"after {op}: output paused is {gp}, the control's pause state is {paused}")
    if len(want) >= 2: ctx.hit()
    await rig.stop()
  vrun(main)

# ---- conversions
def number_cases():
  v = st.one_of(st.floats(allow_nan=True), st.integers(-2**53, 2**53), st.sampled_from([0, -0.0, 1e16, 1e-5, 0.1, 1e22, INF]))
  op = st.one_of(st.tuples(st.just("d"), st.builds(lambda t, x: {"timestamp": t, "value": x}, ts, v)).map(list), st.tuples(st.just("d"), st.builds(lambda t, x: {"timestamp": t, "value": x}, ts, v)).map(list),
    st.tuples(st.just("d"), bad_messages(ts, BAD_NUM)).map(list), st.tuples(st.just("pause"), st.booleans()).map(list))
  return st.fixed_dictionaries({"link": links(), "ops": st.lists(op, min_size=3, max_size=12)})
def run_number(case, ctx):
  async def main():
    rig = await Rig().start(lambda c: NumberToTextTask(c, NumberToTextConfig.model_validate({"in_topic": IN, "out_topic": OUT})), [IN], [OUT], case["link"])
    n = await converse(rig, case, ctx, lambda m: {"timestamp": m["timestamp"], "value": repr(float(m["value"]))} if num_message(m) else None)
    ctx.hit(n >= 2)
    await rig.stop()
  vrun(main)

def civil(days):
  """Year, month, day of a day number counted from 1970-01-01 (proleptic Gregorian)."""
  z = days + 719468
  era, doe = divmod(z, 146097)
  yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
  doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
  mp = (5 * doy + 2) // 153
  month = mp + 3 if mp < 10 else mp - 9
  return yoe + era * 400 + (month <= 2), month, doy - (153 * mp + 2) // 5 + 1
DIRECTIVES = ["%d", "%m", "%Y", "%H", "%M", "%S", "%j", "%y", "%%", "%A", "%I", "%f", "%f"]
def time_cases():
  t = st.one_of(st.integers(-30610224000000, 253402300799999), st.integers(1500000000000, 1800000000000), st.sampled_from([0, -1, 1, 999, 1000, 951782400000, 253402300799999]))
  far = st.sampled_from([1e300, -1e300, 2**62, -2**62, 1e18, -1e17, 253402300800000, 10**17])
  part = st.one_of(st.sampled_from(DIRECTIVES), st.text("abc :/,-.", max_size=3))
  op = st.one_of(st.tuples(st.just("d"), st.builds(lambda t, x: {"timestamp": t, **x}, t, st.sampled_from([{}, {"value": 1}, {"data": "x"}]))).map(list),
    st.tuples(st.just("d"), t.map(lambda t: {"timestamp": float(t)})).map(list), st.tuples(st.just("d"), t.map(lambda t: {"timestamp": t})).map(list),
    st.tuples(st.just("d"), st.one_of(far.map(lambda t: {"timestamp": t}), st.sampled_from([{"value": 1.0}, {"timestamp": "x"}, {"timestamp": None}, {"timestamp": INF}, {"timestamp": NAN}, [], 5, "x", {"timestamp": [5]}]))).map(list),
    st.tuples(st.just("pause"), st.booleans()).map(list))
  return st.fixed_dictionaries({"link": links(), "default": st.booleans(), "format": st.lists(part, min_size=1, max_size=6), "ops": st.lists(op, min_size=3, max_size=12)})
def run_time(case, ctx):
  os.environ["TZ"] = "UTC"
  time.tzset()
  parts = ["%d", "/", "%m", "/", "%Y", ", ", "%H", ":", "%M", ":", "%S"] if case["default"] else case["format"]
  def render(ms):
    days, rest = divmod(ms // 1000, 86400)
    y, mo, d = civil(days)
    yday = days - (lambda y: 365 * (y - 1970) + (y - 1) // 4 - 1969 // 4 - (y - 1) // 100 + 1969 // 100 + (y - 1) // 400 - 1969 // 400)(y) + 1
    v = {"%d": f"{d:02}", "%m": f"{mo:02}", "%Y": str(y), "%H": f"{rest // 3600:02}", "%M": f"{rest // 60 % 60:02}", "%S": f"{rest % 60:02}", "%j": f"{yday:03}", "%y": f"{y % 100:02}", "%%": "%",
      "%A": ["Thursday", "Friday", "Saturday", "Sunday", "Monday", "Tuesday", "Wednesday"][days % 7], "%I": f"{(rest // 3600 + 11) % 12 + 1:02}", "%f": f"{ms % 1000 * 1000:06}"}
    return "".join(v.get(p, p) for p in parts)
  ops = case["ops"]
  if "%f" in parts: # so far away, a number of seconds has no exact milliseconds
    ops = [op if op[0] != "d" or (t := timestamp_of(op[1])) is None or abs(t) < 4 * 10**12 else ["d", {**op[1], "timestamp": t % 10**12}] for op in ops]
  async def main():
    config = TimeToTextConfig.model_validate({"in_topic": IN, "out_topic": OUT, **({} if case["default"] else {"date_format": "".join(parts)})})
    rig = await Rig().start(lambda c: TimeToTextTask(c, config), [IN], [OUT], case["link"])
    def expected(m):
      t = timestamp_of(m)
      if t is None or not -30610224000000 <= t <= 253402300799999: return None
      return {"timestamp": t, "value": render(t)}
    n = await converse(rig, {"ops": ops, "what": f"format {''.join(parts)!r}:"}, ctx, expected)
    ctx.hit(n >= 2)
    await rig.stop()
  vrun(main)

SUBS = [
  Sub("matcher", matcher_cases, run_matcher, quick=900, thorough=25000, rule="some texts matched and some did not"),
  Sub("formatter", formatter_cases, run_formatter, quick=700, thorough=20000, rule="at least two texts were sent and the template has variables"),
  Sub("concatenator", concat_cases, run_concat, quick=700, thorough=20000, rule="at least two texts were sent"),
  Sub("number", number_cases, run_number, quick=300, thorough=8000, rule="at least two numbers were converted"),
  Sub("time", time_cases, run_time, quick=400, thorough=12000, rule="at least two times were converted"),
]
