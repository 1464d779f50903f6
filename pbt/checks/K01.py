from hypothesis import strategies as st
from ..core import Sub, Violation
from streamtasks.system.tasks.calculator import CalculatorConfig, CalculatorEvalContext, CalculatorEvalTransformer
import math, re

TECHNIQUE = "property-based testing (Hypothesis): generated formulas against a reference parser and evaluator of the documented language; generated token soup and mutated formulas against the reference parser"
NOTE = "Random search with shrinking; formulas of limited size, truth values that are either 0 or above 0.5 (the manual and the code differ about what lies between)."

BIN = {"**": 7, "*": 6, "/": 6, "%": 6, "+": 5, "-": 5, ">": 4, "<": 4, ">=": 4, "<=": 4, "==": 4, "!=": 4, "&": 3, "|": 3, "^": 3}
UN = ["-", "+", "!"]
F1 = ["sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "log", "log2", "log10", "exp", "sqrt", "floor", "ceil", "round", "abs"]
VARS = ["x", "y", "_z", "a1", "E", "Pi", "sin", "max"]

class Undefined(Exception): pass
class Unclear(Exception): pass

# ---- reference meaning
def truth(v):
  if v != v or 0 < abs(v) <= 0.5 or v < 0: raise Unclear()
  return v > 0.5
def ev(t, env):
  k = t[0]
  if k == "num": return float(t[1])
  if k == "var": return env[t[1]]
  if k == "group": return ev(t[1], env)
  if k == "if": return ev(t[2] if truth(ev(t[1], env)) else t[3], env)
  if k == "un":
    v = ev(t[2], env)
    return -v if t[1] == "-" else v if t[1] == "+" else float(not truth(v))
  try:
    if k == "fn":
      args = [ev(a, env) for a in t[2]]
      if t[1] == "min": return min(args)
      if t[1] == "max": return max(args)
      if t[1] == "atan2": return math.atan2(*args)
      f = {"abs": abs, "round": round}.get(t[1]) or getattr(math, t[1])
      return float(f(*args))
    a, b = ev(t[2], env), ev(t[3], env)
    op = t[1]
    if op in "&|^": p, q = truth(a), truth(b); return float({"&": p and q, "|": p or q, "^": p != q}[op])
    if op == "**":
      r = a ** b
      if isinstance(r, complex): raise Undefined()
      return r
    return float({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "%": lambda: a % b, ">": lambda: a > b, "<": lambda: a < b, ">=": lambda: a >= b, "<=": lambda: a <= b, "==": lambda: a == b, "!=": lambda: a != b}[op]())
  except (ZeroDivisionError, OverflowError, ValueError): raise Undefined()

# ---- reference parser: a token list to a tree, or None
TOKEN = re.compile(r"[ \t\f\r]*(?:(?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)|(?P<name>[A-Za-z_][A-Za-z0-9_]*)|(?P<op>\*\*|>=|<=|==|!=|[-+*/%!<>&|^?:(),]))")
def tokens(s):
  out, at = [], 0
  s = s.rstrip(" \t")
  while at < len(s):
    m = TOKEN.match(s, at)
    if not m or m.end() == at: return None
    out.append((m.lastgroup, m.group(m.lastgroup)))
    at = m.end()
  return out
class Bad(Exception): pass
def parse(toks, names):
  pos = 0
  def peek(): return toks[pos] if pos < len(toks) else (None, None)
  def take(v=None):
    nonlocal pos
    t = peek()
    if t[0] is None or (v is not None and (t[0] != "op" or t[1] != v)): raise Bad()
    pos += 1
    return t
  def atom():
    k, v = take()
    if k == "num": return ["num", v]
    if k == "name":
      if peek() == ("op", "("):
        take("(")
        args = []
        if peek() != ("op", ")"):
          args.append(expr())
          while peek() == ("op", ","): take(","); args.append(expr())
        take(")")
        n = len(args)
        if not (v in F1 and n == 1 or v == "atan2" and n == 2 or v in ("min", "max") and n >= 1): raise Bad()
        return ["fn", v, args]
      if v not in names: raise Bad()
      return ["var", v]
    if v in UN: return ["un", v, atom()]
    if v == "(":
      e = expr()
      take(")")
      return ["group", e]
    raise Bad()
  def binary(level):
    if level == 8: return atom()
    left = binary(level + 1)
    while peek()[0] == "op" and BIN.get(peek()[1]) == level: op = take()[1]; left = ["bin", op, left, binary(level + 1)]
    return left
  def expr():
    c = binary(3)
    if peek() == ("op", "?"):
      take("?")
      a = expr()
      take(":")
      return ["if", c, a, expr()]
    return c
  e = expr()
  if pos != len(toks): raise Bad()
  return e

# ---- generation
num = st.sampled_from(["0", "1", "2", "3", "0.5", "0.75", "10", "1e2", "2.5E-1", ".5", "4.", "7", "100", "1e+1", "0.1", "0.6", "0.30000000000000004", "1.0000000001"])
LEVELS = [["**"], ["*", "/", "%"], ["+", "-"], [">", "<", ">=", "<=", "==", "!="], ["&", "|", "^"]]
def tree():
  leaf = st.one_of(num.map(lambda n: ["num", n]), num.map(lambda n: ["num", n]), st.sampled_from(VARS + ["pi", "e"]).map(lambda v: ["var", v]))
  def ext(s):
    b = st.tuples(st.just("bin"), st.sampled_from(list(BIN)), s, s)
    return st.one_of(b, b, b, b, st.tuples(st.just("un"), st.sampled_from(UN), s), st.tuples(st.just("if"), s, s, s), st.tuples(st.just("fn"), st.sampled_from(F1), st.tuples(s).map(list)),
      st.tuples(st.just("fn"), st.sampled_from(["min", "max"]), st.lists(s, min_size=1, max_size=3)), st.tuples(st.just("fn"), st.just("atan2"), st.tuples(s, s).map(list)), st.tuples(st.just("group"), s)).map(list)
  operand = st.one_of(leaf, leaf, st.tuples(st.just("un"), st.sampled_from(UN), leaf).map(list))
  def chain(v):
    """Operators of one or two neighbouring levels in a row, nested in some order."""
    l, two, first, rest, right = v
    ops = LEVELS[l] + (LEVELS[l + 1] if two and l + 1 < len(LEVELS) else [])
    t = first
    for n, (o, x) in enumerate(rest): t = ["bin", ops[o % len(ops)], *([x, t] if right[n % len(right)] else [t, x])]
    return t
  chains = st.tuples(st.integers(0, 4), st.booleans(), operand, st.lists(st.tuples(st.integers(0, 11), operand), min_size=2, max_size=4), st.lists(st.booleans(), min_size=1, max_size=3)).map(chain)
  close = st.sampled_from(["0.6", "0.7", "0.6000000000000001", "1.0000000001", "1", "100", "0"]).map(lambda n: ["num", n])
  near = st.tuples(st.just("bin"), st.sampled_from(LEVELS[3] + LEVELS[4]), close, close).map(list)
  return st.one_of(st.recursive(leaf, ext, max_leaves=9), st.recursive(leaf, ext, max_leaves=9), chains, near)

def write(t, out):
  """Tokens with exactly the parentheses the language needs."""
  def put(s, level):
    l = {"bin": lambda: BIN[s[1]], "if": lambda: 0}.get(s[0], lambda: 9)()
    if l < level: out.append("("); write(s, out); out.append(")")
    else: write(s, out)
  k = t[0]
  if k in ("num", "var"): out.append(t[1])
  elif k == "group": out.append("("); write(t[1], out); out.append(")")
  elif k == "un": out.append(t[1]); put(t[2], 8)
  elif k == "bin": put(t[2], BIN[t[1]]); out.append(t[1]); put(t[3], BIN[t[1]] + 1)
  elif k == "if": put(t[1], 1); out.append("?"); write(t[2], out); out.append(":"); write(t[3], out)
  else:
    out += [t[1], "("]
    for i, a in enumerate(t[2]):
      if i: out.append(",")
      write(a, out)
    out.append(")")

def spaced(toks, spaces):
  s = ""
  for i, t in enumerate(toks):
    sp = spaces[i % len(spaces)] if spaces else ""
    if i and not sp and (re.match(r"[\w.]", t) and re.search(r"[\w.]$", s)): sp = " "
    if i and not sp and s[-1] in "*<>=!" and t[0] in "*=": sp = " "
    s += sp + t
  return s
values = st.fixed_dictionaries({v: st.sampled_from([0.0, 1.0, 2.0, -1.0, 3.0, 0.75, -2.5, 100.0, 0.25, 1e9]) for v in VARS})
spaces = st.lists(st.sampled_from(["", "", " ", "  ", "\t"]), min_size=1, max_size=7)

def evaluate(text, env):
  """What the calculator makes of the text: a number, or an error."""
  try: cfg = CalculatorConfig.model_validate({"formula": text, "variable_tracks": [{"name": n, "default_value": 0, "in_topic": 1} for n in env], "out_topic": 2})
  except Exception as e: return "rejected", e
  try: r = CalculatorEvalTransformer(CalculatorEvalContext(dict(env))).transform(cfg.formula_ast)
  except Exception as e: return "failed", e
  return ("number", float(r)) if isinstance(r, (int, float)) else ("failed", r)

def same(a, b): return a == b or (a != a and b != b)

def compare(text, t, env, ctx):
  full = env | {"pi": math.pi, "e": math.e}
  kind, got = evaluate(text, env)
  if kind == "rejected": raise Violation(f"{text!r} is rejected: {got!r}", key="rejected")
  try: want = ev(t, full)
  except Unclear: ctx.label("unclear truth value"); return
  except Undefined:
    ctx.label("undefined")
    if kind == "number" and math.isfinite(got): raise Violation(f"{text!r} with {env!r} has no value, got {got!r}", key="value")
    return
  ctx.hit()
  if kind != "number" or not same(got, want): raise Violation(f"{text!r} with {env!r} is {want!r}, got {got!r}", key="value")

def formula_cases(): return st.fixed_dictionaries({"tree": tree(), "env": values, "spaces": spaces})
def run_formula(case, ctx):
  toks = []
  write(case["tree"], toks)
  text = spaced(toks, case["spaces"])
  t = parse(tokens(text), set(VARS) | {"pi", "e"})
  if strip(t) != strip(case["tree"]): raise AssertionError(f"the reference parser reads {text!r} as {t}")
  for k in {"**", "&", "?", "!", "<", "%"}: ctx.label(f"has {k}") if k in toks else None
  compare(text, t, case["env"], ctx)
def strip(t):
  if t[0] == "group": return strip(t[1])
  if t[0] == "fn": return ["fn", t[1], [strip(a) for a in t[2]]]
  return [strip(x) if isinstance(x, (list, tuple)) else x for x in t]

SOUP = ["1", "2.5", "x", "y", "pi", "(", ")", "+", "-", "*", "/", "**", "!", "<", "==", "&", "?", ":", ",", "sin", "max", "=", "#", "[", "\"a\"", ".", "1e", "unknown", "__init__", "__class__", "default_input_map", "__getitem__", "__dict__", "input_map", "getattr", "exec", "lambda", ";", "\n", "and", "not"]
@st.composite
def text_cases(draw):
  if draw(st.integers(0, 2)) == 0: toks = draw(st.lists(st.sampled_from(SOUP), max_size=7))
  else:
    toks = []
    write(draw(tree()), toks)
    for _ in range(draw(st.integers(1, 2))):
      i = draw(st.integers(0, len(toks)))
      how = draw(st.sampled_from(["insert", "delete", "replace", "call", "swap"]))
      if how == "insert": toks[i:i] = [draw(st.sampled_from(SOUP))]
      elif how == "delete": toks[i:i + 1] = []
      elif how == "replace": toks[i:i + 1] = [draw(st.sampled_from(SOUP))]
      elif how == "call": toks[i:i] = [draw(st.sampled_from(["__init__", "__getitem__", "default_input_map", "__repr__", "input_map", "__class__", "x", "pi", "__module__", "Sin", "pow", "len"])), "(", "1", ")"]
      else: toks[i:i + 2] = reversed(toks[i:i + 2])
  return {"text": spaced(toks, draw(spaces)), "env": draw(values)}
def run_text(case, ctx):
  text = case["text"]
  toks = tokens(text)
  try: t = parse(toks, set(VARS) | {"pi", "e"}) if toks else None
  except Bad: t = None
  if t is not None:
    ctx.label("valid")
    return compare(text, t, case["env"], ctx)
  ctx.hit(); ctx.label("invalid")
  kind, got = evaluate(text, case["env"])
  if kind == "number": raise Violation(f"{text!r} is not a formula, but evaluates to {got!r}", key="accepted")
  if kind == "failed": raise Violation(f"{text!r} is not a formula, but accepted: {got!r}", key="accepted")

SUBS = [
  Sub("formulas", formula_cases, run_formula, 2200, 60000, "formulas of up to 9 leaves with only the parentheses the precedence requires, generated spacing and variables; non-trivial: it has a value"),
  Sub("texts", text_cases, run_text, 2200, 60000, "token soup and mutated formulas; non-trivial: not a formula"),
]
