"""Check runner: generation with Hypothesis in several worker processes, shrinking, replay
files, known findings, evidence."""
from . import boot
import base64
import gc
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import time
import traceback
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, Callable

class Violation(Exception):
  """The property is broken. `key` identifies the failing call site / history for known findings."""
  def __init__(self, msg, key=None):
    super().__init__(msg)
    self.key = key

class CaseHang(BaseException): pass

RESOURCES = (MemoryError, ImportError, BlockingIOError, ChildProcessError, PermissionError, SyntaxError)

class Ctx:
  """Handed to a case: collects labels and whether the case was non-trivial."""
  def __init__(self):
    self.labels = Counter()
    self.nontrivial = False
    self.log = []
  def label(self, name, n=1): self.labels[name] += n
  def hit(self, cond=True):
    if cond: self.nontrivial = True
  def trace(self, *a):
    if len(self.log) < 400: self.log.append(" ".join(str(x) for x in a))

@dataclass
class Sub:
  """One generated search: `strategy()` makes JSON-able cases, `run(case, ctx)` judges one."""
  name: str
  strategy: Callable[[], Any]
  run: Callable[[Any, Ctx], None]
  quick: int = 400
  thorough: int = 8000
  rule: str = ""
  hang_s: float = 20
  workers: int = 6
  exact: list = field(default_factory=list)     # fixed cases always run first
  flaky_retries: int = 2                        # confirmation attempts in fresh processes
  own_exceptions_ok: tuple = ()

class Enc(json.JSONEncoder):
  def default(self, o):
    if isinstance(o, (bytes, bytearray, memoryview)): return {"__b": base64.b64encode(bytes(o)).decode()}
    if isinstance(o, (set, frozenset)): return {"__s": sorted(o, key=repr)}
    return repr(o)

def _tag(o):
  # tuples are generated as lists by convention; floats keep repr (json handles nan/inf)
  if isinstance(o, dict):
    d = {k: _tag(v) for k, v in o.items()}
    return {"__d": list(d.items())} if len(d) == 1 and next(iter(d)) in ("__b", "__s", "__d") else d
  if isinstance(o, (list, tuple)): return [_tag(x) for x in o]
  return o

def dumps(o, **kw): return json.dumps(_tag(o), cls=Enc, **kw)
def _hook(d):
  if set(d) == {"__b"}: return base64.b64decode(d["__b"])
  if set(d) == {"__s"}: return set(d["__s"])
  if set(d) == {"__d"}: return dict(d["__d"])
  return d
def loads(s): return json.loads(s, object_hook=_hook)

def digest(case): return hashlib.sha1(dumps(case, sort_keys=True).encode()).hexdigest()[:16]

def _norm(case): return loads(dumps(case))

# ------------------------------------------------------------------ executing one case
def _alarm(*_): raise CaseHang()

def from_repo(e):
  """True if the exception was raised below a frame of the code under test."""
  tb = e.__traceback__
  last = None
  while tb is not None:
    fn = tb.tb_frame.f_code.co_filename
    if fn.startswith(boot.REPO + "/") or fn.startswith(boot.VERIF + "/pbt"): last = fn
    tb = tb.tb_next
  return last is not None and last.startswith(boot.REPO + "/")

def describe(e):
  tb = traceback.extract_tb(e.__traceback__)
  frames = [f for f in tb if f.filename.startswith(boot.REPO + "/")]
  where = f" at {frames[-1].filename}:{frames[-1].lineno} ({frames[-1].name})" if frames else ""
  return f"{type(e).__name__}: {str(e)[:1500]}{where}"

def execute(sub, case, ctx, hang_s=None):
  """Runs one case. Returns None, or ('violation', text, key) / ('harness', text)."""
  from .vloop import Deadlock, Livelock
  hang = hang_s or sub.hang_s
  old = signal.signal(signal.SIGALRM, _alarm)
  signal.setitimer(signal.ITIMER_REAL, hang, 3)
  try:
    try:
      sub.run(case, ctx)
      return None
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
  except Violation as e: return ("violation", str(e), e.key)
  except CaseHang: return ("hang", f"did not terminate within {hang} s of computing", "hang")
  except Deadlock as e: return ("violation", f"deadlock: {e}", "deadlock")
  except Livelock as e: return ("violation", f"endless activity: {e}", "livelock")
  except (KeyboardInterrupt, SystemExit): raise
  except BaseException as e:
    if type(e).__module__.startswith("hypothesis"): raise
    if from_repo(e): return ("violation", "unexpected exception " + describe(e), "exc:" + type(e).__name__)
    text = "".join(traceback.format_exception(e))[-4000:]
    if isinstance(e, RESOURCES): return ("harness", text)
    # the harness could not make sense of what the code under test handed it (a missing reply, a
    # value of another type): on a tree where the property holds no case ends like this
    return ("violation", "the observed behaviour could not be judged:\n" + text, "unjudged:" + type(e).__name__)
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, old)

# ------------------------------------------------------------------ known findings
def load_findings(pid):
  path = os.path.join(boot.VERIF, "known_findings.jsonl")
  out = []
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith("{"):
        d = json.loads(line)
        if d.get("property") == pid and d.get("kind") == "finding": out.append(d)
  return out

def match_finding(findings, sub, text, key):
  for f in findings:
    if f["check"] == sub.name and key is not None and f["key"] == key: return f
  return None

# ------------------------------------------------------------------ worker
def _worker(sub, idx, seed, count, findings, deadline, shrink_s, conn):
  import warnings; warnings.simplefilter("ignore")
  from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
  from hypothesis.errors import HypothesisException
  gc.disable()
  os.dup2(os.open(os.devnull, os.O_WRONLY), 2)     # libraries of the code under test report there
  scratch = os.path.join(boot.SCRATCH, f"w{os.getpid()}")
  os.makedirs(os.path.join(scratch, "data"), exist_ok=True)
  os.environ["TMPDIR"] = scratch
  current = os.path.join(boot.SCRATCH, f"current-{os.getpid()}")   # names the case if the process dies in native code
  os.environ["DATA_DIR"] = os.path.join(scratch, "data")
  import tempfile; tempfile.tempdir = scratch
  st = {"evals": 0, "labels": Counter(), "distinct": set(), "samples": [], "known": {}, "skipped": 0}
  best = {"case": None, "size": 1 << 60, "res": None, "first": None, "t0": None}
  before = []                                      # the cases this process ran before the first failure
  harness = []

  def one(case, counting):
    if counting: st["evals"] += 1
    ctx = Ctx()
    res = execute(sub, case, ctx)
    if counting:
      st["labels"].update(ctx.labels.keys())
      if ctx.nontrivial:
        h = digest(case)
        if h not in st["distinct"]:
          st["distinct"].add(h)
          if len(st["samples"]) < 2 and len(st["distinct"]) % 7 == 3:
            st["samples"].append({"sub": sub.name, "case": dumps(case)[:1500]})
    if st["evals"] % 40 == 0: gc.collect()
    if res is None: return None
    if res[0] == "harness":
      harness.append(res[1])
      return res
    f = match_finding(findings, sub, res[1], res[2])
    if f is not None:
      st["known"][f["id"]] = res[1]
      return None
    return res

  class Found(Exception): pass

  def body(case):
    if best["case"] is None and time.time() > deadline:
      st["skipped"] += 1
      return
    if harness: raise Found()
    if best["t0"] is not None and time.time() > best["t0"] + shrink_s: return
    text = dumps(case)
    with open(current, "w") as fd: fd.write(text)
    case = loads(text)
    if best["case"] is None: before.append(text)
    res = one(case, best["case"] is None)
    if res is None: return
    if res[0] == "harness": raise Found()
    size = len(dumps(case))
    if best["case"] is None: best["first"], best["t0"] = case, time.time()
    if size <= best["size"]: best.update(case=case, size=size, res=res)
    raise Found()

  try:
    if idx == 0:
      for case in sub.exact:
        try: body(case)
        except Found: break
    if best["case"] is None and not harness:
      strat = sub.strategy()
      test = given(strat)(body)
      test = settings(max_examples=count, database=None, deadline=None, print_blob=False,
        report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink])(test)
      test = hseed(seed * 1000003 + idx * 7919 + int(hashlib.sha1(sub.name.encode()).hexdigest()[:6], 16))(test)
      try: test()
      except Found: pass
      except (HypothesisException, BaseExceptionGroup) as e:
        if best["case"] is None and not harness: harness.append("hypothesis: " + "".join(traceback.format_exception(e))[-3000:])
  except BaseException as e:
    if best["case"] is None: harness.append("".join(traceback.format_exception(e))[-4000:])
  gc.collect()
  shutil.rmtree(scratch, ignore_errors=True)
  out = {"sub": sub.name, "idx": idx, "evals": st["evals"], "labels": dict(st["labels"]), "distinct": list(st["distinct"]),
    "samples": st["samples"], "known": st["known"], "skipped": st["skipped"], "harness": harness[:1],
    "fail": None if best["case"] is None else {"case": dumps(best["case"]), "first": dumps(best["first"]), "text": best["res"][1], "kind": best["res"][0], "key": best["res"][2], "before": before}}
  conn.send_bytes(json.dumps(out, default=repr).encode())
  conn.close()
  os._exit(0)

def _spawn(ctx, target, args):
  r, w = ctx.Pipe(duplex=False)
  p = ctx.Process(target=target, args=(*args, w), daemon=True)
  p.start()
  w.close()
  return p, r

def _confirm_worker(sub, case, hang_s, conn):
  gc.disable()
  ctx = Ctx()
  res = execute(sub, loads(case), ctx, hang_s)
  conn.send_bytes(json.dumps({"res": res, "log": ctx.log}, default=repr).encode())
  conn.close()
  os._exit(0)

def _confirm(mpctx, sub, case, kind):
  """Runs a failing case again in a fresh process; returns (result, log) or None."""
  for _ in range(max(1, sub.flaky_retries)):
    hang = sub.hang_s * (3 if kind == "hang" else 1)
    p, r = _spawn(mpctx, _confirm_worker, (sub, case, hang))
    data = None
    if r.poll(hang * 2 + 60):
      try: data = json.loads(r.recv_bytes())
      except EOFError: data = {"res": ["violation", "the process died while running the case", "crash"], "log": []}
    p.kill(); p.join()
    if data and data["res"] and data["res"][0] in ("violation", "hang"): return data
  return None

def _series_worker(sub, cases, hang_s, findings, conn):
  gc.disable()
  os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
  scratch = os.path.join(boot.SCRATCH, f"w{os.getpid()}")
  os.makedirs(os.path.join(scratch, "data"), exist_ok=True)
  os.environ["TMPDIR"], os.environ["DATA_DIR"] = scratch, os.path.join(scratch, "data")
  import tempfile; tempfile.tempdir = scratch
  out = None
  for n, case in enumerate(cases, 1):
    ctx = Ctx()
    res = execute(sub, loads(case), ctx, hang_s)
    if n % 40 == 0: gc.collect()
    if res is not None and match_finding(findings, sub, res[1], res[2]) is None:
      out = {"res": res, "log": ctx.log, "n": n}
      break
  shutil.rmtree(scratch, ignore_errors=True)
  conn.send_bytes(json.dumps(out, default=repr).encode())
  conn.close()
  os._exit(0)

def _confirm_series(mpctx, sub, findings, cases, budget_s):
  """Runs cases one after another in one fresh process; returns (result, log, n) or None."""
  p, r = _spawn(mpctx, _series_worker, (sub, cases, sub.hang_s, findings))
  data = None
  if r.poll(budget_s):
    try: data = json.loads(r.recv_bytes())
    except EOFError: pass
  p.kill(); p.join()
  return data if data and data["res"][0] == "violation" else None

def _find_series(mpctx, sub, findings, cases, budget_s):
  """A failure that needs what earlier cases left behind in the process: the shortest series found that shows it."""
  t0 = time.time()
  left = lambda: max(1, budget_s - (time.time() - t0))
  best = None
  n = 2
  while True:
    got = _confirm_series(mpctx, sub, findings, cases[-n:], left())
    if got:
      best = cases[-n:][:got["n"]], got
      break
    if n >= len(cases) or time.time() - t0 > budget_s: return None
    n *= 4
  step = max(1, (len(best[0]) - 1) // 2)
  while step and time.time() - t0 < budget_s / 2:
    i = 0
    while i < len(best[0]) - 1 and time.time() - t0 < budget_s / 2:
      some = best[0][:i] + best[0][min(i + step, len(best[0]) - 1):]
      got = _confirm_series(mpctx, sub, findings, some, left())
      if got: best = some[:got["n"]], got
      else: i += step
    step //= 2
  return best

def run_check(pid, subs, tier, seed, only=None, replay=None, scale=1.0):
  t_start = time.time()
  mpctx = mp.get_context("fork")
  findings = load_findings(pid)
  by_name = {s.name: s for s in subs}
  if replay:
    d = json.load(open(replay))
    sub = by_name[d["check"]]
    if "series" in d: got = _confirm_series(mpctx, sub, findings, [dumps(c) if not isinstance(c, str) else c for c in d["series"]], 600)
    else: got = _confirm(mpctx, sub, dumps(d["case"]) if not isinstance(d["case"], str) else d["case"], "violation")
    if got:
      for l in got["log"]: print("  ", l)
      print(f"  {got['res'][1]}")
      print(f"VIOLATION property={pid} replay={replay}")
      return 1
    print("replay: property holds on this case")
    return 0
  if only: subs = [s for s in subs if s.name in only]
  quick = tier == "quick"
  soft = float(os.environ.get("VERIF_SOFT_S", 330 if quick else 3300))
  deadline = t_start + soft
  shrink_s = float(os.environ.get("VERIF_SHRINK_S", 40 if quick else 240))
  par = int(os.environ.get("VERIF_JOBS", min(8, os.cpu_count() or 4)))
  jobs = []
  for s in subs:
    total = max(1, int((s.quick if quick else s.thorough) * scale))
    w = max(1, min(s.workers, total))
    for i in range(w): jobs.append((s, i, -(-total // w)))
  jobs.sort(key=lambda j: (j[1], j[0].name))
  running, results, failed = {}, [], None
  errors = []
  from multiprocessing.connection import wait as cwait
  while (jobs or running) and failed is None and not errors:
    while jobs and len(running) < par:
      s, i, n = jobs.pop(0)
      p, r = _spawn(mpctx, _worker, (s, i, seed, n, findings, deadline, shrink_s))
      running[r] = (p, s, i, time.time())
    for r in cwait(list(running), timeout=5):
      p, s, i, t0 = running.pop(r)
      try:
        out = json.loads(r.recv_bytes())
        results.append(out)
        if out["fail"]: failed = (s, out["fail"])
        elif out["harness"]: errors.append(f"[{s.name}] {out['harness'][0]}")
      except EOFError:
        p.join(5)
        current = os.path.join(boot.SCRATCH, f"current-{p.pid}")
        if p.exitcode is not None and p.exitcode < 0 and p.exitcode != -signal.SIGKILL and os.path.exists(current):
          case = open(current).read()
          failed = (s, {"case": case, "first": case, "text": f"the process died with signal {-p.exitcode} while running the case", "kind": "crash", "key": "crash"})
        else: errors.append(f"[{s.name}] worker {i} died with code {p.exitcode}")
      p.join(5)
      if failed or errors: break
    if time.time() > deadline + 300:
      errors.append("workers did not finish in time")
  for r, (p, *_rest) in running.items():
    p.kill(); p.join()
  rc = 0
  violations = []
  if failed:
    s, f = failed
    got = _confirm(mpctx, s, f["case"], f["kind"])
    case = f["case"]
    if not got:
      case = f["first"]
      got = _confirm(mpctx, s, case, f["kind"])
    series = None
    if not got and f["kind"] == "violation" and len(f.get("before", [])) > 1:
      found = _find_series(mpctx, s, findings, f["before"], 120)
      if found:
        series, got = found
        case = series[-1]
    if got:
      os.makedirs(os.path.join(boot.VERIF, "replays"), exist_ok=True)
      path = os.path.join(boot.VERIF, "replays", f"{pid}-{s.name}-{hashlib.sha1(case.encode()).hexdigest()[:10]}.json")
      with open(path, "w") as fd:
        json.dump({"property": pid, "check": s.name, "case": json.loads(case), "text": got["res"][1], "key": got["res"][2], "seed": seed, "log": got["log"],
          **({"series": [json.loads(c) for c in series]} if series else {})}, fd, indent=1)
      print(f"[{pid}/{s.name}] {got['res'][1]}")
      if series: print(f"  needs what {len(series) - 1} earlier case(s) left behind in the process")
      print(f"  case: {case[:2000]}")
      for l in got["log"][-60:]: print("  |", l)
      print(f"VIOLATION property={pid} replay={path}")
      violations.append({"check": s.name, "text": got["res"][1][:2000], "replay": path})
      rc = 1
    else:
      errors.append(f"[{s.name}] a failure did not reproduce: {f['text']} case {f['case'][:1500]}")
  known = {}
  for out in results: known.update(out["known"])
  for f in findings:
    print(f"KNOWN-FINDING: property={pid} {f['what']}" + ("" if f["id"] in known else " (listed; not exercised by this run)"))
  labels = Counter(); distinct = 0; evals = 0; samples = []; per = {}
  seen = set()
  for out in results:
    evals += out["evals"]
    d = per.setdefault(out["sub"], {"evaluations": 0, "distinct_nontrivial": 0, "labels": Counter(), "skipped_for_time": 0})
    d["evaluations"] += out["evals"]
    d["skipped_for_time"] += out["skipped"]
    d["labels"].update(out["labels"])
    for h in out["distinct"]:
      if (out["sub"], h) not in seen:
        seen.add((out["sub"], h))
        d["distinct_nontrivial"] += 1
    if sum(1 for x in samples if x["sub"] == out["sub"]) < 2: samples += out["samples"]
  for d in per.values(): d["labels"] = dict(d["labels"].most_common(40))
  ev = {
    "property": pid, "tier": tier, "seed": seed, "level": "exploration",
    "coverage": {
      "evaluations": evals, "distinct_nontrivial": len(seen),
      "rule": " ".join(f"[{s.name}] {s.rule}" for s in subs),
      "samples": samples[:8], "per_check": per,
    },
    "violations": violations,
    "known_findings_seen": known,
    "wall_s": round(time.time() - t_start, 2),
  }
  if errors: ev["errors"] = errors[:3]
  os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
  with open(os.path.join(boot.VERIF, "evidence", f"{pid}.json"), "w") as fd: json.dump(ev, fd, indent=1)
  for s in subs:
    d = per.get(s.name)
    if d: print(f"{pid}/{s.name}: {d['evaluations']} cases, {d['distinct_nontrivial']} distinct non-trivial" + (f", {d['skipped_for_time']} skipped for time" if d["skipped_for_time"] else ""))
  if rc == 0 and errors:
    for e in errors: print("HARNESS ERROR", e, file=sys.stderr)
    return 2
  if rc == 0: print(f"OK property={pid} tier={tier} seed={seed} evaluations={evals} nontrivial={len(seen)} wall={ev['wall_s']}s")
  return rc
