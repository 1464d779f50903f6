from ..system import *
from ..web import *
from ..core import Sub, Violation
from ..vloop import vrun
from streamtasks.system.task_web import TaskWebBackend
from streamtasks.asgi import ASGIProxyApp
from streamtasks.client.discovery import get_topic_space
from streamtasks.client.fetch import FetchError
import asyncio, json, os, shutil, tempfile, uuid

TECHNIQUE = "property-based testing (Hypothesis): generated histories of scheduling, starting and stopping deployments while tasks end, fail and hosts leave, against a model of every task run"
NOTE = "Random search with shrinking in virtual time over the real HTTP interface, task manager, discovery service and task hosts on random networks."

class SpaceHost(ScriptHost):
  def __init__(self, *a, **kw):
    super().__init__(*a, **kw)
    self.runs = []           # [n, topic space, events]
  async def create_task(self, config, topic_space_id):
    self.runs.append([config["n"], topic_space_id, []])
    return await super().create_task(config, topic_space_id)
  def record(self, n, what, data): next(r for r in reversed(self.runs) if r[0] == n)[2].append(what)

def uid(kind, i): return str(uuid.UUID(int=(kind << 64) + i + 1, version=4))
def cases():
  d = st.integers(0, 1)
  cfg = st.fixed_dictionaries({
    "dur": st.sampled_from([None, None, None, 0, 0.5, 30, 100, -1]), "fail": st.sampled_from([None, None, "boom", ""]),
    "cleanup": st.sampled_from([0, 0, 0.4]), "setup_delay": st.sampled_from([0, 0, 0, 0.3, 5]),
    "setup_fail": st.sampled_from([None, None, None, None, "no setup"]), "create_fail": st.sampled_from([None, None, None, None, None, "no task"]),
    "metadata": st.dictionaries(st.sampled_from(["a", "b"]), st.integers(0, 9), max_size=2)})
  task = st.tuples(st.integers(0, 2), cfg, st.lists(st.integers(1, 4), max_size=2, unique=True)).map(list)
  op = st.one_of(*[st.tuples(st.sampled_from(["go", "go", "go", "schedule", "start", "stop"]), d, st.booleans())] * 5,
    st.tuples(st.just("twice"), d, st.sampled_from(["schedule", "start", "stop"])),
    st.tuples(st.just("watch"), d), st.tuples(st.just("leave"), st.integers(0, 2)), st.tuples(st.just("put"), d),
    st.tuples(st.just("wait"), d)).map(list)
  return st.fixed_dictionaries({"net": net_strategy(n_clients=(1, 1)), "hosts": st.integers(1, 3), "web": st.integers(0, 2), "registered": st.sampled_from([3, 3, 3, 1]),
    "deployments": st.lists(st.lists(task, min_size=1, max_size=3), min_size=2, max_size=2),
    "ops": st.lists(st.tuples(op, st.sampled_from([60, 60, 60, 5, 0])).map(list), min_size=4, max_size=12)})

def run(case, ctx):
  base = tempfile.mkdtemp(prefix="t04-")
  old = os.environ["DATA_DIR"]
  os.environ["DATA_DIR"] = base
  try:
    with quiet(): vrun(lambda: main(case, ctx))
  finally:
    os.environ["DATA_DIR"] = old
    shutil.rmtree(base)

async def main(case, ctx):
  S = await System().start_system(case["net"], case["hosts"], host_base=SpaceHost)
  away, c0 = set(), S.clients[0]
  for h, host in enumerate(S.hosts):
    if h < case["registered"]: await host.register()
    else: away.add(h)
  w = TaskWebBackend()
  await S.attach(w, case["web"])
  address = await asyncio.wait_for(wait_name(c0, NetworkAddressNames.TASK_MANAGER_WEB), 1000)
  await settle(20)                 # it is known to be there slightly before it serves
  app = ASGIProxyApp(c0, address)
  ask = lambda method, path, data=None: json_request(app, method, path, data)
  now = asyncio.get_running_loop().time
  specs = {}
  for d, tasks in enumerate(case["deployments"]):
    status, _ = await ask("POST", "/api/deployment", {"id": uid(1, d), "label": f"d{d}"})
    if status != 200: raise Violation(f"creating a deployment: {status}")
    for k, (h, cfg, topics) in enumerate(tasks):
      n = d * 10 + k
      specs[n] = dict(host=h % len(S.hosts), cfg={**cfg, "n": n}, d=d, id=uid(2, n))
      status, _ = await ask("PUT", "/api/task", {"id": uid(2, n), "deployment_id": uid(1, d), "task_host_id": S.hosts[h % len(S.hosts)].id, "label": "", "config": specs[n]["cfg"], "frontend_config": {}, "inputs": [], "outputs": [{"topic_id": 2000 + t} for t in topics]})
      if status != 200: raise Violation(f"creating a task: {status}")
  state = {0: "offline", 1: "offline"}
  runs = {}                 # task number -> model of its current run
  spaces = {}               # deployment -> topic space
  used, real = [], {}
  watchers = []
  def elapse():
    for n, r in runs.items():
      if r["status"] == "running" and r["cfg"].get("dur") is not None and now() - r["began"] > r["cfg"]["dur"] + 20:
        f = r["cfg"].get("fail")
        r.update(status="ended" if f is None else "failed", error=f)
  async def calm():
    def due(r): return r["status"] == "running" and r["cfg"].get("dur") is not None and -5 <= now() - r["began"] - r["cfg"]["dur"] <= 21
    while any(due(r) for r in runs.values()): await asyncio.sleep(2)
    elapse()
  def host_runs(n): return [r for r in S.hosts[specs[n]["host"]].runs if r[0] == n]
  def scheduled(d):
    state[d] = "scheduled"
    for n, s in specs.items():
      if s["d"] == d: runs[n] = dict(cfg=s["cfg"], status="scheduled", error=None, before=len(host_runs(n)), meta={})
  def started(d):
    state[d] = "running"
    for n, s in specs.items():
      if s["d"] != d: continue
      r, cfg = runs[n], s["cfg"]
      err = "" if s["host"] in away else cfg.get("create_fail") if cfg.get("create_fail") is not None else "" if cfg.get("setup_delay", 0) > 1 else cfg.get("setup_fail")
      if err is not None: r.update(status="failed", error=err, start_failed=True, nowhere=s["host"] in away); ctx.label("failed start")
      else: r.update(status="running", began=now(), meta=cfg["metadata"]); ctx.hit()
  async def stopped(d):
    state[d] = "offline"
    for n, s in specs.items():
      if s["d"] == d: runs.pop(n)
    sid = spaces.pop(d, None)
    real.pop(d, None)
    if sid is not None:
      try: await get_topic_space(c0, sid)
      except FetchError: pass
      else: raise Violation(f"the topic space {sid} was not released")
    for n, s in specs.items():
      if s["d"] == d:
        for r in host_runs(n):
          if "run" in r[2] and "end" not in r[2]: raise Violation(f"the deployment was stopped but task {n} is still running")
  async def check():
    await settle(40)
    await calm()
    for d in (0, 1):
      code, value = await ask("GET", f"/api/deployment/{uid(1, d)}")
      if code != 200 or value["status"] != state[d]: raise Violation(f"deployment {d} is {state[d]} but reported as {code} {value}")
      code, tasks = await ask("GET", f"/api/deployment/{uid(1, d)}/tasks")
      for n, s in specs.items():
        if s["d"] != d: continue
        inst = next(t for t in tasks if t["id"] == s["id"])["task_instance"]
        r = runs.get(n)
        if r is None:
          if inst is not None: raise Violation(f"task {n} of an offline deployment has the instance {inst}")
          continue
        if inst is None or inst["status"] != r["status"]: raise Violation(f"task {n} is {r['status']} but reported as {inst}")
        if r["error"] is None and inst["error"] is not None or r["error"] and r["error"] not in (inst["error"] or ""): raise Violation(f"task {n} failed with {r['error']!r} but is reported as {inst}")
        if inst["host_id"] != S.hosts[s["host"]].id or (r["status"] == "running" and inst["metadata"] != r["meta"]): raise Violation(f"task {n}: {inst}")
        if spaces.get(d) is None:
          if inst["topic_space_id"] in used: raise Violation(f"the topic space {inst['topic_space_id']} was used before")
          spaces[d] = inst["topic_space_id"]; used.append(spaces[d])
          topics = dict(await get_topic_space(c0, spaces[d]))
          if not {2000 + t for _, _, ts in case["deployments"][d] for t in ts} <= topics.keys(): raise Violation(f"the topic space of deployment {d} does not have all topics of its tasks: {topics}")
          real[d] = set(topics.values())
          if len(real[d]) != len(topics) or any(real[d] & real[e] for e in real if e != d): raise Violation(f"topics of deployments are not kept apart: {real}")
          ctx.label("several topics", len(topics) > 1)
        if inst["topic_space_id"] != spaces[d]: raise Violation(f"the tasks of deployment {d} are in the spaces {spaces[d]} and {inst['topic_space_id']}")
        new = host_runs(n)[r["before"]:]
        if "began" not in r and not r.get("start_failed") or r.get("nowhere"):
          if new: raise Violation(f"task {n} is {r['status']} but was created")
          continue
        if len(new) != 1: raise Violation(f"task {n} was created {len(new)} times in one run of its deployment")
        if new[0][1] != spaces[d]: raise Violation(f"task {n} was started in the topic space {new[0][1]} instead of {spaces[d]}")
        ev = new[0][2]
        if r["status"] == "running" and ev != ["setup", "run"]: raise Violation(f"task {n} is running but {ev}")
        if r.get("start_failed") and "run" in ev: raise Violation(f"task {n} runs although its start failed")
        if r["status"] in ("ended", "failed", "stopped") and "run" in ev and "end" not in ev: raise Violation(f"task {n} is {r['status']} but {ev}")
    for wt in watchers:
      for n, (want, since) in ((n, (runs[n]["status"], runs[n])) for n in runs if runs[n] is wt["runs"].get(n) and runs[n]["status"] in ("ended", "failed", "stopped") and not runs[n].get("start_failed")):
        got = [u["task_instance"]["status"] for u in wt["got"] if u["id"] == specs[n]["id"]]
        if got != [want]: raise Violation(f"task {n} became {want} but a watching websocket was told {got}")
        ctx.label("watched end")
    for wk, t in S.run_tasks:
      if t.done() and not (wk in S.hosts and S.hosts.index(wk) in away): raise Violation(f"{type(wk).__name__} ended: {t}")
  async def post(d, what): return (await ask("POST", f"/api/deployment/{uid(1, d)}/{what}"))[0]
  async def one(d, what):
    if what in ("start", "stop"): await calm()
    ok = {"schedule": "offline", "start": "scheduled"}.get(what, "x") == state[d] or what == "stop" and state[d] != "offline"
    code = await post(d, what)
    if ok and code != 200: raise Violation(f"{what} of the {state[d]} deployment {d} was answered with {code}")
    if not ok and not 400 <= code < 500: raise Violation(f"{what} of the {state[d]} deployment {d} was answered with {code}")
    if not ok: ctx.label("refused"); return
    if what == "schedule": scheduled(d)
    elif what == "start": started(d)
    else: await stopped(d)
  for (op, *a), pause in case["ops"]:
    ctx.trace(op, *a, pause)
    if op in ("schedule", "start", "stop"): await one(a[0], op)
    elif op == "go":
      # the usual order of things, without any pause if so chosen
      if state[a[0]] == "offline":
        await one(a[0], "schedule")
        if a[1]: await settle(5)
        await one(a[0], "start")
      else: await one(a[0], "stop")
    elif op == "twice":
      d, what = a
      if what == "stop": await calm()
      ok = {"schedule": "offline", "start": "scheduled"}.get(what, "x") == state[d] or what == "stop" and state[d] != "offline"
      codes = sorted(await asyncio.gather(post(d, what), post(d, what)))
      ctx.label("twice " + what if ok else "twice refused")
      if ok and (codes[0] != 200 or what != "stop" and not 400 <= codes[1] < 500): raise Violation(f"{what} of the {state[d]} deployment {d}, requested twice at a time, was answered with {codes}")
      if not ok and codes[0] == 200: raise Violation(f"{what} of the {state[d]} deployment {d} was accepted")
      if ok:
        if what == "schedule": scheduled(d)
        elif what == "start": started(d)
        else: await settle(10); await stopped(d)
    elif op == "watch" and state[a[0]] != "offline":
      d = a[0]
      wt = dict(got=[], runs={n: runs[n] for n in runs if specs[n]["d"] == d and runs[n]["status"] in ("scheduled", "running")})
      async def watch(wt=wt, d=d):
        sent = [{"type": "websocket.connect"}]
        async def receive():
          if sent: return sent.pop(0)
          await asyncio.Future()
        async def send(e):
          if e["type"] == "websocket.send": wt["got"].append(json.loads(e["text"]))
        await app(ws_scope(f"/deployment/{uid(1, d)}/task-instances"), receive, send)
      await calm()
      asyncio.create_task(watch())
      await settle(20)
      wt["runs"] = {n: r for n, r in wt["runs"].items() if r["status"] in ("scheduled", "running")}
      watchers.append(wt)
    elif op == "leave":
      h = a[0] % len(S.hosts)
      if h in away: continue
      await settle(20); await calm()
      S.host_tasks[h].cancel()
      await asyncio.wait([S.host_tasks[h]], timeout=100)
      away.add(h)
      for n, r in runs.items():
        if specs[n]["host"] == h and r["status"] in ("scheduled", "running"): r.update(status="stopped", error=None); ctx.label("host left")
      # a task that lost its host before it was started cannot be started
      await settle(20)
    elif op == "put":
      code, _ = await ask("PUT", "/api/deployment", {"id": uid(1, a[0]), "label": "new"})
      if (code == 200) != (state[a[0]] == "offline"): raise Violation(f"changing the {state[a[0]]} deployment {a[0]} was answered with {code}")
    await asyncio.sleep(pause)
    if pause == 60: await check()
  await check()

SUBS = [Sub("deployments", cases, run, quick=450, thorough=9000, rule="A case is non-trivial if some task of a deployment was running.")]
