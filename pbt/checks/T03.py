from ..system import *
from ..web import *
from ..core import Sub, Violation
from ..vloop import vrun
from streamtasks.system.task_web import TaskWebBackend
from streamtasks.asgi import ASGIProxyApp
import asyncio, os, shutil, tempfile, uuid

TECHNIQUE = "property-based testing (Hypothesis): generated histories of management requests, restarts and running deployments against a dictionary model"
NOTE = "Random search with shrinking in virtual time over the real HTTP interface on the network, with the real task manager and files on disk; numbers are finite."

def uid(kind, i): return str(uuid.UUID(int=(kind << 64) + i + 1, version=4))
TASK = {"task_host_id": "h", "label": "", "config": {"a": 1}, "frontend_config": {}, "inputs": [], "outputs": [{"topic_id": 1}]}
def cases():
  i = st.integers(0, 3)
  d = st.integers(0, 2)
  text = st.one_of(st.text(alphabet=st.characters(exclude_categories=["Cs"]), max_size=6), st.sampled_from(["a", "b"]))
  jv = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-2**70, 2**70), st.floats(allow_nan=False, allow_infinity=False), text), lambda s: st.one_of(st.lists(s, max_size=2), st.dictionaries(text, s, max_size=2)), max_leaves=4)
  obj = st.dictionaries(text, jv, max_size=2)
  meta = st.dictionaries(text, st.one_of(st.booleans(), st.integers(-5, 2**40), st.floats(-1e3, 1e3), text), max_size=2)
  outs = st.lists(st.tuples(meta, st.one_of(st.integers(1, 9), st.integers(1, 9).map(str))).map(lambda t: {**t[0], "topic_id": t[1]}), max_size=2)
  task = st.fixed_dictionaries({"task_host_id": text, "label": text, "config": obj, "frontend_config": obj, "inputs": st.lists(meta, max_size=2), "outputs": outs})
  f = st.floats(-1e6, 1e6)
  windows = st.lists(st.fixed_dictionaries({"task_id": i.map(lambda n: uid(2, n)), "x": f, "y": f, "width": f, "height": f}), max_size=2)
  op = st.one_of(
    st.tuples(st.just("post"), d, text), st.tuples(st.just("post"), d, text), st.tuples(st.just("put"), d, text), st.tuples(st.just("del"), d),
    st.tuples(st.just("task"), i, d, task), st.tuples(st.just("task"), i, d, task), st.tuples(st.just("task"), i, d, task), st.tuples(st.just("deltask"), i),
    st.tuples(st.just("board"), i, d, text, windows), st.tuples(st.just("delboard"), i),
    st.tuples(st.just("schedule"), d), st.tuples(st.just("schedule"), d), st.tuples(st.just("stop"), d),
    st.tuples(st.just("restart")), st.tuples(st.just("bad"), st.integers(0, 8)),
  ).map(list)
  return st.fixed_dictionaries({"deployments": st.sampled_from([[], [0, 1, 2], [0, 1, 2], [0, 1, 2]]), "tasks": st.lists(d, max_size=4), "running": st.lists(d, max_size=2), "ops": st.lists(op, min_size=4, max_size=20)})

def run(case, ctx):
  base = tempfile.mkdtemp(prefix="t03-")
  old = os.environ["DATA_DIR"]
  os.environ["DATA_DIR"] = base
  try:
    with quiet(): vrun(lambda: main(case, ctx))
  finally:
    os.environ["DATA_DIR"] = old
    shutil.rmtree(base)

async def main(case, ctx):
  S = await System().start_system({"hops": [], "eps": [[{"kind": "plain", "d1": [0], "d2": [0]}, 0]]}, 0)
  async def open_backend():
    w = TaskWebBackend()
    t = await S.attach(w, 0)
    await settle(3)
    client = Client(await S.switches[0].add_local_connection())
    client.start()
    await client.request_address()
    address = await asyncio.wait_for(wait_name(client, NetworkAddressNames.TASK_MANAGER_WEB), 1000)
    return w, t, ASGIProxyApp(client, address)
  w, wt, app = await open_backend()
  deployments, tasks, boards, running = {}, {}, {}, set()
  def same(a, b):
    """Equality of JSON values, numbers by value and type."""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str): return a is b or (type(a) is type(b) and a == b)
    if isinstance(a, dict) and isinstance(b, dict): return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(map(same, a, b))
    return not isinstance(a, (dict, list)) and not isinstance(b, (dict, list)) and a == b
  def compare(what, got, want):
    got = sorted(got, key=lambda x: x["id"]); want = sorted(want, key=lambda x: x["id"])
    if not same(got, want): raise Violation(f"{what}: {got}, stored: {want}")
  async def ask(method, path, data=None):
    return await json_request(app, method, path, data)
  async def expect(ok, method, path, data=None):
    status, value = await ask(method, path, data)
    if ok and status != 200: raise Violation(f"{method} {path} {data} was answered with {status}")
    if not ok and status not in (400, 404): raise Violation(f"{method} {path} {data} was not refused but answered with {status} {value}")
    if not ok: ctx.label("refused")
    return value
  def shown(i): return {**deployments[i], "status": "scheduled" if i in running else "offline"}
  async def check():
    got = await expect(True, "GET", "/api/deployments")
    compare("deployments", got, [shown(i) for i in deployments])
    for i in range(3):
      d = uid(1, i)
      value = await expect(i in deployments, "GET", f"/api/deployment/{d}")
      if i in deployments: compare("deployment", [value], [shown(i)])
      got = await expect(True, "GET", f"/api/deployment/{d}/tasks")
      for t in got:
        inst = t.pop("task_instance", None)
        if i not in running and inst is not None: raise Violation(f"a task of a deployment that is not running has an instance: {inst}")
        if i in running and (inst is None or inst["status"] != "scheduled" or inst["host_id"] != t["task_host_id"]): raise Violation(f"a task of a scheduled deployment has the instance {inst}")
      compare(f"tasks of {i}", got, [t for t in tasks.values() if t["deployment_id"] == d])
      got = await expect(True, "GET", f"/api/deployment/{d}/dashboards")
      compare(f"dashboards of {i}", got, [b for b in boards.values() if b["deployment_id"] == d])
    for i in range(4):
      value = await expect(i in boards, "GET", f"/api/dashboard/{uid(3, i)}")
      if i in boards: compare("dashboard", [value], [boards[i]])
    for wk, t in S.run_tasks:
      if t.done() and t is not wt and not t.cancelled(): raise Violation(f"{type(wk).__name__} ended: {t}")
  for op, *a in [["post", i, "d"] for i in case["deployments"]] + [["task", i, d, TASK] for i, d in enumerate(case["tasks"])] + [["schedule", d] for d in case["running"]] + case["ops"]:
    ctx.trace(op, *a)
    if op == "post":
      new = {"id": uid(1, a[0]), "label": a[1]}
      await expect(a[0] not in deployments, "POST", "/api/deployment", new)
      if a[0] not in deployments: deployments[a[0]] = new
    elif op == "put":
      new = {"id": uid(1, a[0]), "label": a[1]}
      ok = a[0] in deployments and a[0] not in running
      await expect(ok, "PUT", "/api/deployment", new)
      if ok: deployments[a[0]] = new
      ctx.hit(a[0] in running)
    elif op == "del":
      if a[0] not in deployments and a[0] not in running: continue     # deleting what is not there is fine either way
      await expect(a[0] not in running, "DELETE", f"/api/deployment/{uid(1, a[0])}")
      if a[0] not in running: deployments.pop(a[0])
      ctx.hit(a[0] in running)
    elif op == "task":
      new = {"id": uid(2, a[0]), "deployment_id": uid(1, a[1]), **a[2]}
      was = tasks.get(a[0])
      ok = a[1] not in running and (was is None or was["deployment_id"] not in [uid(1, r) for r in running])
      await expect(ok, "PUT", "/api/task", new)
      if ok: tasks[a[0]] = new
      ctx.hit(not ok)
    elif op == "deltask":
      was = tasks.get(a[0])
      ok = was is not None and was["deployment_id"] not in [uid(1, r) for r in running]
      await expect(ok, "DELETE", f"/api/task/{uid(2, a[0])}")
      if ok: tasks.pop(a[0])
      ctx.hit(not ok and was is not None)
    elif op == "board":
      new = {"id": uid(3, a[0]), "deployment_id": uid(1, a[1]), "label": a[2], "windows": a[3]}
      await expect(True, "PUT", "/api/dashboard", new)
      boards[a[0]] = new
    elif op == "delboard":
      if a[0] not in boards: continue
      await expect(True, "DELETE", f"/api/dashboard/{uid(3, a[0])}")
      boards.pop(a[0])
    elif op == "schedule":
      ok = a[0] in deployments and a[0] not in running
      await expect(ok, "POST", f"/api/deployment/{uid(1, a[0])}/schedule")
      if ok: running.add(a[0])
    elif op == "stop":
      ok = a[0] in running
      await expect(ok, "POST", f"/api/deployment/{uid(1, a[0])}/stop")
      running.discard(a[0])
    elif op == "restart":
      for r in sorted(running): await expect(True, "POST", f"/api/deployment/{uid(1, r)}/stop")
      running.clear()
      wt.cancel()
      await asyncio.wait([wt], timeout=100)
      await settle(5)
      w, wt, app = await open_backend()
      ctx.hit(bool(deployments or tasks or boards))
      ctx.label("restart")
    elif op == "bad":
      method, path, data = [("GET", "/api/deployment/x", None), ("PUT", "/api/task", {"id": uid(2, 0), "deployment_id": uid(1, 0)}), ("PUT", "/api/task", []), ("POST", "/api/deployment", {"id": "x", "label": "a"}),
        ("POST", "/api/deployment", {"id": uid(1, 0)}), ("PUT", "/api/dashboard", {"id": uid(3, 0), "deployment_id": uid(1, 0), "label": "x", "windows": [{"x": 1}]}), ("DELETE", "/api/deployment/zzz", None),
        ("POST", "/api/deployment/zzz/schedule", None), ("POST", f"/api/deployment/{uid(1, 99)}/start", None)][a[0]]
      await expect(False, method, path, data)
    await check()

SUBS = [Sub("requests", cases, run, quick=300, thorough=8000, rule="A case is non-trivial if the store was reopened with something in it, or a change to something running was attempted.")]
