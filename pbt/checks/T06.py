from ..system import *
from ..web import *
from ..core import Sub, Violation
from ..vloop import vrun
from streamtasks.system.named_topic_manager import NamedTopicManager
from streamtasks.system.secret_manager import SecretManager, SecretManagerClient
from streamtasks.client.fetch import FetchError
from streamtasks.asgi import ASGIProxyApp
import asyncio, json, os, shutil, tempfile, uuid

TECHNIQUE = "property-based testing (Hypothesis): generated histories of requests over both interfaces, concurrent resolutions and restarts of both services against a dictionary model"
NOTE = "Random search with shrinking in virtual time with both services on one simulated network and their files on disk; topic ids need not survive a restart of the service."

SECRETS = [str(uuid.UUID(int=i + 1, version=4)) for i in range(3)]
NAMES = ["a", "b", "A", "", "a b", "a/b", "a%41", "a+b", "ä☃", "a/", "x?y#z", ".."]
def cases():
  text = st.text(alphabet=st.characters(exclude_categories=["Cs"]), max_size=6)
  n = st.integers(0, 3)
  s = st.integers(0, 2)
  c = st.integers(0, 1)
  meta = st.dictionaries(text, st.one_of(st.booleans(), st.integers(-2**40, 2**40), st.floats(-1e3, 1e3), text), max_size=2)
  how = st.sampled_from(["fetch", "web"])
  op = st.one_of(
    st.tuples(st.just("put"), how, c, n, meta), st.tuples(st.just("put"), how, c, n, meta), st.tuples(st.just("delete"), how, c, n),
    st.tuples(st.just("resolve"), st.lists(st.tuples(c, n), min_size=1, max_size=4)), st.tuples(st.just("resolve"), st.lists(st.tuples(c, n), min_size=1, max_size=4)),
    st.tuples(st.just("putsecret"), how, c, s, text), st.tuples(st.just("putsecret"), how, c, s, text), st.tuples(st.just("delsecret"), how, c, s),
    st.tuples(st.just("other"), c, st.integers(1, 3)), st.tuples(st.just("restart")), st.tuples(st.just("bad"), st.integers(0, 5)),
    st.tuples(st.just("nowhere"), st.sampled_from(["GET", "PUT", "DELETE", "POST"]), st.sampled_from(["/", "/api", "/api/secre", "/api/named-topicsx", "/api/x/y", "/apisecret"])),
  ).map(list)
  names = st.lists(st.one_of(st.sampled_from(NAMES), text), min_size=4, max_size=4, unique=True)
  return st.fixed_dictionaries({"names": names, "order": st.booleans(), "ops": st.lists(op, min_size=3, max_size=16)})

def run(case, ctx):
  base = tempfile.mkdtemp(prefix="t06-")
  old = os.environ["DATA_DIR"]
  os.environ["DATA_DIR"] = base
  try:
    with quiet(): vrun(lambda: main(case, ctx))
  finally:
    os.environ["DATA_DIR"] = old
    shutil.rmtree(base)

def plain(kind): return {"kind": kind, "d1": [0], "d2": [0]}

async def main(case, ctx):
  S = await System().start_system({"hops": [], "eps": [[plain("plain"), 0], [plain("raw"), 0]]}, 0, tm=False)
  NT, SM = NetworkAddressNames.NAMED_TOPIC_MANAGER, NetworkAddressNames.SECRET_MANAGER
  tasks = []
  async def start():
    ws = [NamedTopicManager([]), SecretManager([])]
    tasks[:] = [await S.attach(w, 0) for w in (ws if case["order"] else ws[::-1])]
    await settle(5)
    client = Client(await S.switches[0].add_local_connection())
    client.start()
    await client.request_address()
    apps = []
    for name in (NT, SM):
      address = await asyncio.wait_for(wait_name(client, name), 1000)
      apps.append(ASGIProxyApp(client, address))
    return apps
  nt_app, s_app = await start()
  names = case["names"]
  clients = S.clients
  async def stale():
    """Clients that cached the address of a service that was restarted learn the new one."""
    for i, c in enumerate(clients):
      n = Client(await S.switches[0].add_local_connection())
      n.start()
      await n.request_address()
      clients[i] = n
  async def fetch(c, to, descriptor, body):
    try: return "ok", await asyncio.wait_for(clients[c].fetch(to, descriptor, body), 1000)
    except FetchError as e: return e.status_code.name, None
    except asyncio.TimeoutError: raise Violation(f"{descriptor} {body} was not answered", key="hang")
  async def web(app, method, path, data=None):
    status, value = await json_request(app, method, path, data)
    return {200: "ok", 404: "NOT_FOUND", 400: "BAD_REQUEST", 500: "GENERAL"}.get(status, status), value
  def same(a, b): return type(a) is type(b) and a == b if not isinstance(a, dict) else isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) or (isinstance(a[k], float) or isinstance(b[k], float)) and not isinstance(a[k], bool) and a[k] == b[k] for k in a)
  topics, secrets, ids, seen, maybe = {}, {}, {}, {}, set()
  # topics: name -> metadata; ids: name -> id while the entry exists; seen: id -> name; maybe: entries made by resolving them, which a restart may forget
  others = set()
  async def expect(what, got, want, value=None):
    status, v = got
    if status != want: raise Violation(f"{what}: answered with {status}, expected {want}")
    if want == "ok" and value is not None and not same(v, value): raise Violation(f"{what}: {v}, expected {value}")
    return v
  async def check():
    for how in ("fetch", "web"):
      st_, got = await (fetch(0, NT, "list_named_topics", None) if how == "fetch" else web(nt_app, "GET", "/api/named-topics"))
      if st_ != "ok": raise Violation(f"the list of named topics was answered with {st_}")
      listed = [e["name"] for e in got]
      if len(set(listed)) != len(listed): raise Violation(f"names are listed twice: {listed}")
      for m in sorted(maybe - set(listed)):
        maybe.discard(m); topics.pop(m); ids.pop(m, None)
      if {e["name"] for e in got} != set(topics) or not all(same(e["metadata"], topics[e["name"]]) for e in got): raise Violation(f"named topics ({how}): {got}, stored: {topics}")
      for i, name in enumerate(names):
        if how == "fetch": r = await fetch(i % 2, NT, "get_named_topic", {"name": name})
        else: r = await web(nt_app, "GET", "/api/named-topic/" + name)
        v = await expect(f"get {name!r} ({how})", r, "ok" if name in topics else "NOT_FOUND")
        if name in topics and (v["name"] != name or not same(v["metadata"], topics[name])): raise Violation(f"get {name!r} ({how}): {v}, stored: {topics[name]}")
    for i, sid in enumerate(SECRETS):
      r = await fetch(i % 2, SM, "get_secret", {"id": sid})
      v = await expect(f"get secret {sid}", r, "ok" if i in secrets else "NOT_FOUND")
      if i in secrets:
        if v["value"] != secrets[i]: raise Violation(f"secret {i}: {v}, stored: {secrets[i]!r}")
        got = await asyncio.wait_for(SecretManagerClient(clients[1]).resolve_secret(uuid.UUID(sid)), 1000)
        if got != secrets[i]: raise Violation(f"secret {i} resolves to {got!r}, stored: {secrets[i]!r}")
    for t in tasks:
      if t.done(): raise Violation(f"a service ended: {t}")
  async def resolve(c, name):
    v = await expect(f"resolve {name!r}", await fetch(c, NT, "resolve_named_topic", {"name": name}), "ok")
    return name, v["topic"]
  for op, *a in case["ops"]:
    ctx.trace(op, *a)
    if op == "nowhere":
      method, path = a
      for what, app in (("named topics", nt_app), ("secrets", s_app)):
        r = await http(app, method, path, b"{}", [(b"content-type", b"application/json")])
        if r.status not in (404, 405): raise Violation(f"{what}: {method} {path}, which nothing serves, was answered with {r.status}")
    elif op == "put":
      how, c, n, meta = a
      model = {"name": names[n], "metadata": meta}
      await expect(f"put {model}", await (fetch(c, NT, "put_named_topic", model) if how == "fetch" else web(nt_app, "PUT", "/api/named-topic", model)), "ok")
      ctx.hit(names[n] in topics)
      topics[names[n]] = meta
      maybe.clear()                # a stored change stores everything
    elif op == "delete":
      how, c, n = a
      if names[n] not in topics: continue
      st_, _ = await (fetch(c, NT, "delete_named_topic", {"name": names[n]}) if how == "fetch" else web(nt_app, "DELETE", "/api/named-topic/" + names[n]))
      if st_ != "ok": raise Violation(f"delete {names[n]!r} ({how}) was answered with {st_}")
      topics.pop(names[n]); ids.pop(names[n], None)
      maybe.clear()
    elif op == "resolve":
      for name, t in await asyncio.gather(*[resolve(c, names[n]) for c, n in a[0]]):
        if seen.setdefault(t, name) != name: raise Violation(f"{name!r} and {seen[t]!r} both have the topic {t}")
        if t in others: raise Violation(f"the topic {t} of {name!r} is somebody else's")
        if ids.setdefault(name, t) != t: raise Violation(f"{name!r} resolved to {ids[name]} and then to {t}")
        if name not in topics:
          topics[name] = {}
          maybe.add(name)
      ctx.hit(len(a[0]) > 1)
    elif op == "putsecret":
      how, c, s, value = a
      if how == "fetch": await asyncio.wait_for(SecretManagerClient(clients[c]).put_secret(uuid.UUID(SECRETS[s]), value), 1000)
      else: await expect("put secret", await web(s_app, "PUT", "/api/secret", {"id": SECRETS[s], "value": value}), "ok")
      secrets[s] = value
    elif op == "delsecret":
      how, c, s = a
      if s not in secrets: continue
      if how == "fetch": await asyncio.wait_for(SecretManagerClient(clients[c]).delete_secret(uuid.UUID(SECRETS[s])), 1000)
      else: await expect("delete secret", await web(s_app, "DELETE", "/api/secret/" + SECRETS[s]), "ok")
      secrets.pop(s)
    elif op == "other":
      got = await clients[a[0]].request_topic_ids(a[1])
      if set(got) & set(seen): raise Violation(f"the topics {got} were handed out before")
      others |= set(got)
    elif op == "restart":
      for t in tasks: t.cancel()
      await asyncio.wait(tasks, timeout=1000)
      await settle(5)
      nt_app, s_app = await start()
      await stale()
      ids.clear()
      ctx.hit(bool(topics or secrets))
      ctx.label("restart")
      await check()
      maybe.clear()
    elif op == "bad":
      to, d, body = [(NT, "put_named_topic", {"name": 1}), (NT, "get_named_topic", {}), (NT, "resolve_named_topic", None), (SM, "get_secret", {"id": "x"}), (SM, "put_secret", {"id": SECRETS[0]}), (SM, "delete_secret", [])][a[0]]
      await expect(f"{d} {body}", await fetch(0, to, d, body), "BAD_REQUEST")
    await check()

SUBS = [Sub("requests", cases, run, quick=200, thorough=6000, rule="A case is non-trivial if an entry was replaced, several resolutions were concurrent, or a service with entries was restarted.")]
