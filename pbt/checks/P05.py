from ..simple import *
from ..core import Sub, Violation
from ..vloop import vrun
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.client.discovery import address_name_context, wait_for_address_name
from streamtasks.client.fetch import FetchError
import asyncio

TECHNIQUE = "property-based testing (Hypothesis): generated histories of registering, leaving, resolving and waiting for names on random networks against a name map model"
NOTE = "Random search with shrinking in virtual time; every lookup whose answer must be current is made by a client that has not cached the name."

NAMES = ["a", "b", "task host", "Ä-7", ""]
BAD = ["1a", "a:b", ":", "9"]
def cases():
  ep = st.integers(0, 3)
  name = st.sampled_from(NAMES)
  op = st.one_of(
    st.tuples(st.just("enter"), ep, name, st.sampled_from([None, None, 7, 123456, 2**40, 0])),
    st.tuples(st.just("enter"), ep, name, st.sampled_from([None, 55])),
    st.tuples(st.just("leave"), st.integers(0, 4), st.sampled_from([None, 0, 0, 1, 2, 5])),
    st.tuples(st.just("resolve"), ep, name),
    st.tuples(st.just("wait"), ep, name), st.tuples(st.just("wait"), ep, name),
    st.tuples(st.just("bad"), ep, st.sampled_from(BAD)),
  ).map(list)
  return st.fixed_dictionaries({"net": net_strategy(n_clients=(2, 4)), "late": st.booleans(), "ops": st.lists(st.tuples(op, st.sampled_from([60, 60, 60, 0, 0.01, 0.5, 3])).map(list), min_size=3, max_size=14)})

def run(case, ctx):
  async def main():
    net = await Net().start(case["net"])
    cs = net.clients
    disc = DiscoveryWorker()
    await net.switches[0].add_link(await disc.create_link())
    dtask = asyncio.create_task(disc.run())
    await settle(30)
    n_fresh = 0
    nothing = {}
    async def fresh(i):
      # a client that has cached nothing, on the switch of client i
      nonlocal n_fresh
      h, sw = case["net"]["eps"][i]
      a, b = make_link(h["kind"], 2, h["d1"], h["d2"])
      await net.switches[sw % len(net.switches)].add_link(a)
      c = Client(b)
      c.start()
      await c.set_address(5000 + n_fresh)
      n_fresh += 1
      return c
    held, history, waits = [], {}, []   # history: name -> [(t_from, t_to, address or None)] of possible values
    loop = asyncio.get_running_loop()
    current = {n: None for n in NAMES}
    # possible[name] = values the service may have returned since the last quiet moment
    possible = {n: {None} for n in NAMES}
    inflight = []
    def change(name, value):
      current[name] = value
      possible[name].add(value)
      for w in waits:
        if w["name"] == name and not w["task"].done(): w["seen"].add(value)
    async def enter(h):
      h["cm"] = address_name_context(cs[h["i"]], h["name"], h["given"])
      await h["cm"].__aenter__()
    for (op, *a), pause in case["ops"]:
      ctx.trace(op, *a, pause)
      if op == "enter":
        i = a[0] % len(cs)
        addr = 1000 + i if a[2] is None else a[2]
        h = dict(i=i, name=a[1], addr=addr, given=a[2], cm=None)
        change(a[1], addr)
        h["task"] = asyncio.create_task(enter(h))
        await asyncio.wait_for(h["task"], 1000)
        held.append(h)
        own = await cs[i].resolve_address_name(a[1])
        # unless somebody changed it meanwhile, the holder finds itself
        if own != addr: raise Violation(f"the holder of {a[1]!r} resolves it to {own} instead of {addr}")
      elif op == "leave":
        if not held: continue
        h = held.pop(a[0] % len(held))
        async def other_part(steps):
          # another part of the holder's program uses the name meanwhile
          for _ in range(steps): await asyncio.sleep(0)
          return await cs[h["i"]].resolve_address_name(h["name"])
        other = None if a[1] is None else asyncio.create_task(other_part(a[1]))
        await h["cm"].__aexit__(None, None, None)
        if other is not None: await asyncio.wait_for(other, 1000); ctx.label("used while leaving")
        change(h["name"], None)
        ctx.hit()
        await settle(60)
        got = await asyncio.wait_for(cs[h["i"]].resolve_address_name(h["name"]), 1000)
        if got is not None: raise Violation(f"the client that left the context still resolves {h['name']!r} to {got}")
      elif op == "resolve":
        c = nothing.pop(a[1], None) # a client that was told there is no such name, or a new one
        if c is not None: ctx.label("asked again")
        else:
          c = await fresh(a[0] % len(cs))
          await settle(30)
        got = await asyncio.wait_for(c.resolve_address_name(a[1]), 1000)
        if got is None: nothing[a[1]] = c
        if got not in possible[a[1]]: raise Violation(f"{a[1]!r} resolved to {got}, possible: {possible[a[1]]}")
        ctx.hit(got is not None)
        if got is not None:
          # the name can be used to reach the address
          h = next((h for h in held if h["name"] == a[1] and h["addr"] == got == 1000 + h["i"]), None)
          if h is not None:
            rec = Recorder(cs[h["i"]])
            await cs[h["i"]].enable_receiver(rec)
            await c.send_to((a[1], 77), RawData("by name"))
            await settle(30)
            await cs[h["i"]].disable_receiver(rec)
            if not any(getattr(m, "port", None) == 77 for m in rec.messages): raise Violation(f"a message to {a[1]!r} did not arrive at its holder")
      elif op == "wait":
        c = await fresh(a[0] % len(cs))
        await settle(30)
        waits.append(dict(name=a[1], seen={current[a[1]]}, task=asyncio.create_task(wait_for_address_name(c, a[1]))))
      elif op == "bad":
        try: 
          async with address_name_context(cs[a[0] % len(cs)], a[1]): pass
        except (FetchError, ValueError): ctx.label("bad name refused")
        else: raise Violation(f"the name {a[1]!r} was accepted")
      await asyncio.sleep(pause)
      if pause >= 60:
        for n in NAMES: possible[n] = {current[n]}
        for w in waits:
          if w["task"].done():
            got = w["task"].result()
            if got is None or got not in w["seen"]: raise Violation(f"waiting for {w['name']!r} gave {got}, registered meanwhile: {w['seen']}")
            if not w.get("ok"): w["ok"] = True; ctx.hit(); ctx.label("waited")
          elif current[w["name"]] is not None: raise Violation(f"waiting for {w['name']!r} does not end although it is registered as {current[w['name']]}")
    await settle(60)
    for n in NAMES:
      c = await fresh(0)
      await settle(30)
      got = await asyncio.wait_for(c.resolve_address_name(n), 1000)
      if got != current[n]: raise Violation(f"{n!r} resolves to {got}, registered is {current[n]}")
    if dtask.done(): raise Violation(f"the discovery service ended: {dtask.exception()!r}")
  vrun(main)

SUBS = [Sub("names", cases, run, quick=1200, thorough=25000, rule="A case is non-trivial if a registered name was resolved or waited for, or a registration was given up.")]
