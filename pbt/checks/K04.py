from ..taskrig import *
from ..core import Sub
from streamtasks.system.tasks.switch import SwitchConfig, SwitchTaskHost
from streamtasks.system.tasks.media.mediaswitch import MediaSwitchTaskHost
from streamtasks.media.packet import MediaMessage, MediaPacket
SwitchTask = hosted(SwitchTaskHost)
MediaSwitchTask = hosted(MediaSwitchTaskHost)

TECHNIQUE = "property-based testing (Hypothesis): generated histories of controls, packets and pauses over several inputs against a reference of selection and of reading in timestamp order, in virtual time"
NOTE = "Random search with shrinking; two controls never carry the same value at a time (which input then wins is not documented); the output's pause state is not judged while nothing is selected."
OUT = 90

def cases(media):
  idx, step = st.integers(0, 3), st.sampled_from([0, 1, 1, 1, 2, 5])
  control = st.one_of(st.integers(-3, 3), st.integers(-3, 3), st.sampled_from([1e300, -1e300, 2**53, NAN]), st.sampled_from([2, 2 + 1e-12, 2 - 1e-12]))
  everything = st.tuples(st.just("all"), st.permutations(list(range(8))).map(list), st.integers(0, 15), st.binary(max_size=3), st.lists(st.one_of(st.none(), st.integers(-3, 3)), min_size=4, max_size=4)).map(list)
  op = st.one_of(
    st.tuples(st.just("data"), idx, step, st.booleans(), st.binary(max_size=4)).map(list), st.tuples(st.just("data"), idx, step, st.booleans(), st.binary(max_size=4)).map(list),
    everything, everything, everything, everything, everything,
    st.tuples(st.just("control"), idx, step, control).map(list), st.tuples(st.just("control"), idx, step, control).map(list),
    st.tuples(st.just("bad"), idx, step, st.booleans()).map(list), st.tuples(st.just("late"), idx, st.integers(1, 5), st.booleans()).map(list),
    st.tuples(st.just("pause"), idx, st.booleans(), st.booleans()).map(list))
  return st.fixed_dictionaries({"n": st.sampled_from([2, 2, 3, 4, 1]), "media": st.just(media), "link": links(), "start": st.integers(0, 10**12), "ops": st.lists(op, min_size=10, max_size=30)})

def run(case, ctx):
  async def main():
    n, media = case["n"], case["media"]
    inp, con = [10 + 2 * i for i in range(n)], [11 + 2 * i for i in range(n)]
    config = SwitchConfig.model_validate({"pairs": [{"input": a, "control": b} for a, b in zip(inp, con)], "output": OUT})
    rig = await Rig().start(lambda c: (MediaSwitchTask if media else SwitchTask)(c, config), inp + con, [OUT], case["link"])
    values, ipaused, want = {}, [False] * n, []
    active = None
    stats = {"fwd": set(), "drop": 0, "wait": 0}
    def selected(): return max(values, key=lambda i: values[i]) if values else None
    def deliver(t, item):
      nonlocal active
      k, v = item
      i = (t - 10) // 2
      if t in con:
        if k == "p":
          if v: values.pop(i, None)
        elif isinstance(v.get("value"), (int, float)) and v["value"] == v["value"]: values[i] = v["value"]
      elif k == "p": ipaused[i] = v
      elif selected() != i:
        stats["drop"] += 1
        if active == i: active = None             # a packet of the run is missing: the next key frame starts a new one
      else:
        if media and active != i:
          if "packet" in v and v["packet"]["is_keyframe"]: active = i
          else: stats["wait"] += 1; return
        stats["fwd"].add(i)
        want.append(v)
    model = SyncModel(inp + con, deliver)
    base = case["start"] * 8
    now = {t: base + k for k, t in enumerate(inp + con)}
    got, paused, nonce = [], False, 0
    async def put(t, item):
      if any(a == "p" for a, _ in model.q[t]): return
      if item[0] == "p":
        if model.pending and not item[1]: return
        await rig.pause(t, item[1])
      else: await rig.send(t, item[1])
      model.push(t, item)
      await settle(0.01)
    def content(i, t, key, data):
      nonlocal nonce
      nonce += 1
      if not media: return {"timestamp": t, "n": nonce, "data": data}
      return {**MediaMessage(timestamp=t, packet=MediaPacket(data, pts=nonce, rel_dts=0, is_keyframe=bool(key))).model_dump(), "n": nonce}
    for op in case["ops"]:
      k = op[0]
      if k == "all":
        # one message on everything, in any order: what waits goes on
        top = max(now.values()) // 8 * 8 + 8
        for x in op[1]:
          if x >= 2 * n: continue
          t = (inp + con)[x]
          now[t] = top + x
          if t in con:
            if op[4][x - n] is not None: await put(t, ("d", {"timestamp": now[t], "value": op[4][x - n] + (x - n) / 8}))
            elif x - n in values: await put(t, ("d", {"timestamp": now[t], "value": values[x - n]}))
          else: await put(t, ("d", content(x, now[t], op[2] >> x & 1, op[3])))
      else:
        i = op[1] % n
        if k == "data":
          now[inp[i]] += 8 * op[2]
          await put(inp[i], ("d", content(i, now[inp[i]], op[3], op[4])))
        elif k == "control":
          now[con[i]] += 8 * op[2]
          await put(con[i], ("d", {"timestamp": now[con[i]], "value": op[3] + i / 8}))
        elif k == "bad":
          t = (inp if op[3] else con)[i]
          now[t] += 8 * op[2]
          nonce += 1
          await put(t, ("d", {"timestamp": now[t], "value": "abc", "n": nonce}))
        elif k == "late":
          t = (inp if op[3] else con)[i]
          if model.pending or now[t] < 8 * op[2]: continue
          ctx.label("late message")
          await put(t, ("d", content(i, now[t] - 8 * op[2], True, b"") if op[3] else {"timestamp": now[t] - 8 * op[2], "value": 100 + i}))
        else: await put((inp if op[2] else con)[i], ("p", op[3]))
      for _, kind, v, _ in rig.take():
        if kind == "d": got.append(v)
        else: paused = v
      rig.check()
      if not same(got, want): raise Violation(f"after {op}: forwarded {got[len(want) - 2:]} expected {want[-2:]} ({len(got)} / {len(want)} messages), controls {values}")
      s = selected()
      if s is not None and paused != ipaused[s]: raise Violation(f"after {op}: output paused is {paused}, but the pause state of the selected input {s} is {ipaused[s]} (controls {values})")
    if len(stats["fwd"]) >= 2 and stats["drop"]: ctx.hit()
    if stats["wait"]: ctx.label("waits for a key frame")
    await rig.stop()
  vrun(main)

SUBS = [
  Sub("switch", lambda: cases(False), run, quick=1100, thorough=25000, rule="messages of at least two inputs were forwarded and some were dropped"),
  Sub("media-switch", lambda: cases(True), run, quick=1100, thorough=25000, rule="packets of at least two inputs were forwarded and some were dropped"),
]
