from ..uirig import *
from ..core import Sub
from ..vloop import VLoop
from streamtasks.system.tasks.ui.sliderui import SliderUIConfig, SliderUITaskHost
from streamtasks.system.tasks.ui.switchui import SwitchUIConfig, SwitchUITaskHost
from streamtasks.system.tasks.ui.radiobuttonsui import RadioButtonsUIConfig, RadioButtonsUITaskHost
from streamtasks.system.tasks.ui.textinput import TextInputConfig, TextInputTaskHost
SliderUITask = hosted(SliderUITaskHost)
SwitchUITask = hosted(SwitchUITaskHost)
RadioButtonsUITask = hosted(RadioButtonsUITaskHost)
TextInputTask = hosted(TextInputTaskHost)

TECHNIQUE = "property-based testing (Hypothesis): generated histories of posts, waits and web sockets on every control widget over a simulated network, against a model of the value and its repetitions"
NOTE = "Random search with shrinking in virtual time; of several posts at the same moment, only that the last value taken is sent is judged."
E0 = VLoop.EPOCH_NS // 1_000_000
TOPICS = [90, 91, 92]
TOL = 4
# what is posted -> the value the widget then has
NUMBERS = [(0, 0.0), (0.25, 0.25), (-3, -3.0), (1, 1.0), (10**9, 1e9), ("2.5", 2.5), (1e-300, 1e-300)]
SWITCH = [(True, True), (False, False), (1, True), (0, False), ("true", True), ("off", False)]
RADIO = [(90, 90), (91, 91), (92, 92), (-1, -1), (5, 5), ("91", 91)]
TEXTS = [(s, s) for s in ["a", " a b ", "", " ", "\n", "ä\n☃", "x" * 300, "\x00"]]
BAD = {"slider": ["x", None, [1], {}, ""], "switch": [2, "maybe", None, 0.5, []], "radio": [1.5, None, "x", [90]], "text": [5, None, ["a"], {}, True]}
GOOD = {"slider": NUMBERS, "switch": SWITCH, "radio": RADIO, "text": TEXTS}
FIELD = {"slider": "value", "switch": "value", "radio": "selected_topic", "text": "value"}

def cases(kind):
  good = st.sampled_from(range(len(GOOD[kind])))
  op = st.one_of(st.tuples(st.just("post"), good), st.tuples(st.just("post"), good), st.tuples(st.just("burst"), st.lists(good, min_size=2, max_size=4)),
    st.tuples(st.just("bad"), st.integers(0, 9)), st.tuples(st.just("wait"), st.sampled_from([0.003, 0.05, 0.3, 0.9, 2.5])), st.tuples(st.just("wait"), st.sampled_from([0.05, 0.3, 0.9, 2.5])),
    st.tuples(st.just("connect")), st.tuples(st.just("disconnect"), st.integers(0, 3))).map(list)
  config = {"repeat_interval": st.sampled_from([0, 0.001, 0.1, 1, 0.7]) if kind == "text" else st.sampled_from([0.05, 0.1, 1, 1, 0.7, 0])}
  if kind == "slider": config.update(default_value=st.sampled_from([0, 0.5, -7]), label=st.sampled_from(["slider", "ä <b>"]), max_value=st.sampled_from([1, 100.5]))
  if kind == "switch": config.update(default_value=st.booleans())
  config = st.fixed_dictionaries(config)
  return st.fixed_dictionaries({"kind": st.just(kind), "config": config, "tracks": st.integers(0, 3), "link": links(), "near": st.booleans(), "ops": st.lists(op, min_size=2, max_size=14)})

def run(case, ctx):
  kind = case["kind"]
  n_topics = case["tracks"] if kind == "radio" else 1
  topics = TOPICS[:n_topics]
  if kind == "radio": extra = {"button_tracks": [{"label": f"b{t}", "out_topic": t} for t in topics]}
  else: extra = {"out_topic": topics[0]}
  conf = {**case["config"], **extra}
  if kind == "text" and 0 < conf["repeat_interval"] < 0.05: conf["repeat_interval"] = 0.05
  build = {"slider": lambda c: SliderUITask(c, SliderUIConfig.model_validate(conf)), "switch": lambda c: SwitchUITask(c, SwitchUIConfig.model_validate(conf)),
    "radio": lambda c: RadioButtonsUITask(c, RadioButtonsUIConfig.model_validate(conf)), "text": lambda c: TextInputTask(c, TextInputConfig.model_validate(conf))}[kind]
  field, good = FIELD[kind], GOOD[kind]
  interval = conf["repeat_interval"]
  def outputs(v):
    """What is sent on each topic for a value."""
    if kind == "radio": return {t: 1 if t == v else 0 for t in topics}
    if kind == "switch": return {topics[0]: 1 if v else 0}
    if kind == "text": return {topics[0]: v} if v.strip() else {}
    return {topics[0]: v}
  async def main():
    rig = await UIRig().start(build, [], topics, case["link"], near=case["near"])
    value = conf.get("default_value", -1 if kind == "radio" else "" if kind == "text" else 0)
    if kind == "slider": value = float(value)
    last = vnow()                   # when the value was last sent
    sockets = []                    # (socket, indices into changes)
    changes, repeats = 0, 0
    def emissions():
      """The new messages, grouped into one emission on all topics."""
      out, now = [], None
      for t, k, v, at in rig.take():
        if k == "p": raise Violation(f"the output was paused: {v}")
        if not isinstance(v, dict) or set(v) != {"timestamp", "value"}: raise Violation(f"not a value message: {v!r}")
        if abs(v["timestamp"] - (at * 1000 + E0)) > TOL: raise Violation(f"{v} was sent at {at * 1000 + E0:.0f}")
        if out and out[-1][0] == v["timestamp"] and t not in out[-1][1]: out[-1][1][t] = v["value"]
        else: out.append((v["timestamp"], {t: v["value"]}, at))
      rig.check()
      return out
    def is_value(got, v):
      want = outputs(v)
      return got.keys() == want.keys() and all(type(got[t]) in ((str,) if kind == "text" else (int, float)) and got[t] == want[t] for t in want)
    def repetitions(got, until):
      """Emissions that repeat the current value, at their times."""
      nonlocal last, repeats
      for ts, e, at in got:
        if not is_value(e, value): raise Violation(f"sent {e} while the value is {value!r}")
        if not interval or at < last + interval - TOL / 1000 - 1e-9: raise Violation(f"{e} was repeated {at - last:.4f} s after it was last sent, the interval is {interval} s")
        if at > last + interval + TOL / 1000: raise Violation(f"{e} was repeated only {at - last:.4f} s after it was last sent, the interval is {interval} s")
        last = at
        repeats += 1
      if interval and outputs(value) and until > last + interval + TOL / 1000: raise Violation(f"{value!r} was not repeated for {until - last:.3f} s, the interval is {interval} s")
      if not outputs(value): last = until
    async def initial():
      nonlocal last
      await settle(0.002)
      got = emissions()
      want = 1 if outputs(value) and case["near"] else 0       # a subscriber farther away may not be known yet
      if not case["near"] and got and all(e.items() <= outputs(value).items() for _, e, _ in got): got[:1] = [(got[0][0], outputs(value), got[0][2])]
      if len(got) < want or len(got) and not is_value(got[0][1], value): raise Violation(f"sent {got} when started with {value!r}")
      if got: last = got[0][2]
      repetitions(got[1:], vnow())
    async def quiet_spot():
      """Nothing is about to be repeated."""
      while interval and outputs(value) and abs(vnow() - last - interval) < 0.012:
        await asyncio.sleep(0.004)
        repetitions(emissions(), vnow())
    async def post(i):
      r = await rig.request("POST", "/value", json.dumps({field: good[i][0]}).encode())
      if r.status != 200: raise Violation(f"posting {good[i][0]!r} was answered with {r.status}")
    async def verify():
      await quiet_spot()
      got = await rig.get("/value")
      if not same(got, {field: value}): raise Violation(f"GET /value: {got}, the value is {value!r}")
      repetitions(emissions(), vnow())
      for s, told in sockets:
        if s.disconnected: continue
        if not s.open: raise Violation(f"the web socket was closed: {s.events}")
        msgs = [strict_loads(m) for m in s.messages]
        if told and (not msgs or not same(msgs[-1], {field: value})): raise Violation(f"the web socket was told {msgs}, the value is {value!r}")
        if not same([m for j, m in enumerate(msgs) if j == 0 or not same(m, msgs[j - 1])], [m for j, m in enumerate(told) if j == 0 or not same(m, told[j - 1])]) and None not in told: raise Violation(f"the web socket was told {msgs}, the changes were {told}")
    await initial()
    got = await rig.get("/config")
    if any(got.get(k) != v for k, v in json.loads(json.dumps(conf)).items()): raise Violation("GET /config is not the configuration")
    for op in case["ops"]:
      ctx.trace(*op)
      await quiet_spot()
      repetitions(emissions(), vnow())
      if op[0] == "post":
        before = vnow()
        await post(op[1])
        await settle(0.001)
        got = emissions()
        new = good[op[1]][1]
        changes += not same(new, value)
        value = new
        if outputs(value):
          if not got or not is_value(got[0][1], value): raise Violation(f"after posting {value!r} sent {got}")
          last = got[0][2]
        elif got and not is_value(got[0][1], value): raise Violation(f"after posting {value!r} sent {got}")
        repetitions(got[1:], vnow())
        if not outputs(value): last = before
        for s, told in sockets:
          if not s.disconnected: told.append({field: value})
      elif op[0] == "burst":
        # several posts at the same moment
        await asyncio.gather(*[post(i) for i in op[1]])
        await settle(0.002)
        got = emissions()
        now = (await rig.get("/value"))[field]
        options = [good[i][1] for i in op[1]]
        if not any(same(now, o) for o in options): raise Violation(f"after posting {options}, the value is {now!r}")
        for _, e, at in got:
          if not any(is_value(e, o) for o in options): raise Violation(f"after posting {options} sent {e}")
        value = now
        if outputs(value) and (not got or not is_value(got[-1][1], value)): raise Violation(f"after posting {options} at once, sent {[e for _, e, _ in got]}, but the value is {value!r}")
        last = got[-1][2] if got else vnow()
        for s, told in sockets:
          if not s.disconnected: told.extend([None, {field: value}])
      elif op[0] == "bad":
        bad = BAD[kind]
        raw = [b"", b"{", b"5", b"[]", b"{}", *(json.dumps({field: b}).encode() for b in bad)][op[1] % (5 + len(bad))]
        r = await rig.request("POST", "/value", raw)
        if not 400 <= r.status < 600: raise Violation(f"posting {raw!r} was answered with {r.status}")
        if op[1] % 2:
          r = await rig.request("POST", "/value", json.dumps({field: good[0][0]}).encode(), b"text/plain")
          if not 400 <= r.status < 600: raise Violation(f"posting plain text was answered with {r.status}")
      elif op[0] == "connect":
        s = rig.connect("/value")
        await settle(0.003)
        if not s.open: raise Violation(f"the web socket was not accepted: {s.events}")
        sockets.append((s, []))
      elif op[0] == "disconnect":
        alive = [s for s, _ in sockets if not s.disconnected]
        if alive:
          s = alive[op[1] % len(alive)]
          s.disconnect()
          await settle(0.003)
          if not s.task.done(): raise Violation("the web socket's connection goes on after the disconnect")
      else:
        end = vnow() + op[1]
        while vnow() < end:
          await asyncio.sleep(min(0.5, max(0.001, end - vnow())))
          repetitions(emissions(), vnow())
      await verify()
    if changes and (repeats or not interval): ctx.hit()
    if any(told for _, told in sockets): ctx.label("a web socket was told of changes")
    for path, mime in (("/index.html", "text/html"), ("/main.js", "javascript")):
      r = await rig.request("GET", path)
      if r.status != 200 or not r.body or not any(mime in h for h in r.header("content-type")): raise Violation(f"GET {path}: {r.status} {r.header('content-type')}")
    r = await rig.request("GET", "/other")
    if r.status != 404: raise Violation(f"GET /other was answered with {r.status}")
    await rig.stop()
  vrun(main)

SUBS = [Sub(kind, lambda kind=kind: cases(kind), run, quick=400, thorough=8000, rule="the value changed and was repeated, or is not to be repeated") for kind in ("slider", "switch", "radio", "text")]
