from ..uirig import *
from ..core import Sub
from streamtasks.system.tasks.ui.statusdisplay import StatusDisplayConfig, StatusDisplayTaskHost
from streamtasks.system.tasks.ui.textdisplay import TextDisplayConfig, TextDisplayTaskHost
from streamtasks.system.tasks.ui.valuedisplaybar import ValueDisplayBarConfig, ValueDisplayBarTaskHost
from streamtasks.system.tasks.ui.audiofrequencydisplay import AudioFrequencyDisplayConfig, AudioFrequencyDisplayTaskHost
from streamtasks.system.tasks.ui.webviewer import WebViewerConfig, WebViewerTaskHost
import html.parser, math
import numpy as np
StatusDisplayTask = hosted(StatusDisplayTaskHost)
TextDisplayTask = hosted(TextDisplayTaskHost)
ValueDisplayBarTask = hosted(ValueDisplayBarTaskHost)
AudioFrequencyDisplayTask = hosted(AudioFrequencyDisplayTaskHost)
WebViewerTask = hosted(WebViewerTaskHost)

TECHNIQUE = "property-based testing (Hypothesis): generated message histories, bursts and web sockets on every display widget over a simulated network, against a model of what is shown and a spectrum computed separately"
NOTE = "Random search with shrinking in virtual time; numbers that are no finite numbers may be shown as null; the video viewer needs a browser's decoder and is left to M07's containers."
IN = 10

def display_cases(kind):
  if kind == "text":
    good = st.one_of(st.sampled_from(["a", "", " ", "ä☃\n", "hello world", "\x00<b>"]), st.text(max_size=12))
    bad = st.sampled_from([{}, 5, "x", {"value": "a"}, {"timestamp": 1}, *({"timestamp": 1, "value": v} for v in BAD_TEXT)])
    config = st.fixed_dictionaries({}, optional={"max_length": st.sampled_from([-1, 0, 1, 5, 20, 2000]), "seperator": st.sampled_from(["", ", ", "\n"]), "append": st.booleans()})
  else:
    good = st.one_of(st.sampled_from([0, 1, -1.5, 0.5, INF, -INF, NAN, 1e300, 7, 2.0]), st.floats(-100, 100))
    bad = st.sampled_from([{}, 5, "x", {"value": 1}, {"timestamp": 1}, *({"timestamp": 1, "value": v} for v in BAD_NUM)])
    config = st.fixed_dictionaries({}, optional={"threshold": st.sampled_from([0.5, 0, -3])} if kind == "status" else {"default_value": st.sampled_from([0, 0.5, -2]), "max_value": st.sampled_from([1, 100])})
  item = st.one_of(st.tuples(st.just("v"), good), st.tuples(st.just("v"), good), st.tuples(st.just("v"), good), st.tuples(st.just("b"), bad)).map(list)
  op = st.one_of(st.tuples(st.just("send"), st.lists(item, min_size=1, max_size=1)), st.tuples(st.just("send"), st.lists(item, min_size=1, max_size=1)), st.tuples(st.just("send"), st.lists(item, min_size=2, max_size=6)),
    st.tuples(st.just("pause"), st.booleans()), st.tuples(st.just("connect")), st.tuples(st.just("connect")), st.tuples(st.just("disconnect"), st.integers(0, 3))).map(list)
  return st.fixed_dictionaries({"kind": st.just(kind), "config": config, "link": links(), "ops": st.lists(op, min_size=2, max_size=12)})

def shown(v):
  """Forms in which a number may be shown."""
  return (v,) if isinstance(v, str) or math.isfinite(v) else (None, str(v), {INF: "Infinity", -INF: "-Infinity"}.get(v, "NaN"))
def run_display(case, ctx):
  kind = case["kind"]
  conf = {**case["config"], "in_topic": IN}
  build = {"status": lambda c: StatusDisplayTask(c, StatusDisplayConfig.model_validate(conf)), "text": lambda c: TextDisplayTask(c, TextDisplayConfig.model_validate(conf)),
    "bar": lambda c: ValueDisplayBarTask(c, ValueDisplayBarConfig.model_validate(conf))}[kind]
  async def main():
    rig = await UIRig().start(build, [IN], [], case["link"])
    await settle(5)
    value = {"status": conf.get("threshold", 0.5), "text": "", "bar": conf.get("default_value", 0)}[kind]
    sockets, sent = [], 0
    history = [value]
    def update(v):
      nonlocal value
      if kind == "text":
        value = value + conf.get("seperator", "") + v if conf.get("append", True) else v
        n = conf.get("max_length", 2000)
        if n >= 0: value = value[max(0, len(value) - n):]
      else: value = v
      history.append(value)
    def is_shown(m, v): return isinstance(m, dict) and set(m) == {"value"} and any(type(m["value"]) in (type(s), *((int, float) if isinstance(s, (int, float)) else ())) and m["value"] == s for s in shown(v))
    for op in case["ops"]:
      ctx.trace(*op)
      if op[0] == "send":
        good = [v for k, v in op[1] if k == "v"]
        start = len(history)
        for k, v in op[1]:
          if k == "v":
            update(v)
            await rig.send(IN, {"timestamp": 1000 + len(history), "value": v})
          else: await rig.send(IN, v)
        await settle(0.5)
        sent += len(good)
        for s, told in sockets:
          if s.disconnected: continue
          if not s.open: raise Violation(f"the web socket was closed: {s.events}")
          new = [strict_loads(m) for m in s.messages[told[0]:]]
          told[0] += len(new)
          if good and not new: raise Violation(f"the web socket was not told of {good}")
          if not good and new: raise Violation(f"the web socket was told {new} although there was nothing valid in {op[1]}")
          if good and not is_shown(new[-1], value): raise Violation(f"the web socket was last told {new[-1]}, shown should be {value!r}")
          i = start
          for m in new:
            while i < len(history) and not is_shown(m, history[i]): i += 1
            if i >= len(history): raise Violation(f"the web socket was told {new}, the values were {history[start:]!r}")
          if len(op[1]) == 1 and len(new) > 1: raise Violation(f"the web socket was told {new} for one message")
      elif op[0] == "pause": await rig.pause(IN, op[1]); await settle(0.5)
      elif op[0] == "connect":
        s = rig.connect("/value")
        await settle(0.5)
        if not s.open: raise Violation(f"the web socket was not accepted: {s.events}")
        sockets.append((s, [len(s.messages)]))
      elif op[0] == "disconnect":
        alive = [s for s, _ in sockets if not s.disconnected]
        if alive:
          s = alive[op[1] % len(alive)]
          s.disconnect()
          await settle(0.5)
          if not s.task.done(): raise Violation("the web socket's connection goes on after the disconnect")
      rig.check()
      m = await rig.get("/value")
      if not is_shown(m, value): raise Violation(f"GET /value: {m}, shown should be {value!r}; messages {op}")
    got = await rig.get("/config")
    if any(got.get(k) != v for k, v in conf.items()): raise Violation(f"GET /config: {got}")
    for path, mime in (("/index.html", "text/html"), ("/main.js", "javascript")):
      r = await rig.request("GET", path)
      if r.status != 200 or not r.body or not any(mime in h for h in r.header("content-type")): raise Violation(f"GET {path}: {r.status} {r.header('content-type')}")
    if sent >= 2: ctx.hit()
    if any(told[0] for _, told in sockets): ctx.label("a web socket was told")
    await rig.stop()
  vrun(main)

# ---- spectrum
FORMATS = {"s16": (np.int16, 2**14), "s32": (np.int32, 2**29), "flt": (np.float32, 0.7), "dbl": (np.float64, 0.7)}
def spectrum_cases():
  tone = st.tuples(st.floats(0.01, 0.49), st.floats(0.1, 1)).map(list)
  op = st.one_of(st.tuples(st.just("tones"), st.integers(1, 400), st.lists(tone, max_size=3)), st.tuples(st.just("tones"), st.integers(1, 400), st.lists(tone, min_size=1, max_size=3)),
    st.tuples(st.just("silence"), st.integers(1, 500), st.just([])), st.tuples(st.just("bad"), st.integers(0, 7), st.just([]))).map(list)
  return st.fixed_dictionaries({"rate": st.sampled_from([8, 100, 128, 201]), "bin": st.sampled_from([1, 2, 7, 10, 30, 1000]), "format": st.sampled_from(list(FORMATS)), "link": links(), "ops": st.lists(op, min_size=1, max_size=10)})

def run_spectrum(case, ctx):
  rate, size = case["rate"], case["bin"]
  dtype, scale = FORMATS[case["format"]]
  async def main():
    config = AudioFrequencyDisplayConfig.model_validate({"rate": rate, "sample_format": case["format"], "bin_size": size, "in_topic": IN})
    rig = await UIRig().start(lambda c: AudioFrequencyDisplayTask(c, config), [IN], [], case["link"])
    await settle(5)
    samples, chunks = np.zeros(0, dtype), 0
    for kind, n, tones in case["ops"]:
      if kind == "bad":
        bad = [{}, 5, {"timestamp": 1}, {"timestamp": 1, "data": 5}, {"data": b"ab"}, {"timestamp": 1, "data": b"abc"[:np.dtype(dtype).itemsize - 1]}, {"timestamp": "x", "data": b""}, {"timestamp": 1, "data": b""}][n]
        await rig.send(IN, bad)
      else:
        t = np.arange(len(samples), len(samples) + n)
        new = (sum((a * np.sin(2 * np.pi * f * t) for f, a in tones), np.zeros(n)) * scale / 3).astype(dtype)
        samples = np.concatenate((samples, new))
        await rig.send(IN, {"timestamp": 1000, "data": new.tobytes()})
      await settle(0.5)
      rig.check()
      got = (await rig.get("/value"))["freq_bins"]
      # a chunk of one second may be evaluated once it is complete, at the latest with the next sample
      complete = len(samples) // rate
      options = [c for c in {complete, complete - 1 if len(samples) % rate == 0 else complete} if c >= 0]
      for c in options:
        if c == 0: want = np.zeros(0)
        else:
          f = np.abs(np.fft.rfft(samples[(c - 1) * rate:c * rate].astype(np.float64)))[:rate // 2]
          want = np.array([f[i:i + size].sum() for i in range(0, len(f), size)])
          top = want.max()
          if top > 0: want = want / top
        if len(got) == len(want) and np.allclose(np.array(got, np.float64), want, atol=1e-4): break
      else: raise Violation(f"{len(samples)} samples at {rate} Hz in bins of {size}: shown are {got}, expected {want.tolist()}")
      chunks = max(chunks, complete)
    if chunks >= 2: ctx.hit()
    await rig.stop()
  vrun(main)

# ---- web viewer
class Frames(html.parser.HTMLParser):
  def __init__(self): super().__init__(); self.frames = []; self.tags = []
  def handle_starttag(self, tag, attrs):
    self.tags.append(tag)
    if tag == "iframe": self.frames.append(dict(attrs))
def viewer_cases():
  return st.fixed_dictionaries({"url": st.one_of(st.sampled_from(["", "https://a.b/c?d=1&e=2&copy=3#f", "http://x/?lt=1&amp=2", 'http://x/"><script>', "/task/x%20y"]), st.text(alphabet="abz:/?&=#;%\"'<> ä+", max_size=20))})
def run_viewer(case, ctx):
  async def main():
    rig = await UIRig().start(lambda c: WebViewerTask(c, WebViewerConfig(url=case["url"])), [], [])
    await settle(5)
    r = await rig.request("GET", "/index.html")
    if r.status != 200: raise Violation(f"GET /index.html: {r.status}")
    p = Frames()
    p.feed(r.body.decode())
    if [f.get("src") for f in p.frames] != [case["url"]] or "script" in p.tags: raise Violation(f"the page for {case['url']!r} shows {p.frames}")
    if "&" in case["url"]: ctx.hit()
    await rig.stop()
  vrun(main)

SUBS = [
  *[Sub(kind, lambda kind=kind: display_cases(kind), run_display, quick=300, thorough=8000, rule="at least two values were sent") for kind in ("text", "status", "bar")],
  Sub("spectrum", spectrum_cases, run_spectrum, quick=250, thorough=5000, rule="at least two seconds were evaluated"),
  Sub("webviewer", viewer_cases, run_viewer, quick=120, thorough=2000, rule="the address contains &"),
]
