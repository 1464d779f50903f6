// Runs the browser code of VERIF_REPO for a Python check: one JSON command per line in, one answer per line out.
import { createRequire } from "module";
import fs from "fs"; import path from "path"; import vm from "vm"; import { fileURLToPath } from "url";
import { Ev, Target, El } from "./dom.mjs";
const here = path.dirname(fileURLToPath(import.meta.url));
const nodeRequire = createRequire(import.meta.url);
const tools = "/opt/veriftools/node/node_modules";
const web = path.join(process.argv[2], "web-packages");
const esbuild = nodeRequire(tools + "/esbuild");
const shim = n => path.join(here, "shims", n + ".js");
const table = {
  "react": shim("react"), "react/jsx-runtime": shim("react"), "react/jsx-dev-runtime": shim("react"), "react-dom/client": shim("react"), "react-dom": shim("react"),
  "object-path": shim("object-path"), "deep-equal": shim("deep-equal"), "eventemitter3": shim("eventemitter3"), "uuid": shim("uuid"), "url-join": shim("url-join"),
  "object-hash": shim("object-hash"), "color": shim("color"), "mobx": shim("mobx"), "mobx-utils": shim("mobx-utils"), "mobx-react-lite": shim("mobx-react-lite"), "react-router-dom": shim("router"),
  "@streamtasks/core": path.join(web, "core/src/index.ts"),
};
const built = await esbuild.build({
  entryPoints: [path.join(here, "entry.ts")], bundle: true, write: false, format: "cjs", platform: "neutral", target: "es2022", jsx: "automatic", logLevel: "silent",
  loader: { ".css": "empty", ".svg": "empty", ".png": "empty" },
  supported: { "dynamic-import": false },
  plugins: [{ name: "streamtasks", setup(b) {
    b.onResolve({ filter: /^[^./]/ }, a => {
      if (a.kind === "entry-point") return;
      if (a.path.startsWith("web:")) return b.resolve("./" + a.path.slice(4), { resolveDir: web, kind: a.kind });
      if (table[a.path]) return { path: table[a.path] };
      if (a.path.startsWith("@mui/")) return { path: shim("names") };
      if (a.path === "zod") return { path: tools + "/zod/v3/index.js" };
      if (a.path === "underscore") return { path: tools + "/underscore/underscore-esm.js" };
      if (/^(clone-deep|kind-of|shallow-clone|is-plain-object|for-own|isobject)$/.test(a.path)) return { path: nodeRequire.resolve(tools + "/" + a.path) };
    });
  } }],
});
const code = built.outputFiles[0].text;
const params = ["module", "exports", "require", "nodeRequire", "window", "document", "location", "fetch", "WebSocket", "setTimeout", "clearTimeout", "setInterval", "clearInterval", "Date", "CustomEvent", "Event", "HTMLElement", "uuidSource", "console", "URL", "Math"];
const factory = vm.compileFunction(code, params, { filename: "bundle.js" });

// ---- what a page needs: time, sockets, requests
const RealDate = Date;
class Browser {
  constructor(opts) {
    const b = this;
    this.now = opts.now ?? 1700000000000; this.timers = new Map(); this.timerId = 0; this.sockets = []; this.calls = []; this.callId = 0; this.errors = []; this.nextUuid = opts.uuids ?? null; this.uuidAt = 0; this.topics = opts.topics ?? []; this.topicAt = 0;
    const window = new Target(), document = { createElement: t => new El(t), createElementNS: (_, t) => new El(t), body: new El("body"), addEventListener() {}, removeEventListener() {} };
    const loc = new URL("http://page.test/");
    const setTimeout = (f, ms = 0, ...a) => { const id = ++b.timerId; b.timers.set(id, { at: b.now + Math.max(0, ms), f: () => f(...a), id }); return id; };
    const clearTimeout = id => { b.timers.delete(id); };
    class PDate extends RealDate { constructor(...a) { if (a.length) super(...a); else super(b.now); } static now() { return b.now; } }
    class WebSocket extends Target { constructor(url) { super(); this.url = String(url); this.open = false; this.closed = false; b.sockets.push(this); this.id = b.sockets.length - 1; } close() { if (this.closed) return; this.closed = true; this.dispatchEvent(new Ev("close")); } send() {} }
    const fetch = (url, init = {}) => new Promise((done, fail) => { const id = ++b.callId; b.calls.push({ id, url: String(new URL(String(url), loc)), method: (init.method ?? "get").toUpperCase(), headers: init.headers ?? {}, body: init.body ?? null, done, fail, signal: init.signal }); });
    const uuidSource = () => { let h = ""; const g = opts.uuid ?? 1; b.uuidAt++; const n = (BigInt(g) * 1000003n + BigInt(b.uuidAt) * 2654435761n) & ((1n << 120n) - 1n); h = n.toString(16).padStart(32, "0"); return `${h.slice(0, 8)}-${h.slice(8, 12)}-4${h.slice(13, 16)}-8${h.slice(17, 20)}-${h.slice(20, 32)}`; };
    const console_ = { log() {}, warn() {}, debug() {}, info() {}, error: (...a) => b.errors.push(a.map(x => String(x?.stack ?? x).slice(0, 300)).join(" ")) };
    const math = Object.create(Math, Object.fromEntries(Object.getOwnPropertyNames(Math).map(k => [k, { value: Math[k], writable: true, configurable: true }])));
    math.random = () => (b.topicAt < b.topics.length ? b.topics[b.topicAt++] : 900000000 + b.topicAt++) / 1000000000 + 1e-10;
    class PURL extends URL { static createObjectURL() { return "blob:x"; } static revokeObjectURL() {} }
    this.window = window; this.document = document;
    const module = { exports: {} };
    globalThis.window = window; globalThis.document = document;
    factory(module, module.exports, url => { const m = /\/configurators\/(.+)\.js$/.exec(String(url)); if (!m || !(m[1] in b.api.configurators)) throw new Error("no such module: " + url); return { __esModule: true, default: b.api.configurators[m[1]] }; }, nodeRequire, window, document, { href: String(loc), host: "page.test", origin: "http://page.test" }, fetch, WebSocket, setTimeout, clearTimeout, setTimeout, clearTimeout, PDate, Ev, Ev, El, uuidSource, console_, PURL, math);
    this.api = module.exports; this.things = new Map(); this.thingId = 0;
  }
  put(x) { const id = ++this.thingId; this.things.set(id, x); return id; }
  get(id) { const x = this.things.get(id); if (x === undefined) throw new Error("no such thing: " + id); return x; }
}
let page = null;
const pages = new Map();
const tick = () => new Promise(r => setImmediate(r));
// lets the page run until it waits for a request or has nothing to do
async function quiet() { for (let i = 0; i < 3; i++) await tick(); }
async function advance(ms) {
  const until = page.now + ms;
  for (let n = 0; n < 10000; n++) {
    await quiet();
    if (await serve()) continue;
    const due = [...page.timers.values()].filter(t => t.at <= until).sort((a, b) => a.at - b.at || a.id - b.id)[0];
    if (!due) break;
    page.timers.delete(due.id); page.now = Math.max(page.now, due.at); due.f();
  }
  page.now = until;
}
// ---- the line protocol
const lines = []; let wake = null; let ended = false; let rest = "";
process.stdin.on("data", d => { rest += d; let i; while ((i = rest.indexOf("\n")) >= 0) { lines.push(rest.slice(0, i)); rest = rest.slice(i + 1); } if (wake) { const w = wake; wake = null; w(); } });
process.stdin.on("end", () => { ended = true; if (wake) wake(); });
process.stdin.setEncoding("utf8");
async function line() { while (!lines.length) { if (ended) process.exit(0); await new Promise(r => wake = r); } return lines.shift(); }
const say = o => fs.writeSync(1, JSON.stringify(o) + "\n");
// passes the page's requests to Python and its answers back
async function serve() {
  if (!page || !page.calls.length || page.holdCalls) return false;
  const first = page.readsFirst ? Math.max(0, page.calls.findIndex(c => c.method === "GET")) : 0; // requests may overtake each other
  const [c] = page.calls.splice(first, 1);
  if (c.signal?.aborted) return true;
  say({ call: { url: c.url, method: c.method, headers: c.headers, body: c.body } });
  const a = JSON.parse(await line());
  if (a.fail) c.fail(new TypeError(a.fail));
  else {
    const answer = () => c.done({ ok: a.status >= 200 && a.status < 300, status: a.status, json: async () => JSON.parse(a.body), text: async () => a.body });
    if (page.holdReplies) page.late.push(answer); else answer();
  }
  return true;
}
async function settle(promise, still = false) {
  let state = "pending", value;
  Promise.resolve(promise).then(v => { state = "done"; value = v; }, e => { state = "failed"; value = e; });
  for (let n = 0; n < 3000; n++) {
    await quiet();
    if (await serve()) continue;
    if (state !== "pending") break;
    if (still) { if (n > 4) break; continue; }
    if (n > 3 && !page.holdCalls && !page.calls.length) { // nothing but time can move it
      const next = [...page.timers.values()].sort((a, b) => a.at - b.at || a.id - b.id)[0];
      if (!next || next.at > page.now + 10000) { if (n > 8) break; continue; }
      page.timers.delete(next.id); page.now = Math.max(page.now, next.at); next.f();
    }
  }
  if (state === "failed") throw value;
  if (state === "pending") return { $pending: true };
  return value;
}
// ---- the controls a user sees
function controls(node, out = []) {
  const walk = (inst, ctx) => {
    if (inst.text !== undefined) { if (inst.text) ctx.text = inst.text; return; }
    if (typeof inst.type === "string" && inst.type !== undefined) {
      const p = inst.props;
      if (["TextField", "Select", "Checkbox", "Slider", "IconButton", "Button", "MenuItem", "AccordionSummary", "Switch", "iframe"].includes(inst.type)) {
        const items = inst.type === "Select" ? inst.kids.map(k => k.props.value) : undefined;
        out.push({ inst, inner: !!ctx.inner, tag: inst.type, label: typeof p.label === "string" ? p.label : null, value: p.value, checked: p.checked, disabled: !!p.disabled, near: ctx.text ?? null, error: !!p.error, help: p.helperText ?? null, items, min: p.min, max: p.max, src: p.src });
        if (inst.type === "Select") return;
      }
      for (const v of [p.control, p.label, p.action, p.header, p.message]) if (v && v.$el) { // elements handed over as properties
        const r = { type: v.type, key: null, props: v.props, kids: [], hooks: [] };
        side(v, ctx);
      }
    }
    for (const k of inst.kids) walk(k, ctx);
    if (inst.dom) { const was = ctx.inner; ctx.inner = true; dom(inst.dom, ctx); ctx.inner = was; }
  };
  const side = (el, ctx) => {
    if (!el || !el.$el) { if (typeof el === "string") ctx.text = el; return; }
    if (typeof el.type === "string") {
      const p = el.props;
      if (["TextField", "Select", "Checkbox", "Slider", "IconButton", "Button"].includes(el.type)) out.push({ inst: { props: p }, inner: !!ctx.inner, tag: el.type, label: typeof p.label === "string" ? p.label : null, value: p.value, checked: p.checked, disabled: !!p.disabled, near: ctx.text ?? null });
    }
    for (const c of [el.props.children].flat(9)) side(c, ctx);
  };
  const dom = (d, ctx) => { if (d.__root?.top) walk(d.__root.top, ctx); for (const c of d.childNodes) dom(c, ctx); };
  dom(node, {});
  return out;
}
const show = c => { const { inst, ...r } = c; return r; };
function act(c, how, v) {
  const p = c.inst.props;
  if (c.disabled) throw new Error("the control is disabled");
  if (c.tag === "TextField") (p.onInput ?? p.onChange)({ target: { value: v } });
  else if (c.tag === "Select") { if (how === "open") p.onOpen?.({}); else p.onChange({ target: { value: v } }); }
  else if (c.tag === "Checkbox" || c.tag === "Switch") p.onChange({ target: { checked: v } });
  else if (c.tag === "Slider") p.onChange({}, v);
  else p.onClick({ target: {} });
}
const plain = x => x === undefined ? null : JSON.parse(JSON.stringify(x));
const dump = t => plain({ ...t.task });
const ops = {
  page(a) { const p = new Browser(a); const id = pages.size + 1; pages.set(id, p); page = p; return id; },
  use(a) { page = pages.get(a.page); globalThis.window = page.window; globalThis.document = page.document; return true; },
  drop() { pages.clear(); page = null; return true; },
  errors() { const e = page.errors; page.errors = []; return e; },
  async advance(a) { await advance(a.ms); return true; },
  hold(a) { page.holdCalls = a.on; return true; },
  async late(a) { page.holdReplies = a.on; page.late ??= []; if (!a.on) { const l = page.late; page.late = []; for (const f of l) { f(); await quiet(); } } return true; },
  readsFirst(a) { page.readsFirst = a.on; return true; },
  held() { return page.calls.length; },
  // GraphSetter and its helpers
  async graph(a) {
    const g = new page.api.core.GraphSetter(a.data), log = [];
    for (const [p, q] of a.edges) g.addEdge(p, q);
    for (const [p, q, skip] of a.mirrors) g.addEdgeGenerator(p, sub => !sub || skip.includes(sub) ? [] : [`${q}.${sub}`]);
    for (const [p, kind, arg] of a.validators) g.addValidator(p, (v, sub) => kind === "never" ? false : kind === "int" ? Number.isInteger(v) : kind === "sub" ? arg.includes(sub) : kind === "max" ? !(typeof v === "number") || v <= arg : true);
    for (const op of a.ops) {
      let r = null;
      try {
        if (op[0] === "set") g.set(op[1], op[2]);
        else if (op[0] === "apply") g.apply();
        else if (op[0] === "reset") g.reset();
        else if (op[0] === "disabled") r = g.isDisabled(op[1]);
        else if (op[0] === "paths") r = [...g.getDisabledPaths(op[1], op[2])].sort();
      } catch (e) { r = "refused"; }
      log.push([r, plain(g.data)]);
    }
    return log;
  },
  helpers(a) {
    const c = page.api.core;
    return { match: a.match.map(([p, q]) => c.matchBasePath(p, q) ?? null), paths: a.objects.map(o => c.getAllObjectPaths(o, "")), values: a.objects.map(o => [...c.extractObjectPathValues(o, "x.").entries()]), models: a.models.map(([fields, key, v]) => { const m = c.getConfigModelByFields(fields)[key]; return m ? m.safeParse(v).success : null; }), diff: a.diff.map(([x, y]) => c.getObjectDiffPaths(x, y, c.compareIOIgnorePaths).sort()) };
  },
  host(a) { return plain(page.api.core.parseTaskHost(a.host)); },
  // one task, edited in its window
  async create(a) {
    const cfg = page.api.configurators[a.configurator];
    const ctx = { taskHost: a.host, idGenerator: () => a.topics.shift() ?? (page.topicAt++ + 800000000) };
    const task = a.task ? a.task : await settle(cfg.create(ctx));
    const m = new page.api.core.ManagedTask(task, cfg, ctx);
    m.$told = dump(m); m.on("updated", () => { m.$told = dump(m); });
    return { id: page.put(m), task: dump(m), editor: m.hasEditor };
  },
  task(a) { return dump(page.get(a.id)); },
  told(a) { return page.get(a.id).$told; },
  async connect(a) { const m = page.get(a.id); let r; try { r = await settle(m.connect(a.key, a.output ?? undefined)); } catch (e) { r = "error: " + e; } return { result: plain(r), task: dump(m) }; },
  async window(a) {
    const m = page.get(a.id), el = new El("div"), { React, createRoot, TaskEditorWindow, TaskDisplayWindow } = page.api;
    const seen = []; m.on("updated", t => seen.push(1));
    const root = createRoot(el);
    page.root ??= new page.api.RootStore();
    const win = React.createElement(a.display ? TaskDisplayWindow : TaskEditorWindow, { task: m, onClose() { el.closed = true; }, onDelete() { el.deleted = true; } });
    root.render(React.createElement(page.api.RootStoreContext.Provider, { value: page.root, children: win }));
    await settle(null);
    el.seen = seen; el.root_ = root;
    return page.put(el);
  },
  async close(a) { const el = page.get(a.window); el.root_.unmount(); await settle(null); return true; },
  async controls(a) { await settle(null); return controls(page.get(a.window)).map(show); },
  async act(a) { const el = page.get(a.window); const c = controls(el)[a.at]; act(c, a.how, a.value); await settle(null); return { controls: controls(el).map(show), updates: el.seen.length }; },
  setLabel(a) { page.get(a.id).label = a.label; return true; },
  // the whole page: stores against a server
  async store(a) { const r = new page.api.RootStore(); page.root = r; if (!a.still) await settle(r.init()); return page.put(r); },
  // a call that may last: its end is asked for with "done"
  async begin(a) {
    let at = page.get(a.on), self = null;
    for (const p of a.path) { self = at; at = at[p]; }
    const rec = { state: "pending", value: null };
    const args = (a.args ?? []).map(x => x && x.$ref ? page.get(x.$ref) : x);
    Promise.resolve().then(() => at.apply(self, args)).then(v => { rec.state = "done"; rec.value = v; }, e => { rec.state = "failed"; rec.value = String(e?.message ?? e).slice(0, 400); });
    await settle(new Promise(() => {}), true);
    return page.put(rec);
  },
  async done(a) { await settle(new Promise(() => {}), true); const r = page.get(a.id); return r.state === "done" && a.keep ? { state: "done", value: r.value == null ? null : page.put(r.value) } : { state: r.state, value: r.state === "done" ? plain(r.value?.task ?? r.value) : r.value }; },
  async set(a) { let at = page.get(a.on); for (const p of a.path.slice(0, -1)) at = at[p]; at[a.path.at(-1)] = a.value; await settle(null, true); return true; },
  async call(a) {
    let at = a.on === undefined ? page.api : page.get(a.on), self = null;
    for (const p of a.path) { self = at; at = at[p]; }
    const args = (a.args ?? []).map(x => x && x.$ref ? page.get(x.$ref) : x && x.$undefined ? undefined : x);
    let r = typeof at === "function" && !a.read ? at.apply(self, args) : at;
    r = await settle(r);
    if (a.keep) return r === undefined || r === null ? null : page.put(r);
    if (r instanceof Map) return [...r.entries()].map(([k, v]) => [k, plain(v?.task ?? v)]);
    return plain(r?.task ?? r);
  },
  new(a) { const args = (a.args ?? []).map(x => x && x.$ref ? page.get(x.$ref) : x); return page.put(new page.api[a.type](...args)); },
  sockets() { return page.sockets.map(s => ({ id: s.id, url: s.url, open: s.open, closed: s.closed })); },
  async socket(a) { const s = page.sockets[a.id]; if (a.what === "open") { s.open = true; s.dispatchEvent(new Ev("open")); } else if (a.what === "message") s.dispatchEvent(new Ev("message", { data: a.data })); else { s.closed = true; s.dispatchEvent(new Ev(a.what)); } await settle(null); return true; },
  keep(a) { let at = page.get(a.on); for (const p of a.path) at = at instanceof Map ? at.get(p) : at[p]; return at === undefined ? null : page.put(at); },
  // the node editor's canvas: nodes, their connectors, the lines between them, the viewport
  async canvas(a) {
    const ed = new page.api.NodeEditorRenderer(), el = new El("div"), nodes = new Map(), groups = new Map(), told = [], out = [];
    el.w = a.size[0]; el.h = a.size[1];
    ed.mount(el);
    const vp = el.childNodes[0], host = vp.childNodes[0];
    Object.assign(vp, { w: a.size[0], h: a.size[1], rx: a.rect[0], ry: a.rect[1] });
    ed.on("connect-failure", x => told.push(["refused", x.input.nodeId, x.input.key, !!x.isUserEvent, x.errorText ?? null]));
    ed.on("updated", x => told.push(["updated", x]));
    ed.on("selected", x => told.push(["selected", x ?? null]));
    const make = d => {
      const n = { ...d, host: d.host ?? undefined, position: { ...d.position }, inputs: d.inputs.map(i => ({ id: i.key, ...i, streamId: i.streamId ?? undefined })), outputs: d.outputs.map(s => ({ id: s, streamId: s })), alive: true };
      n.on = (name, f) => { n.told = f; };
      n.destroy = () => { n.alive = false; };
      n.connect = async (key, o) => {
        const mode = n.modes[key], i = n.inputs.find(x => x.key === key);
        await null;
        if (!i || mode === "stuck" || mode === "refuse" && o) return mode === "stuck" ? "it is stuck" : false;
        i.streamId = o?.streamId;
        return true;
      };
      return n;
    };
    const all = e => [e, ...e.childNodes.flatMap(all)];
    const circles = id => { const n = nodes.get(id), g = groups.get(id), c = g ? all(g).filter(e => e._l.get("pointerup")?.size) : []; return new Map([...n?.inputs.map(i => i.key) ?? [], ...n?.outputs.map(o => o.streamId) ?? []].map((k, i) => [k, c[i]])); };
    const at = (c, g) => { let x = c.offsetWidth / 2, y = c.offsetHeight / 2; for (let e = c; e && e !== g; e = e.parentNode) { x += e.offsetLeft; y += e.offsetTop; } return { x: g.offsetLeft + (x > g.offsetWidth / 2 ? g.offsetWidth : 0), y: g.offsetTop + y }; };
    const lines = () => all(host).filter(e => e.tagName === "svg").map(e => { const n = (/ d="([^"]*)"/.exec(e._html)?.[1] ?? "").match(/-?[0-9.]+(?:e[-+]?[0-9]+)?/g).map(Number), x = e.px("left"), y = e.px("top"); return [n[0] + x, n[1] + y, n.at(-2) + x, n.at(-1) + y, /stroke-dasharray/.test(e._html)]; });
    const pinch = (vp, steps) => { // two fingers, each with a name; the page may list them in either order
      const list = ps => { const l = ps.map(([identifier, clientX, clientY]) => ({ identifier, clientX, clientY })); Object.defineProperty(l, "item", { value: i => l[i], enumerable: false }); return l; };
      vp.dispatchEvent(new Ev("touchstart", { bubbles: true, touches: list(steps[0]) }));
      for (const s of steps) vp.dispatchEvent(new Ev("touchmove", { bubbles: true, touches: list(s) }));
      vp.dispatchEvent(new Ev("touchend", { bubbles: true, touches: list([]) }));
    };
    const both = (e, type, init = {}) => { e.dispatchEvent(new Ev(type, { bubbles: true, ...init })); page.window.dispatchEvent(new Ev(type, init)); };
    for (const op of a.ops) {
      let error = null;
      const spot = (id, c) => { const t = c === null ? groups.get(id) : circles(id).get(c); if (!t) throw new Error("nothing there"); return t; };
      try {
        if (op[0] === "add") {
          const n = make(op[1]), had = new Set(host.childNodes);
          const done = ed.addNode(n, op[2]);
          const g = host.childNodes.filter(e => !had.has(e) && e._l.get("pointerdown")?.size);
          nodes.set(n.id, n); groups.set(n.id, g[0]);
          await settle(done);
        } else if (op[0] === "del") { ed.deleteNode(op[1]); nodes.delete(op[1]); groups.delete(op[1]); }
        else if (op[0] === "clear") { ed.clear(); nodes.clear(); groups.clear(); }
        else if (op[0] === "down") both(spot(op[1], op[2]), "pointerdown");
        else if (op[0] === "up") both(spot(op[1], op[2]), "pointerup");
        else if (op[0] === "bgdown") both(vp, "pointerdown");
        else if (op[0] === "bgup") both(vp, "pointerup");
        else if (op[0] === "move") both(vp, "pointermove", { clientX: op[1], clientY: op[2], movementX: op[3], movementY: op[4] });
        else if (op[0] === "pinch") pinch(vp, op[1]);
        else if (op[0] === "wheel") both(vp, "wheel", { deltaY: op[1], clientX: op[2], clientY: op[3] });
        else if (op[0] === "ro") ed.readOnly = op[1];
        else if (op[0] === "unselect") ed.unselectNode();
        else if (op[0] === "mode") { const n = nodes.get(op[1]); n.modes[op[2]] = op[3]; }
        else if (op[0] === "change") {
          const n = nodes.get(op[1]), d = op[2], was = new Map(n.inputs.map(i => [i.key, i.streamId]));
          n.inputs = d.inputs.map(key => ({ id: key, key, streamId: was.get(key) })); n.outputs = d.outputs.map(s => ({ id: s, streamId: s })); n.host = d.host ?? undefined; n.label = d.label;
          Object.assign(n.modes, d.modes);
          await settle(n.told?.());
        }
      } catch (e) { error = String(e?.message ?? e).slice(0, 300); }
      await settle(null);
      const m = /translate\((.+)px, *(.+)px\) *scale\((.+)\)/.exec(host.style.transform ?? "");
      out.push({ error, told: told.splice(0), errors: page.errors.splice(0), lines: lines(), view: m ? m.slice(1).map(Number) : null, local: a.probes.map(p => { const r = ed.getLocalPosition({ x: p[0], y: p[1] }); return [r.x, r.y]; }), layers: host.childNodes.length,
        nodes: [...nodes].map(([id, n]) => ({ id, at: [groups.get(id)?.px("left"), groups.get(id)?.px("top")], position: [n.position.x, n.position.y], shown: !!groups.get(id)?.parentNode, text: all(groups.get(id) ?? new El("x")).map(e => e._text).filter(x => x), inputs: n.inputs.map(i => [i.key, i.streamId ?? null]), spots: [...circles(id)].map(([k, c]) => { if (!c) return [k, null]; const p = at(c, groups.get(id)); return [k, [p.x, p.y]]; }) })) });
    }
    ed.destroy();
    out.push({ left: el.childNodes.length });
    return plain(out);
  },
  // a dashboard's windows: moved by their heads, resized by their edges
  async windows(a) {
    const tasks = new Map(), told = [], out = [], el = new El("div"), wins = new Map();
    for (const [id, label] of a.tasks) { const t = new page.api.TaskNode.__proto__(); tasks.set(id, Object.assign(t, { id, label, taskInstance: undefined, renderDisplay() {} })); }
    const ed = new page.api.WindowEditorRenderer({ tasks });
    ed.on("updated", x => told.push(["updated", x])); ed.on("removed", x => told.push(["removed", x]));
    ed.mount(el);
    const vp = el.childNodes[0], host = vp.childNodes[0];
    Object.assign(vp, { w: 800, h: 600, rx: a.rect[0], ry: a.rect[1] });
    const all = e => [e, ...e.childNodes.flatMap(all)];
    const spot = (id, what) => {
      const hs = all(wins.get(id)).filter(e => e._l.get(what === "close" ? "click" : "pointerdown")?.size && e.parentNode);
      if (what === "close") return hs[0];
      if (what === "head") return hs.find(e => e.style.cursor === "move");
      const edges = e => ["left", "right", "top", "bottom"].filter(k => parseFloat(e.style[k]) === 0).sort().join("+");
      return hs.find(e => e.style.cursor !== "move" && edges(e) === what);
    };
    const pinch = (vp, steps) => { // two fingers, each with a name; the page may list them in either order
      const list = ps => { const l = ps.map(([identifier, clientX, clientY]) => ({ identifier, clientX, clientY })); Object.defineProperty(l, "item", { value: i => l[i], enumerable: false }); return l; };
      vp.dispatchEvent(new Ev("touchstart", { bubbles: true, touches: list(steps[0]) }));
      for (const s of steps) vp.dispatchEvent(new Ev("touchmove", { bubbles: true, touches: list(s) }));
      vp.dispatchEvent(new Ev("touchend", { bubbles: true, touches: list([]) }));
    };
    const both = (e, type, init = {}) => { e.dispatchEvent(new Ev(type, { bubbles: true, ...init })); page.window.dispatchEvent(new Ev(type, init)); };
    for (const op of a.ops) {
      let error = null;
      try {
        if (op[0] === "open") { const had = new Set(host.childNodes); ed.addWindow({ ...op[1] }); wins.set(op[1].task_id, host.childNodes.find(e => !had.has(e))); }
        else if (op[0] === "remove") ed.removeWindow(op[1]);
        else if (op[0] === "down") { const t = spot(op[1], op[2]); if (!t) throw new Error("no handle"); both(t, "pointerdown"); }
        else if (op[0] === "close") both(spot(op[1], "close"), "click");
        else if (op[0] === "bgdown") both(vp, "pointerdown");
        else if (op[0] === "up") both(vp, "pointerup");
        else if (op[0] === "move") both(vp, "pointermove", { clientX: op[1], clientY: op[2], movementX: op[3], movementY: op[4] });
        else if (op[0] === "pinch") pinch(vp, op[1]);
        else if (op[0] === "wheel") both(vp, "wheel", { deltaY: op[1], clientX: op[2], clientY: op[3] });
        else if (op[0] === "rename") { const t = tasks.get(op[1]); t.label = op[2]; t.emit("updated", t); }
      } catch (e) { error = String(e?.message ?? e).slice(0, 300); }
      await settle(null);
      const m = /translate\((.+)px, *(.+)px\) *scale\((.+)\)/.exec(host.style.transform ?? "");
      out.push({ error, told: told.splice(0), errors: page.errors.splice(0), view: m ? m.slice(1).map(Number) : null, wins: [...wins].filter(([, e]) => e?.parentNode).map(([id, e]) => [id, ["left", "top", "width", "height"].map(k => e.px(k)), all(e).map(x => x._text).filter(x => x)]) });
    }
    ed.destroy();
    out.push({ left: host.childNodes.length });
    return plain(out);
  },
  // elements
  element(a) { const e = new El("div"); Object.assign(e, a.set ?? {}); return page.put(e); },
  async event(a) { let t = a.on === "window" ? page.window : page.get(a.on); for (const p of a.path ?? []) t = t[p]; t.dispatchEvent(new Ev(a.type, { bubbles: a.type !== "pointermove" || true, ...(a.init ?? {}) })); if (a.type.startsWith("pointer") && a.on !== "window") page.window.dispatchEvent(new Ev(a.type, a.init ?? {})); await settle(null); return true; },
  async touch(a) { const list = a.touches; Object.defineProperty(list, "item", { value: i => list[i], enumerable: false }); page.get(a.on).container.dispatchEvent(new Ev(a.type, { touches: list, bubbles: true })); return true; },
  tree(a) { const w = e => ({ tag: e.tagName, style: e.style, attrs: e.attrs, html: e._html, text: e._text, kids: e.childNodes.map(w) }); let t = page.get(a.on); for (const p of a.path ?? []) t = t[p]; return plain(w(t)); },
  log(a) { const o = page.get(a.on), l = []; for (const n of a.names) o.on(n, (...x) => l.push([n, ...x.map(v => plain(v) )])); o.$log = l; return true; },
  logged(a) { const o = page.get(a.on), l = o.$log; const r = [...l]; l.length = 0; return r; },
};
process.on("unhandledRejection", e => { page?.errors.push("unhandled: " + String(e?.stack ?? e).slice(0, 400)); });
process.on("uncaughtException", e => { page?.errors.push("uncaught: " + String(e?.stack ?? e).slice(0, 400)); });
say({ ready: true });
for (;;) {
  const m = JSON.parse(await line());
  try { say({ ok: (await ops[m.op](m)) ?? null }); }
  catch (e) { say({ error: String(e?.message ?? e).slice(0, 600) }); }
}
