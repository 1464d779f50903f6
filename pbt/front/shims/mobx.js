// mobx, reduced: observable maps and fields wake the reactions after every change; what is computed is computed anew.
const reactions = new Set();
let busy = false, again = false, pausedDepth = 0;
function changed() {
  if (pausedDepth) { again = true; return; }
  if (busy) { again = true; return; }
  busy = true;
  try {
    let guard = 0;
    do { again = false; if (++guard > 100) throw new Error("reactions do not come to an end"); for (const r of [...reactions]) if (reactions.has(r)) r(); } while (again);
  } finally { busy = false; }
}
class OMap extends Map {
  constructor(init) { super(); this._o = new Set(); if (init) for (const [k, v] of init instanceof Map ? init.entries() : Array.isArray(init) ? init : Object.entries(init)) super.set(k, v); }
  set(k, v) {
    if (!this._o) return super.set(k, v);
    const had = this.has(k), old = this.get(k);
    super.set(k, v);
    if (!had) this._o.forEach(f => f({ type: "add", name: k, newValue: v })); else if (!Object.is(old, v)) this._o.forEach(f => f({ type: "update", name: k, oldValue: old, newValue: v }));
    changed(); return this;
  }
  delete(k) { const had = this.has(k), old = this.get(k); const r = super.delete(k); if (had) this._o.forEach(f => f({ type: "delete", name: k, oldValue: old })); changed(); return r; }
  clear() { for (const k of [...this.keys()]) this.delete(k); }
}
function fields(target, names) {
  for (const n of names) {
    let v = target[n];
    Object.defineProperty(target, n, { enumerable: true, configurable: true, get: () => v, set: x => { if (!Object.is(v, x)) { v = x; changed(); } } });
  }
  return target;
}
function observable(v) {
  if (v instanceof Map) return new OMap(v);
  if (v && typeof v === "object" && !Array.isArray(v)) return fields(v, Object.keys(v).filter(k => !Object.getOwnPropertyDescriptor(v, k).get && typeof v[k] !== "function"));
  return v;
}
observable.map = init => new OMap(init);
observable.ref = observable; observable.shallow = observable; observable.deep = observable;
observable.array = a => a ?? [];
const mark = s => Object.assign(f => f, { $mark: s, bound: f => f, struct: f => f });
const action = mark("action"), computed = mark("computed");
function makeObservable(target, notes) {
  if (!notes) return target;
  for (const [n, note] of Object.entries(notes)) {
    if (note === observable || note === observable.ref || note === observable.shallow || note === observable.deep) {
      if (target[n] instanceof Map && !(target[n] instanceof OMap)) target[n] = new OMap(target[n]);
      fields(target, [n]);
    }
  }
  return target;
}
const makeAutoObservable = t => fields(t, Object.keys(t).filter(k => typeof t[k] !== "function"));
function reaction(expr, effect, opts) {
  let last = expr();
  const run = () => { const v = expr(); if (!Object.is(v, last)) { const p = last; last = v; effect(v, p); } };
  reactions.add(run);
  if (opts && opts.fireImmediately) effect(last, undefined);
  return () => reactions.delete(run);
}
function autorun(f) { reactions.add(f); f(); return () => reactions.delete(f); }
function when(pred, effect) {
  if (effect) { if (pred()) { effect(); return () => {}; } const d = autorun(() => { if (pred()) { reactions.delete(f); effect(); } }); const f = d; return d; }
  return new Promise(done => { const check = () => { if (pred()) { reactions.delete(check); done(); } }; reactions.add(check); check(); });
}
function observe(target, fn) { if (target instanceof OMap) { target._o.add(fn); return () => target._o.delete(fn); } return () => {}; }
const runInAction = f => f();
module.exports = { __esModule: true, observable, action, computed, makeObservable, makeAutoObservable, reaction, autorun, when, observe, runInAction, toJS: x => x, transaction: f => f(), untracked: f => f() };
