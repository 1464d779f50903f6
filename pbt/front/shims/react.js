// A small React: function components, hooks, contexts and refs over a stand-in DOM.
let current = null;            // the component instance being rendered
const Fragment = Symbol("Fragment");
function element(type, props, key) { return { $el: true, type, props: props ?? {}, key: key ?? null }; }
function jsx(type, props, key) { return element(type, props, key === undefined ? null : String(key)); }
function createElement(type, props, ...children) {
  const { key, ...rest } = props ?? {};
  if (children.length) rest.children = children.length === 1 ? children[0] : children;
  return element(type, rest, key === undefined || key === null ? null : String(key));
}
function same(a, b) { return a && b && a.length === b.length && a.every((v, i) => Object.is(v, b[i])); }
function hook(make) {
  const inst = current, i = inst.at++;
  if (inst.hooks.length <= i) inst.hooks.push(make(inst));
  return inst.hooks[i];
}
function useReducer(reduce, init, initFn) {
  const h = hook(inst => ({ value: initFn ? initFn(init) : init, dispatch: null, inst }));
  h.reduce = reduce;
  h.dispatch ??= action => {
    const next = h.reduce(h.value, action);
    if (!Object.is(next, h.value)) { h.value = next; h.inst.root.touch(); }
  };
  return [h.value, h.dispatch];
}
function useState(init) {
  const h = hook(inst => ({ value: typeof init === "function" ? init() : init, inst, set: null }));
  h.set ??= v => {
    const next = typeof v === "function" ? v(h.value) : v;
    if (!Object.is(next, h.value)) { h.value = next; h.inst.root.touch(); }
  };
  return [h.value, h.set];
}
function useMemo(make, deps) {
  const h = hook(() => ({ deps: null }));
  if (!h.deps || !same(h.deps, deps)) { h.value = make(); h.deps = deps; }
  return h.value;
}
const useCallback = (fn, deps) => useMemo(() => fn, deps);
const useRef = init => hook(() => ({ current: init }));
function useEffect(run, deps) {
  const h = hook(() => ({ effect: true, deps: null, first: true }));
  if (h.first || deps === undefined || !same(h.deps, deps)) {
    h.first = false; h.deps = deps ?? null; current.root.effects.push([current, h, run]);
  }
}
const useContext = ctx => {
  for (let i = current; i; i = i.parent) if (i.type === ctx.Provider) return i.props.value;
  return ctx.initial;
};
function createContext(initial) {
  const ctx = { initial };
  ctx.Provider = props => props.children;
  ctx.Consumer = props => props.children(useContext(ctx));
  return ctx;
}
const memo = c => c;
const forwardRef = c => props => c(props, props.ref);

function flat(c, out) {
  if (Array.isArray(c)) c.forEach((x, i) => {
    if (x && x.$el && x.key === null) out.push({ ...x, key: "." + out.length + "." + i }); else flat(x, out);
  });
  else if (c !== null && c !== undefined && typeof c !== "boolean") out.push(c);
  return out;
}
class Root {
  constructor(container) { this.container = container; container.__root = this; this.effects = []; this.dirty = false; this.top = null; this.el = null; this.gone = false; this.renders = 0; }
  render(el) { this.el = el; this.touch(); }
  touch() {
    if (this.dirty || this.gone) return;
    this.dirty = true;
    queueMicrotask(() => this.flush());
  }
  flush() {
    let guard = 0;
    while (this.dirty && !this.gone) {
      if (++guard > 60) throw new Error("rendering does not come to an end");
      this.dirty = false;
      this.renders++;
      this.top = this.update(this.top, this.el, null);
      const effects = this.effects; this.effects = [];
      for (const [inst, h] of effects) if (typeof h.cleanup === "function") { const c = h.cleanup; h.cleanup = null; c(); }
      for (const [inst, h, run] of effects) if (!inst.dead) h.cleanup = run();
    }
  }
  unmount() { this.gone = true; if (this.top) this.drop(this.top); this.top = null; }
  drop(inst) {
    if (inst.text !== undefined) return;
    inst.dead = true;
    for (const k of inst.kids) this.drop(k);
    for (const h of inst.hooks) if (h.effect && typeof h.cleanup === "function") h.cleanup();
    if (inst.dom) { inst.dom.remove(); const r = inst.props.ref; if (r && typeof r === "object") r.current = null; }
  }
  update(inst, el, parent) {
    if (el === null || el === undefined || typeof el === "boolean") { if (inst) this.drop(inst); return { text: "", kids: [], hooks: [], props: {} }; }
    if (Array.isArray(el)) el = element(Fragment, { children: el });
    if (!el.$el) { if (inst) this.drop(inst); return { text: String(el), kids: [], hooks: [], props: {} }; }
    if (!inst || inst.text !== undefined || inst.type !== el.type || inst.key !== el.key) {
      if (inst) this.drop(inst);
      inst = { type: el.type, key: el.key, hooks: [], kids: [], parent, root: this };
    }
    inst.props = el.props; inst.at = 0;
    let out;
    if (typeof el.type === "function") {
      const before = current; current = inst;
      try { out = el.type(el.props); } finally { current = before; }
    }
    else {
      out = el.props.children;
      if (typeof out === "function") out = null;
      if (typeof el.type === "string" && el.props.ref) {
        if (!inst.dom) { inst.dom = document.createElement("div"); this.container.appendChild(inst.dom); }
        if (typeof el.props.ref === "function") el.props.ref(inst.dom); else el.props.ref.current = inst.dom;
      }
    }
    const wanted = flat(out, []);
    const old = inst.kids, used = new Set();
    inst.kids = wanted.map((w, i) => {
      let match = null;
      if (w.$el && w.key !== null) match = old.find(o => !used.has(o) && o.key === w.key && o.type === w.type) ?? null;
      else if (old[i] && !used.has(old[i]) && old[i].text === undefined && w.$el && old[i].key === null && old[i].type === w.type) match = old[i];
      if (match) used.add(match);
      return this.update(match, w, inst);
    });
    for (const o of old) if (!used.has(o)) this.drop(o);
    return inst;
  }
}
const createRoot = container => new Root(container);
const React = { Fragment, createElement, useState, useReducer, useMemo, useCallback, useRef, useEffect, useLayoutEffect: useEffect, useContext, createContext, memo, forwardRef };
module.exports = { __esModule: true, default: React, ...React, jsx, jsxs: jsx, jsxDEV: jsx, createRoot };
