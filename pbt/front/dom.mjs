// A stand-in document: elements, events that bubble, and a layout in which every element of a tree has its own place.
export class Ev { constructor(type, init = {}) { this.type = type; Object.assign(this, init); this.bubbles = !!init.bubbles; this.defaultPrevented = false; this.stopped = false; } preventDefault() { this.defaultPrevented = true; } stopPropagation() { this.stopped = true; } stopImmediatePropagation() { this.stopped = true; } }
export class Target {
  constructor() { this._l = new Map(); }
  addEventListener(t, f) { if (!this._l.has(t)) this._l.set(t, new Set()); this._l.get(t).add(f); }
  removeEventListener(t, f) { this._l.get(t)?.delete(f); }
  dispatchEvent(e) {
    e.target ??= this;
    const way = [];
    for (let at = this; at; at = e.bubbles ? at.parentNode : null) way.push(at); // as it was when the event came
    for (const at of way) { e.currentTarget = at; for (const f of [...(at._l.get(e.type) ?? [])]) f.call(at, e); if (e.stopped) break; }
    return !e.defaultPrevented;
  }
}
export class El extends Target {
  constructor(tag) { super(); this.tagName = tag; this.childNodes = []; this.parentNode = null; this.style = {}; this.attrs = {}; this.dataset = {}; this._html = ""; this._text = ""; this.w = 200; this.h = 100; this.classList = { add() {}, remove() {} }; }
  get children() { return this.childNodes; }
  get childElementCount() { return this.childNodes.length; }
  get firstChild() { return this.childNodes[0] ?? null; }
  get lastChild() { return this.childNodes.at(-1) ?? null; }
  get parentElement() { return this.parentNode; }
  appendChild(c) { c.remove(); c.parentNode = this; this.childNodes.push(c); return c; }
  append(...cs) { cs.forEach(c => this.appendChild(c)); }
  insertBefore(c, before) { c.remove(); c.parentNode = this; const i = this.childNodes.indexOf(before); this.childNodes.splice(i < 0 ? this.childNodes.length : i, 0, c); return c; }
  prepend(c) { this.insertBefore(c, this.childNodes[0]); }
  removeChild(c) { const i = this.childNodes.indexOf(c); if (i < 0) throw new Error("not a child"); this.childNodes.splice(i, 1); c.parentNode = null; return c; }
  replaceChildren(...cs) { while (this.firstChild) this.removeChild(this.firstChild); this.append(...cs); }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  contains(c) { for (; c; c = c.parentNode) if (c === this) return true; return false; }
  set innerHTML(v) { while (this.firstChild) this.removeChild(this.firstChild); this._html = String(v); }
  get innerHTML() { return this._html; }
  set innerText(v) { while (this.firstChild) this.removeChild(this.firstChild); this._text = String(v); }
  get innerText() { return this._text; }
  set textContent(v) { this.innerText = v; }
  get textContent() { return this._text; }
  setAttribute(k, v) { this.attrs[k] = String(v); }
  getAttribute(k) { return this.attrs[k] ?? null; }
  removeAttribute(k) { delete this.attrs[k]; }
  get place() { return this.parentNode ? this.parentNode.childNodes.indexOf(this) : 0; }
  px(k) { const v = parseFloat(this.style[k]); return Number.isNaN(v) ? undefined : v; }
  get inRow() { return this.parentNode?.style.flexDirection === "row"; }
  get offsetLeft() { return this.px("left") ?? (this.inRow ? this.place * 80 : 0); }
  get offsetTop() { return this.px("top") ?? (this.inRow ? 0 : this.place * 10); }
  get offsetWidth() { return String(this.style.width ?? "").endsWith("rem") ? this.px("width") * 16 : this.w; }
  get offsetHeight() { return 4; }
  get clientWidth() { return this.w; }
  get clientHeight() { return this.h; }
  get offsetParent() { return this.parentNode; }
  getBoundingClientRect() { return { x: this.rx ?? 0, y: this.ry ?? 0, left: this.rx ?? 0, top: this.ry ?? 0, width: this.w, height: this.h, right: (this.rx ?? 0) + this.w, bottom: (this.ry ?? 0) + this.h }; }
  click() { this.dispatchEvent(new Ev("click", { bubbles: true })); }
  focus() {} blur() {}
}
