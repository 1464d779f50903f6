class EventEmitter {
  constructor() { this._l = new Map(); }
  on(name, fn, ctx) { if (!this._l.has(name)) this._l.set(name, []); this._l.get(name).push({ fn, ctx, once: false }); return this; }
  once(name, fn, ctx) { this.on(name, fn, ctx); this._l.get(name).at(-1).once = true; return this; }
  off(name, fn) { const l = this._l.get(name); if (l) this._l.set(name, fn === undefined ? [] : l.filter(e => e.fn !== fn)); return this; }
  emit(name, ...args) {
    const l = this._l.get(name) ?? [];
    for (const e of [...l]) { if (e.once) this.off(name, e.fn); e.fn.apply(e.ctx ?? this, args); }
    return l.length > 0;
  }
  listeners(name) { return (this._l.get(name) ?? []).map(e => e.fn); }
  listenerCount(name) { return (this._l.get(name) ?? []).length; }
  eventNames() { return [...this._l.keys()]; }
  removeAllListeners(name) { if (name === undefined) this._l.clear(); else this._l.delete(name); return this; }
}
EventEmitter.prototype.addListener = EventEmitter.prototype.on;
EventEmitter.prototype.removeListener = EventEmitter.prototype.off;
EventEmitter.EventEmitter = EventEmitter;
module.exports = EventEmitter;
module.exports.default = EventEmitter;
module.exports.__esModule = true;
