// object-path 0.11: get, set, has, and a bound form.
const parts = p => Array.isArray(p) ? p : typeof p === "number" ? [String(p)] : String(p).split(".");
const own = (o, k) => o !== null && o !== undefined && Object.prototype.hasOwnProperty.call(Object(o), k);
function get(obj, path, fallback) {
  if (path === undefined || path === null || path === "" || path.length === 0) return obj;
  for (const k of parts(path)) {
    if (!own(obj, k)) return fallback;
    obj = obj[k];
    if (obj === undefined) return fallback;
  }
  return obj;
}
function has(obj, path) {
  for (const k of parts(path)) { if (!own(obj, k)) return false; obj = obj[k]; }
  return true;
}
function set(obj, path, value, keep) {
  const ks = parts(path);
  for (let i = 0; i < ks.length; i++) {
    const k = ks[i];
    if (k === "__proto__" || k === "constructor" || k === "prototype") throw new Error("For security reasons, such a path cannot be set");
    if (i === ks.length - 1) { const old = obj[k]; if (!(keep && old !== undefined)) obj[k] = value; return old; }
    if (obj[k] === undefined || obj[k] === null) obj[k] = /^\d+$/.test(ks[i + 1]) ? [] : {};
    obj = obj[k];
  }
}
function del(obj, path) {
  const ks = parts(path); const last = ks.pop();
  const at = ks.length ? get(obj, ks) : obj;
  if (at !== undefined && at !== null) { if (Array.isArray(at)) at.splice(Number(last), 1); else delete at[last]; }
  return obj;
}
const op = obj => ({ get: (p, d) => get(obj, p, d), set: (p, v, n) => set(obj, p, v, n), has: p => has(obj, p), del: p => del(obj, p) });
module.exports = Object.assign(op, { get, set, has, del, default: undefined });
