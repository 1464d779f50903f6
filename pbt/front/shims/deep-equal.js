// deep-equal: loose comparison of leaves unless {strict: true}; the same own keys.
function eq(a, b, strict) {
  if (Object.is(a, b)) return true;
  if (typeof a !== "object" || a === null || typeof b !== "object" || b === null) return strict ? a === b : a == b;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (a instanceof Date && b instanceof Date) return a.getTime() === b.getTime();
  const ka = Object.keys(a).sort(), kb = Object.keys(b).sort();
  if (ka.length !== kb.length || ka.some((k, i) => k !== kb[i])) return false;
  return ka.every(k => eq(a[k], b[k], strict));
}
module.exports = (a, b, opts) => eq(a, b, !!(opts && opts.strict));
