module.exports = (...p) => p.filter(Boolean).map((s, i) => i ? String(s).replace(/^\/+/, "") : String(s)).map((s, i, l) => i < l.length - 1 ? s.replace(/\/+$/, "") : s).join("/").replace(/\/\.\//g, "/");
