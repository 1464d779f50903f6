const canon = v => Array.isArray(v) ? "[" + v.map(canon).join(",") + "]" : v && typeof v === "object" ? "{" + Object.keys(v).sort().map(k => JSON.stringify(k) + ":" + canon(v[k])).join(",") + "}" : typeof v + ":" + String(v);
module.exports = v => nodeRequire("crypto").createHash("sha1").update(canon(v)).digest("hex");
