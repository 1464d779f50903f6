// Every name of a component library stands for a host element of that name; lower-case names are functions.
const all = new Proxy({}, { get: (_, name) => {
  if (typeof name !== "string") return undefined;
  if (name === "default") return "Default";
  return /^[a-z]/.test(name) ? (...args) => args[0] ?? {} : name;
} });
module.exports = Object.create(all, { __esModule: { value: true } });
