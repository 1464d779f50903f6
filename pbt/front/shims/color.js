function Color(c) { return { mix: o => Color(`mix(${c})`), hex: () => String(c), rgb: () => Color(c), alpha: () => Color(c), string: () => String(c), toString: () => String(c), darken: () => Color(c), lighten: () => Color(c) }; }
module.exports = Color;
