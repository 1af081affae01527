export function rng(seed) { // mulberry32
  let a = (seed >>> 0) || 1;
  const f = () => { a |= 0; a = (a + 0x6d2b79f5) | 0; let t = Math.imul(a ^ (a >>> 15), 1 | a); t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t; return ((t ^ (t >>> 14)) >>> 0) / 4294967296; };
  f.int = (n) => Math.floor(f() * n);
  f.pick = (xs) => xs[f.int(xs.length)];
  f.shuffle = (xs) => { const r = xs.slice(); for (let i = r.length - 1; i > 0; i--) { const j = f.int(i + 1); [r[i], r[j]] = [r[j], r[i]]; } return r; };
  return f;
}
export function canon(x) { // canonical JSON (sorted keys) for comparison
  return JSON.stringify(x, (k, v) => v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort(([a], [b]) => (a < b ? -1 : a > b ? 1 : 0))) : v === undefined ? null : v);
}
export function diffKeys(exp, got) {
  const out = {};
  for (const k of new Set([...Object.keys(exp), ...Object.keys(got)])) if (canon(exp[k]) !== canon(got[k])) out[k] = { expected: exp[k], got: got[k] };
  return out;
}
export const sleepReal = (ms) => new Promise((r) => setTimeout(r, ms));
