// The public methods of the generated API client, found by reflection.
export function endpoints(api) {
  const out = [];
  const visit = (obj, name, depth) => {
    for (const k of Object.getOwnPropertyNames(Object.getPrototypeOf(obj)).sort()) {
      if (k === "constructor" || k.startsWith("_")) continue; const d = Object.getOwnPropertyDescriptor(Object.getPrototypeOf(obj), k);
      if (d.get) { const sub = obj[k]; if (sub && typeof sub === "object" && depth < 3) visit(sub, [...name, k], depth + 1); continue; }
      if (typeof d.value !== "function" || depth === 0) continue;
      const params = signature(d.value); if (!params) continue;
      // (path arguments..., request?, requestOptions)
      const hasRequest = params.length >= 2 && /^request\d*$/.test(params[params.length - 2]);
      out.push({ id: [...name, k].join("."), path: [...name, k], args: params.length - 1 - (hasRequest ? 1 : 0), hasRequest });
    }
  };
  visit(api, [], 0); return out;
}
function signature(f) { const src = String(f), i = src.indexOf("("); let d = 0, j = i; for (; j < src.length; j++) { if ("([{".includes(src[j])) d++; else if (")]}".includes(src[j]) && --d === 0) break; } const list = []; let cur = "", depth = 0; for (const ch of src.slice(i + 1, j)) { if ("([{".includes(ch)) depth++; if (")]}".includes(ch)) depth--; if (ch === "," && !depth) { list.push(cur); cur = ""; } else cur += ch; } if (cur.trim()) list.push(cur); const names = list.map((x) => x.split("=")[0].trim()); return /^requestOptions\d*$/.test(names[names.length - 1] ?? "") ? names : null; }
export function invoke(api, ep, args, request, options) { let o = api; for (const k of ep.path.slice(0, -1)) o = o[k]; return o[ep.path[ep.path.length - 1]](...args, ...(ep.hasRequest ? [request] : []), options); }
