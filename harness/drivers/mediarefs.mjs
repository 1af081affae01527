// Replays MediaRefs.tla into MediaManager.resolveReferences.
import { isDeepStrictEqual } from "node:util";
const PATHS = { root: [], a: ["a"], b: ["b"], bc: ["b", "c"], bd: ["b", "d é"], l0: ["l", 0], l1: ["l", 1], l2x: ["l", 2, "x"], proto: ["p", "__proto__"], deep10: Array(10).fill("z"), deep11: ["y", ...Array(10).fill("z")] };
export function variants() { return [{ order: "fifo", type: "image/png" }, { order: "lifo", type: "text/plain;charset=utf-8" }, { order: "mix", type: "audio/mpeg" }]; }
const IDS = { R1: "AAAAAAAAAAAAAAAAAAAAAA", R2: "b-_BBBBBBBBBBBBBBBBBBB", R3: "cc00CCCCCCCCCCCCCCCCCC" };
const CONTENT = { R1: Buffer.from([0, 255, 1, 2]), R2: Buffer.from("héllo $& $1 @@@"), R3: Buffer.alloc(0) };
class Point { constructor() { this.x = "@@"; } get y() { return 1; } }
export async function make({ lib, world, variant: v }) {
  let ok = "ok", shown = []; const bad = (m) => { if (ok === "ok") ok = m; };
  const client = new lib.client.LangfuseClient({ publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test" });
  const inst = { date: new Date(5), bytes: new Uint8Array([1, 2]), media: new lib.core.LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array([3]), contentType: "image/png" }), mref: new lib.core.LangfuseMediaReference({ mediaId: "m", contentType: "image/png", url: "http://x.test/u", referenceString: "@@@langfuseMedia:type=image/png|id=m|source=bytes@@@" }), map: new Map([["k", "v"]]), class: new Point(), fn: () => 1, num: 0, null: null, undef: undefined, bool: false };
  const STR = { txt: "some text | a=b ", at: "@@@", open: "@@@langfuseMedia:type=image/png|id=q ", nofields: "@@@langfuseMedia:nothing@@@", nosource: `@@@langfuseMedia:type=image/png|id=${IDS.R1}@@@`, noeq: "@@@langfuseMedia:type|id|source@@@", empty: "@@@langfuseMedia:@@@", nl: "\n", dollar: "$& $$ $1 " };
  for (const r of Object.keys(IDS)) { STR[r] = r === "R2" ? `@@@langfuseMedia:id=${IDS[r]}|source=base64_data_uri|type=${v.type}@@@` : `@@@langfuseMedia:type=${v.type}|id=${IDS[r]}|source=bytes@@@`; }
  const leafVal = (toks, f) => (toks.length === 1 && toks[0] in inst ? inst[toks[0]] : toks.map((t) => (t.startsWith("U") && t.slice(1) in IDS ? `data:${f[t.slice(1)] === "ok2" ? "application/pdf" : v.type};base64,${CONTENT[t.slice(1)].toString("base64")}` : STR[t])).join(""));
  const put = (o, k, x) => Object.defineProperty(o, k, { value: x, enumerable: true, writable: true, configurable: true });
  function build(entries, f) {
    let root; for (const { at, leaf } of entries) { const p = PATHS[at], val = leafVal(leaf, f); if (!p.length) { root = val; continue; } root ??= {}; let c = root; p.forEach((k, i) => { if (i === p.length - 1) put(c, k, val); else { if (!Object.hasOwn(c, k)) put(c, k, typeof p[i + 1] === "number" ? [] : {}); c = c[k]; } }); }
    const l = root?.l; if (Array.isArray(l)) for (let j = 0; j < l.length; j++) if (!(j in l)) l[j] = "hole";
    return root;
  }
  const same = (x, y) => isDeepStrictEqual(x, y);
  const check = (x, entries, f, got) => { if (!same(build(entries, f), got)) return "differs"; const inside = (at) => PATHS[at].reduce((c, k) => c?.[k], got); for (const { at, leaf } of entries) if (leaf.length === 1 && leaf[0] in inst && inside(at) !== inst[leaf[0]]) return "instance replaced"; return null; };
  return {
    async step(a, e) {
      const input = build(a.v, a.f), before = build(a.v, a.f); const r0 = world.requests.length; let st = null, out;
      Promise.resolve().then(() => (v.order === "lifo" ? client.resolveMediaReferences : client.media.resolveReferences.bind(client.media))({ obj: input, resolveWith: "base64DataUri", ...(a.md === 10 ? {} : { maxDepth: a.md }) })).then((x) => { out = x; st = "ok"; }, (err) => { st = "rejected " + err; });
      for (let k = 0; k < 40 && !st; k++) {
        await world.drain(1); const pend = world.pending(); if (!pend.length) continue; const r = v.order === "fifo" ? pend[0] : v.order === "lifo" ? pend.at(-1) : pend[(k * 7) % pend.length];
        const ref = Object.keys(IDS).find((x) => r.path === "/api/public/media/" + IDS[x]), cref = Object.keys(IDS).find((x) => r.url === "https://store.test/" + x + "?sig=1&a=b"); const o = a.f[ref ?? cref];
        if (ref) { if (r.headers.authorization !== "Basic " + Buffer.from("pk:sk-lf-5ecret-77").toString("base64")) bad("not authenticated"); if (o === "m404") r.reply(404, {}); else if (o === "mnet") r.fail(); else if (o === "modd") r.reply(200, null); else r.reply(200, { mediaId: IDS[ref], contentType: o === "ok2" ? "application/pdf" : v.type, contentLength: 4, url: "https://store.test/" + ref + "?sig=1&a=b", urlExpiry: "2030-01-01T00:00:00Z", uploadedAt: "2025-01-01T00:00:00Z" }); }
        else if (cref) { if (r.headers.authorization) bad("credentials sent to the storage"); if (o === "f404") r.reply(404, "no"); else if (o === "f500") r.reply(500, CONTENT[cref]); else if (o === "fnet") r.fail(); else r.reply(200, CONTENT[cref]); }
        else { bad("unexpected request " + r.method + " " + r.url); r.reply(404, {}); }
      }
      if (st !== "ok") bad(st ?? "never settled"); if (!same(before, input)) bad("the caller's value was modified");
      const want = a.v.map((x, i) => ({ at: x.at, leaf: e.o.leaves[i] })); const err = st === "ok" && check(null, want, a.f, out);
      shown = err ? [err, JSON.stringify(out)?.slice(0, 300)] : want.map((x) => x.leaf); void r0;
    },
    observe() { if (world.unhandled.length) bad("unhandled " + world.unhandled[0]); return { leaves: shown, ok }; },
  };
}
