// Replays DatasetCreate.tla into DatasetManager.createItem.
import { createHash } from "node:crypto";
import { isDeepStrictEqual } from "node:util";
const PATHS = { root: [], k: ["k"], "n.k": ["n", "k"], l0: ["l", 0], "l1.k": ["l", 1, "k é"], deep: Array(20).fill("d"), proto: ["p", "__proto__", "k"], cyc: ["c"], shared: ["s1"] };
export function variants() { return [{ id: "item-1", type: "image/png", uri: false }, { id: undefined, type: "application/pdf", uri: true }]; }
const CONTENT = { 1: Buffer.from([0, 255, 250, 7]), 2: Buffer.from("other héllo") };
const sha = (m) => createHash("sha256").update(CONTENT[m]).digest("base64"), mid = (m) => sha(m).replaceAll("+", "-").replaceAll("/", "_").slice(0, 22);
export async function make({ lib, world, variant: v }) {
  let ok = "ok", st = null, cur = null; const bad = (m) => { if (ok === "ok") ok = m; };
  const client = new lib.client.LangfuseClient({ publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test" });
  const Media = lib.core.LangfuseMedia; const mk = (m, type, uri) => (uri ? new Media({ source: "base64_data_uri", base64DataUri: `data:${type};base64,${CONTENT[m].toString("base64")}` }) : new Media({ source: "bytes", contentBytes: new Uint8Array(CONTENT[m]), contentType: type }));
  const tag = (m, type, uri) => `@@@langfuseMedia:type=${type}|id=${mid(m)}|source=${uri ? "base64_data_uri" : "bytes"}@@@`;
  const leaf = { M1: mk(1, v.type, v.uri), M1b: mk(1, v.type, !v.uri), M1t: mk(1, "text/plain", v.uri), M2: mk(2, v.type, !v.uri), bad: new Media({ source: "base64_data_uri", base64DataUri: "data:broken" }), mref: new lib.core.LangfuseMediaReference({ mediaId: "zz", contentType: "image/png", url: "https://store.test/zz", referenceString: "@@@langfuseMedia:type=image/png|id=zz|source=bytes@@@" }), txt: "plain é", tag: tag(1, "image/png"), num: 0, null: null, date: new Date(77), undef: undefined };
  const shown = { ...leaf, M1: tag(1, v.type, v.uri), M1b: tag(1, v.type, !v.uri), M1t: tag(1, "text/plain", v.uri), M2: tag(2, v.type, !v.uri), mref: leaf.mref.referenceString, date: leaf.date.toISOString() };
  const def = (o, k, x) => Object.defineProperty(o, k, { value: x, enumerable: true, writable: true, configurable: true });
  const build = (entries, vals) => { const out = {}; for (const { f, at, leaf: l } of entries) { const p = PATHS[at], x = vals[l]; if (!p.length) { out[f] = x; continue; } let c = (out[f] ??= { keep: [1, { a: "b" }, null] }); p.forEach((k, i) => { if (i === p.length - 1) { if (at === "shared") { const sub = Object.assign(v.id ? {} : Object.create(null), { x, y: [x] }); def(c, "s1", sub); def(c, "s2", [sub, sub]); } else def(c, k, x); } else { if (!Object.hasOwn(c, k)) def(c, k, typeof p[i + 1] === "number" ? [] : {}); c = c[k]; if (Array.isArray(c) && p[i + 1] === 1 && !(0 in c)) c[0] = 7; } }); if (at === "cyc") def(c, "self", out[f]); } return out; };
  const pend = (m, p) => world.pending().filter((r) => r.method === m && r.path.startsWith(p)); const DSP = "/api/public/v2/datasets/", MP = "/api/public/media", IP = "/api/public/dataset-items";
  const post = (m) => pend("POST", MP).find((r) => r.json().sha256Hash === sha(m)), put = (m) => world.pending().find((r) => r.method === "PUT" && r.url === `https://store.test/${m}?s=1`), patch = (m) => pend("PATCH", MP + "/" + mid(m))[0];
  return {
    async step(a) {
      if (a.op === "create") {
        cur = { v: a.v, r0: world.requests.length }; const body = build(a.v, leaf); cur.body = body; cur.twin = build(a.v, leaf); st = "pending"; const mine = cur;
        const extra = { status: "ARCHIVED", sourceTraceId: "tr", sourceObservationId: "ob" }; cur.extra = extra;
        (v.id ? client.dataset.createItem.bind(client.dataset) : client.createDatasetItem)({ datasetName: "d s", ...(v.id ? { id: v.id } : {}), ...body, ...extra }).then((x) => { if (mine === cur) { st = "resolved"; if (x?.id !== "created") bad("result"); } }, () => { if (mine === cur) st = "rejected"; });
      } else if (a.op === "dataset") { const r = pend("GET", DSP)[0]; if (!r) return bad("no dataset request"); if (r.path !== DSP + encodeURIComponent("d s")) bad("dataset path"); a.o === "ok" ? r.reply(200, { id: "ds-id", name: "d s" }) : a.o === "net" ? r.fail() : r.reply(404, {}); }
      else if (a.op === "post") { const r = post(a.m); if (!r) return bad("no upload of " + a.m); const j = r.json(); if (j.datasetId !== "ds-id" || j.contentLength !== CONTENT[a.m].length) bad("upload request"); cur.itemId ??= j.datasetItemId; if (!j.datasetItemId || j.datasetItemId !== cur.itemId || (v.id && j.datasetItemId !== v.id)) bad("item id of the upload");
        const fields = cur.v.filter((x) => (x.leaf.startsWith("M") ? (x.leaf === "M2" ? 2 : 1) : 0) === a.m).map((x) => x.f); if (!fields.includes(j.field)) bad("field " + j.field);
        a.o === "stored" ? r.reply(200, { mediaId: mid(a.m), uploadUrl: null }) : a.o === "target" ? r.reply(200, { mediaId: mid(a.m), uploadUrl: `https://store.test/${a.m}?s=1` }) : a.o === "mismatch" ? r.reply(200, { mediaId: "other", uploadUrl: `https://store.test/${a.m}?s=1` }) : a.o === "net" ? r.fail() : r.reply(400, {}); }
      else if (a.op === "put") { let r = put(a.m); if (!r) return bad("no PUT of " + a.m); if (Buffer.compare(Buffer.from(r.body), CONTENT[a.m])) bad("bytes"); if (a.o === "ok") r.reply(200, ""); else for (let k = 0; k < 4; k++) { r = put(a.m); if (!r) { bad("not retried"); break; } r.reply(500, "no"); await world.drain(); if (k < 3) await world.advance(1000 * 2 ** k + 1000); } }
      else if (a.op === "patch") { const r = patch(a.m); if (!r) return bad("no status of " + a.m); a.o === "ok" ? r.reply(200, {}) : r.reply(400, {}); }
      else if (a.op === "created") { const r = pend("POST", IP)[0]; if (!r) return bad("item not sent"); a.o === "ok" ? r.reply(200, { id: "created" }) : a.o === "net" ? r.fail() : r.reply(404, {}); }
      await world.drain();
    },
    observe() {
      if (world.unhandled.length) bad("unhandled " + world.unhandled[0]); const reqs = world.requests.slice(cur?.r0 ?? 0);
      const made = reqs.filter((r) => r.method === "POST" && r.path === IP);
      for (const r of made) { const j = r.json(); const want = JSON.parse(JSON.stringify(cur.v.some((x) => x.at === "cyc") ? {} : build(cur.v, shown))); for (const f of ["input", "expectedOutput", "metadata"]) if (!isDeepStrictEqual(j[f], want[f])) bad(`${f} sent as ${JSON.stringify(j[f])?.slice(0, 200)}`); for (const [k, x] of Object.entries(cur.extra)) if (j[k] !== x) bad(k); if (j.datasetName !== "d s" || !j.id || (v.id && j.id !== v.id) || (cur.itemId && j.id !== cur.itemId)) bad("item id"); }
      if (cur && !isDeepStrictEqual(cur.body, cur.twin)) bad("the caller's value was modified");
      for (const m of [1, 2]) if (reqs.filter((r) => r.method === "POST" && r.path === MP && r.json().sha256Hash === sha(m)).length > 1) bad("uploaded twice");
      if (cur && !cur.v.some((x) => x.leaf.startsWith("M")) && reqs.some((r) => r.path !== IP)) bad("needless request");
      return { dataset: pend("GET", DSP).length > 0, creating: pend("POST", IP).length > 0, up: [1, 2].map((m) => (post(m) ? "post" : put(m) ? "put" : patch(m) ? "patch" : "none")), res: st, made: made.length, ok };
    },
  };
}
