// Replays DatasetGet.tla into DatasetManager.get.
import { isDeepStrictEqual } from "node:util";
export function variants() { return [{ name: "data set/é", size: 7 }, { name: "d", size: 1 }]; }
const REF = (p) => `@@@langfuseMedia:type=image/png|id=${p}|source=bytes@@@`;
const tree = () => JSON.parse(`{"k":"R:k","n":{"k":"R:n.k","keep":1},"l":["R:l0",{"k":"R:l1.k"},null],"a'b \\"c":"R:quote","x[0]":"R:bracket","d.e":"R:dot","digits":{"7":{"k":"R:digits.k"}},"__proto__":{"k":"R:proto.k"},"str":"plain"}`);
const noproto = () => { const t = tree(); delete t["__proto__"]; return t; };
const JP = { root: "$", k: "$['k']", "n.k": "$['n']['k']", l0: "$['l'][0]", "l1.k": "$['l'][1]['k']", quote: "$['a'b \"c']", bracket: "$['x[0]']", dot: "$['d.e']", "digits.k": "$['digits'][7]['k']", "proto.k": "$['__proto__']['k']", nokey: "$['zz']", "n.nokey": "$['n']['zz']", "nothing.k": "$['zz']['k']", l9: "$['l'][9]", "l0.k": "$['l'][0]['k']", "str.k": "$['str']['k']", leafdigits: "$['digits'][7]", hasOwnProperty: "$['hasOwnProperty']", "protokey.x": "$['n']['__proto__']['x']", syntax: "k", syntax2: "$.k", syntax3: "$['k'", strindex: "$['str'][0]", length: "$['l']['length']" };
const SET = { k: (t, m) => (t.k = m), "n.k": (t, m) => (t.n.k = m), l0: (t, m) => (t.l[0] = m), "l1.k": (t, m) => (t.l[1].k = m), quote: (t, m) => (t["a'b \"c"] = m), bracket: (t, m) => (t["x[0]"] = m), dot: (t, m) => (t["d.e"] = m), "digits.k": (t, m) => (t.digits[7].k = m), "proto.k": (t, m) => (t["__proto__"].k = m) };
export async function make({ lib, world, variant: v }) {
  let ok = "ok", st = null, res = null, r0 = 0, g = null, placed = null; const bad = (m) => { if (ok === "ok") ok = m; };
  const client = new lib.client.LangfuseClient({ publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test" });
  const pend = (p) => world.pending().find((r) => r.method === "GET" && r.path.startsWith(p)); const DSP = "/api/public/v2/datasets/", IP = "/api/public/dataset-items";
  const item = (p, k) => ({ id: `p${p}-${k}`, datasetId: "ds", datasetName: v.name, status: "ACTIVE", input: { p, k }, expectedOutput: null, metadata: k % 2 ? { x: 1 } : null, createdAt: "2025-01-01T00:00:00Z", updatedAt: "2025-01-01T00:00:00Z", ...(k % 3 === 0 ? { mediaReferences: [] } : {}) });
  const start = (opts) => { st = "pending"; res = null; const mine = (g = {}); (v.size === 1 ? client.getDataset : client.dataset.get.bind(client.dataset))(v.name, opts).then((x) => { if (mine === g) { st = "ok"; res = x; } }, () => { if (mine === g) st = "failed"; }); };
  const VER = "2025-05-05T00:00:00Z";
  return {
    async step(a, e) {
      if (a.op === "get") { this.a = a; start(a.v || a.ps || v.size === 1 ? { ...(a.v ? { version: VER } : {}), ...(a.ps ? { fetchItemsPageSize: a.ps } : {}) } : undefined); }
      else if (a.op === "dataset") { const r = pend(DSP); if (!r) return bad("no dataset request"); if (r.path !== DSP + encodeURIComponent(v.name)) bad("dataset path " + r.path); a.o === "ok" ? r.reply(200, { id: "ds", name: v.name, description: "desc", metadata: { m: 1 }, inputSchema: null }) : a.o === "e404" ? r.reply(404, {}) : r.fail(); }
      else if (a.op === "page") { const r = pend(IP); if (!r) return bad("no items request"); const page = Number(r.query.get("page")); r.reply(200, { data: Array.from({ length: a.n }, (_, k) => item(page, k + 1)), meta: { page, limit: 50, totalItems: 9, totalPages: a.t } }); }
      else if (a.op === "pagefails") { const r = pend(IP); if (!r) return bad("no items request"); a.o === "net" ? r.fail() : r.reply(a.o === "e404" ? 404 : 400, {}); }
      else if (a.op === "hydrate") {
        start(); await world.drain(); pend(DSP)?.reply(200, { id: "ds", name: v.name }); await world.drain();
        const refs = a.rs.map((r, i) => ({ field: r.f === "unknown" ? (i % 2 ? "somethingElse" : "scores") : r.f, jsonPath: JP[r.p], referenceString: REF(r.p), media: r.m ? { mediaId: "m-" + i, contentType: i % 2 ? "application/pdf" : "image/png", contentLength: 3 + i, url: "https://store.test/" + i, urlExpiry: `203${i}-01-01T00:00:00Z` } : null }));
        const mk = (f) => (a.rs.some((r) => r.p === "protokey.x" && r.f === f) ? noproto() : tree()); const noP = (f) => a.rs.some((r) => r.p === "protokey.x" && r.f === f);
        // sent as text: an own "__proto__" member has to survive
        const body = { data: [{ ...item(1, 1), input: mk("input"), expectedOutput: mk("expectedOutput"), metadata: mk("metadata"), mediaReferences: refs }, { ...item(1, 2), input: tree() }], meta: { page: 1, limit: 50, totalItems: 2, totalPages: 1 } };
        pend(IP)?.reply(200, JSON.stringify(body)); await world.drain(); if (st !== "ok") return bad("get " + st);
        const it = res.items[0]; placed = {};
        for (const f of ["input", "expectedOutput", "metadata"]) {
          const want = e.o.placed[f]; let t = mk(f); const media = (p) => { const i = a.rs.findLastIndex((r) => r.f === f && r.p === p && r.m); return { mediaId: "m-" + i, ref: REF(p), url: "https://store.test/" + i, type: i % 2 ? "application/pdf" : "image/png", length: 3 + i, expiry: `203${i}-01-01T00:00:00Z` }; };
          const norm = (x) => (x instanceof lib.core.LangfuseMediaReference ? { mediaId: x.mediaId, ref: JSON.parse(JSON.stringify(x)), url: x.url, type: x.contentType, length: x.contentLength, expiry: x.urlExpiry } : x && typeof x === "object" ? (Array.isArray(x) ? x.map(norm) : Object.entries(x).map(([k, y]) => [k, norm(y)])) : x); const nt = (x) => x;
          if (want.includes("root")) t = { M: media("root") }; else for (const p of want) { if (p === "proto.k" && noP(f)) continue; SET[p](t, { M: media(p) }); }
          const normW = (x) => (x && typeof x === "object" && x.M ? x.M : x && typeof x === "object" ? (Array.isArray(x) ? x.map(normW) : Object.entries(x).map(([k, y]) => [k, normW(y)])) : x);
          const eq = isDeepStrictEqual(norm(it[f]), normW(t)); placed[f] = eq ? want : ["differs " + JSON.stringify(it[f])?.slice(0, 300)]; void nt;
        }
        for (const k of ["x", "k", "zz"]) if (k in {}) { bad("Object.prototype polluted"); delete Object.prototype[k]; }
        const keys = Object.keys(it).filter((k) => !["link"].includes(k)).sort().join(); if (keys !== Object.keys(body.data[0]).sort().join()) bad("item members " + keys);
        if (!isDeepStrictEqual(res.items[1].input, tree()) || res.items.length !== 2) bad("other item changed");
      }
      await world.drain();
      if (st === "ok" && a.op !== "hydrate" && res.items.length) {
        const ids = res.items.map((x) => x.id); const run = client.experiment.run; let given; client.experiment.run = async (p) => { given = p; return "ran"; }; const task = async () => 1; const r = res.runExperiment({ name: "e", task }); client.experiment.run = run;
        if (!given || (await r) !== "ran" || given.name !== "e" || given.task !== task || !isDeepStrictEqual(given.data.map((x) => x.id), ids) || given.datasetVersion !== (this.a.v ? VER : undefined)) bad("runExperiment runs on other items");
        const k = ids.length - 1; let linked; res.items[k].link({ otelSpan: { spanContext: () => ({ traceId: "t1", spanId: "s1", traceFlags: 1 }) } }, "run", v.size === 1 ? { description: "about", metadata: { m: 1 } } : undefined).then((x) => (linked = x), (e) => bad("link " + e)); await world.drain();
        const q = world.pending().find((r) => r.method === "POST" && r.path === "/api/public/dataset-run-items"); if (!q) return bad("not linked"); if (!isDeepStrictEqual(q.json(), { runName: "run", datasetItemId: ids[k], traceId: "t1", observationId: "s1", ...(v.size === 1 ? { runDescription: "about", metadata: { m: 1 } } : {}) })) bad("link " + q.body); q.reply(200, { id: "rel" }); await world.drain(); if (linked?.id !== "rel") bad("link result");
      }
      if (a.op !== "hydrate") { const r = pend(IP); if (r) { const p = this.a; if (r.query.get("datasetName") !== v.name) bad("datasetName"); if (r.query.get("version") !== (p.v ? VER : null)) bad("version " + r.query.get("version")); if (p.ps && r.query.get("limit") !== String(p.ps)) bad("limit"); } }
    },
    observe(e) {
      if (world.unhandled.length) bad("unhandled " + world.unhandled[0]);
      if (e.a.op === "hydrate") return { placed, ok };
      const r = pend(IP), d = pend(DSP); if (world.pending().length > 1) bad("several requests in flight"); let items = [];
      if (st === "ok") { items = res.items.map((x) => { const [, p, k] = /^p(\d+)-(\d+)$/.exec(x.id) ?? []; if (!isDeepStrictEqual(x.input, { p: Number(p), k: Number(k) }) || typeof x.link !== "function") bad("item content"); return [Number(p), Number(k)]; }); if (res.id !== "ds" || res.name !== v.name || typeof res.runExperiment !== "function" || res.version !== (this.a.v ? VER : undefined)) bad("dataset members"); }
      return { wait: d ? "dataset" : r ? "items" : "none", page: r ? Number(r.query.get("page")) : 0, res: st === "pending" ? "pending" : st, items, ok };
    },
  };
}
