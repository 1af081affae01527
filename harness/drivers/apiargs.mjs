// Replays ApiArgs.tla into every method of the API client.
import { isDeepStrictEqual } from "node:util";
import { endpoints, invoke } from "../lib/api.mjs";
const ARG = { plain: "item-1", slash: "folder/sub/x", special: "a b?c=d&e#f+g;h,i", percent: "100%25 %2F", unicode: "é∀😀", dots: "...a..", quote: "it's \"q\" \\ <x>|{y}", ends: "/x/" };
const FIELD = { str: "v w&x=y/é?#%+", empty: "", zero: 0, false: false, null: null, undef: undefined, arr: ["a b", "", "c&d"], arr0: [], num: 12.5, true: true };
const BODIES = () => ({ obj: { name: "n é", value: 0 }, nested: { a: [1, null, { b: ["x", { c: "" }] }], "k é": false, "__proto__x": 1 }, empty: {}, undef: { a: undefined, b: 1 }, date: { at: new Date(86400000), f: { toJSON: () => "J" } }, big: { s: "x".repeat(200_000), list: Array.from({ length: 500 }, (_, i) => i) }, text: { s: "\u0000\u2028\ud83d\ude00 \"\\" } });
const HEAD = { none: [{}, {}], tenant: [{ "X-Tenant": "t" }, {}], call: [{ "X-Tenant": "t" }, { "X-Tenant": "u", "X-Call": "c" }], auth: [{ Authorization: "evil" }, {}], authlower: [{ authorization: "evil" }, {}], sdk: [{ "x-langfuse-sdk-name": "evil", "X-LANGFUSE-PUBLIC-KEY": "evil" }, {}], nullish: [{ "X-Tenant": "t" }, { "X-Tenant": null }] };
export function variants() { return [{ base: "http://lf.test" }, { base: "http://lf.test/" }, { base: "http://lf.test/sub/dir", alias: true }]; }
// The client's own names for some of the methods.
const ALIAS = { "trace.get": "fetchTrace", "trace.list": "fetchTraces", "legacy.observationsV1.get": "fetchObservation", "observations.getMany": "fetchObservations", "sessions.get": "fetchSessions", "datasets.getRun": "getDatasetRun", "datasets.getRuns": "getDatasetRuns", "datasets.create": "createDataset", "datasetItems.get": "getDatasetItem", "media.get": "fetchMedia" };
const viaAlias = (client, ep) => (api, _ep, args, request, options) => client[ALIAS[ep.id]](...args, ...(ep.hasRequest ? [request] : []), options);
const same = (x, y) => isDeepStrictEqual(x, y);
export async function make({ lib, world, variant: v }) {
  let ok = "ok", out = { m: "none" }; const bad = (m) => { if (ok === "ok") ok = m; };
  return {
    async step(a) {
      const headers = HEAD[a.h]; const client = new lib.client.LangfuseClient({ publicKey: "pk:é", secretKey: "sk-lf-5ecret-77", baseUrl: v.base, additionalHeaders: headers[0] }); const api = client.api;
      const ep = endpoints(api).find((x) => x.id === a.id); if (!ep) return bad("no method " + a.id);
      const fields = Object.fromEntries(a.fields.map((f) => [f.k, FIELD[f.v]])), usesBody = a.body; const body = BODIES()[a.body]; const request = a.fields.length ? fields : body; const twin = a.fields.length ? { ...fields } : BODIES()[a.body];
      const n = world.requests.length; let res = "pending"; (v.alias && ALIAS[a.id] ? viaAlias(client, ep) : invoke)(api, ep, a.args.slice(0, a.n).map((k) => ARG[k]), request, Object.keys(headers[1]).length ? { headers: headers[1] } : undefined).then(() => (res = "value"), (e) => (res = "error " + e));
      await world.drain(); const rs = world.requests.slice(n); if (rs.length !== 1) return bad(rs.length + " requests, " + res); const r = rs[0];
      const base = new URL(v.base).pathname.replace(/\/$/, ""); const U = new URL(r.url); if (U.origin !== "http://lf.test" || !U.pathname.startsWith(base + "/")) bad("url " + r.url); if (U.hash) bad("fragment");
      const segs = U.pathname.slice(base.length + 1).split("/").map((s) => { try { return decodeURIComponent(s); } catch { return "undecodable"; } });
      const p = segs.map((s) => { const k = Object.keys(ARG).find((k) => ARG[k] === s); return k ? { arg: k } : { lit: s }; });
      const q = []; for (const k of new Set(U.searchParams.keys())) { const vals = decodeQuery(U.search, k); const kind = Object.keys(FIELD).find((x) => x !== "arr" && FIELD[x] != null && !Array.isArray(FIELD[x]) && vals.length === 1 && String(FIELD[x]) === vals[0]) ?? (same(vals, FIELD.arr) ? "arr" : "other " + vals); q.push({ k, v: kind }); }
      let b = "none"; if (r.body !== undefined && r.body !== null) { b = "other " + String(r.body).slice(0, 100); const want = JSON.parse(JSON.stringify(BODIES()[a.body])); try { if (same(JSON.parse(r.body), want)) b = a.body; } catch {} if (!/^application\/json/.test(r.headers["content-type"] ?? "")) bad("content type"); }
      const H = r.headers; if (H.authorization !== "Basic " + Buffer.from("pk:é:sk-lf-5ecret-77", "utf8").toString("base64")) bad("authorization " + H.authorization); if (H["x-langfuse-public-key"] !== "pk:é" || H["x-langfuse-sdk-name"] !== "javascript" || !H["x-langfuse-sdk-version"]) bad("identification headers " + JSON.stringify(H));
      const ten = { tenant: "t", call: "u", nullish: undefined }[a.h]; if (H["x-tenant"] !== ten) bad("additional header " + H["x-tenant"]); if (a.h === "call" && H["x-call"] !== "c") bad("header of the call");
      if (!same(JSON.stringify(request), JSON.stringify(twin))) bad("the caller's request was modified");
      out = { m: r.method, p, q, b, h: a.h }; r.reply(200, { fine: 1 }); await world.drain(); if (res !== "value") bad("result " + res);
    },
    observe(e) { if (world.unhandled.length) bad("unhandled " + world.unhandled[0]); const order = (l) => (l ?? []).map((x) => JSON.stringify([x.k, x.v])).sort().join(); if (out.q && order(out.q) === order(e.o.out.q)) out.q = e.o.out.q; return { out, ok }; },
    dispose() {},
  };
}
function decodeQuery(search, key) { return search.slice(1).split("&").map((s) => s.split("=")).filter(([k]) => decodeURIComponent(k) === key).map(([, ...v]) => decodeURIComponent(v.join("="))); }
