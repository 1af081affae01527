// Replays ApiRequest.tla into the API client: every endpoint in turn.
import { isDeepStrictEqual } from "node:util";
import { endpoints, invoke } from "../lib/api.mjs";
export function variants() { const out = []; for (let e = 0; e < 127; e++) out.push({ e, rnd: [0, 0.5, 0.999][e % 3], timeout: [undefined, 7, 0.5][e % 3], viaClient: e % 2 }); return out; }
const JSON_BODY = { a: [1, { b: null }], d: "2025-01-01T00:00:00.000Z", ok: false, error: { reason: "mine" } };
// endpoints that return nothing, and error answers declared without a body
const VOID = new Set(["media.patch", "models.delete", "prompts.delete", "legacy.scoreV1.delete"]), BODYLESS = { "feedback.submit": 409, "health.health": 503 };
const TYPES = { 400: "Error", 401: "UnauthorizedError", 403: "AccessDeniedError", 404: "NotFoundError", 405: "MethodNotAllowedError" }; // the errors the endpoints declare
export async function make({ lib, world, variant: v }) {
  const { LangfuseAPIError, LangfuseAPITimeoutError } = lib.core; let ok = "ok"; const bad = (m) => { if (ok === "ok") ok = m; };
  const api = v.viaClient ? new lib.client.LangfuseClient({ publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test/", additionalHeaders: { "X-Tenant": "t1" } }).api : new lib.core.LangfuseAPIClient({ baseUrl: "http://lf.test", environment: "", username: "pk", password: "sk-lf-5ecret-77", headers: { "X-Tenant": "t1" } });
  const eps = endpoints(api); if (eps.length < 80 || eps.length > 127) bad(eps.length + " endpoints"); let cur = null; const realRandom = Math.random; Math.random = () => v.rnd;
  const sent = () => (cur ? world.requests.slice(cur.r0).filter((r) => !r.bornAborted) : []);
  const REQ = { name: "n é", value: 0, list: ["a", "b"], nested: { x: [null, { y: "z" }] }, datasetName: "d", runName: "r", page: 2, limit: 0, query: "{}", userId: "u", projectId: "p" };
  return {
    async step(a) {
      if (a.op === "call") {
        const ep = eps[v.e % eps.length]; cur = { r0: world.requests.length, res: { k: "pending" }, ac: new AbortController(), ep }; const me = cur;
        const opt = { abortSignal: cur.ac.signal, ...(a.l === 99 ? {} : { maxRetries: a.l }), ...(v.timeout === undefined ? {} : { timeoutInSeconds: v.timeout }), headers: { "X-Call": "c1" } };
        const settle = (r) => { if (me.res.k !== "pending") bad("settled twice"); me.res = r; };
        const call = invoke(api, ep, Array.from({ length: ep.args }, (_, i) => `id ${i}/é`), structuredClone(REQ), opt);
        const raw = (x) => { if (x.rawResponse?.status !== me.s || !(x.rawResponse.headers instanceof Headers) || x.rawResponse.url !== me.url) bad("raw response " + JSON.stringify(x.rawResponse)); return x.data; };
        const via = [() => call, async () => await call, () => call.withRawResponse().then(raw), () => call.finally(() => {}), () => call.catch((e) => { throw e; })][v.e % 5]();
        me.again = () => [call.then((x) => x, (e) => e), call.catch((e) => e), call.withRawResponse().then(raw, (e) => e)];
        via.then((val) => settle({ k: "value", val }), (e) => settle({ k: e instanceof LangfuseAPITimeoutError ? "timeout" : e instanceof LangfuseAPIError ? "error" : "foreign " + e, e }));
      } else if (a.op === "answer") {
        const r = sent().at(-1); if (!r || r.state !== "pending") return bad("no request to answer"); const now = world.now, sec = (n) => String(Math.floor(now / 1000) + n), date = (n) => new Date(now + n).toUTCString(); cur.s = a.s; cur.b = a.b; cur.url = r.url;
        const H = { none: {}, ra2: { "Retry-After": "2" }, ra2rl30: { "retry-after": "2", "X-RateLimit-Reset": sec(30) }, ra90: { "Retry-After": "90" }, date5: { "Retry-After": date(5000) }, rl30: { "x-ratelimit-reset": sec(30) }, rapastrl30: { "Retry-After": date(-60000), "X-RateLimit-Reset": sec(30) }, rl200: { "X-RateLimit-Reset": sec(200) }, ra0: { "Retry-After": "0" }, rajunk: { "Retry-After": "soon" }, rapast: { "Retry-After": date(-60000) }, rlpast: { "X-RateLimit-Reset": sec(-5) }, rljunk: { "X-RateLimit-Reset": "later" } }[a.h];
        cur.notBefore = { date5: Math.floor((now + 5000) / 1000) * 1000, rl30: (Math.floor(now / 1000) + 30) * 1000, rapastrl30: (Math.floor(now / 1000) + 30) * 1000 }[a.h] ?? 0;
        const B = { json: [JSON_BODY, { "content-type": "application/json; charset=utf-8" }], problem: [JSON_BODY, { "content-type": "application/problem+json" }], text: ["<html>é", { "content-type": "text/html" }], badjson: ['{"a":', { "content-type": "application/json" }], empty: [undefined, {}], unreadable: ["x", { "content-type": "application/json" }] }[a.b];
        r.reply(a.s, B[0], { ...B[1], ...H }, { unreadable: a.b === "unreadable" });
      } else if (a.op === "wake") {
        const n = sent().length; await world.advance(a.lo - 1); if (sent().length !== n) bad(`retried before ${a.lo} ms`); const limit = world.now + a.hi - a.lo + 1; while (sent().length === n && world.now < limit) await world.advance(Math.min(limit, ...[...world.timers.values()].map((t) => t.at)) - world.now); if (sent().length !== n + 1) bad(`not retried within ${a.hi} ms`); else if (world.requests.at(-1).at < cur.notBefore) bad("retried before the time the server named");
      } else if (a.op === "end") {
        const r = sent().at(-1); if (!r) return bad("no request"); const n = sent().length;
        if (a.e === "net") r.fail(); else if (a.e === "nonerror") r.fail("reset"); else if (a.e === "abort") cur.ac.abort(); else if (a.e === "abortwait") { cur.ac.abort(); await world.advance(a.hi); }
        else { const t = (v.timeout ?? 60) * 1000 - (world.now - r.at); await world.advance(t - 1); if (cur.res.k !== "pending") bad("timed out early"); await world.advance(1); }
        await world.drain(); if (sent().length !== n) bad("request after the end");
      }
      await world.drain();
      if (cur && cur.res.k !== "pending" && !cur.asked) { cur.asked = true; const me = cur, want = me.res.k === "value" ? me.res.val : me.res.e; for (const p of me.again()) p.then((x) => x !== want && bad("asked again, the call has another outcome")); await world.drain(); }
    },
    observe(e) {
      if (world.unhandled.length) bad("unhandled " + world.unhandled[0]);
      const rs = sent(), first = rs[0]; for (const r of rs) { if (r.method !== first.method || r.url !== first.url || !isDeepStrictEqual(r.headers, first.headers) || !isDeepStrictEqual(r.body, first.body)) bad("repeated request differs"); if (r.headers.authorization !== "Basic " + Buffer.from("pk:sk-lf-5ecret-77").toString("base64") || r.headers["x-tenant"] !== "t1" || r.headers["x-call"] !== "c1") bad("headers"); if (!r.url.startsWith("http://lf.test/api/public/")) bad("url " + r.url); }
      const R = cur?.res ?? { k: "none" }; let res = { k: R.k };
      const kind = (x) => (isDeepStrictEqual(x, JSON_BODY) ? (cur.b === "problem" ? "problem" : "json") : x === "<html>é" ? "text" : x === '{"a":' ? "badjson" : x === undefined || x === "" ? (cur.b === "empty" ? "empty" : "unreadable") : "other " + JSON.stringify(x)?.slice(0, 100));
      const wants = e.o.res; if (R.k === "value" && VOID.has(cur.ep.id) && R.val === undefined && wants.s !== 0) res = wants; else if (R.k === "error" && wants.k === "error" && BODYLESS[cur.ep.id] === wants.s && R.e.statusCode === wants.s && R.e.body === undefined) res = wants;
      else if (R.k === "value") res = { k: "value", s: cur.s, b: kind(R.val) };
      else if (R.k === "error" || R.k === "timeout") { const x = R.e; const noAnswer = e.o.res?.s === 0 && e.o.res.b !== "unreadable"; res = { k: R.k, s: x.statusCode ?? 0, b: noAnswer ? e.o.res.b : kind(x.body) }; if (R.k === "error" && !(x instanceof Error)) bad("not an Error"); }
      if (R.k === "error" && TYPES[wants.s] && !/^unstable\./.test(cur.ep.id) && !(R.e instanceof lib.core[TYPES[wants.s]])) bad(wants.s + " rejects with " + R.e?.constructor?.name);
      if (R.k !== "pending" && R.k !== "none" && world.timers.size) bad("a timer was left behind");
      return { inflight: rs.some((r) => r.state === "pending"), tries: rs.length, res, ok };
    },
    dispose() { Math.random = realRandom; },
  };
}
