// Replays BrowserScore.tla into LangfuseBrowserClient.
import { isDeepStrictEqual } from "node:util";
const RESERVED = ["authorization", "content-type", "x-langfuse-public-key", "x-langfuse-sdk-name", "x-langfuse-sdk-version", "x-langfuse-sdk-integration"];
const casing = { lower: (h) => h, upper: (h) => h.toUpperCase(), mixed: (h) => h.replace(/(^|-)[a-z]/g, (x) => x.toUpperCase()), odd: (h) => [...h].map((c, i) => (i % 2 ? c.toUpperCase() : c)).join("") };
const HEADERS = { none: undefined, empty: {}, custom: { "X-Tenant": "t1", traceparent: "00-é".slice(0, 3) }, ...Object.fromEntries(Object.entries(casing).map(([k, f]) => [k, { "x-tenant": "t1", ...Object.fromEntries([...RESERVED, "x-langfuse-sdk-variant"].map((h) => [f(h), "evil"])) }])) };
const BASES = [["https://lf.test", "https://lf.test"], ["https://lf.test/", "https://lf.test"], ["https://lf.test/sub//", "https://lf.test/sub"], [undefined, "https://cloud.langfuse.com"]];
export function variants() { const out = []; for (const own of [false, true]) for (const b of [0, 1, 2, 3]) for (const env of [undefined, "prod"]) out.push({ own, b, env }); return out; }
const MARK = "sk-lf-secret";
export async function make({ lib, world, variant: v }) {
  let ok = "ok", client; const bad = (m) => { if (ok === "ok") ok = m; }; const raw = []; const calls = {};
  const { LangfuseBrowserClient, LangfuseBrowserError } = lib.browser;
  process.env.LANGFUSE_SECRET_KEY = MARK; // must never be picked up
  const outer = globalThis.fetch; const capture = (f) => function (u, i) { if (!v.own && this !== globalThis && this !== undefined) bad("fetch called with a foreign this"); raw.push({ u: String(u), i }); return f(u, i); };
  globalThis.fetch = capture(outer); const wrapped = globalThis.fetch;
  for (const f of [{}, { publicKey: "" }]) { try { new LangfuseBrowserClient(f); bad("client without key"); } catch (e) { if (!(e instanceof LangfuseBrowserError)) bad("error type " + e); } }
  const BODY = () => ({ plain: { name: "n é", value: 1, traceId: "t" }, withid: { id: "my id", name: "n", value: "x", dataType: "CATEGORICAL", environment: "own", metadata: { a: [1, { b: null }] }, comment: "" }, zero: { name: "", value: 0, sessionId: "s", observationId: "o" }, cyclic: (() => { const m = {}; m.m = m; return { name: "c", value: 1, metadata: m }; })(), bigint: { name: "b", value: 1, metadata: 1n } });
  const mine = (i) => world.requests.filter((r) => r.json()?.batch?.[0]?.body?.comment2 === i)[0];
  const ev = (i) => mine(i)?.json().batch[0];
  return {
    step: async (a) => {
      if (a.op === "configure") client = new LangfuseBrowserClient({ publicKey: "pk-lf-1", ...(BASES[v.b][0] ? { baseUrl: BASES[v.b][0] } : {}), environment: v.env, additionalHeaders: HEADERS[a.h], ...(v.own ? { fetch: wrapped } : {}) }), client._h = a.h;
      else if (a.op === "score") {
        const body = { ...BODY()[a.b], comment2: a.i }; const twin = { ...BODY()[a.b], comment2: a.i }; const c = (calls[a.i] = { st: "sent", body, twin, b: a.b });
        let p; try { p = client.score(body); } catch (e) { bad("threw synchronously"); c.st = "rejected"; return; }
        p.then((r) => { if (c.st !== "sent") bad("settled twice"); c.st = "resolved"; c.r = r; }, (e) => { if (c.st !== "sent") bad("settled twice"); c.st = "rejected"; c.e = e; });
      } else if (a.op === "answer") {
        const r = mine(a.i), id = ev(a.i)?.id; if (!r) return bad("no request"); const c = calls[a.i]; c.a = a.a;
        const others = Object.keys(calls).map(Number).filter((k) => k !== a.i).map((k) => ev(k)?.id).filter(Boolean); const o = others[0] ?? "someone-else"; const x = a.a;
        const LIST = { me: [{ id, status: 201 }], other: [{ id: o, status: 201 }], none: [], othermine: [{ id: o, status: 201 }, { id, status: 200 }], null: [null], strange: ["x", 5, { status: 201 }], score: [{ id: ev(a.i)?.body.id, status: 201 }] };
        const ERR = { noerr: [], myerr: [{ id, status: 400, message: "no" }], othererr: [{ id: o, status: 400 }], nullerr: [null] };
        const good = { successes: LIST.me, errors: [] };
        if (x.k === "ack") r.reply({ s200: 200, s201: 201, s207: 207 }[x.s], { successes: LIST[x.ok], errors: ERR[x.err], extra: 1 });
        else if (x.k === "broken") { if (x.b === "unreadable") unreadable(r, 207); else r.reply(207, { empty: "", notjson: "<html>", jsonnull: "null", jsonarray: "[]", nosucc: { errors: [] }, noerrs: { successes: LIST.me }, nullerrs: { successes: LIST.me, errors: null }, nullsucc: { successes: null, errors: [] }, succobj: { successes: { 0: LIST.me[0], some: true }, errors: [] }, errsobj: { successes: LIST.me, errors: { length: 0 } }, number: "5" }[x.b]); }
        else if (x.k === "http") { if (x.b === "unreadable") unreadable(r, x.s); else r.reply(x.s, { json: { message: "denied" }, text: "<html>no", empty: "", ack: good }[x.b]); }
        else r.fail(x.b === "nonerror" ? "plain reason" : new TypeError("Failed to fetch"));
        await world.drain();
        if (c.st === "rejected") { const e = c.e; if (x.k === "http") { if (e.status !== x.s) bad("status of the error"); if (x.b === "json" && !isDeepStrictEqual(e.response, { message: "denied" })) bad("body of the error"); } }
      }
    },
    observe() {
      if (world.unhandled.length) bad("unhandled " + world.unhandled[0]);
      const st = []; const n = 2; for (let i = 1; i <= n; i++) { const c = calls[i]; st.push(c?.st ?? "none"); if (!c) continue;
        if (c.st === "rejected" && !(c.e instanceof LangfuseBrowserError && c.e instanceof Error)) bad("rejected with " + (c.e?.constructor?.name ?? typeof c.e));
        if (!["cyclic"].includes(c.b) && !isDeepStrictEqual(c.body, c.twin)) bad("the caller's body was modified");
        if (c.st === "resolved" && (c.r?.id !== ev(i).body.id || (c.body.id && c.r.id !== c.body.id))) bad("result id"); }
      world.requests.forEach((r, k) => { const j = r.json(), e = j.batch[0], c = calls[e.body.comment2];
        if (r.url !== BASES[v.b][1] + "/api/public/ingestion" || r.method !== "POST") bad("request " + r.method + " " + r.url); if (j.batch.length !== 1 || e.type !== "score-create" || !e.id || Number.isNaN(Date.parse(e.timestamp))) bad("event");
        const want = JSON.parse(JSON.stringify({ ...c.twin, id: c.twin.id ?? e.body.id, environment: c.twin.environment ?? v.env })); if (!e.body.id || !isDeepStrictEqual(e.body, want)) bad("body " + JSON.stringify(e.body));
        const H = new Headers(raw[k].i.headers), u = HEADERS[client._h]; const W = { authorization: "Bearer pk-lf-1", "content-type": "application/json", "x-langfuse-public-key": "pk-lf-1", "x-langfuse-sdk-integration": "browser" }; for (const [h, x] of Object.entries(W)) if (H.get(h) !== x) bad(`header ${h}: ${H.get(h)}`); for (const h of ["x-langfuse-sdk-name", "x-langfuse-sdk-version"]) if (!H.get(h) || H.get(h).includes("evil")) bad(`header ${h}: ${H.get(h)}`);
        if (u) for (const [h, x] of Object.entries(u)) if (!RESERVED.includes(h.toLowerCase()) && h.toLowerCase() !== "x-langfuse-sdk-variant" && H.get(h) !== x) bad("header " + h); if (JSON.stringify([...H]).includes("evil")) bad("reserved header"); if ((JSON.stringify([...H]) + r.body + r.url).includes(MARK)) bad("secret key sent"); });
      const ids = world.requests.map((r) => r.json().batch[0].id); if (new Set(ids).size !== ids.length) bad("event id reused");
      return { st, sent: world.requests.length, ok };
    },
    dispose() { globalThis.fetch = outer; delete process.env.LANGFUSE_SECRET_KEY; },
  };
}
function unreadable(r, status) { r.reply(status, "", {}, { unreadable: true }); }
