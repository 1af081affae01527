// Replays ScoreTarget.tla: scores made inside live, interleaving observations.
import { isDeepStrictEqual } from "node:util";
import { makeFlow } from "../lib/flows.mjs";
export function variants() { return [{ env: undefined, at: "1" }, { env: "staging", at: "1000" }]; }
const BODY = { num: () => ({ value: -0.5 }), zero: () => ({ value: 0, comment: "" }), cat: () => ({ value: "cat é", dataType: "CATEGORICAL", metadata: { a: [1, null] } }), full: () => ({ value: 1, dataType: "BOOLEAN", id: "given", comment: "c", configId: "cfg", environment: "own", metadata: "text", queueId: "q" }), undef: () => ({ value: 2, id: undefined, environment: undefined, comment: undefined }) };
export async function make({ lib, world, variant: v }) {
  const { context, trace, ROOT_CONTEXT } = lib.otelApi; const T = lib.tracing; let ok = "ok"; const bad = (m) => { if (ok === "ok") ok = m; };
  delete process.env.LANGFUSE_TRACING_ENVIRONMENT; if (v.env) process.env.LANGFUSE_TRACING_ENVIRONMENT = v.env; process.env.LANGFUSE_FLUSH_AT = v.at; delete process.env.LANGFUSE_FLUSH_INTERVAL;
  T.setLangfuseTracerProvider(new lib.sdkTraceBase.BasicTracerProvider({ spanProcessors: [] }));
  const clients = [1, 2].map((k) => new lib.client.LangfuseClient({ publicKey: "pk" + k, secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test" }));
  const root = makeFlow(); context.with(ROOT_CONTEXT, () => { root.main(); });
  const obs = [], given = []; let made = 0; const flowOf = (c) => (c ? obs[c - 1].flow : root); const ids = new Set();
  const settle = async () => { for (let k = 0; k < 20; k++) { await world.drain(); const p = world.pending(); if (!p.length) return; for (const r of p) r.reply(207, { successes: [], errors: [] }); } };
  return {
    async step(a) {
      if (a.op === "open") {
        const o = { kind: a.kind }; obs.push(o); let release; const gate = new Promise((r) => (release = r)); const n = obs.length;
        const body = () => { o.span = trace.getActiveSpan(); o.flow = makeFlow(); o.close = () => { o.flow.close(); release(); }; const m = o.flow.main(); return gate.then(() => m); };
        await flowOf(a.c).run(() => {
          if (a.kind === "active") o.done = T.startActiveObservation("a" + n, (x) => { o.obj = x; return body(); }, n % 2 ? { asType: "tool" } : undefined);
          else if (a.kind === "observe") o.done = T.observe(body, { name: "b" + n })();
          else if (a.kind === "otel") o.done = T.getLangfuseTracer().startActiveSpan("c" + n, (s) => body().then(() => s.end()));
          else if (a.kind === "remote") o.done = context.with(trace.setSpanContext(context.active(), { traceId: n.toString(16).padStart(32, "a"), spanId: n.toString(16).padStart(16, "b"), traceFlags: 1, isRemote: true }), body);
          else { o.obj = T.startObservation("d" + n, {}, a.kind === "event" ? { asType: "event" } : undefined); o.span = o.obj.otelSpan; if (n % 2 && a.kind === "manual") o.obj.end(); }
        });
        await world.drain(); if (!o.span) bad("no active span in the body"); o.obj ??= { otelSpan: o.span }; o.sc = o.span?.spanContext();
      } else if (a.op === "close") { const o = obs[a.i - 1]; o.close(); await world.drain(); let st; o.done?.then(() => (st = "ok"), (e) => (st = "rejected " + e)); await world.drain(); if (st !== "ok") bad("the body's end " + st); }
      else {
        const c = clients[a.k - 1].score, b = { name: "n" + ++made, ...BODY[a.b]() }, twin = { name: "n" + made, ...BODY[a.b]() }; const t = obs[a.i - 1];
        await flowOf(a.c).run(() => {
          const sc = a.c ? obs[a.c - 1].sc : undefined; if (T.getActiveTraceId() !== sc?.traceId || T.getActiveSpanId() !== sc?.spanId) bad("active ids");
          if (a.via === "activeObs") c.activeObservation(b); else if (a.via === "activeTrace") c.activeTrace(b); else if (a.via === "obs") c.observation(t.obj, b); else if (a.via === "trace") c.trace(t.obj, b);
          else { const x = a.via === "create" ? { traceId: t.sc.traceId, observationId: t.sc.spanId } : a.via === "session" ? { sessionId: "sess" } : { datasetRunId: "drun" }; const arg = { ...b, ...x }; c.create(arg); if (!isDeepStrictEqual(arg, { ...twin, ...x })) bad("the caller's score was modified"); }
        });
        if (!isDeepStrictEqual(b, twin)) bad("the caller's score was modified"); given.push({ name: b.name, b: a.b, body: twin, k: a.k });
      }
      if (v.at !== "1" && a.op === "score") { let done; clients[a.k - 1].flush().then(() => (done = true)); await settle(); if (!done) bad("flush"); } else await settle();
    },
    observe() {
      if (world.unhandled.length) bad("unhandled " + world.unhandled[0]);
      const sent = []; ids.clear();
      for (const r of world.requests) {
        if (r.method !== "POST" || r.path !== "/api/public/ingestion") { bad("request " + r.method + " " + r.url); continue; }
        for (const e of r.json().batch) {
          const g = given.find((x) => x.name === e.body.name); if (!g) { bad("unknown score"); continue; }
          const k = [1, 2].find((k) => r.headers.authorization === "Basic " + Buffer.from(`pk${k}:sk-lf-5ecret-77`).toString("base64")); const { traceId, observationId, sessionId, datasetRunId, ...rest } = e.body;
          const want = { ...JSON.parse(JSON.stringify(g.body)), id: g.body.id ?? rest.id, environment: g.body.environment ?? v.env }; if (want.environment === undefined) delete want.environment; if (typeof rest.id !== "string" || !rest.id || (!g.body.id && ids.has(rest.id))) bad("score id"); ids.add(rest.id);
          if (!isDeepStrictEqual(rest, want)) bad("score sent as " + JSON.stringify(rest));
          const tr = traceId === undefined ? 0 : obs.findIndex((o) => o.sc.traceId === traceId) + 1 || -1, ob = observationId === undefined ? 0 : obs.findIndex((o) => o.sc.spanId === observationId) + 1 || -1;
          sent.push({ t: { tr, ob, other: sessionId === "sess" && !datasetRunId ? "session" : datasetRunId === "drun" && !sessionId ? "run" : sessionId || datasetRunId ? "mixed" : "none" }, b: g.b, k });
        }
      }
      return { sent, ok };
    },
    dispose() { for (const o of obs) o.close?.(); root.close(); T.setLangfuseTracerProvider(null); },
  };
}
