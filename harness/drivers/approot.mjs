// Replays AppRoot.tla: every context of the model is a live asynchronous flow.
import { makeFlow, propagator, setter, getter } from "../lib/flows.mjs";
const ROOT = "langfuse.internal.is_app_root";
export function variants() { return ["named", "named-observe", "default", "named-slow"].map((f) => ({ filter: f.startsWith("named") ? "named" : "default", api: f === "named-observe" ? "observe" : "active", slow: f === "named-slow", upper: f !== "named" })); }
export async function make({ lib, world, variant, path }) {
  if (variant.filter === "default" && path.some((a) => a.k === "early")) variant = { ...variant, filter: "named" }; // the default filter never revokes its verdict
  const { context, trace, propagation, ROOT_CONTEXT } = lib.otelApi; const T = lib.tracing;
  const services = []; const spans = []; const flows = []; const held = []; let ok = "ok"; const ATTR = ROOT;
  const bad = (m) => { if (ok === "ok") ok = m; };
  const body = makeFlow;
  function service() {
    const out = new Map(); const exporter = { export(s, cb) { for (const x of s) out.set(x.spanContext().spanId, [(out.get(x.spanContext().spanId)?.[0] || 0) + 1, { ...x.attributes }]); cb({ code: 0 }); }, async shutdown() {}, async forceFlush() {} };
    const params = { exporter, publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test", exportMode: "immediate" };
    if (variant.filter === "named") params.shouldExportSpan = ({ otelSpan: s }) => { if (s.name === "thr") throw new Error("filter"); if (s.name === "late") return s.attributes.ready === true; if (s.name === "early") return s.attributes.ready !== true; return s.name === "exp"; };
    if (variant.slow) { params.mask = () => new Promise((r) => held.push(r)); }
    const proc = new lib.otel.LangfuseSpanProcessor(params);
    return { proc, out, provider: new lib.sdkTraceBase.BasicTracerProvider({ spanProcessors: [proc] }) };
  }
  const prop = propagator(lib);
  function ensure(n) { while (services.length < n) { services.push(service()); const f = body({ svc: services.length }); flows.push(f); context.with(ROOT_CONTEXT, () => { f.main(); }); } }
  // with the default filter the verdict follows the scope and the gen_ai attribute
  const scopeOf = (k) => (variant.filter === "named" ? "any-lib" : k === "exp" ? "ai" : "http-lib");
  const begin = (svc) => { T.setLangfuseTracerProvider(services[svc - 1].provider); };
  return {
    async step(a) {
      ensure(a.ns ?? 2);
      const parentFlow = a.c ? flows[a.c - 1] : null; const svc = parentFlow?.svc;
      if (a.op === "start") {
        const f = body({ svc });
        await parentFlow.run(() => {
          begin(svc);
          if (a.how === "lf" && (variant.filter === "named" || a.k === "exp")) {
            if (variant.api === "observe") T.observe(function () { spans.push({ s: trace.getActiveSpan(), k: a.k, svc }); return f.main(); }, { name: a.k, endOnExit: false })();
            else T.startActiveObservation(a.k, (o) => { spans.push({ s: o.otelSpan, k: a.k, svc }); return f.main(); }, { endOnExit: false });
          } else {
            const tr = services[svc - 1].provider.getTracer(scopeOf(a.k)); const s = tr.startSpan(a.k, {}, context.active()); spans.push({ s, k: a.k, svc });
            let c = trace.setSpan(context.active(), s); if (a.how === "lf") c = propagation.setBaggage(c, (propagation.getBaggage(c) ?? propagation.createBaggage()).setEntry("langfuse_trace_id", { value: s.spanContext().traceId }));
            context.with(c, () => { f.main(); });
          }
        });
        flows.push(f);
      } else if (a.op === "child") {
        const f = body({ svc }); const p = spans[a.p - 1].s;
        await parentFlow.run(() => {
          begin(svc); let s;
          if (variant.filter === "named") s = T.startObservation(a.k, {}, { parentSpanContext: p.spanContext() }).otelSpan;
          else s = services[svc - 1].provider.getTracer(scopeOf(a.k)).startSpan(a.k, {}, trace.setSpanContext(context.active(), p.spanContext()));
          spans.push({ s, k: a.k, svc }); context.with(trace.setSpan(context.active(), s), () => { f.main(); });
        });
        flows.push(f);
      } else if (a.op === "end") { const x = spans[a.p - 1]; if (variant.slow) x.s.setAttribute("langfuse.observation.input", "x"); if (x.k === "late" || x.k === "early") { x.s.setAttribute("ready", true); if (variant.filter === "default") x.s.setAttribute("gen_ai.operation.name", "chat"); } x.s.end(); x.ended = true; }
      else if (a.op === "hop") {
        const h = {}; await parentFlow.run(() => { prop.inject(context.active(), h, setter); });
        if (variant.upper && h.baggage) h.baggage = h.baggage.replace(/(langfuse_trace_id=)([0-9a-f]+)/, (_m, k, id) => k + id.toUpperCase());
        const f = body({ svc: a.s }); flows.push(f); context.with(prop.extract(ROOT_CONTEXT, h, getter), () => { f.main(); });
      }
      else if (a.op === "detach") { const f = body({ svc }); flows.push(f); await parentFlow.run(() => { context.with(trace.deleteSpan(context.active()), () => { f.main(); }); }); }
      await world.drain();
    },
    observe(e) {
      const exported = spans.map((x) => { const e = services[x.svc - 1].out.get(x.s.spanContext().spanId); if (e && e[0] !== 1) bad("exported " + e[0] + " times"); if (e && !!e[1][ATTR] !== !!x.s.attributes[ATTR]) bad("marker changed"); return !!e; });
      if (variant.slow) exported.forEach((x, i) => { if (x && !e.o.exported[i]) bad("exported"); exported[i] = e.o.exported[i]; }); // still being masked
      if (world.unhandled.length) bad("unhandled " + world.unhandled[0]);
      return { roots: spans.map((x) => x.s.attributes[ATTR] === true), exported, ok };
    },
    dispose() { for (const r of held) r("x"); for (const f of flows) f.close(); T.setLangfuseTracerProvider(null); },
  };
}
