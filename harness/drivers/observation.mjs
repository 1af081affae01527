// Replays Observation.tla through the public tracing API.
const P = "langfuse.observation.";
const KEY = { input: P + "input", output: P + "output", level: P + "level", statusMessage: P + "status_message", version: "langfuse.version", environment: "langfuse.environment", model: P + "model.name", modelParameters: P + "model.parameters", usageDetails: P + "usage_details", costDetails: P + "cost_details", completionStartTime: P + "completion_start_time", "meta.a": P + "metadata.a", "meta.b": P + "metadata.b", metadata: P + "metadata", traceInput: "langfuse.trace.input", traceOutput: "langfuse.trace.output", public: "langfuse.trace.public" };
const PN = P + "prompt.name", PV = P + "prompt.version", TY = P + "type";
const byKey = Object.fromEntries(Object.entries(KEY).map(([k, v]) => [v, k]));
const cyc = () => { const x = { a: 1 }; x.self = x; return x; };
const any = { undef: undefined, null: null, s1: "text", s2: "text two \u0000é", empty: "", zero: 0, num: 4.5, false: false, obj: { a: [1, { b: null }] }, arr: ["x", { y: 1 }], fn: () => 1, sym: Symbol("x"), big: 12n, date: new Date(1700000000000), nullobj: Object.assign(Object.create(null), { k: "v" }) };
function value(f, k) {
  if (k === "cyc") return cyc();
  if (k === "badjson") return { toJSON() { throw new Error("no json"); } };
  if (k === "thr") return { get a() { throw new Error("getter"); } };
  if (k === "thrproxy") return new Proxy({}, { ownKeys() { throw new Error("keys"); } });
  if (f === "prompt") return k === "undef" ? undefined : k === "null" ? null : { name: k === "p2" ? "other prompt" : "prompt-one", version: k === "p2" ? 2 : k === "p0" ? 0 : 1, isFallback: k === "fallback" };
  if (f === "level" && k === "s1") return "WARNING"; if (f === "level" && k === "s2") return "ERROR";
  return any[k];
}
function shown(f, k) { const v = value(f, k); return typeof v === "string" ? v : JSON.stringify(v); }
const decode = (f, s) => { if (typeof s === "string" && s.startsWith("<") && s.endsWith(">")) return "notice"; for (const k of ["s1", "s2", "empty", "zero", "num", "false", "obj", "arr", "date", "nullobj"]) if (shown(f, k) === s) return k; return "other " + s; };
export function variants() { return [{ times: false }, { times: true }]; }
export async function make({ lib, world, variant }) {
  const { context, trace, ROOT_CONTEXT } = lib.otelApi; const T = lib.tracing; const snaps = new Map(); let ok = "ok"; const bad = (m) => { if (ok === "ok") ok = m; };
  const rec = { onStart() {}, onEnd(s) { const id = s.spanContext().spanId; if (snaps.has(id)) bad("ended twice"); snaps.set(id, { ...s.attributes }); }, async forceFlush() {}, async shutdown() {} };
  T.setLangfuseTracerProvider(new lib.sdkTraceBase.BasicTracerProvider({ spanProcessors: [rec] }));
  const obs = [];
  const patch = (p) => { const r = {}; for (const [f, k] of p) { if (f === "public") continue; if (f.startsWith("meta.")) (r.metadata ??= {})[f.slice(5)] = value(f, k); else r[{ traceInput: "input", traceOutput: "output" }[f] ?? f] = value(f, k); } return r; };
  const frozen = (o, f) => { let before; try { before = JSON.stringify(o); } catch {} const r = f(); let after; try { after = JSON.stringify(o); } catch {} if (before !== after) bad("caller's attributes changed"); return r; };
  const ms = (h) => h[0] * 1000 + h[1] / 1e6;
  return {
    async step(a) {
      if (a.op === "create") {
        const at = patch(a.p); const startTime = variant.times ? new Date(1690000000000 + obs.length * 1000) : undefined; let o;
        frozen(at, () => context.with(ROOT_CONTEXT, () => {
          if (a.via === "child") o = obs[a.par - 1].o.startObservation("c", at, { asType: a.ty });
          else if (a.via === "start") o = T.startObservation("s", a.p.length ? at : undefined, { asType: a.ty, startTime });
          else T.startActiveObservation("a", (x) => { o = x; }, { asType: a.ty, endOnExit: false, startTime });
        }));
        if (startTime && a.via !== "child" && ms(o.otelSpan.startTime) !== startTime.getTime()) bad("start time"); 
        if (startTime && a.via !== "child" && a.ty === "event" && ms(o.otelSpan.endTime) !== startTime.getTime()) bad("event time");
        obs.push({ o });
      } else if (a.op === "update") {
        const o = obs[a.i - 1]?.o; const at = patch(a.p); const tr = a.p.some(([f]) => f.startsWith("trace")), pub = a.p.some(([f]) => f === "public"), io = tr || !pub;
        frozen(at, () => {
          if (a.via === "void") return context.with(ROOT_CONTEXT, () => { if (pub) T.setActiveTraceAsPublic(); if (tr) T.setActiveTraceIO(at); if (io && !tr) T.updateActiveObservation(at, ...(a.ty === "span" ? [] : [{ asType: a.ty }])); });
          if (pub) { if (a.via !== "method") context.with(trace.setSpan(ROOT_CONTEXT, o.otelSpan), () => T.setActiveTraceAsPublic()); else if (o.setTraceAsPublic() !== o) bad("setTraceAsPublic does not return the observation"); if (!io) return; }
          if (a.via === "method") { const r = tr ? o.setTraceIO(at) : o.update(at); if (r !== o) bad("update does not return the observation"); }
          else context.with(trace.setSpan(ROOT_CONTEXT, o.otelSpan), () => { if (tr) T.setActiveTraceIO(at); else if (a.via === "activeT") T.updateActiveObservation(at, { asType: a.ty }); else T.updateActiveObservation(at); });
        });
      } else { const { o } = obs[a.i - 1]; const t = variant.times ? new Date(1800000000000) : undefined; o.end(t); if (t && ms(o.otelSpan.endTime) !== t.getTime()) bad("end time"); }
    },
    observe(e) {
      const names = Object.keys(e.o.obs[0]?.v ?? {});
      const ids = new Map(obs.map(({ o }, i) => [o.id, i + 1]));
      return { ok, obs: obs.map(({ o }) => {
        const s = o.otelSpan; if (o.id !== s.spanContext().spanId || o.traceId !== s.spanContext().traceId) bad("ids");
        const snap = snaps.get(o.id); if (snap && JSON.stringify(snap) !== JSON.stringify(s.attributes)) bad("changed after the end");
        const at = snap ?? s.attributes; const v = [];
        for (const [k, x] of Object.entries(at)) {
          if (k === TY || x === undefined) continue; if (k === PN) { v.push(["prompt", x === "prompt-one" && at[PV] === 1 ? "p1" : x === "prompt-one" && at[PV] === 0 ? "p0" : x === "other prompt" && at[PV] === 2 ? "p2" : `other ${x} ${at[PV]}`]); continue; } if (k === PV) { if (at[PN] === undefined) v.push(["prompt", "version only"]); continue; }
          const f = byKey[k]; if (!f) bad("unexpected attribute " + k); else v.push([f, f === "public" ? (x === true ? "on" : "other " + x) : decode(f, x)]);
        }
        const p = s.parentSpanContext?.spanId ?? s.parentSpanId;
        return { ty: at[TY], par: p ? ids.get(p) ?? -1 : 0, ended: !!snap, v: { ...Object.fromEntries(names.map((f) => [f, "none"])), ...Object.fromEntries(v) } };
      }) };
    },
    dispose() { T.setLangfuseTracerProvider(null); },
  };
}
