// Replays Isolation.tla behaviours: isolated and global tracer providers, two copies of the packages, trace ids.
import { createHash } from "node:crypto"; import { createRequire } from "node:module";
const require = createRequire(import.meta.url); let other;
export function setup({ bundle }) { const k = require.resolve(bundle), keep = require.cache[k]; delete require.cache[k]; other = require(bundle); if (keep) require.cache[k] = keep; }
const SEEDS = [{ s1: "order-1", s2: "order-2" }, { s1: "é \u{1F600}", s2: "e" }, { s1: "x".repeat(500), s2: "x".repeat(499) + "y" }, { s1: "0", s2: " " }];
export function variants() { const out = []; for (let i = 0; i < 8; i++) out.push({ i, seeds: SEEDS[i % 4], mode: ["batched", "immediate"][i >> 2] }); return out; }
export async function make({ lib, world, variant: v }) {
  const { trace, context, ROOT_CONTEXT } = lib.otelApi, T = lib.tracing, S = lib.sdkTraceBase;
  let ok = "ok"; const bad = (m) => { if (ok === "ok") ok = m; };
  trace.disable(); T.setLangfuseTracerProvider(null);
  const got = { A: [], B: [], G: [] }, procs = {};
  const isolated = (n) => { procs[n] = new lib.otel.LangfuseSpanProcessor({ exporter: { export: (s, cb) => { got[n].push(...s); cb({ code: 0 }); }, shutdown: async () => {}, forceFlush: async () => {} }, publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test", exportMode: v.mode }); return new S.BasicTracerProvider({ spanProcessors: [procs[n]] }); };
  const P = { A: isolated("A"), B: isolated("B"), G: new S.BasicTracerProvider({ spanProcessors: [{ onStart() {}, onEnd: (s) => got.G.push(s), forceFlush: async () => {}, shutdown: async () => {} }] }) };
  let global = false; const spans = []; let active = 0; const ids = new Set(); let prov = "none";
  const inCtx = (f) => context.with(active ? trace.setSpan(ROOT_CONTEXT, spans[active - 1].otel) : ROOT_CONTEXT, f);
  const idOf = async (seed) => { const want = createHash("sha256").update(v.seeds[seed], "utf8").digest("hex").slice(0, 32); const id = await T.createTraceId(v.seeds[seed]); if (id !== want) bad("trace id " + id); return id; };
  const seedIds = {};
  const wrapped = T.observe((f) => f(), { name: "observed", captureInput: false, captureOutput: false }); // made before any provider is set
  const ai = lib.openai.observeOpenAI({ chat: { completions: { create: async (p) => { hook?.(); return { choices: [] }; } } } }); let hook;
  const scoped = (i) => { const cur = trace.getActiveSpan(); spans[i - 1] = { otel: cur }; if (T.getActiveTraceId() !== cur?.spanContext().traceId || T.getActiveSpanId() !== cur?.spanContext().spanId) bad("active ids"); };
  return {
    async step(a, { o: e }) {
      if (!global) { global = true; if (e.g) trace.setGlobalTracerProvider(P.G); }
      switch (a.op) {
        case "set": prov = a.p; (a.c === "own" ? T : other.tracing).setLangfuseTracerProvider(a.p === "none" ? null : P[a.p]); break;
        case "start": {
          const i = a.i; let opt = {};
          if (a.seed !== "none") { const id = await idOf(a.seed); if (seedIds[a.seed] && seedIds[a.seed] !== id) bad("seed gives another id"); for (const [k, x] of Object.entries(seedIds)) if (k !== a.seed && x === id) bad("two seeds, one id"); seedIds[a.seed] = id; opt = { parentSpanContext: { traceId: id, spanId: "0123456789abcdef", traceFlags: 1 } }; }
          const u = await T.createTraceId(); if (!/^[0-9a-f]{32}$/.test(u) || ids.has(u)) bad("unseeded id " + u); ids.add(u);
          if (a.kind === "start") { const o = a.par ? spans[a.par - 1].obs.startObservation("s" + i, {}, { asType: ["span", "generation", "tool"][i % 3] }) : inCtx(() => T.startObservation("s" + i, {}, { asType: ["span", "agent", "generation"][i % 3], ...opt })); spans[i - 1] = { obs: o, otel: o.otelSpan }; }
          else if (a.kind === "foreign") { const s = inCtx(() => trace.getTracer("app").startSpan("s" + i)); spans[i - 1] = { otel: s }; }
          else if (a.kind === "active") inCtx(() => T.startActiveObservation("s" + i, () => scoped(i), opt));
          else if (a.kind === "observe") { if (a.seed !== "none") inCtx(() => T.observe(() => scoped(i), { name: "x", ...opt })()); else inCtx(() => wrapped(() => scoped(i))); }
          else if (a.kind === "openai") { hook = () => scoped(i); const before = Object.values(got).flat().length; const r = inCtx(() => ai.chat.completions.create({ model: "m", messages: [] })); await r; await world.drain(); hook = null; if (!spans[i - 1]?.otel || spans[i - 1].otel === spans[active - 1]?.otel) spans[i - 1] = { find: true }; void before; }
          else if (a.kind === "chain") { const h = new lib.langchain.CallbackHandler(); await inCtx(() => h.handleChainStart({ lc: 1, type: "not_implemented", id: ["c"], name: "c" }, { a: 1 }, "run" + i)); const sp = h.runMap?.get?.("run" + i)?.otelSpan; spans[i - 1] = sp ? { otel: sp } : { find: true }; await inCtx(() => h.handleChainEnd({ b: 1 }, "run" + i)); }
          await world.drain(); break;
        }
        case "end": (spans[a.i - 1].obs ?? spans[a.i - 1].otel).end(); break;
        case "enter": active = a.i; break;
      }
      for (const n of ["A", "B"]) { await world.drain(1); await procs[n].forceFlush(); }
      // spans whose handle is not accessible are found among the exported ones
      spans.forEach((s, i) => { if (s.find) { const all = [...got.A, ...got.B, ...got.G]; const known = new Set(spans.filter((x) => x.otel).map((x) => x.otel.spanContext().spanId)); const f = all.filter((x) => !known.has(x.spanContext().spanId)); if (f.length === 1) spans[i] = { otel: f[0] }; } });
    },
    observe(e) {
      const num = {}; spans.forEach((s, i) => { if (s?.otel) num[s.otel.spanContext().spanId] = i + 1; });
      const label = (tid) => { for (const [k, id] of Object.entries(seedIds)) if (id === tid) return k; const i = spans.findIndex((s) => s?.otel?.spanContext().traceId === tid); return "t" + (i + 1); };
      const set = (n) => e.o.A.map((_, i) => got[n].filter((s) => s.spanContext().spanId === spans[i]?.otel?.spanContext().spanId).length === 1);
      for (const n of "ABG") for (const s of got[n]) if (!num[s.spanContext().spanId]) bad("unknown span " + s.name + " in " + n);
      const nest = spans.map((s, i) => { if (e.o.nest[i] === "N") return s.otel && !s.otel.isRecording?.() ? "N" : "recorded without a provider"; if (!s.otel) return "missing"; const p = s.otel.parentSpanContext?.spanId; return (p === undefined || p === "0123456789abcdef" ? 0 : num[p] ?? "?") + " " + label(s.otel.spanContext().traceId); });
      const [tid, sid] = inCtx(() => [T.getActiveTraceId(), T.getActiveSpanId()]);
      const cur = prov === "none" ? trace.getTracerProvider() : P[prov]; if (T.getLangfuseTracerProvider() !== cur || other.tracing.getLangfuseTracerProvider() !== cur) { if (prov !== "none" || T.getLangfuseTracerProvider() !== cur) bad("getLangfuseTracerProvider"); }
      return { A: set("A"), B: set("B"), G: set("G"), nest, active: tid === undefined && sid === undefined ? "none" : (num[sid] ?? "?") + " " + label(tid), ok, g: e.o.g };
    },
    async dispose() { T.setLangfuseTracerProvider(null); trace.disable(); },
  };
}
