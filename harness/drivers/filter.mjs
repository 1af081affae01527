// Replays SpanFilter.tla cases through LangfuseSpanProcessor's default filter.
export function variants() { return ["none", "remote", "local", "link"].flatMap((parent, i) => [{ mode: "immediate", parent, kind: i }, { mode: "batched", parent, kind: 4 - i }]); }
export async function make({ lib, world, variant }) {
  let got; const out = [];
  const exporter = { export(s, cb) { out.push(...s.map((x) => x.spanContext().spanId)); cb({ code: 0 }); }, async shutdown() {}, async forceFlush() {} };
  const proc = new lib.otel.LangfuseSpanProcessor({ exporter, publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test", exportMode: variant.mode });
  const provider = new lib.sdkTraceBase.BasicTracerProvider({ spanProcessors: [proc] });
  const { trace, ROOT_CONTEXT } = lib.otelApi, remote = { traceId: "ab".repeat(16), spanId: "cd".repeat(8), traceFlags: 1, isRemote: true };
  const ctx = variant.parent === "remote" ? trace.setSpanContext(ROOT_CONTEXT, remote) : variant.parent === "local" ? trace.setSpan(ROOT_CONTEXT, provider.getTracer("some-app").startSpan("parent", {}, ROOT_CONTEXT)) : ROOT_CONTEXT;
  return {
    async step(a) {
      const at = { gen_start: { "gen_ai.system": "x" }, gen_bare: { gen_ai: "x" }, gen_inner: { "my.gen_ai.system": "x" }, lf_attr: { "langfuse.observation.type": "span" }, gen_zero: { "gen_ai.usage.output_tokens": 0 }, gen_false: { "gen_ai.request.stream": false }, gen_empty: { "gen_ai.prompt": "" } }[a.at];
      const s = provider.getTracer(a.pre + a.base + a.post).startSpan("s", { attributes: at, kind: variant.kind, links: variant.parent === "link" ? [{ context: remote }] : [] }, ctx);
      if (a.at === "gen_late") s.setAttribute("gen_ai.request.model", "m"); if (a.at === "gen_undef") s.setAttribute("gen_ai.request.model", undefined);
      s.end(); let ok = false; proc.forceFlush().then(() => (ok = true)); await world.drain();
      const n = out.filter((i) => i === s.spanContext().spanId).length; got = { exported: n === 1 ? true : n === 0 ? false : n };
    },
    observe() { return got; },
  };
}
