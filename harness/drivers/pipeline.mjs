// Replays SpanPipeline.tla behaviours into LangfuseSpanProcessor.
export function variants() {
  return [{ how: "tracer", interval: 5 }, { how: "observation", interval: 2 }, { how: "default-filter", interval: undefined }];
}
const uri = (i) => "data:image/png;base64," + Buffer.from("media" + i).toString("base64");
export async function make({ lib, world, variant }) {
  const { BasicTracerProvider, SamplingDecision } = lib.sdkTraceBase;
  let provider, proc, mode; const masks = new Map(); const batches = []; const flushes = []; let n = 0; let content = "ok";
  const bad = (m) => { if (content === "ok") content = m; };
  const idOf = (s) => Number(s.name.split("-")[1]); const scale = variant.scale ?? 1;
  const exporter = { export(spans, cb) {
    const b = mode === "immediate" && scale > 1 && batches.find((x) => x.id === idOf(spans[0])); // a burst counts as one export
    if (b) { b.spans.push(...spans); b.cbs.push(cb); } else batches.push({ id: idOf(spans[0]), spans: [...spans], cbs: [cb], st: "out" });
  }, async shutdown() {}, async forceFlush() {} };
  const keyed = new Map(); // data -> resolver
  const mask = ({ data }) => { if (typeof data === "string" && data.includes("HOLD")) return new Promise((res, rej) => { keyed.set(Number(data.match(/HOLD(\d+)/)[1]), hold(keyed.get(Number(data.match(/HOLD(\d+)/)[1])), () => res(data), () => rej(new Error("mask")))); }); return data; };
  const shouldExportSpan = ({ otelSpan }) => { const k = otelSpan.name.split("-")[0]; if (k === "thr") throw new Error("filter"); return k !== "rej"; };
  const hold = (old, res, rej) => ({ res: () => (old?.res(), res()), rej: () => (old?.rej(), rej()) });
  return {
    async step(a) {
      switch (a.op) {
        case "configure": {
          mode = a.mode;
          proc = new lib.otel.LangfuseSpanProcessor({ exporter, publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test", mask, exportMode: a.mode, flushInterval: variant.interval, flushAt: scale > 1 ? 2000 : a.bsz === 512 ? undefined : a.bsz, shouldExportSpan });
          provider = new BasicTracerProvider({ spanProcessors: [proc], sampler: { shouldSample: (_c, _t, name) => ({ decision: name.startsWith("uns") ? SamplingDecision.RECORD : SamplingDecision.RECORD_AND_SAMPLED }), toString: () => "s" } });
          lib.tracing.setLangfuseTracerProvider(provider); break;
        }
        case "end": {
          const i = ++n; const hold = ["m", "mu", "uns"].includes(a.k); const media = ["u", "mu"].includes(a.k);
          const input = hold ? `HOLD${i}` + (media ? " " + uri(i) : "") : media ? uri(i) : undefined;
          if (variant.how === "observation") { const o = lib.tracing.startObservation(`${a.k}-${i}`, input === undefined ? {} : { input }); o.end(); }
          else for (let j = 0; j < scale; j++) { const s = provider.getTracer("langfuse-sdk").startSpan(`${a.k}-${i}`, {}, lib.otelApi.ROOT_CONTEXT); if (input !== undefined) s.setAttribute("langfuse.observation.input", input); s.end(); }
          break;
        }
        case "mask": { const k = keyed.get(a.i); if (!k) return bad("mask not called for span " + a.i); a.how === "ok" ? k.res() : k.rej(); break; }
        case "upload": {
          const r = world.pending((x) => x.path.endsWith("/api/public/media") && x.method === "POST").find((x) => reqSpan(x) === a.i);
          if (!r) return bad("no upload pending for span " + a.i);
          for (const x of scale > 1 ? world.pending((x) => x.path.endsWith("/api/public/media") && reqSpan(x) === a.i) : [r]) a.how === "stored" ? x.reply(200, { mediaId: "x", uploadUrl: null }) : x.reply(400, { message: "no" }); break;
        }
        case "tick": await world.advance((variant.interval ?? 5) * 1000); break;
        case "export": { const b = batchFor(a); if (!b) return bad("no export in flight"); b.st = "done"; for (const cb of b.cbs) cb(a.ok ? { code: 0 } : { code: 1, error: new Error("export failed") }); break; }
        case "flush": { const f = { st: "pending" }; flushes.push(f); const p = a.kind === "down" ? proc.shutdown() : proc.forceFlush(); p.then(() => (f.st = "resolved"), () => (f.st = "rejected")); break; }
      }
    },
    observe() {
      const seen = new Map();
      for (const b of batches) for (const s of b.spans) { const i = idOf(s); seen.set(i, (seen.get(i) || 0) + 1); }
      for (const [i, c] of seen) if (c !== scale) bad("span " + i + " exported " + c + " times");
      if (world.unhandled.length) bad("unhandled rejection: " + world.unhandled[0]);
      const up = [...new Set(world.requests.filter((r) => r.path.endsWith("/api/public/media")).map(reqSpan))].sort((x, y) => x - y);
      return { exported: [...seen.keys()].sort((x, y) => x - y), uploads: up, flushes: flushes.map((f) => f.st), content };
    },
    dispose() { lib.tracing.setLangfuseTracerProvider(null); },
  };
  function batchFor(a) { return batches[a.j - 1]?.st === "out" ? batches[a.j - 1] : undefined; }
  function reqSpan(r) { const h = r.json()?.sha256Hash; for (let i = 1; i <= n; i++) if (h === sha(i)) return i; return -1; }
}
import { createHash } from "node:crypto";
const cache = new Map();
const sha = (i) => { if (!cache.has(i)) cache.set(i, createHash("sha256").update("media" + i).digest("base64")); return cache.get(i); };
