// Replays Propagation.tla: contexts are live asynchronous flows, hops go through real headers.
import { makeFlow, propagator, setter, getter } from "../lib/flows.mjs";
const long = (id, n) => (id + "x".repeat(n)).slice(0, n);
// decoration of a value; id keeps it recognisable inside headers
const STYLES = {
  plain: (id) => id, seps: (id) => `${id},;=%2C "'\\`, unicode: (id) => `${id} ünï©ode 日本 💥`, long: (id) => long(id, 200), pct: (id) => `${id}%25%,%2c,`, space: (id) => ` ${id} \t`, json: (id) => `{"${id}":[1,2]}`,
};
const MDKEYS = { plain: ["alpha", "beta"], seps: ["a,b;c=d", "k%2C"], unicode: ["ключ 💥", "b"], long: ["k".repeat(100), "b"], pct: ["a.b", "a.b.c"], space: ["a b", "_"], json: ["user_id", "langfuse_tags"] };
export function variants() {
  const apis = ["otel", "active", "start"]; const bads = ["long", "type", "null", "obj"];
  return Object.keys(STYLES).map((style, i) => ({ style, api: apis[i % 3], bad: bads[i % 4], env: i % 2 ? "base-env" : undefined, sync: i % 3 === 0, foreign: i % 2 === 0 }));
}
const KEY = { user: "user.id", session: "session.id", version: "langfuse.version", name: "langfuse.trace.name", env: "langfuse.environment", exp: "langfuse.experiment.name" };
const PARAM = { user: "userId", session: "sessionId", version: "version", name: "traceName", env: "environment" };
export async function make({ lib, world, variant: v, path }) {
  const { context, trace, ROOT_CONTEXT } = lib.otelApi; const T = lib.tracing; const prop = propagator(lib);
  const sty = STYLES[v.style]; const mk = MDKEYS[v.style]; let ok = "ok"; const bad = (m) => { if (ok === "ok") ok = m; };
  const out = new Map(); const exporter = { export(s, cb) { for (const x of s) out.set(x.spanContext().spanId, x); cb({ code: 0 }); }, async shutdown() {}, async forceFlush() {} };
  const services = []; const svc = (i) => (services[i - 1] ??= new lib.sdkTraceBase.BasicTracerProvider({ spanProcessors: [new lib.otel.LangfuseSpanProcessor({ exporter, publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test", exportMode: "immediate", environment: v.env, shouldExportSpan: () => true })] }));
  const badEnvs = ["e".repeat(41), 5, "Upper", "langfuse-x", "prod!", "a b", "ok\n", "", " x", "langfuse", { a: 1 }]; let nth = Object.keys(STYLES).indexOf(v.style) + path.length;
  const badV = (k) => (k === "env" ? badEnvs[nth++ % badEnvs.length] : { long: "y".repeat(201), type: 42, null: k === "tag" || k === "md" ? null : "z".repeat(500), obj: { a: 1 } }[v.bad]);
  const val = (k, x) => x === "bad" ? badV(k) : k === "env" ? (v.style === "long" ? long("env_" + x + "-", 40) : "env_" + x + "-a0") : k === "exp" ? `ID-exp-${x}` : sty(`ID-${k}-${x}`);
  const mdKey = (k) => mk[k === "k1" ? 0 : 1]; const mdVal = (k, x) => (x === "bad" ? badV("md") : sty(`ID-${k}-${x}`));
  const prompts = { p1: { name: sty("ID-prompt-p1"), version: v.api === "start" ? 0 : 3 }, p2: { name: "ID-prompt-p2", version: v.api === "start" ? "0" : "7", isFallback: false }, px: { name: "explicit", version: 11, isFallback: false }, fb: { name: "ID-prompt-fb", version: 1, isFallback: true },
    bad: { long: { name: "", version: 2 }, type: { name: "n", version: 1.5 }, null: { name: "n", version: "x1" }, obj: { name: 7, version: 1 } }[v.bad] };
  const flows = [{ ...makeFlow({ svc: 1 }) }]; flows[0] = makeFlow({ svc: 1 }); context.with(ROOT_CONTEXT, () => { flows[0].main(); });
  const spans = []; const use = (i) => T.setLangfuseTracerProvider(svc(i));
  return {
    async step(a) {
      const from = a.c ? flows[a.c - 1] : null;
      if (a.op === "open") {
        const f = makeFlow({ svc: from.svc }); flows.push(f); const prm = {};
        for (const [k, x] of a.p.s) if (k === "exp") prm._internalExperiment = { experimentId: "exp-id", experimentName: val(k, x), experimentMetadata: '{"a":1}', experimentDatasetId: undefined, experimentItemId: "item-" + x, experimentItemRootObservationId: "abcdef0123456789" }; else prm[PARAM[k]] = val(k, x);
        if (a.p.tags.length) prm.tags = a.p.tags.map((t) => val("tag", t)); if (a.p.md.length) prm.metadata = Object.fromEntries(a.p.md.map(([k, x]) => [mdKey(k), mdVal(k, x)]));
        if (a.p.prompt !== "none") prm.prompt = prompts[a.p.prompt]; if (a.bag) prm.asBaggage = true; else if (v.sync) prm.asBaggage = false;
        const before = JSON.stringify(prm); const ret = {};
        await from.run(() => { use(from.svc); const r = T.propagateAttributes(prm, () => { f.main(); return ret; }); if (r !== ret) bad("return value of propagateAttributes"); });
        if (JSON.stringify(prm) !== before) bad("parameters modified");
      } else if (a.op === "start") {
        const f = makeFlow({ svc: from.svc }); flows.push(f); const ex = a.pr === "px" ? prompts.px : undefined;
        await from.run(() => {
          use(from.svc);
          if (v.api === "otel") { const s = svc(from.svc).getTracer("lib").startSpan("s", { attributes: ex ? { "langfuse.observation.prompt.name": ex.name, "langfuse.observation.prompt.version": ex.version } : {} }); spans.push(s); context.with(trace.setSpan(context.active(), s), () => { f.main(); }); }
          else if (v.api === "active" && !ex) T.startActiveObservation("s", (o) => { spans.push(o.otelSpan); return f.main(); }, { endOnExit: false });
          else { const o = T.startObservation("s", ex ? { prompt: ex } : {}, { asType: "generation" }); spans.push(o.otelSpan); context.with(trace.setSpan(context.active(), o.otelSpan), () => { f.main(); }); }
        });
      } else if (a.op === "end") spans[a.i - 1].end();
      else if (a.op === "hop") { const h = {}; await from.run(() => { prop.inject(context.active(), h, setter); });
        // entries of other origin: they must not reach any span, invalid ones of ours are dropped
        if (v.foreign) h.baggage = [...(h.baggage ? [h.baggage] : []), ...(/langfuse_environment=/.test(h.baggage ?? "") ? [] : ["langfuse_environment=FOREIGN%20Env"]), "langfuse_other=FOREIGN", "vendor=FOREIGN", "user_id=FOREIGN", "LANGFUSE_user_id=FOREIGN"].join(",");
        const f = makeFlow({ svc: from.svc + 1 }); flows.push(f); context.with(prop.extract(ROOT_CONTEXT, h, getter), () => { f.main(); }); }
      await world.drain(1);
      this.heads = []; for (const f of flows) { const h = {}; await f.run(() => { prop.inject(context.active(), h, setter); }); this.heads.push(decodeURIComponent(h.baggage ?? "")); }
    },
    observe(e) {
      if (world.unhandled.length) bad("unhandled " + world.unhandled[0]);
      const same = (exp, got) => (exp.length === got.length && exp.every((x) => got.some((y) => JSON.stringify(x) === JSON.stringify(y))) ? exp : got);
      const os = spans.map((s, i) => {
        const at = s.attributes; const x = e.o.spans[i]; if (JSON.stringify(at).includes("FOREIGN")) bad("foreign baggage on a span"); const got = { s: [], tags: [], md: [], prompt: "none" };
        for (const [k, key] of Object.entries(KEY)) { const g = at[key]; if (g === undefined) continue;
          const sym = k === "env" && g === v.env ? "default" : k === "env" && g === "sdk-experiment" ? "experiment" : ["1", "2"].find((z) => val(k, z) === g) ?? "other " + JSON.stringify(g); got.s.push([k, sym]); }
        if (v.env === undefined && !("langfuse.environment" in at)) got.s.push(["env", "default"]);
        if (("langfuse.experiment.name" in at) !== ("langfuse.experiment.item.root_observation_id" in at) || ("langfuse.experiment.name" in at && (at["langfuse.experiment.id"] !== "exp-id" || at["langfuse.experiment.metadata"] !== '{"a":1}'))) bad("experiment attributes");
        got.tags = (at["langfuse.trace.tags"] ?? []).map((t) => ["a", "b", "c"].find((z) => val("tag", z) === t) ?? "other " + JSON.stringify(t));
        for (const [k, g] of Object.entries(at)) if (k.startsWith("langfuse.trace.metadata")) { const id = ["k1", "k2"].find((z) => k === "langfuse.trace.metadata." + mdKey(z)); got.md.push([id ?? "other " + k, id ? ["1", "2"].find((z) => mdVal(id, z) === g) ?? "other " + JSON.stringify(g) : "?"]); }
        const pn = at["langfuse.observation.prompt.name"], pv = at["langfuse.observation.prompt.version"];
        if (pn !== undefined || pv !== undefined) got.prompt = ["p1", "p2", "px"].find((z) => prompts[z].name === pn && Number(prompts[z].version) === pv) ?? `other ${pn} ${pv} ${typeof pv}`;
        return { s: same(x?.s ?? [], got.s), tags: got.tags, md: same(x?.md ?? [], got.md), prompt: got.prompt };
      });
      const all = [...Object.keys(PARAM).flatMap((k) => (k === "env" ? [] : ["1", "2"].map((z) => [k, z, `ID-${k}-${z}`]))), ["env", "1", "env_1-"], ["env", "2", "env_2-"], ["exp", "1", "ID-exp-1"], ["exp", "2", "ID-exp-2"], ...["a", "b", "c"].map((z) => ["tag", z, `ID-tag-${z}`]), ...["k1", "k2"].flatMap((k) => ["1", "2"].map((z) => [k, z, `ID-${k}-${z}`])), ["prompt", "p1", "ID-prompt-p1"], ["prompt", "p2", "ID-prompt-p2"], ["prompt", "fb", "ID-prompt-fb"]];
      const headers = this.heads.map((h, i) => same(e.o.headers[i] ?? [], all.filter(([, , id]) => h.includes(id)).map(([k, z]) => [k, z])));
      return { spans: os, headers, ok };
    },
    dispose() { for (const f of flows) f.close(); T.setLangfuseTracerProvider(null); },
  };
}
