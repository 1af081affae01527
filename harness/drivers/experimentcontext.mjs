// Replays ExperimentContext.tla: which experiment context every span carries.
import { isDeepStrictEqual } from "node:util";
import { makeFlow } from "../lib/flows.mjs";
const MD = { none: () => undefined, empty: () => ({}), ab: (w) => ({ a: w + "A", b: { deep: [w, null] } }), bc: (w) => ({ b: w + "B", c: 0 }), reserved: (w) => ({ experiment_name: w, dataset_id: w, a: w + "é" }) };
const EXPECTED = { undef: undefined, null: null, empty: "", zero: 0, false: false, str: "text é", obj: { e: [1, null] }, list: [] };
export function variants() {
  const cfg = [ // per experiment: source, run metadata, item metadata
    [{ s: "linked", m: "ab", im: "bc" }, { s: "local", m: "none", im: "none" }, { s: "linked", m: "bc", im: "ab" }], [{ s: "local", m: "none", im: "none" }, { s: "linked", m: "ab", im: "bc" }, { s: "local", m: "empty", im: "bc" }],
    [{ s: "linked", m: "ab", im: "ab" }, { s: "linked", m: "bc", im: "none" }, { s: "local", m: "none", im: "ab" }], [{ s: "local", m: "ab", im: "bc" }, { s: "local", m: "none", im: "none" }, { s: "local", m: "bc", im: "none" }]];
  return cfg.map((c, k) => ({ c, runName: k % 2 === 0, user: k >= 2, same: k === 3 }));
}
const X = "langfuse.experiment.", M = "langfuse.observation.metadata."; const show = (x) => (x == null ? undefined : typeof x === "string" ? x : JSON.stringify(x));
export async function make({ lib, world, variant: v }) {
  const { context, trace, ROOT_CONTEXT } = lib.otelApi; const T = lib.tracing; let ok = "ok"; const bad = (m) => { if (ok === "ok") ok = m; };
  const started = [], ended = new Set(); const proc = { onStart(s) { started.push(s); }, onEnd(s) { ended.add(s); }, async forceFlush() {}, async shutdown() {} };
  let env; const provider = (environment) => { env = environment; delete process.env.LANGFUSE_TRACING_ENVIRONMENT; const lf = new lib.otel.LangfuseSpanProcessor({ exporter: { export(_s, cb) { cb({ code: 0 }); }, async shutdown() {}, async forceFlush() {} }, publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test", exportMode: "immediate", environment }); const p = new lib.sdkTraceBase.BasicTracerProvider({ spanProcessors: [lf, proc] }); T.setLangfuseTracerProvider(p); return p; };
  let prov = provider(v.user ? "prod" : undefined); const client = new lib.client.LangfuseClient({ publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test" });
  const E = []; const hashes = new Map(); const out = { stack: [] }; const first = makeFlow(); out.stack.push(first); context.with(ROOT_CONTEXT, () => { v.user ? T.propagateAttributes({ userId: "someone", metadata: { k: "v" }, ...(v.same ? { environment: "staging" } : {}) }, () => first.main()) : first.main(); });
  const serve = async (link) => { for (let k = 0; k < 12; k++) { await world.drain(); const p = world.pending(); if (!p.length) return; for (const r of p) { if (r.path === "/api/public/dataset-run-items") { const j = r.json(); const [, e] = /^e(\d+)-/.exec(j.datasetItemId); const want = E[e].run.metadata; if (j.runName !== (E[e].name ??= j.runName)) bad("run name of a link"); if (!isDeepStrictEqual(j.metadata, want === undefined ? undefined : JSON.parse(JSON.stringify(want)))) bad("metadata of a link"); const it = E[e].items[Number(j.datasetItemId.split("-")[1])]; it.link = [j.traceId, j.observationId]; E[e].linkFails ? r.reply(400, {}) : r.reply(200, { id: "x", datasetRunId: "run-" + e, datasetRunName: j.runName, datasetItemId: j.datasetItemId, traceId: j.traceId }); } else if (r.path === "/api/public/ingestion") r.reply(207, { successes: [], errors: [] }); else if (r.path === "/api/public/projects") r.reply(200, { data: [{ id: "prj" }] }); else { bad("request " + r.url); r.fail(); } } } };
  const stackOf = (p) => (p.k === "out" ? out : p.k === "task" ? E[p.e].items[p.i].task : p.k === "eval" ? E[p.e].items[p.i].eval : E[p.e].runeval); const flowOf = (p) => { const s = stackOf(p); return s?.stack.at(-1); };
  const place = () => { const f = makeFlow(); return { stack: [f], main: f.main() }; };
  const full = (e, i) => { const x = E[e], it = x.items[i], d = it.data; const id = x.linked && !x.linkFails ? "run-" + e : x.own; return { [X + "id"]: id, [X + "name"]: x.name, [X + "metadata"]: show(x.run.metadata), [X + "dataset.id"]: d.datasetId, [X + "item.id"]: d.id ?? hashes.get(show(d.input)), [X + "item.metadata"]: show(d.metadata), [X + "item.root_observation_id"]: it.root?.spanContext().spanId }; };
  const PROPAGATED = ["id", "name", "metadata", "dataset.id", "item.id", "item.metadata", "item.root_observation_id"].map((k) => X + k);
  const carried = (s) => Object.fromEntries(PROPAGATED.map((k) => [k, s.attributes[k]]));
  const learn = (e, i, s) => { const x = E[e], d = x.items[i].data; if (!(x.linked && !x.linkFails)) { const id = s.attributes[X + "id"]; if (!x.own) { if (!id || E.some((o) => o && o !== x && o.own === id)) bad("experiment id"); x.own = id; } } x.name ??= s.attributes[X + "name"]; if (d.id === undefined) { const h = s.attributes[X + "item.id"], k = show(d.input); if (!hashes.has(k)) { if (!h || [...hashes.values()].includes(h)) bad("item id"); hashes.set(k, h); } } };
  const check = (s, who, what) => { const [e, i] = who; const at = s.attributes;
    if (!e) { for (const k of Object.keys(at)) if (k.startsWith(X)) return bad(`${what} outside carries ${k}`); if (at["langfuse.environment"] !== (v.same ? "staging" : env)) bad(`environment of ${what} outside: ${at["langfuse.environment"]}`); return; }
    learn(e, i, s); const w = full(e, i); for (const k of PROPAGATED) if (at[k] !== w[k]) return bad(`${what} in item ${e}.${i} carries ${k}=${at[k]}, not ${w[k]}`); if (at["langfuse.environment"] !== "sdk-experiment") bad(`environment of ${what}: ${at["langfuse.environment"]}`); if (v.user && at["user.id"] !== "someone") bad("propagated attributes lost"); };
  const ownerOf = (s) => { const h = carried(s); if (PROPAGATED.every((k) => h[k] === undefined)) return [0, 0]; for (let e = 1; e < E.length; e++) if (E[e]) for (let i = 1; i < E[e].items.length; i++) if (E[e].items[i].root && h[X + "item.root_observation_id"] === E[e].items[i].root.spanContext().spanId) return [e, i]; return [-1, -1]; };
  const begin = (e, cfg, n, lim, where, more = {}) => {
    const mk = (i) => ({ input: v.same ? { q: i } : cfg.s === "local" ? "q" + e + i : { q: [e, i] }, metadata: MD[cfg.im]("item" + (v.same ? "" : i)), ...(more.exp ? { expectedOutput: EXPECTED[more.exp] } : {}), ...(["linked", "unlinked", "noDataset"].includes(cfg.s) ? { id: `e${e}-${i}` } : {}), ...(["linked", "unlinked", "noItem"].includes(cfg.s) ? { datasetId: "ds" + e } : {}) });
    const items = [null]; for (let i = 1; i <= n; i++) items.push({ st: "wait", data: mk(i) });
    const x = (E[e] = { st: "run", items, run: { metadata: MD[cfg.m]("run") }, linked: ["linked", "unlinked", "noDataset"].includes(cfg.s), linkFails: cfg.s === "unlinked", name: v.runName ? "run " + e : undefined });
    const find = (p) => items.findIndex((it) => it && it.data.input === p.input);
    const params = { name: "exp" + e, ...(v.runName ? { runName: "run " + e } : {}), ...(more.d === undefined ? {} : { description: more.d }), metadata: x.run.metadata, maxConcurrency: lim, data: items.slice(1).map((it) => it.data),
      task: (item) => { const it = items.find((y) => y && y.data === item); if (!it) { bad("unknown item"); return; } it.st = "task"; const sp = trace.getActiveSpan(); it.root = started.find((s) => s.spanContext().spanId === sp?.spanContext().spanId); if (it.root?.name !== "experiment-item-run") bad("task outside its observation"); it.task = place(); return it.task.main.then(() => { if (it.fails) throw new Error("no"); return "out" + e; }); },
      evaluators: [(p) => { const it = items[find(p)]; if (!it) { bad("unknown item"); return Promise.resolve([]); } it.st = "eval"; it.eval = place(); return it.eval.main.then(() => { if (it.evalFails) throw new Error("no"); return { name: "q", value: 1 }; }); }],
      runEvaluators: [() => { x.st = "runeval"; x.runeval = place(); return x.runeval.main.then(() => ({ name: "r", value: 1 })); }] };
    return where.run(() => { client.experiment.run(params).then((r) => { x.st = "done"; x.result = r; }, (err) => bad("experiment " + err)); });
  };
  let fresh = null, kinds = 0;
  return {
    async step(a, e) {
      fresh = null;
      if (a.op === "begin") await begin(a.e, v.c[a.e - 1], e.o.it[a.e - 1].length, a.n, flowOf(a.p));
      else if (a.op === "endtask") { const it = E[a.e].items[a.i]; it.fails = a.o === "fail"; if (!it.task) return bad("task not called"); it.st = a.o === "ok" ? "eval?" : "done"; it.task.stack[0].close(); }
      else if (a.op === "endeval") { const it = E[a.e].items[a.i]; it.evalFails = a.o === "fail"; if (!it.eval) return bad("evaluator not called"); it.st = "done"; it.eval.stack[0].close(); }
      else if (a.op === "endrun") { if (!E[a.e].runeval) return bad("run evaluator not called"); E[a.e].st = "running"; E[a.e].runeval.stack[0].close(); }
      else if (a.op === "leaf") { const f = flowOf(a.p); if (!f) return bad("place not reached"); const n = started.length;
        await f.run(() => { if (a.k === "obs") T.startObservation("leaf").end(); else if (a.k === "otel") { const s = prov.getTracer("other").startSpan("leaf"); s.end(); } else if (a.k === "linked") T.startObservation("leaf", {}, { parentSpanContext: { traceId: "a".repeat(32), spanId: "b".repeat(16), traceFlags: 1 } }).end(); else if (a.k === "prop") T.propagateAttributes({ sessionId: "s" }, () => T.startObservation("leaf").end()); else { const o = T.startObservation("upper"); o.startObservation("leaf").end(); o.end(); } });
        await world.drain(); fresh = started.slice(n); if (!fresh.length) bad("no span"); }
      else if (a.op === "open") { const p = stackOf(a.p), f = flowOf(a.p); if (!f) return bad("place not reached"); const n = started.length, g = makeFlow(); g.parent = f; const how = kinds++ % 2; await f.run(() => { (how ? T.observe(() => g.main(), { name: "nested" })() : T.startActiveObservation("nested", () => g.main())); }); p.stack.push(g); await world.drain(); fresh = started.slice(n); }
      else if (a.op === "close") { const p = stackOf(a.p); p.stack.pop().close(); }
      else if (a.op === "values") {
        prov = provider(a.v === "set" ? "prod" : undefined); const done = begin(1, { s: a.s, m: a.m, im: a.im }, 1, 1, first, { exp: a.x === "undef" && v.user ? undefined : a.x, d: { none: undefined, empty: "", text: "about é" }[a.d] }); await done; await serve();
        const it = E[1].items[1]; if (!it.task) return bad("task not called"); const n = started.length; await it.task.stack[0].run(() => { T.startObservation("leaf").end(); }); fresh = started.slice(n); it.task.stack[0].close(); await serve(); it.eval?.stack[0].close(); await serve(); E[1].runeval?.stack[0].close();
      }
      await serve();
      if (fresh && a.op !== "values") for (const s of fresh) check(s, e.o.own, a.op === "leaf" ? a.k : "nested");
      for (const x of E) if (x?.st === "done" && !x.checked) { x.checked = true; const r = x.result, id = E.indexOf(x); for (let i = 1; i < x.items.length; i++) { const it = x.items[i]; if (!it.root || !ended.has(it.root)) { bad("item observation not ended"); continue; } check(it.root, [id, i], "root"); if (it.link && (it.link[0] !== it.root.spanContext().traceId || it.link[1] !== it.root.spanContext().spanId)) bad("linked elsewhere"); } const any = x.items.some((it) => it && !it.fails); if (x.linked && !x.linkFails && any ? r.experimentId !== "run-" + id : !x.linked && r.experimentId !== x.own) bad("experiment id of the result " + r.experimentId); if (r.runName !== x.name) bad("run name of the result"); if (!v.runName && !String(x.name).startsWith("exp" + id + " - ")) bad("generated run name " + x.name); }
    },
    observe(e) {
      if (world.unhandled.length) bad("unhandled " + world.unhandled[0]);
      if (e.a.op === "values") {
        const x = E[1], it = x.items[1], s = fresh[0], r = it.root; if (!s || !r || x.st !== "done") { bad("not finished " + x.st); return { ok }; } check(s, [1, 1], "leaf"); const at = r.attributes, d = it.data, a = e.a;
        for (const k of ["description", "item.expected_output"]) if (s.attributes[X + k] !== undefined) bad(k + " on another span"); for (const k of Object.keys(s.attributes)) if (k.startsWith(M)) bad("metadata of the item on another span");
        const src = (k, f) => (at[M + k] === undefined ? "none" : ({ experiment_name: "exp1", experiment_run_name: x.name, dataset_id: "ds1", dataset_item_id: "e1-1" })[k] === at[M + k] ? "sdk" : x.run.metadata && k in x.run.metadata && at[M + k] === show(x.run.metadata[k]) ? "run" : d.metadata && k in d.metadata && at[M + k] === show(d.metadata[k]) ? "item" : "? " + at[M + k]);
        const extra = Object.keys(at).filter((k) => k.startsWith(M) && !["a", "b", "c", "experiment_name", "experiment_run_name", "dataset_id", "dataset_item_id"].includes(k.slice(M.length))); if (extra.length) bad("metadata " + extra);
        return { shown: { id: s.attributes[X + "id"] === "run-1" ? "run" : s.attributes[X + "id"] ? "own" : "none", item: s.attributes[X + "item.id"] === "e1-1" ? "item" : /^[0-9a-f]{16}$/.test(s.attributes[X + "item.id"]) ? "hash" : "none", md: s.attributes[X + "metadata"] === show(x.run.metadata) ? a.m : "differs", imd: s.attributes[X + "item.metadata"] === show(d.metadata) ? a.im : "differs", ds: at[X + "dataset.id"] === "ds1", desc: at[X + "description"] === "about é" ? "text" : at[X + "description"] ?? "none", exp: at[X + "item.expected_output"] === undefined ? "none" : at[X + "item.expected_output"] === show(EXPECTED[a.x]) ? a.x : "differs", meta: Object.fromEntries(["a", "b", "c", "experiment_name", "experiment_run_name", "dataset_id", "dataset_item_id"].map((k) => [k, src(k)])) }, ok };
      }
      const n = e.o.ex.length; return { ex: Array.from({ length: n }, (_, k) => E[k + 1]?.st ?? "idle"), it: Array.from({ length: n }, (_, k) => e.o.it[k].map((_, i) => E[k + 1]?.items[i + 1].st ?? "wait")), own: fresh ? ownerOf(fresh.at(-1)) : [], ok };
    },
    dispose() { T.setLangfuseTracerProvider(null); }, // unfinished tasks stay pending: ending them would start further items
  };
}
