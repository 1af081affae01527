// Replays Experiment.tla: the task, the evaluators and the server are the environment.
export function variants() {
  const vs = []; const vias = ["client", "dataset", "context"];
  for (let i = 0; i < 6; i++) vs.push({ via: vias[i % 3], inside: i >= 3, md: i % 2 === 1, lim50: i % 2 === 0, runName: i % 4 !== 0, i });
  return vs;
}
const P = "langfuse.observation.", X = "langfuse.experiment.";
const mkErr = { rej: () => new Error("task broke"), np: () => Object.create(null), undef: () => undefined };
export async function make({ lib, world, variant: v }) {
  const { context, trace, ROOT_CONTEXT } = lib.otelApi; const T = lib.tracing; let ok = "ok"; const bad = (m) => { if (ok === "ok") ok = m; };
  const started = [], ended = new Map(); const proc = { onStart(s) { started.push(s); }, onEnd(s) { ended.set(s, (ended.get(s) || 0) + 1); }, async forceFlush() {}, async shutdown() {} };
  const lf = new lib.otel.LangfuseSpanProcessor({ exporter: { export(_s, cb) { cb({ code: 0 }); }, async shutdown() {}, async forceFlush() {} }, publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test", exportMode: "immediate" });
  T.setLangfuseTracerProvider(new lib.sdkTraceBase.BasicTracerProvider({ spanProcessors: [lf, proc] }));
  process.env.LANGFUSE_FLUSH_AT = "1000"; // scores are sent by the final flush only, their batching is specified in Score.tla
  const client = new lib.client.LangfuseClient({ publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test" });
  const find = (m, p) => world.pending().filter((r) => r.method === m && r.path.startsWith(p));
  let items = [], data = [], ne = 0, nr = 0, ds = false, revs = [], result = null, state = "idle", experimentName = "exp", seenRun = null; let outer = null, ctx = ROOT_CONTEXT; const DESC = "about", VERSION = "2025-01-01T00:00:00Z"; let wantMd, wantVersion, sentEvals = new Map();
  if (v.inside) { outer = T.startObservation("outer").otelSpan; ctx = trace.setSpan(ROOT_CONTEXT, outer); }
  const defer = () => { const d = {}; d.p = new Promise((a, b) => { d.res = a; d.rej = b; }); return d; };
  const ix = (item) => { const i = data.findIndex((x) => x === item || (x.id && x.id === item?.id && item.datasetId === "ds")); if (i < 0) bad("unknown item"); return i; };
  const expMd = v.md ? { model: "m", n: 1 } : undefined;
  const vals = {}; const outOf = (i, o) => (vals[i + o] ??= { x: ({ val: { answer: i, o: "é" }, str: "out-" + i, undef0: undefined, null0: null, cyc: cycle })[o] }).x; const cycle = { a: 1 }; cycle.self = cycle;
  const child = (i, when) => { const it = items[i]; const s = T.startObservation("child").otelSpan; s.end(); const at = s.attributes; const root = it.span.spanContext();
    if ((s.parentSpanContext?.spanId ?? s.parentSpanId) !== root.spanId || s.spanContext().traceId !== root.traceId) bad(`child of item ${i + 1} ${when} is elsewhere`);
    if (at[X + "item.root_observation_id"] !== root.spanId) bad("root observation id"); if (ds && at[X + "item.id"] !== "it" + (i + 1)) bad("item id " + at[X + "item.id"]); if (!at[X + "item.id"]) bad("no item id"); if (at["langfuse.environment"] !== "sdk-experiment") bad("environment");
    if (v.runName ? at[X + "name"] !== "run name" : !String(at[X + "name"]).startsWith("exp - ")) bad("experiment name"); if (at[X + "id"] !== (it.link === "ok" ? "run-1" : it.expId ?? at[X + "id"]) || !at[X + "id"]) bad("experiment id"); it.expId = at[X + "id"]; if (at[X + "dataset.id"] !== (ds ? "ds" : undefined)) bad("dataset id"); };
  const task = (item) => {
    const i = ix(item), it = items[i]; if (!it) return; it.calls++; it.span = started.find((s) => s.spanContext().spanId === trace.getActiveSpan()?.spanContext().spanId); if (!it.span || it.span.name !== "experiment-item-run") { bad("task outside its item's observation"); return; }
    if (items.some((o) => o !== it && o.span === it.span)) bad("shared item observation"); child(i, "before");
    if (it.k === "sthrow") throw new Error("at once"); it.task = defer();
    return (async () => { try { return await it.task.p; } finally { child(i, "after"); } })();
  };
  const evaluator = (e) => (p) => { const i = items.findIndex((it, k) => it.out !== undefined && it.evd[e] === undefined && it.done && p.input === data[k].input && p.output === outOf(k, it.out)); if (i < 0) { bad("evaluator called for no finished item"); return Promise.reject(new Error("x")); }
    const it = items[i]; if (p.expectedOutput !== data[i].expectedOutput || p.metadata !== data[i].metadata) bad("evaluator parameters"); it.evd[e] = defer(); if (it.k === "evthrow") { it.evd[e].settled = true; throw new Error("at once"); } return it.evd[e].p.then((x) => (x?.auto ? adapted(x, p) : x)); };
  const adapted = (x, p) => lib.client.createEvaluatorFromAutoevals((q) => { if (q.input !== p.input || q.output !== p.output || q.expected !== p.expectedOutput || q.model !== "judge" || Object.keys(q).sort().join() !== "expected,input,model,output") bad("parameters of the adapted evaluator"); return v.md ? x.auto : Promise.resolve(x.auto); }, { model: "judge" })(p);
  const evals = (o, tag, i) => ({ one: { name: tag, value: i, comment: "c" }, two: [{ name: tag + "a", value: 1 }, { name: tag + "b", value: "cat", dataType: "CATEGORICAL", metadata: { m: 1 } }], none: [], falsy: [{ name: tag + "a", value: 0 }, { name: tag + "b", value: "", comment: "empty" }], same: [{ name: "same", value: 2 + i }, { name: "same", value: 4.5 }] })[o];
  const FIELDS = ["name", "value", "comment", "dataType", "metadata"]; const fields = (o) => JSON.stringify(FIELDS.map((f) => o[f] ?? null)); const given = (i, e) => { for (const x of [e].flat()) sentEvals.set(i + fields(x), (sentEvals.get(i + fields(x)) ?? 0) + 1); return e; };
  const auto = (a) => { const name = "e" + a.e, score = a.o === "auto" ? 0.25 * a.i : null, metadata = a.i % 2 ? { why: a.i } : undefined; given(a.i, { name, value: score ?? 0, metadata }); return { auto: { name, score, metadata } }; };
  return {
    async step(a) {
      if (a.op === "start") {
        const c = a.c; ne = c.ne; nr = c.nr; ds = c.src === "dataset"; items = a.ks.map((k) => ({ k, calls: 0, evd: [] }));
        data = a.ks.map((k, i) => ({ ...(k === "noinput" ? {} : { input: k === "cyc" ? cycle : [{ n: i }, "q" + i, 0, ""][(i + v.i) % 4] }), expectedOutput: k === "cyc" ? cycle : [undefined, { e: i }, 0, false, "text"][(i + v.i) % 5], metadata: k === "cyc" ? cycle : i % 2 ? { md: i } : undefined, ...(ds ? { id: "it" + (i + 1), datasetId: "ds", datasetName: "d" } : {}) }));
        if (a.ks.filter((k) => k === "cyc").length > 1) for (const d of data) if (d.input === cycle) { d.input = { a: 1 }; d.input.self = d.input; }
        const ctxMd = v.via === "context" && !a.ks.includes("cyc") ? { model: "ctx", c: 2 } : undefined; wantMd = v.via === "context" && ctxMd ? { ...ctxMd, ...expMd } : expMd; const params = { name: experimentName, description: DESC, ...(v.runName ? { runName: "run name" } : {}), metadata: a.ks.includes("cyc") && v.md && !ds ? cycle : expMd, task, evaluators: ne || v.md ? Array.from({ length: ne }, (_, e) => evaluator(e)) : undefined, runEvaluators: nr || v.md ? Array.from({ length: nr }, (_, j) => ({ itemResults }) => { revs[j] = Object.assign(defer(), { saw: itemResults.map((r) => ix(r.item) + 1) }); return revs[j].p; }) : undefined };
        if (!(v.lim50 && c.lim >= c.n)) params.maxConcurrency = c.lim;
        let p;
        if (v.via === "dataset" && ds && !a.ks.includes("cyc") && !a.ks.includes("noinput")) {
          let got; client.dataset.get("d", v.md ? { version: VERSION } : undefined).then((x) => (got = x), (e) => bad("dataset.get " + e)); await world.drain(); find("GET", "/api/public/v2/datasets/d")[0]?.reply(200, { id: "ds", name: "d" }); await world.drain();
          find("GET", "/api/public/dataset-items")[0]?.reply(200, { data: JSON.parse(JSON.stringify(data)), meta: { page: 1, limit: 50, totalItems: data.length, totalPages: 1 } }); await world.drain(); if (!got) return bad("no dataset");
          data = got.items.map((x, i) => ({ ...x, metadata: x.metadata, expectedOutput: x.expectedOutput })); wantVersion = v.md ? VERSION : undefined; state = "run"; p = context.with(ctx, () => got.runExperiment(params));
        } else { wantVersion = v.via === "context" ? VERSION : undefined; state = "run"; p = context.with(ctx, () => (v.via === "context" ? (v.inside ? new lib.client.RunnerContext({ client, data: [], metadata: ctxMd, datasetVersion: VERSION }).runExperiment({ ...params, data }) : new lib.client.RunnerContext({ client, data, metadata: ctxMd, datasetVersion: "old" }).runExperiment({ ...params, datasetVersion: VERSION })) : client.experiment.run({ ...params, data }))); }
        p.then((r) => { result = r; state = "done"; }, (e) => { state = "rejected"; bad("experiment rejected " + (e?.message ?? "")); });
      } else if (a.op === "link") {
        const r = find("POST", "/api/public/dataset-run-items").find((r) => r.json().datasetItemId === "it" + a.i); if (!r) return bad("no link request"); const j = r.json(); const it = items[a.i - 1];
        it.linkIds = [j.traceId, j.observationId]; if (v.runName ? j.runName !== "run name" : !String(j.runName).startsWith("exp - ")) bad("run name"); if (j.runDescription !== DESC) bad("description"); if (JSON.stringify(j.metadata) !== JSON.stringify(wantMd)) bad("run metadata " + JSON.stringify(j.metadata)); if (j.datasetVersion !== wantVersion) bad("dataset version " + j.datasetVersion); if (seenRun && seenRun !== j.runName) bad("different run names"); seenRun = j.runName;
        it.link = a.o; if (a.o === "ok") r.reply(200, { id: "x" + a.i, datasetRunId: "run-1", datasetRunName: j.runName, datasetItemId: "it" + a.i, traceId: j.traceId }); else if (a.o === "e400") r.reply(400, {}); else if (a.o === "odd") r.reply(200, null); else r.fail();
      } else if (a.op === "task") {
        const it = items[a.i - 1]; if (!it.task) return bad("task not called"); const t = it.task; it.task = null; if (it.linkIds && (it.linkIds[0] !== it.span.spanContext().traceId || it.linkIds[1] !== it.span.spanContext().spanId)) bad("linked to another trace");
        if (a.o in mkErr) t.rej(mkErr[a.o]()); else { it.out = a.o; it.done = true; t.res(outOf(a.i - 1, a.o)); }
      } else if (a.op === "eval") { const d = items[a.i - 1].evd[a.e - 1]; if (!d) return bad("evaluator not called"); d.settled = true; a.o in mkErr ? d.rej(mkErr[a.o]()) : d.res(a.o.startsWith("auto") ? auto(a) : given(a.i, evals(a.o, "e" + a.e, a.i))); }
      else if (a.op === "project") { const r = find("GET", "/api/public/projects")[0]; if (!r) return bad("no project request"); this.proj = a.o; a.o === "ok" ? r.reply(200, { data: [{ id: "prj", name: "p" }] }) : a.o === "odd" ? r.reply(200, { data: [] }) : a.o === "e400" ? r.reply(403, {}) : r.fail(); }
      else if (a.op === "runeval") { const d = revs[a.j - 1]; if (!d) return bad("run evaluator not called"); d.settled = true; const want = items.flatMap((it, i) => (it.done ? [i + 1] : [])); if (JSON.stringify(d.saw) !== JSON.stringify(want)) bad("run evaluator saw " + d.saw); a.o in mkErr ? d.rej(mkErr[a.o]()) : d.res(given(0, evals(a.o, "r" + a.j, 0))); }
      else if (a.op === "send") { const r = find("POST", "/api/public/ingestion")[0]; if (!r) return bad("no scores sent"); a.o === "ok" ? r.reply(207, { successes: r.json().batch.map((e) => ({ id: e.id, status: 201 })), errors: [] }) : a.o === "e400" ? r.reply(400, {}) : r.fail(); }
      await world.drain();
      if (state === "done" && !this.formatted) { this.formatted = true; await this.format(); }
    },
    async format() {
      const n = result.itemResults.length; let text; const p = result.format({ includeItemResults: true }).then((x) => (text = x), (e) => bad("format " + e)); for (let k = 0; k < 6; k++) { await world.drain(); const r = find("GET", "/api/public/projects")[0]; if (r) r.reply(200, { data: [{ id: "prj" }] }); } 
      if (items.some((it) => it.k === "cyc" || it.out === "cyc")) return; await p; if (typeof text !== "string") return bad("no formatted result"); if (!n) return;
      const blocks = text.split(/\n\d+\. Item \d+:\n/).slice(1); if (blocks.length !== n) bad("formatted " + blocks.length + " items");
      result.itemResults.forEach((r, k) => { const b = blocks[k] ?? ""; const show = (x) => (typeof x === "string" ? x : JSON.stringify(x)); if (!b.includes(`Input:    ${show(r.item.input)}\n`) || !b.includes(`Actual:   ${show(r.output)}\n`) || (r.item.expectedOutput && !b.includes(`Expected: ${show(r.item.expectedOutput)}\n`)) || !b.includes("/traces/" + r.traceId) || (ds && !b.includes("/items/" + r.item.id + "\n"))) bad("formatted item " + (k + 1)); for (const e of r.evaluations) if (!b.includes("• " + e.name + ":")) bad("formatted evaluation"); });
      const all = result.itemResults.flatMap((r) => r.evaluations); const tail = text.slice(text.lastIndexOf("─".repeat(50))); if (!tail.includes(`\n${n} items`)) bad("formatted count");
      for (const name of new Set(all.map((e) => e.name))) { const nums = all.filter((e) => e.name === name && typeof e.value === "number").map((e) => e.value); if (nums.length && !tail.includes(`• ${name}: ${(nums.reduce((x, y) => x + y, 0) / nums.length).toFixed(3)}`)) bad("formatted average of " + name); }
      for (const e of result.runEvaluations) if (!tail.includes(`• ${e.name}: ${typeof e.value === "number" ? e.value.toFixed(3) : e.value}`)) bad("formatted run evaluation"); if (result.datasetRunUrl && !tail.includes(result.datasetRunUrl)) bad("formatted run url");
    },
    observe() {
      if (world.unhandled.length) bad("unhandled " + world.unhandled[0]);
      const owner = (b) => { if (b.datasetRunId) { if (b.datasetRunId !== "run-1" || b.traceId) bad("run score"); return 0; } const i = items.findIndex((it) => it.span && it.span.spanContext().traceId === b.traceId && it.span.spanContext().spanId === b.observationId); return i + 1 || -1; };
      const sent = world.requests.filter((r) => r.method === "POST" && r.path === "/api/public/ingestion").flatMap((r) => r.json().batch.map((e) => [owner(e.body), e.body.name]));
      const count = new Map(); for (const r of world.requests) if (r.method === "POST" && r.path === "/api/public/ingestion") for (const e of r.json().batch) { const k = owner(e.body) + fields(e.body); count.set(k, (count.get(k) ?? 0) + 1); if (count.get(k) > (sentEvals.get(k) ?? 0)) bad("score differs from its evaluation: " + k); }
      const seq = (n, f) => Array.from({ length: n }, (_, i) => f(i));
      let res = [], rev = [];
      if (state === "done") {
        res = result.itemResults.map((r) => { const i = ix(r.item), it = items[i]; if (!it) return {}; if (r.input !== r.item.input || r.expectedOutput !== r.item.expectedOutput) bad("result input"); if (r.output !== outOf(i, it.out)) bad("result output"); if (r.traceId !== it.span?.spanContext().traceId) bad("result trace"); if (ended.get(it.span) !== 1) bad("item observation ended " + ended.get(it.span)); const at = it.span?.attributes ?? {}; if (it.k !== "cyc" && it.out !== "cyc") { const show = (x) => (x == null ? undefined : typeof x === "string" ? x : JSON.stringify(x)); if (at[P + "input"] !== show(r.input)) bad("item observation input " + at[P + "input"]); if (at[P + "output"] !== show(r.output) && !(r.output === null && at[P + "output"] === "null")) bad("item observation output " + at[P + "output"]); if (at[X + "item.expected_output"] !== show(r.expectedOutput)) bad("expected output " + at[X + "item.expected_output"]); if (at[P + "metadata.experiment_run_name"] !== result.runName) bad("run name"); if (ds && (at[P + "metadata.dataset_item_id"] !== r.item.id || at[P + "metadata.dataset_id"] !== "ds")) bad("dataset item id"); } return { i: i + 1, out: it.out, ev: r.evaluations.map((e) => e.name), run: r.datasetRunId === "run-1" }; });
        rev = result.runEvaluations.map((e) => e.name); const linked = res.some((r) => r.run);
        if ((result.datasetRunId === "run-1") !== linked) bad("dataset run id"); if (result.datasetRunUrl !== (linked && this.proj === "ok" ? "http://lf.test/project/prj/datasets/ds/runs/run-1" : undefined)) bad("run url " + result.datasetRunUrl); if (linked ? result.experimentId !== "run-1" : !result.experimentId) bad("experiment id");
        for (const s of started) if (s !== outer && ended.get(s) !== 1) bad("observation " + s.name + " ended " + ended.get(s));
      }
      const wanted = items.filter((it) => it.k !== "noinput").length; const roots = started.filter((s) => s.name === "experiment-item-run"); if (outer) for (const s of roots) if (s.parentSpanContext?.spanId !== outer.spanContext().spanId) bad("item not under the active observation");
      return { items: items.map((it, i) => ({ calls: it.calls, link: find("POST", "/api/public/dataset-run-items").some((r) => r.json().datasetItemId === "it" + (i + 1)), task: !!it.task, ev: seq(ne, (e) => !!it.evd[e] && !it.evd[e].settled) })), project: !this.formatted && find("GET", "/api/public/projects").length > 0, revs: seq(nr, (j) => !!revs[j] && !revs[j].settled), sent, res, rev, done: state === "done", ok };
    },
    dispose() { T.setLangfuseTracerProvider(null); },
  };
}
