// Replays RunnerContext.tla.
import { isDeepStrictEqual } from "node:util";
export function variants() { return [{}, { undef: true }, { frozen: true }]; } // undef: what is left out is given as undefined
const items = (d, who) => (d === "empty" ? [] : ["1", "2"].map((k) => ({ id: who + d + k, datasetId: "ds", input: who + d + k, metadata: { own: k } })));
const NONE = { a: "none", b: "none", c: "none" };
const MD = (m, who) => ({ ab: { a: who, b: who }, bc: { b: who, c: who }, empty: {} })[m];
const deepFreeze = (x) => { if (x && typeof x === "object") { Object.values(x).forEach(deepFreeze); Object.freeze(x); } return x; };
export async function make({ lib, world, variant: v }) {
  const T = lib.tracing; let ok = "ok"; const bad = (m) => { if (ok === "ok") ok = m; };
  T.setLangfuseTracerProvider(new lib.sdkTraceBase.BasicTracerProvider({ spanProcessors: [] }));
  const client = new lib.client.LangfuseClient({ publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test" });
  const ctxs = [], runs = [];
  const opts = (a, who) => { const o = {}; const put = (k, x, given) => { if (given) o[k] = v.frozen ? deepFreeze(x) : x; else if (v.undef) o[k] = undefined; }; put("data", items(a.d, who), a.d !== "none"); put("datasetVersion", who + a.v, a.v !== "none"); put("metadata", MD(a.m, who), a.m !== "none"); return o; };
  const answer = async () => { for (const r of world.pending()) { const j = r.json(); if (r.path === "/api/public/dataset-run-items") { const run = runs[Number(j.runName.slice(3)) - 1]; run.links.push(j); r.reply(200, { id: "x", datasetRunId: "r-" + j.runName, datasetRunName: j.runName, datasetItemId: j.datasetItemId, traceId: j.traceId }); } } await world.drain(); };
  const projects = async () => { for (let k = 0; k < 3; k++) { for (const r of world.pending()) if (r.path === "/api/public/projects") r.reply(200, { data: [{ id: "prj" }] }); await world.drain(); } };
  return {
    async step(a) {
      if (a.op === "make") { const o = opts(a, "x" + ctxs.length), twin = opts(a, "x" + ctxs.length); const c = new lib.client.RunnerContext({ client, ...o }); ctxs.push({ c, twin, o, a }); }
      else if (a.op === "run") {
        const n = runs.length + 1, who = "y" + n, o = opts(a, who), twin = opts(a, who), r0 = world.requests.length; const run = { a, links: [], st: "running", tasks: [], gate: null }; runs.push(run); run.open = new Promise((x) => (run.gate = x));
        const params = { ...o, name: "n", runName: "run" + n, description: "d" + n, maxConcurrency: 2, task: async (item) => { run.tasks.push(item.input); await run.open; return "out"; } };
        const p = ctxs[a.i - 1].c.runExperiment(params); if (!(p instanceof Promise)) bad("no promise"); p.then((r) => { run.st = "done"; run.r = r; }, (e) => { run.st = "rejected"; run.e = e; });
        for (let k = 0; k < 3; k++) { await world.drain(); await answer(); }
        if (run.st === "rejected" && (!(run.e instanceof Error) || world.requests.length !== r0)) bad("rejection"); const rest = { ...params }; for (const k of ["name", "runName", "description", "maxConcurrency", "task"]) delete rest[k]; if (!isDeepStrictEqual(rest, twin)) bad("the caller's parameters were changed");
      } else { const run = runs[a.j - 1]; run.gate(); await world.drain(); await projects(); }
      for (let k = 0; k < 2; k++) await world.drain();
    },
    observe() {
      if (world.unhandled.length) bad("unhandled " + world.unhandled[0]);
      for (const [i, x] of ctxs.entries()) for (const k of ["data", "datasetVersion", "metadata"]) if (!isDeepStrictEqual(x.c[k], x.twin[k])) bad(`context ${i + 1} changed its ${k}`);
      return { ok, runs: runs.map((run, j) => {
        const who = "y" + (j + 1), cw = "x" + (run.a.i - 1); if (run.st === "rejected") return { d: "none", v: "none", m: NONE, st: "rejected" };
        const inputs = run.tasks.slice().sort(); let d = inputs.length ? "?" + inputs : "empty"; for (const k of ["d1", "d2"]) for (const w of [[run.a.d, who], [ctxs[run.a.i - 1].a.d, cw]]) if (w[0] === k && isDeepStrictEqual(inputs, items(k, w[1]).map((x) => x.input))) { d = k; if (w[1] !== who && run.a.d !== "none") bad("the context's data in place of the call's"); }
        if (d === "empty") return { d, v: "none", m: NONE, st: run.st };
        if (run.links.length !== 2) bad(run.links.length + " links"); const l = run.links[0] ?? {}; for (const x of run.links) if (x.datasetVersion !== l.datasetVersion || !isDeepStrictEqual(x.metadata, l.metadata) || x.runDescription !== "d" + (j + 1)) bad("links differ");
        const ver = l.datasetVersion === undefined ? "none" : l.datasetVersion.startsWith(who) ? l.datasetVersion.slice(who.length) : run.a.v === "none" && l.datasetVersion.startsWith(cw) ? l.datasetVersion.slice(cw.length) : "?" + l.datasetVersion;
        const m = { ...NONE, ...Object.fromEntries(Object.entries(l.metadata ?? {}).map(([k, w]) => [k, w === who ? "call" : w === cw ? "ctx" : "?" + w])) };
        if (run.st === "done" && (run.r.runName !== "run" + (j + 1) || run.r.itemResults.length !== 2 || run.r.datasetRunId !== "r-run" + (j + 1))) bad("result of run " + (j + 1));
        return { d, v: ver, m, st: run.st };
      }) };
    },
    dispose() { for (const r of runs) r.gate?.(); T.setLangfuseTracerProvider(null); },
  };
}
