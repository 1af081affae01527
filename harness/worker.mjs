// Replays model paths into the real code. Args: job file (JSON). Streams results as IPC messages.
import { createRequire } from "node:module";
import fs from "node:fs";
import { World } from "./lib/world.mjs";
import { diffKeys } from "./lib/util.mjs";
const require = createRequire(import.meta.url);

process.on("message", async (job) => {
  try {
    const world0 = new World().install();
    const lib = require(job.bundle);
    lib.otelApi.context.setGlobalContextManager(new lib.asyncHooks.AsyncLocalStorageContextManager().enable());
    const drv = await import(`./drivers/${job.driver}.mjs`);
    if (drv.setup) await drv.setup({ lib, bundle: job.bundle });
    const g = JSON.parse(fs.readFileSync(job.graph, "utf8")); // {E:[{a,o}], paths:[[e..]], variants:[i]}
    const vs = drv.variants(job.tier); let steps = 0, paths = 0; const violations = []; const perAction = {};
    let next = null;
    for (let i = job.start ?? job.shard; i < g.paths.length; i += job.shards) {
      const [vi, p] = g.paths[i];
      const r = await replay(drv, lib, vs[vi % vs.length], p.map((e) => g.E[e]), job.keys, { seed: job.seed + i, perAction, debug: job.debug });
      steps += r.steps; paths++;
      if (r.violation) { violations.push({ ...r.violation, variant: vi % vs.length, pathIndex: i }); if (violations.length >= 3) break; }
      if (rnow() > job.deadline) break;
      if (paths % 20 === 0 && process.memoryUsage().heapUsed > 1.2e9) { next = i + job.shards; break; } // a fresh process goes on from there
    }
    process.send({ steps, paths, violations, perAction, next }, () => process.exit(0));
  } catch (e) { process.send({ error: String(e && e.stack || e) }, () => process.exit(1)); }
});
const RealDate = Date; const rnow = RealDate.now.bind(RealDate); Object.defineProperty(RealDate, "now0", { value: rnow });
export async function replay(drv, lib, variant, edges, keys, { seed = 1, perAction = {}, debug = false } = {}) {
  const world = new World().install();
  if (debug) { lib.core.configureGlobalLogger({ level: lib.core.LogLevel.DEBUG }); world.inspectLogs = true; }
  const d = await drv.make({ lib, world, variant, path: edges.map((e) => e.a), seed });
  let steps = 0;
  try {
    for (const e of edges) {
      let got;
      try { await d.step(e.a, e); await world.drain(); got = d.observe(e); if (debug) checkLogs(world); }
      catch (err) { return { steps, violation: { step: steps, act: e.a, diff: { exception: String(err && err.stack || err) }, trace: edges.slice(0, steps + 1).map((x) => x.a) } }; }
      steps++; perAction[e.a.op] = (perAction[e.a.op] || 0) + 1;
      const diff = diffKeys(e.o, got);
      const rel = Object.keys(diff).filter((k) => !keys || keys.includes(k));
      if (rel.length) return { steps, violation: { step: steps - 1, act: e.a, diff: Object.fromEntries(rel.map((k) => [k, diff[k]])), trace: edges.slice(0, steps).map((x) => x.a) } };
      if (Object.keys(diff).length) break; // diverged on something this property does not speak about
    }
  } finally { try { await d.dispose?.(); } catch {} }
  return { steps };
}
// with debug logging on: nothing secret is printed
const SECRETS = ["sk-lf-5ecret-77", Buffer.from("pk:sk-lf-5ecret-77").toString("base64")];
function checkLogs(world) { for (; (world.logSeen ?? 0) < world.logs.length; world.logSeen = (world.logSeen ?? 0) + 1) { const t = world.logs[world.logSeen ?? 0][1]; for (const s of SECRETS) if (t.includes(s)) throw new Error("secret key in a log message: " + t.slice(0, 300)); } }
