// Runs the check of one property: TLC on its models, replay of the exported
// behaviours in the real code, evidence, verdict.
import fs from "node:fs";
import path from "node:path";
import { fork } from "node:child_process";
import { buildBundle, scratchDir } from "./bundle.mjs";
import { runTlc } from "./tlc.mjs";
import { Graph } from "./graph.mjs";
const ROOT = new URL("../../", import.meta.url).pathname;

export async function runCheck(id, def, { tier, seed }) {
  const t0 = Date.now(); const scratch = scratchDir("verif-" + id + "-");
  const cov = { states: 0, transitions: 0, traces_validated_against_impl: 0, steps_replayed: 0, samples: 0, models: [] };
  const violations = []; const known = loadKnown(id); const knownHit = new Map(); let fatal = null;
  try {
    const bundle = await buildBundle(scratch);
    const budget = (tier === "thorough" ? 780_000 : 300_000);
    // All models are checked by TLC concurrently; replay starts as each finishes.
    const jobs = def.models.filter((m) => !m.tier || m.tier === tier).map((m) => {
      const cfg = typeof m.cfg === "function" ? m.cfg(tier) : m.cfg; const g = new Graph();
      const run = runTlc({ spec: m.spec, cfg, scratch, workers: m.workers ?? 1, simulate: m.simulate?.(tier), seed, heap: m.heap, onEdge: m.driver ? (e) => g.add(e) : null });
      run.catch(() => {});
      return { m, cfg, g, run };
    });
    for (const { m, cfg, g, run } of jobs) {
      const tm = Date.now(); const r = await run;
      if (!r.ok) {
        const inv = r.raw.match(/Invariant (\S+) is violated|Temporal properties were violated|Action property (\S+)/);
        throw new Error(`TLC failed on ${m.spec}${inv ? " (" + inv[0] + ")" : ""}:\n` + r.raw.slice(-3000) + r.err.slice(-1000));
      }
      cov.states += r.distinct; cov.transitions += r.generated;
      const info = { spec: m.spec, name: m.name, distinct_states: r.distinct, transitions: r.generated, depth: r.depth, checked: (cfg.match(/(INVARIANTS?|PROPERT(Y|IES))[^\n]*/g) || []).join("; ") };
      cov.models.push(info);
      if (!m.driver) continue;
      g.finish();
      const T = tier === "thorough"; const drv = await import(`../drivers/${m.driver}.mjs`); const nv = drv.variants(tier).length;
      let cover = g.edgeCover({ maxLen: m.maxLen ?? 40, seed });
      const maxPaths = T ? (m.maxPathsThorough ?? Infinity) : m.maxPaths >= 1000 ? m.maxPaths * 4 : (m.maxPaths ?? Infinity);
      const total = cover.length; if (cover.length > maxPaths) { const stride = cover.length / maxPaths; cover = Array.from({ length: maxPaths }, (_, i) => cover[Math.floor(i * stride)]); }
      const walks = g.randomWalks({ count: T ? (m.walksThorough ?? 4000) : (m.walks ?? 300), len: m.walkLen ?? 25, seed: seed * 7919 });
      const perPath = Math.min(nv, T ? nv : (m.variantsPerPath ?? 1));
      const paths = []; let c = seed;
      for (const p of cover) for (let k = 0; k < perPath; k++) paths.push([(c++) % nv, p]);
      for (const p of walks) paths.push([(c++) % nv, p]);
      const gf = path.join(scratch, "graph.json"); fs.writeFileSync(gf, JSON.stringify({ E: g.E.map((e) => ({ a: e.a, o: e.o })), paths }));
      const shards = Math.min(m.shards ?? 8, Math.max(1, Math.ceil(paths.length / 4)));
      const res = await Promise.all(Array.from({ length: shards }, (_, shard) => runWorker({ bundle, driver: m.driver, graph: gf, shard, shards, keys: def.keys?.[m.driver] ?? m.keys, tier, seed, debug: !!m.debug, deadline: t0 + budget })));
      info.edges = g.E.length; info.cover_paths = total; info.cover_paths_replayed = cover.length; info.random_walks = walks.length; info.actions = {};
      for (const x of res) {
        if (x.error) throw new Error("worker: " + x.error);
        cov.traces_validated_against_impl += x.paths; cov.steps_replayed += x.steps;
        for (const [k, v] of Object.entries(x.perAction)) info.actions[k] = (info.actions[k] || 0) + v;
        for (const v of x.violations) {
          const kf = known.find((k) => k.match && matches(k.match, v, m));
          if (kf) knownHit.set(kf.id, kf); else violations.push({ model: m.spec, name: m.name, driver: m.driver, ...v });
        }
      }
      info.wall_s = (Date.now() - tm) / 1000;
      if (m.name) info.exhaustive = maxPaths >= total;
      if (violations.length) break;
    }
    if (def.extra) await def.extra({ bundle, scratch, tier, seed, cov, violations });
  } catch (e) { fatal = e; }
  fs.rmSync(scratch, { recursive: true, force: true });
  cov.samples = cov.steps_replayed; cov.exhaustive = cov.models.every((m) => m.exhaustive !== false);
  const ev = { property: id, tier, seed, level: def.level ?? "model_checking", coverage: cov, assumptions: def.assumptions ?? [], wall_s: (Date.now() - t0) / 1000, violations: violations.length };
  fs.mkdirSync(path.join(ROOT, "evidence"), { recursive: true });
  fs.writeFileSync(path.join(ROOT, "evidence", id + ".json"), JSON.stringify(ev, null, 1));
  if (fatal) { console.error(fatal.stack || String(fatal)); return 2; }
  for (const k of knownHit.values()) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
  if (violations.length) {
    const rp = path.join(ROOT, "evidence", id + ".violation.json"); fs.writeFileSync(rp, JSON.stringify(violations, null, 1));
    const v = violations[0];
    console.log(`${id}: behaviour of ${v.model} not followed by the code at step ${v.step}: ${JSON.stringify(v.act)}\n  ${JSON.stringify(v.diff).slice(0, 1500)}\n  history: ${JSON.stringify(v.trace).slice(0, 1500)}`);
    console.log(`VIOLATION property=${id} replay=${rp}`);
    return 1;
  }
  console.log(`${id}: held (${tier}): ${cov.states} model states, ${cov.transitions} transitions, ${cov.traces_validated_against_impl} behaviours / ${cov.steps_replayed} steps replayed in ${(ev.wall_s).toFixed(1)} s`);
  return 0;
}
function loadKnown(id) { const f = path.join(ROOT, "known_findings.json"); if (!fs.existsSync(f)) return []; return JSON.parse(fs.readFileSync(f, "utf8")).findings.filter((k) => k.property === id && k.status !== "fixed"); }
function matches(match, v, m) { return Object.entries(match).every(([k, re]) => new RegExp(re).test(JSON.stringify(k === "model" ? m.spec : v[k]))); }
export async function runWorker(job) {
  let all = null;
  for (let start; ; ) {
    const r = await runOnce({ ...job, start }); if (r.error) return r;
    if (!all) all = r; else { all.steps += r.steps; all.paths += r.paths; all.violations.push(...r.violations); for (const [k, v] of Object.entries(r.perAction)) all.perAction[k] = (all.perAction[k] || 0) + v; }
    if (r.next == null || all.violations.length >= 3) return all; start = r.next;
  }
}
function runOnce(job) {
  return new Promise((resolve) => {
    const ch = fork(new URL("../worker.mjs", import.meta.url).pathname, [], { stdio: ["ignore", "ignore", "pipe", "ipc"], execArgv: ["--max-old-space-size=3000", ...(process.env.VERIF_PROF ? ["--cpu-prof", "--cpu-prof-dir=/tmp/prof"] : [])] });
    let msg = null, err = ""; ch.stderr.on("data", (d) => { if (err.length < 4000) err += d; });
    ch.on("message", (m) => (msg = m)); ch.on("close", (code) => resolve(msg ?? { error: "worker exited " + code + "\n" + err }));
    ch.send(job);
  });
}
