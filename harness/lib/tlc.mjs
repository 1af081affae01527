// Runs TLC on a spec of /verif/spec and collects statistics and exported transitions.
import { spawn } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
import readline from "node:readline";
const SPEC = new URL("../../spec/", import.meta.url).pathname;
const CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar";

// cfg: text of the TLC configuration. Returns {states, distinct, depth, edges, ok, error, raw}
export function runTlc({ spec, cfg, scratch, workers = 1, simulate = null, seed = 1, timeoutMs = 800_000, heap = "6g", coverage = false, onEdge = null, maxEdges = 600_000 }) {
  return new Promise((resolve, reject) => {
    const tag = spec + "_" + Math.random().toString(36).slice(2, 8);
    const dir = path.join(scratch, tag); fs.mkdirSync(dir, { recursive: true });
    for (const f of fs.readdirSync(SPEC)) if (f.endsWith(".tla")) fs.copyFileSync(path.join(SPEC, f), path.join(dir, f));
    fs.writeFileSync(path.join(dir, spec + ".cfg"), cfg);
    const args = ["-Xmx" + heap, "-XX:+UseParallelGC", "-Xss16m", "-Djava.io.tmpdir=" + dir, "-cp", CP, "tlc2.TLC", "-config", spec + ".cfg", "-metadir", path.join(dir, "meta"), "-deadlock", "-workers", String(workers), "-noGenerateSpecTE"];
    if (simulate) args.push("-simulate", `num=${simulate.num}`, "-depth", String(simulate.depth), "-seed", String(seed));
    if (coverage) args.push("-coverage", "1");
    args.push(spec + ".tla");
    const ch = spawn("java", args, { cwd: dir, stdio: ["ignore", "pipe", "pipe"] });
    let nEdges = 0; const edges = []; const raw = []; let err = "";
    const timer = setTimeout(() => ch.kill("SIGKILL"), timeoutMs);
    const rl = readline.createInterface({ input: ch.stdout });
    rl.on("line", (l) => { if (l.startsWith('"{')) { try { const e = JSON.parse(JSON.parse(l)); if (++nEdges > maxEdges) { if (nEdges === maxEdges + 1) { ch.kill('SIGKILL'); raw.push('TOO MANY EDGES'); } } else if (onEdge) onEdge(e); else edges.push(e); } catch (e) { raw.push("UNPARSED " + l.slice(0, 300)); } } else raw.push(l); });
    ch.stderr.on("data", (d) => (err += d));
    const done = new Promise((r) => rl.on("close", r));
    ch.on("error", reject);
    ch.on("close", async (code) => {
      clearTimeout(timer); await done;
      const text = raw.join("\n");
      const m = text.match(/(\d+) states generated, (\d+) distinct states found/g);
      const last = m && m[m.length - 1].match(/(\d+) states generated, (\d+) distinct/);
      const depth = text.match(/depth of the complete state graph search is (\d+)/);
      const ok = code === 0 || (simulate && nEdges > maxEdges); // a simulation may be cut short
      resolve({ ok, code, generated: last && +last[1] ? +last[1] : nEdges, distinct: last ? +last[2] : 0, depth: depth ? +depth[1] : 0, edges, raw: text, err });
      fs.rmSync(dir, { recursive: true, force: true });
    });
  });
}
