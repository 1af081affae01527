// Writes spec/ApiTable.tla: the endpoints of the API client (method, path
// template, query fields, body), probed once from the code and then kept as
// the specification. Run by hand when the API definition changes.
import fs from "node:fs";
import { World } from "../harness/lib/world.mjs";
import { buildBundle, scratchDir } from "../harness/lib/bundle.mjs";
import { endpoints, invoke } from "../harness/lib/api.mjs";
import { createRequire } from "node:module";
const lib = createRequire(import.meta.url)(await buildBundle(scratchDir("api-table-")));
const w = new World().install(); const api = new lib.core.LangfuseAPIClient({ baseUrl: "http://lf.test", environment: "", username: "pk", password: "sk" });
const rows = [];
for (const ep of endpoints(api)) {
  const probe = async (val) => { const seen = []; const req = new Proxy({}, { get: (_, k) => { if (typeof k === "string" && k !== "toJSON") seen.push(k); return typeof k === "string" && k !== "toJSON" ? val : undefined; } }); const n = w.requests.length; invoke(api, ep, Array.from({ length: ep.args }, (_, i) => "ARG" + i), req, {}).catch(() => {}); await w.drain(); const r = w.requests[n]; r.reply(200, {}); await w.drain(); return { r, seen: [...new Set(seen)] }; };
  const a = await probe("v"), b = await probe(null);
  const fields = a.seen.filter((k) => a.r.query.has(k)), lost = a.seen.filter((k) => !a.r.query.has(k)); if (lost.length || [...a.r.query.keys()].length !== fields.length) throw new Error(ep.id + " " + lost);
  rows.push({ id: ep.id, m: a.r.method, p: a.r.path.split("/").slice(1), n: ep.args, req: ep.hasRequest, q: fields, must: fields.filter((k) => b.r.query.has(k)), body: a.r.body !== undefined });
}
const s = (x) => JSON.stringify(x), seq = (l) => `<<${l.map(s).join(", ")}>>`, set = (l) => `{${l.map(s).join(", ")}}`;
fs.writeFileSync(new URL("../spec/ApiTable.tla", import.meta.url), `------------------------------ MODULE ApiTable ------------------------------\n(* Endpoints of the API client, written by tools/gen_api_table.mjs.          *)\n(* p: path segments, ARG0.. stand for the arguments; q: query fields; must:  *)\n(* required ones; body: the request is sent as the JSON body.                *)\nEndpoints == {\n${rows.map((r) => `  [id |-> ${s(r.id)}, m |-> ${s(r.m)}, p |-> ${seq(r.p)}, n |-> ${r.n}, q |-> ${set(r.q)}, must |-> ${set(r.must)}, body |-> ${r.body ? "TRUE" : "FALSE"}]`).join(",\n")}\n}\n=============================================================================\n`);
console.real_log(rows.length, "endpoints"); process.exit(0);
