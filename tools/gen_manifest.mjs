// Writes MANIFEST.json from properties.jsonl and harness/properties.mjs.
import fs from "node:fs";
import { PROPERTIES } from "../harness/properties.mjs";
const root = new URL("../", import.meta.url).pathname;
const props = fs.readFileSync(root + "properties.jsonl", "utf8").trim().split("\n").map((l) => JSON.parse(l));
const na = { };
const checks = [], not_applicable = [];
for (const p of props) {
  const d = PROPERTIES[p.id];
  if (!d) { not_applicable.push({ property: p.id, reason: na[p.id] ?? "no specification written yet" }); continue; }
  const specs = [...new Set(d.models.map((m) => m.spec))].join(", ");
  checks.push({ property: p.id, quick_cmd: `node harness/check.mjs ${p.id} quick`, thorough_cmd: `node harness/check.mjs ${p.id} thorough`, evidence_file: `evidence/${p.id}.json`,
    technique: `TLA+ specification (${specs}) model-checked with TLC; its behaviours are replayed step by step into the real code`,
    level: "model_checking",
    level_note: d.level_note ?? "TLC checks the stated invariants on all states of the bounded model; every exported transition (or an even sample of the covering behaviours where the evidence says so) plus random walks is executed in the code built from /repo, and every observation must equal the specification's. Trusted: TLC, the driver's mapping between abstract and concrete values, the controlled clock and fetch, the bounds in DESIGN.md." });
}
fs.writeFileSync(root + "MANIFEST.json", JSON.stringify({ version: 1, setup_cmd: "bash tools/setup.sh", checks, not_applicable }, null, 1) + "\n");
console.log(checks.length, "checks,", not_applicable.length, "not applicable");
