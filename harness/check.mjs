// Usage: node harness/check.mjs <property id> [quick|thorough]
import { runCheck } from "./lib/check.mjs";
import { PROPERTIES } from "./properties.mjs";
const [id, tierArg] = process.argv.slice(2);
const tier = tierArg || (process.env.VERIF_TIER === "thorough" ? "thorough" : "quick");
const seed = Number(process.env.VERIF_SEED || 1) || 1;
const def = PROPERTIES[id];
if (!def) { console.error("unknown property " + id); process.exit(2); }
process.exit(await runCheck(id, def, { tier, seed }));
