// Replays Logging.tla behaviours into the real logger and into SDK operations that log at a known level.
import { createRequire } from "node:module"; import util from "node:util";
const require = createRequire(import.meta.url); let file; export const SECRET = "sk-lf-5ecret-77";
export function setup({ bundle }) { file = bundle; }
const RX = { std: "[Langfuse SDK]", p1: "[mine]", p2: "app:" };
export function variants() { const out = []; for (let i = 0; i < 6; i++) out.push({ i, ts: [undefined, true, false][i % 3], debugEnv: ["true", "TRUE", "True"][i % 3], lower: i % 2 === 1 }); return out; }
let fresh = 0;
export async function make({ lib, world, variant: v }) {
  let L = lib, ok = "ok", printed = [], held, own, C; const bad = (m) => { if (ok === "ok") ok = m; };
  const keep = {}; for (const k of ["log", "info", "warn", "error", "debug"]) { keep[k] = console[k]; console[k] = (...a) => printed.push([k.toUpperCase(), util.format(...a)]); }
  const memo = {}; let early; const cfg = (a) => (v.i > 2 ? (memo[a.l + a.p] ??= cfg0(a)) : cfg0(a)); // some users keep one configuration object
  const lv = (l) => C.LogLevel[l], cfg0 = (a) => ({ level: lv(a.l), ...(a.p === "std" ? (v.i % 2 ? { prefix: undefined } : {}) : { prefix: RX[a.p] }), ...(v.ts === undefined ? {} : { enableTimestamp: v.ts }) });
  let ts; const tsOf = new Map();
  return {
    async step(a, { o }) {
      printed = [];
      switch (a.op) {
        case "load": {
          const plain = a.e.d === "none" && a.e.l === "none" && (v.i || fresh > 20);
          if (!plain) {
            if (a.e.d !== "none") process.env.LANGFUSE_DEBUG = a.e.d === "TRUE" ? "TRUE" : a.e.d; if (a.e.l !== "none") process.env.LANGFUSE_LOG_LEVEL = a.e.l === "junk" ? "verbose" : v.lower ? a.e.l.toLowerCase() : a.e.l;
            const k = require.resolve(file), old = require.cache[k]; delete require.cache[k]; L = require(file); if (old) require.cache[k] = old; else delete require.cache[k]; fresh++;
            delete process.env.LANGFUSE_DEBUG; delete process.env.LANGFUSE_LOG_LEVEL;
          } else { L = lib; L.core.resetGlobalLogger(); }
          C = L.core; early = new L.client.LangfuseClient({ publicKey: "pk", secretKey: SECRET, baseUrl: "http://lf.test" }); printed = []; break;
        }
        case "configure": C.configureGlobalLogger(cfg(a)); break;
        case "reset": C.resetGlobalLogger(); break;
        case "setLevel": C.getGlobalLogger().setLevel(lv(a.l)); break;
        case "hold": held = C.getGlobalLogger(); break;
        case "own": own = C.createLogger(cfg(a)); break;
        case "log": { const t = a.w === "global" ? C.getGlobalLogger() : a.w === "held" ? held : own; if (t.isLevelEnabled(lv(a.m)) !== (o.printed !== "nothing")) bad("isLevelEnabled"); t[a.m.toLowerCase()]("hello %s", { deep: 1 }); if (printed.length && !/hello/.test(printed[0][1])) bad("message lost"); if (printed.length && !/deep/.test(printed[0][1])) bad("arguments lost"); break; }
        case "sdk": {
          const client = () => a.s !== "DEBUG" && v.i % 2 ? early : new L.client.LangfuseClient({ publicKey: "pk", secretKey: SECRET, baseUrl: "http://lf.test" });
          if (a.s === "DEBUG") client();
          else if (a.s === "WARN") { const c = client(); printed = []; c.score.activeTrace({ name: "n", value: 1 }); printed = printed.filter(([k]) => k !== "DEBUG"); }
          else if (a.s === "ERROR") { const c = client(); printed = []; c.score.create({ traceId: "t", name: "n", value: 1 }); const f = c.score.flush(); await world.drain(); world.pending()[0]?.reply(400, { message: "no" }); await f; await world.drain(); printed = printed.filter(([k]) => k === "ERROR").slice(0, 1); }
          break;
        }
      }
    },
    observe(e) {
      for (const [, t] of printed) if (t.includes(SECRET) || t.includes(Buffer.from("pk:" + SECRET).toString("base64"))) bad("secret key in a log message");
      if (printed.length > 1) bad(printed.length + " messages");
      const [k, text] = printed[0] ?? []; if (k && !text.includes(`[${k}]`)) bad("level tag missing: " + text);
      const px = k && (Object.keys(RX).find((p) => text.includes(RX[p])) ?? "?");
      const level = C.getGlobalLogger().getLevel();
      return { printed: k ? k + " " + px : "nothing", level: Object.keys(C.LogLevel).find((n) => C.LogLevel[n] === level), ok };
    },
    async dispose() { Object.assign(console, keep); lib.core.resetGlobalLogger(); },
  };
}
