// Replays Score.tla behaviours into the real client.
import { canon } from "../lib/util.mjs";
const EVENT_TYPE = "score-create";

export function variants() {
  // interval (seconds), how scores are created, how flush is called
  return [
    { interval: "7", how: "create", flush: "score.flush", env: undefined },
    { interval: "12.5", how: "mixed", flush: "client.flush", env: "staging" },
    { interval: null, how: "create", flush: "score.shutdown", env: "prod-1" },
    { interval: "0.5", how: "mixed", flush: "client.shutdown", env: undefined },
    { interval: "2", how: "create", flush: "mixed", env: "e" },
  ];
}
const BODIES = [
  (n) => ({ name: "s" + n, value: n, traceId: "t" + n }),
  (n) => ({ name: "s" + n, value: 0, traceId: "t" + n, observationId: "o" + n, comment: "" }),
  (n) => ({ name: "s" + n, value: "cat \"é\" \u2028", traceId: "t" + n, dataType: "CATEGORICAL", comment: "c", metadata: { a: [1, null, { b: "x" }] } }),
  (n) => ({ name: "s" + n, value: -1.5e-7, sessionId: "sess" + n, id: "given-" + n, environment: "explicit" }),
  (n) => ({ name: "s" + n, value: 1, datasetRunId: "run" + n, configId: "cfg", dataType: "BOOLEAN" }),
  (n) => ({ name: "s" + n, value: 1 / 3, traceId: "t" + n, id: "same-id", metadata: null, comment: undefined }), // an update of one score: the same id every time
  (n) => ({ name: "s" + n, value: "", traceId: "t" + n, id: "id " + n, environment: "", metadata: {}, queueId: null }),
];

export async function make({ lib, world, variant, path }) {
  const v = { ...variant };
  if (path.some((a) => a.op === "reply" && a.o === "retry") && (v.interval === null || Number(v.interval) < 20)) v.interval = "20";
  for (const k of ["LANGFUSE_FLUSH_AT", "LANGFUSE_FLUSH_INTERVAL", "LANGFUSE_TRACING_ENVIRONMENT"]) delete process.env[k];
  if (v.interval !== null) process.env.LANGFUSE_FLUSH_INTERVAL = v.interval;
  if (v.env) process.env.LANGFUSE_TRACING_ENVIRONMENT = v.env;
  const intervalMs = (v.interval === null ? 1 : Number(v.interval)) * 1000;
  let client, provider; let n = 0; const expected = new Map(); const flushes = []; let content = "ok"; let deadline = null;
  const bad = (m) => { if (content === "ok") content = m; };
  const batches = []; // logical batches: {key, reqs}
  const seenEventIds = new Map();
  function spanLike(i) { return { otelSpan: { spanContext: () => ({ traceId: "trace" + i, spanId: "span" + i, traceFlags: 1 }) } }; }
  function createOne(num, name, bulk) {
    if (bulk) { const b = { name: "s" + name, value: name, traceId: "t" + name }; client.score.create(b); return { exp: b, at: new Date(world.now).toISOString(), bulk: true }; }
    const body = BODIES[num % BODIES.length](name);
    const strip = ({ traceId, observationId, sessionId, datasetRunId, ...r }) => r;
    const kind = v.how === "create" ? 0 : num % 5; let exp;
    const before = canon(body);
    if (kind === 0) { client.score.create(body); exp = body; }
    else if (kind === 1) { const b = strip(body); client.score.observation(spanLike(num), b); exp = { ...b, traceId: "trace" + num, observationId: "span" + num }; }
    else if (kind === 2) { const b = strip(body); client.score.trace(spanLike(num), b); exp = { ...b, traceId: "trace" + num }; }
    else { const b = strip(body); const api = lib.otelApi;
      const sp = api.trace.wrapSpanContext({ traceId: (num + 1).toString(16).padStart(32, "0"), spanId: (num + 1).toString(16).padStart(16, "0"), traceFlags: 1 });
      const sc = sp.spanContext();
      api.context.with(api.trace.setSpan(api.ROOT_CONTEXT, sp), () => (kind === 3 ? client.score.activeObservation(b) : client.score.activeTrace(b)));
      exp = kind === 3 ? { ...b, traceId: sc.traceId, observationId: sc.spanId } : { ...b, traceId: sc.traceId }; }
    if (canon(body) !== before) bad("caller's object modified");
    return { exp, at: new Date(world.now).toISOString() };
  }
  function scan() {
    for (const r of world.requests) {
      if (r.scanned) continue; r.scanned = true;
      if (!(r.method === "POST" && r.path.endsWith("/api/public/ingestion"))) { bad("unexpected request " + r.method + " " + r.url); continue; }
      const evs = r.json()?.batch; if (!Array.isArray(evs) || evs.length === 0) { bad("empty or malformed batch"); continue; }
      const key = evs.map((e) => e.id).join(",");
      const same = batches.find((b) => b.key === key);
      if (same) { if (JSON.stringify(evs) !== same.canon) bad("retry changed the batch"); same.reqs.push(r); continue; }
      const nums = evs.map((e) => e.body?.name && Number(String(e.body.name).replace(/^s/, "")));
      for (let i = 0; i < evs.length; i++) {
        const e = evs[i], x = expected.get(nums[i]);
        if (!x) { bad("event for unknown or dropped score " + e.body?.name); continue; }
        if (e.type !== EVENT_TYPE) bad("event type " + e.type);
        if (seenEventIds.has(e.id)) bad("event id reused"); seenEventIds.set(e.id, 1);
        if (typeof e.body.id !== "string" || !e.body.id) bad("score without id");
        if (x.exp.id === undefined) { if (seenEventIds.has("b" + e.body.id)) bad("generated score id reused"); seenEventIds.set("b" + e.body.id, 1); }
        const want = { ...x.exp, id: x.exp.id ?? e.body.id, environment: x.exp.environment ?? v.env };
        if (x.bulk && (e.body.value !== x.exp.value || e.body.traceId !== x.exp.traceId || e.body.environment !== v.env || Object.keys(e.body).length !== (v.env ? 5 : 4))) bad("score content changed");
        if (!x.bulk && canon(JSON.parse(JSON.stringify(want))) !== canon(e.body)) bad("score content changed: " + JSON.stringify(e.body) + " expected " + JSON.stringify(want));
        if (e.timestamp !== x.at) bad("timestamp " + e.timestamp + " expected " + x.at);
      }
      for (let i = 1; i < nums.length; i++) if (nums[i] !== nums[i - 1] + 1) bad("batch out of order: " + nums.join(","));
      if (nums.length > 100) bad("batch of " + nums.length);
      if (nums[0] !== (batches.length ? batches[batches.length - 1].hi : 0) + 1) bad("gap or overlap before batch " + batches.length);
      batches.push({ key, canon: JSON.stringify(evs), lo: nums[0], hi: nums[nums.length - 1], count: nums.length, reqs: [r] });
    }
  }
  const answer = (b, o) => {
    const r = b.reqs[b.reqs.length - 1]; const evs = r.json().batch;
    if (o === "ok") return r.reply(207, { successes: evs.map((e) => ({ id: e.id, status: 201 })), errors: [] });
    if (o === "perr") return r.reply(207, { successes: [], errors: evs.map((e) => ({ id: e.id, status: 400, message: "bad", error: "bad" })) });
    if (o === "http400") return r.reply(400, { message: "nope" });
    if (o === "net") return r.fail(new TypeError("fetch failed"));
    if (o === "retry") return r.reply(503, { message: "later" });
    throw new Error(o);
  };
  return {
    async step(a) {
      const timersBefore = new Set(world.timers.keys());
      switch (a.op) {
        case "configure": {
          const useDefault = a.flushAt === 10 && v.interval === null; // exercise the built-in default of 10
          if (!useDefault) process.env.LANGFUSE_FLUSH_AT = a.flushAt === 1 && v.interval === "2" ? "0" : String(a.flushAt); // zero: nothing ever waits
          client = new lib.client.LangfuseClient({ publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test" });
          break;
        }
        case "create": {
          const idle = world.pending().length === 0; const reqs = world.requests.length;
          for (let i = 0; i < a.k; i++) {
            if (i < a.accepted) { n++; expected.set(n, createOne(n, n, a.k > 1000 || (a.k > 20 && i % 19))); } else createOne(i, 1e9 + i, a.k > 1000);
          }
          const fresh = [...world.timers.values()].filter((t) => !timersBefore.has(t.id));
          if (a.armed) deadline = world.now + intervalMs;
          await world.drain();
          if (idle && world.requests.length === reqs) for (const t of fresh) if (t._ref) bad("flush timer keeps the process alive");
          break;
        }
        case "flush": {
          const f = { st: "pending" }; const i = flushes.length; flushes.push(f);
          const how = v.flush === "mixed" ? ["score.flush", "client.shutdown", "client.flush", "score.shutdown"][i % 4] : v.flush;
          const p = how === "score.flush" ? client.score.flush() : how === "client.flush" ? client.flush() : how === "score.shutdown" ? client.score.shutdown() : client.shutdown();
          p.then(() => (f.st = "resolved"), () => (f.st = "rejected"));
          break;
        }
        case "wait": await world.advance(Math.max(0, deadline - intervalMs / 2 - world.now)); break;
        case "tick": {
          const before = world.requests.length;
          await world.advance(Math.max(0, deadline - 1 - world.now));
          if (world.requests.length !== before) bad("sent before the interval elapsed");
          await world.advance(1); break;
        }
        case "reply": { scan(); const b = batches[a.i - 1]; if (!b) return; if (!answer(b, a.o)) bad("batch " + a.i + " not in flight"); await world.drain(); if (a.o === "retry") for (let k = 0, n0 = world.requests.length; k < 30 && world.requests.length === n0; k++) await world.advance(100); break; }
        case "replyAll": { scan(); for (const b of batches) if (b.reqs[b.reqs.length - 1].state === "pending") answer(b, a.o); break; }
        default: throw new Error("op " + a.op);
      }
    },
    observe() {
      scan();
      if (world.unhandled.length) bad("unhandled rejection: " + world.unhandled[0]);
      return { sent: batches.length > 50 ? [[batches.length, batches[batches.length - 1].hi, 0]] : batches.map((b) => [b.lo, b.hi, b.reqs.length - 1]), flushes: flushes.map((f) => f.st), content };
    },
    dispose() {},
  };
}
