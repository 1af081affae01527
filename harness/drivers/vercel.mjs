// Replays VercelTelemetry.tla into LangfuseVercelAiSdkIntegration.
const IN = "IN-MARK-17", OUT = "OUT-MARK-23";
export function variants() { const out = []; for (const amb of [false, true]) for (const glob of [false, true]) out.push({ amb, glob }); return out; }
class PromptClient { constructor() { this.name = "prompt é"; this.version = 3; this.isFallback = false; this.promptResponse = {}; } get prompt() { return "p"; } toJSON() { return "{}"; } }
const PROMPT = () => ({ plain: { name: "prompt é", version: 3, isFallback: false }, client: new PromptClient(), v0: { name: "", version: 0, isFallback: false }, unflagged: { name: "prompt é", version: 3 }, extra: { name: "prompt é", version: 3, isFallback: "yes", labels: [] },
  fallback: { name: "prompt é", version: 3, isFallback: true }, noversion: { name: "prompt é" }, noname: { version: 3 }, strversion: { name: "prompt é", version: "3" }, numname: { name: 3, version: 3 }, array: [{ name: "prompt é", version: 3 }], null: null, undef: undefined, string: "prompt é", number: 3, fn: () => 1, empty: {} });
const LINK = { plain: ["prompt é", 3], client: ["prompt é", 3], v0: ["", 0], unflagged: ["prompt é", 3], extra: ["prompt é", 3] };
const META = () => { const cyc = { a: 1 }; cyc.self = cyc; return { string: "text é", emptystr: "", jsonstr: '{"a":1}', number: 4.5, zero: 0, false: false, true: true, object: { a: [1, { b: null }] }, array: ["x", 1], empty: {}, emptyarr: [], date: new Date(5), cyclic: cyc, bigint: 7n, badjson: { toJSON() { throw new Error("x"); } }, null: null, undef: undefined, fn: () => 1, symbol: Symbol("s"), nan: NaN, dotted: "dotted", proto: "proto", prompty: { name: "n", version: 1 }, userId: "u-1", sessionId: "s-1", tags: ["t"], version: 7 }; };
const SHOWN = { string: "text é", emptystr: "", jsonstr: '{"a":1}', number: "4.5", zero: "0", false: "false", true: "true", object: '{"a":[1,{"b":null}]}', array: '["x",1]', empty: "{}", emptyarr: "[]", date: JSON.stringify(new Date(5)), cyclic: "<failed to serialize>", bigint: "<failed to serialize>", badjson: "<failed to serialize>", nan: "null", dotted: "dotted", proto: "proto", prompty: '{"name":"n","version":1}', userId: "u-1", sessionId: "s-1", tags: '["t"]', version: "7" };
const KEY = { dotted: "a.b c", proto: "toString", userId: "userId", sessionId: "sessionId", tags: "tags", version: "version" }; const keyOf = (m) => KEY[m] ?? "key";
const OP = { text: "ai.generateText", object: "ai.generateObject", embed: "ai.embed", rerank: "ai.rerank" };
const P = "langfuse.observation.";
export async function make({ lib, world, variant: v }) {
  const { context, trace, ROOT_CONTEXT } = lib.otelApi; let ok = "ok"; const bad = (m) => { if (ok === "ok") ok = m; };
  const started = [], ended = new Map();
  const proc = { onStart(s) { started.push(s); }, onEnd(s) { const id = s.spanContext().spanId; ended.set(id, (ended.get(id) || 0) + 1); if (ended.get(id) > 1) bad("ended twice"); }, async forceFlush() {}, async shutdown() {} };
  const provider = new lib.sdkTraceBase.BasicTracerProvider({ spanProcessors: [proc] }); const tracer = provider.getTracer("t");
  if (v.glob) trace.setGlobalTracerProvider(provider);
  const integration = new lib.vercel.LangfuseVercelAiSdkIntegration(v.glob ? undefined : { tracer });
  const ambient = v.amb ? trace.wrapSpanContext({ traceId: "0af7651916cd43dd8448eb211c80319c", spanId: "b7ad6b7169203331", traceFlags: 1 }) : null;
  const run = (f) => (ambient ? context.with(trace.setSpan(ROOT_CONTEXT, ambient), f) : context.with(ROOT_CONTEXT, f));
  const own = [], metaOf = [], innerOf = new Map(); // what each call's contexts look like
  const ctx = (x) => (x.p === "unset" ? undefined : { fixed: "F", ...(x.p === "none" ? {} : { langfusePrompt: PROMPT()[x.p] }), ...(x.m === "none" ? {} : { [keyOf(x.m)]: META()[x.m] }) });
  const id = (c) => "call-" + c; const kinds = {}; const K = (c) => kinds[c];
  const usage = { inputTokens: 3, outputTokens: 4, inputTokenDetails: { cacheReadTokens: 1 }, outputTokenDetails: {} };
  const messages = [{ role: "user", content: IN }];
  const emit = (name, event) => { const before = snapshot(event); let r; try { r = run(() => integration[name](event)); } catch (e) { bad(`${name} threw ${e}`); } if (r !== undefined) bad(`${name} returned a value`); if (snapshot(event) !== before) bad(`${name} changed its event`); };
  const fire = {
    stepStart: (c, x, n) => emit("onStepStart", { callId: id(c), provider: "openai", modelId: "m", stepNumber: n, messages, steps: Array(n).fill({}), runtimeContext: ctx(x) }),
    modelStart: (c, k) => { const i = id(c);
      if (k === "text") emit("onLanguageModelCallStart", { callId: i, provider: "openai", modelId: "m", messages, tools: undefined });
      else if (k === "object") emit("onObjectStepStart", { callId: i, stepNumber: 0, provider: "openai", modelId: "m", promptMessages: [{ role: "user", content: [{ type: "text", text: IN }] }] });
      else if (k === "embed") emit("onEmbedStart", { callId: i, embedCallId: "e", operationId: "ai.embed.doEmbed", provider: "openai", modelId: "m", values: [IN] });
      else emit("onRerankStart", { callId: i, operationId: "ai.rerank.doRerank", provider: "openai", modelId: "m", documents: [IN], documentsType: "text", query: "q", topN: 1 }); },
    modelEnd: (c, k) => { const i = id(c);
      if (k === "text") emit("onLanguageModelCallEnd", { callId: i, provider: "openai", modelId: "m", finishReason: "stop", responseId: "r", usage, content: [{ type: "text", text: OUT }], performance: { responseTimeMs: 5 } });
      else if (k === "object") emit("onObjectStepEnd", { callId: i, finishReason: "stop", response: { id: "r", modelId: "m" }, usage, objectText: JSON.stringify({ a: OUT }) });
      else if (k === "embed") emit("onEmbedEnd", { callId: i, embedCallId: "e", usage: { tokens: 2 }, embeddings: [[1]] });
      else emit("onRerankEnd", { callId: i, documentsType: "text", ranking: [{ index: 0, relevanceScore: 1 }] }); },
    toolEnd: (c, t, how) => emit("onToolExecutionEnd", { callId: id(c), toolCall: { toolCallId: t, toolName: "tool" }, toolExecutionMs: 3, toolOutput: how === "result" ? { type: "tool-result", output: { r: OUT } } : { type: "tool-error", error: new Error("tool") } }),
    end: (c, k) => emit("onEnd", { callId: id(c), operationId: OP[k], finishReason: "stop", usage: k === "embed" ? { tokens: 2 } : usage, text: OUT, toolCalls: [], files: [], object: { a: OUT }, embedding: [1], ranking: [], finalStep: { reasoning: [], providerMetadata: undefined } }),
    abort: (c) => emit("onAbort", { callId: id(c), steps: [], reason: "x" }),
  };
  const exec = async (name, params, o) => {
    const value = { v: 1 }, err = new Error("inner"); let parentSeen = [], runs = 0;
    const fn = () => { runs++; mark(); if (o === "throw") throw err; return (async () => { await null; await Promise.resolve(); mark(); if (o === "reject") throw err; return value; })(); };
    const mark = () => { const s = tracer.startSpan("inner"); s.end(); };
    let got; try { got = { v: await run(() => integration[name]({ ...params, execute: fn })) }; } catch (e) { got = { e }; }
    if (runs !== 1) bad(`${name} ran the function ${runs} times`); if (o === "value" ? got.v !== value : got.e !== err) bad(`${name} changed the outcome`);
  };
  return {
    step: async (a) => {
      const c = a.c;
      switch (a.op) {
        case "start": kinds[c] = a.k; emit("onStart", { callId: id(c), operationId: OP[a.k], provider: "openai", modelId: "m", recordInputs: a.r === "both" || a.r === "in", recordOutputs: a.r === "both" || a.r === "out", functionId: "fn" + c, messages, prompt: undefined, instructions: undefined, system: undefined, maxRetries: 2, headers: undefined, temperature: 0, value: IN, documents: [IN], query: "q", output: "object", schema: undefined, ...(a.k === "text" ? { runtimeContext: ctx(a.x) } : {}) }); break;
        case "stepStart": fire.stepStart(c, a.x, a.n); break;
        case "modelStart": fire.modelStart(c, a.k); break;
        case "modelEnd": fire.modelEnd(c, a.k); break;
        case "toolStart": emit("onToolExecutionStart", { callId: id(c), toolCall: { type: "tool-call", toolCallId: a.t, toolName: "tool", input: { i: IN } }, messages }); break;
        case "toolEnd": fire.toolEnd(c, a.t, a.how); break;
        case "stepEnd": emit("onStepEnd", { callId: id(c), usage, providerMetadata: undefined, finishReason: "stop" }); break;
        case "aux": { const k = a.t === "embedding" ? "embed" : "rerank"; fire.modelStart(c, k); fire.modelEnd(c, k); break; }
        case "end": fire.end(c, a.k); break;
        case "abort": fire.abort(c); break;
        case "error": emit("onError", { callId: id(c), error: { Error: new TypeError("boom"), string: "plain", undef: undefined, object: { code: 1 } }[a.e] }); break;
        case "execModel": await exec("executeLanguageModelCall", { callId: id(c) }, a.o); break;
        case "execTool": await exec("executeTool", { callId: id(c), toolCallId: a.t }, a.o); break;
        case "stray": { const c2 = c || 99, k = K(c) ?? "text", x = { p: "plain", m: "string" };
          if (a.s === "error") emit("onError", { callId: id(c2), error: new Error("late") }); else if (a.s === "anonymous") { for (const e of [new Error("x"), undefined, null, "s", {}]) emit("onError", e); }
          else if (a.s === "abort") fire.abort(c2); else if (a.s === "end") fire.end(c2, k); else if (a.s === "modelEnd") fire.modelEnd(c2, k); else if (a.s === "toolEnd") fire.toolEnd(c2, "t1", "result"); else if (a.s === "stepStart") fire.stepStart(c2, x, 0); else if (a.s === "modelStart") fire.modelStart(c2, k);
          else { let r = 0; const w = {}; for (const [n, p] of [["executeTool", { toolCallId: "t1" }], ["executeLanguageModelCall", {}]]) { const got = await run(() => integration[n]({ callId: id(c2), ...p, execute: async () => (r++, w) })); if (got !== w) bad("outcome of a stray execution"); } if (r !== 2) bad("stray execution ran " + r); }
          break; }
      }
    },
    observe(current) {
      if (world.unhandled.length) bad("unhandled " + world.unhandled[0]);
      const index = new Map(started.map((s, i) => [s.spanContext().spanId, i + 1])); const callOf = [];
      const spans = started.map((s, i) => {
        const at = s.attributes; const pid = s.parentSpanContext?.spanId ?? s.parentSpanId; let p = pid ? index.get(pid) ?? -1 : 0; if (ambient && pid === ambient.spanContext().spanId) p = 0; else if (p === 0 && ambient) p = -2;
        if (p > 0 && started[p - 1].spanContext().traceId !== s.spanContext().traceId) bad("trace of span " + s.name); if (p === 0 && ambient && s.spanContext().traceId !== ambient.spanContext().traceId) bad("trace of root");
        const c = s.name === "inner" ? callOf[p - 1] : p === 0 ? Number((callSeq(i))) : callOf[p - 1]; callOf.push(c); const k = K(c);
        const t = s.name === "inner" ? "inner" : p === 0 ? "operation" : s.name.startsWith("step") ? "step" : s.name.startsWith("execute_tool") ? "tool" : s.name.startsWith("chat") ? "languageModel" : s.name.startsWith("embeddings") ? "embedding" : s.name.startsWith("rerank") ? "reranking" : s.name;
        const name = at[P + "prompt.name"], ver = at[P + "prompt.version"]; const keys = Object.keys(at).filter((x) => x.startsWith(P) || x.startsWith("langfuse."));
        const want = current?.o.spans[i]; let link = "none"; if (name !== undefined || ver !== undefined) link = want && LINK[want.link] && LINK[want.link][0] === name && LINK[want.link][1] === ver ? want.link : `${name}@${ver}`;
        const mk = keys.filter((x) => x.startsWith(P + "metadata.")).map((x) => x.slice((P + "metadata.").length)); const rest = keys.filter((x) => !x.startsWith(P + "metadata.") && !x.startsWith(P + "prompt.")); if (rest.length) bad("attribute " + rest[0]);
        const fixed = at[P + "metadata.fixed"] === "F"; const others = mk.filter((x) => x !== "fixed"); let meta = "none"; if (others.length) meta = want && SHOWN[want.meta] !== undefined && others.length === 1 && others[0] === keyOf(want.meta) && at[P + "metadata." + others[0]] === SHOWN[want.meta] ? want.meta : JSON.stringify(others.map((x) => [x, at[P + "metadata." + x]]));
        const text = JSON.stringify(at); const n = ended.get(s.spanContext().spanId) || 0;
        return { t, c, p, open: n === 0, err: s.status.code === 2, link, meta, fixed, in: text.includes(IN), out: text.includes(OUT) };
      });
      return { spans, ok };
    },
    dispose() { if (v.glob) trace.disable(); },
  };
  function callSeq(i) { return started[i].attributes["gen_ai.agent.name"]?.slice(2) ?? roots(i); }
  function roots(i) { let n = 0; for (let j = 0; j <= i; j++) { const p = started[j].parentSpanContext?.spanId ?? started[j].parentSpanId; if (started[j].name !== "inner" && (!p || (ambient && p === ambient.spanContext().spanId))) n++; } return n; }
}
function snapshot(x) { try { return snap(x); } catch { return ""; } }
function snap(x) { const seen = new Set(); return JSON.stringify(x, (_k, y) => { if (typeof y === "bigint") return "b" + y; if (typeof y === "function" || typeof y === "symbol") return String(y); if (y instanceof Error) return String(y); if (typeof y === "object" && y) { if (seen.has(y)) return "~"; seen.add(y); if (typeof y.toJSON === "function" && !(y instanceof Date)) return "j"; } return y; }); }
