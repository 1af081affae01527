// Replays LangChain.tla: events are given to the handler directly or through
// LangChain's own callback managers.
import { randomUUID } from "node:crypto";
process.env.LANGCHAIN_CALLBACKS_BACKGROUND = "false";
const P = "langfuse.observation.";
export function variants() { return [{ via: "direct" }, { via: "manager" }, { via: "direct", full: true }, { via: "manager", full: true }, { via: "direct", full: true, inside: true }]; }
const ser = (n) => ({ lc: 1, type: "not_implemented", id: ["langchain", "x", n] });
const mkErr = { Error: () => new Error("boom"), azure: () => Object.assign(new Error("refused"), { error: { code: "filter" } }), string: () => "plain", undef: () => undefined, null: () => null, np: () => Object.create(null), sym: () => Symbol("s"), badstr: () => ({ toString() { throw new Error("x"); } }) };
export async function make({ lib, world, variant }) {
  const { context, trace, ROOT_CONTEXT } = lib.otelApi; const T = lib.tracing; const M = lib.lcMessages; const started = []; const ended = new Map(); let ok = "ok"; const bad = (m) => { if (ok === "ok") ok = m; };
  const proc = { onStart(s) { started.push(s); }, onEnd(s) { const id = s.spanContext().spanId; ended.set(id, (ended.get(id) || 0) + 1); }, async forceFlush() {}, async shutdown() {} };
  const lf = new lib.otel.LangfuseSpanProcessor({ exporter: { export(_s, cb) { cb({ code: 0 }); }, async shutdown() {}, async forceFlush() {} }, publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test", exportMode: "immediate" });
  T.setLangfuseTracerProvider(new lib.sdkTraceBase.BasicTracerProvider({ spanProcessors: [lf, proc] }));
  const cyc = { a: 1 }; cyc.self = cyc;
  const H = new lib.langchain.CallbackHandler(variant.full ? { userId: "usr", sessionId: "sess", tags: ["h1", "both"], version: "v9", traceMetadata: { plain: "text", num: 3, cyc } } : undefined);
  let ctx = ROOT_CONTEXT, outer = null; if (variant.inside) { outer = trace.getTracer("x") && lib.tracing.startObservation("outer").otelSpan; started.length = 0; ctx = trace.setSpan(ROOT_CONTEXT, outer); }
  const runs = []; const acts = [];
  const call = (f) => { let p; try { p = context.with(ctx, f); } catch (e) { bad("threw " + e); return Promise.resolve(); } return Promise.resolve(p).then((v) => v, (e) => { bad("rejected " + (e && e.stack || String(e))); }); };
  const human = new M.HumanMessage("hi é"), sys = new M.SystemMessage("be good"), ai = new M.AIMessage({ content: "yes", tool_calls: [{ id: "t1", name: "f", args: { a: 1 } }] });
  const mm = (m) => ({ content: m.content, role: { human: "user", system: "system", ai: "assistant" }[m.getType()], ...(m.getType() === "ai" && m.tool_calls?.length ? { tool_calls: m.tool_calls } : {}) });
  const tc = [{ id: "t2", type: "function", function: { name: "f", arguments: "{}" } }];
  const many = [sys, human, ai, new M.AIMessage({ content: "", additional_kwargs: { tool_calls: tc } }), new M.ToolMessage({ content: "res", tool_call_id: "t1", name: "f" }), new M.FunctionMessage({ content: "fr", name: "g" }), new M.ChatMessage("chat", "custom"), new M.HumanMessage({ content: [{ type: "text", text: "part" }] }), new M.AIMessage({ content: "", additional_kwargs: { function_call: { name: "f", arguments: "{}" } } })];
  const manyShown = [mm(sys), mm(human), mm(ai), { content: "", role: "assistant", tool_calls: tc }, { content: "res", additional_kwargs: {}, role: "f" }, { content: "fr", additional_kwargs: {}, role: "g" }, { content: "chat", role: "human" }, { content: [{ type: "text", text: "part" }], role: "user" }, { content: "", role: "assistant", additional_kwargs: { function_call: { name: "f", arguments: "{}" } } }];
  const chainIn = { dict: { q: "x", n: 0 }, messages: { messages: [sys, human] }, inputmsgs: { input: [human] }, content: { content: "just text" }, content2: { content: "text", lang: "en" }, mixed: { input: [human, "plain"], messages: "none" }, null: null, text: "raw", noid: { q: 1 }, hidden: { q: 2 }, override: { q: 3 }, bare: { q: 4 }, named: { q: 5 } };
  const chainInShown = { dict: '{"q":"x","n":0}', messages: JSON.stringify([mm(sys), mm(human)]), inputmsgs: JSON.stringify([mm(human)]), content: "just text", content2: '{"content":"text","lang":"en"}', mixed: JSON.stringify({ input: [human, "plain"], messages: "none" }), null: undefined, text: "raw", noid: '{"q":1}', hidden: '{"q":2}', override: '{"q":3}', bare: '{"q":4}', named: '{"q":5}' };
  const extra = { std: undefined, noid: undefined, params: { invocation_params: { model: "m-inv", temperature: 0, max_tokens: 5 } }, tools: { invocation_params: { model: "m-inv", tools: [{ name: "f" }], tool_choice: "auto" } }, choice: { invocation_params: { model: "m-inv", tool_choice: "none" } }, noinv: { options: {} }, bothmodels: { invocation_params: { model: "m-inv", top_p: 0.5 } }, lsmodel: { invocation_params: {} } };
  const gen = (k, o) => {
    const g = { text: { text: "out é" }, msg: { text: "m", message: new M.AIMessage("m") }, toolcalls: { text: "", message: ai }, usage: { text: "u", message: new M.AIMessage({ content: "u", usage_metadata: { input_tokens: 5, output_tokens: 7, total_tokens: 12 }, response_metadata: { model_name: "m-resp" } }) }, details: { text: "d", message: new M.AIMessage({ content: "d", usage_metadata: { input_tokens: 10, output_tokens: 8, total_tokens: 18, input_token_details: { cache_read: 4 }, output_token_details: { reasoning: 3 } }, response_metadata: { model_name: "m-resp" } }) }, tokens: { text: "t" }, zero: { text: "z", message: new M.AIMessageChunk({ content: "z", usage_metadata: { input_tokens: 0, output_tokens: 0, total_tokens: 0 }, response_metadata: { model_name: "m-resp" } }) }, overlap: { text: "o", message: new M.AIMessage({ content: "o", usage_metadata: { input_tokens: 4, output_tokens: 3, total_tokens: 7, input_token_details: { cache_read: 3, audio: 2 }, output_token_details: { reasoning: 3, audio: 1 } }, response_metadata: { model_name: "m-resp" } }) } }[o];
    if (o === "empty") return { generations: [] }; if (o === "empty2") return { generations: [[]] };
    return { generations: [[{ text: "first" }, g]], ...(o === "tokens" ? { llmOutput: { tokenUsage: { promptTokens: 2, completionTokens: 3, totalTokens: 5 } } } : {}) };
  };
  const genShown = { text: "out é", msg: '{"content":"m","role":"assistant"}', toolcalls: JSON.stringify(mm(ai)), usage: '{"content":"u","role":"assistant"}', details: '{"content":"d","role":"assistant"}', tokens: "t", zero: '{"content":"z","role":"assistant"}', overlap: '{"content":"o","role":"assistant"}' };
  const usageShown = { usage: { input: 5, output: 7, total: 12 }, details: { input: 6, output: 5, total: 18, input_cache_read: 4, output_reasoning: 3 }, tokens: { input: 2, output: 3, total: 5 }, zero: { input: 0, output: 0, total: 0 }, overlap: { input: 0, output: 0, total: 7, input_cache_read: 3, input_audio: 2, output_reasoning: 3, output_audio: 1 } };
  const docs = [{ pageContent: "d", metadata: {} }];
  const chainOut = { dict: { r: 1 }, str: { output: "answer" }, messages: { messages: [ai] }, msgout: { output: human }, null: null }, chainOutShown = { dict: '{"r":1}', str: "answer", msgout: JSON.stringify({ output: human }), messages: JSON.stringify({ messages: [mm(ai)] }) };
  const finishAgent = { returnValues: { output: "fin" }, log: "" }; const action = { tool: "search", toolInput: "q", log: "l" };
  async function start(a) {
    const parent = a.p && a.p !== 99 ? runs[a.p - 1] : null; const id = randomUUID(); const parentId = a.p === 0 ? undefined : a.p === 99 ? randomUUID() : parent.id;
    const bare = a.in === "bare" && a.pr === "none"; const named = a.in === "named" ? "my run" : undefined;
    const tags = bare ? undefined : a.in === "hidden" ? ["langsmith:hidden"] : ["run", "both"]; const meta = bare ? undefined : { k: "v", ...(a.pr !== "none" ? { langfusePrompt: { name: a.pr === "p3" ? "prm-b" : "prm", version: a.pr === "p2" ? 5 : 4, isFallback: a.pr === "pf" } } : {}), ...(a.in === "override" ? { langfuseUserId: "u2", langfuseSessionId: "s2" } : {}), ...(a.in === "lsmodel" || a.in === "bothmodels" ? { ls_model_name: "m-ls" } : {}) };
    const r = { k: a.k, id, a, tags, parent, parentId }; const n = started.length; runs.push(r);
    const S = a.in === "noid" ? {} : ser("Node"); const model = a.k === "llm" || a.k === "chat";
    const useMgr = variant.via === "manager" && a.p !== 99 && (!parent || parent.mgr?.getChild) && !["noid", "null", "text"].includes(a.in);
    if (useMgr) {
      let m; if (parent) m = parent.mgr.getChild(); else { m = new lib.lcManager.CallbackManager(); m.addHandler(H, true); }
      if (tags) m.addTags(tags, false); if (meta) m.addMetadata(meta, false); const CM = a.in === "kinds" ? many : [sys, human];
      const f = { chain: () => m.handleChainStart(S, chainIn[a.in], id, undefined, undefined, undefined, named), llm: () => m.handleLLMStart(S, ["prompt"], id, undefined, extra[a.in], undefined, undefined, named), chat: () => m.handleChatModelStart(S, [CM], id, undefined, extra[a.in], undefined, undefined, named), tool: () => m.handleToolStart(S, "tool in", id, undefined, undefined, undefined, named), retriever: () => m.handleRetrieverStart(S, "query", id, undefined, undefined, undefined, named) }[a.k];
      r.mgr = await call(f); if (Array.isArray(r.mgr)) r.mgr = r.mgr[0];
    } else {
      await call({ chain: () => H.handleChainStart(S, chainIn[a.in], id, parentId, tags, meta, undefined, named), llm: () => H.handleLLMStart(S, ["prompt"], id, parentId, extra[a.in], tags, meta, named), chat: () => H.handleChatModelStart(S, a.in === "kinds" ? [many] : [[sys], [human]], id, parentId, extra[a.in], tags, meta, named), tool: () => H.handleToolStart(S, "tool in", id, parentId, tags, meta, named), retriever: () => H.handleRetrieverStart(S, "query", id, parentId, tags, meta, named) }[a.k]);
    }
    await world.drain();
    if (started.length !== n + 1) bad(`${started.length - n} observations for a started run`); r.span = started[n]; if (!r.span) return;
    // input, name, tags
    const at = r.span.attributes; let want; if (a.k === "chain") want = chainInShown[a.in]; else if (model) { const msgs = a.k === "llm" ? ["prompt"] : a.in === "kinds" ? manyShown : [mm(sys), mm(human)]; want = JSON.stringify(a.in === "tools" ? { messages: msgs, tools: [{ name: "f" }], tool_choice: "auto" } : a.in === "choice" ? { messages: msgs, tool_choice: "none" } : msgs); } else want = a.k === "tool" ? "tool in" : "query";
    if (at[P + "input"] !== want) bad("input " + at[P + "input"]); if (a.in !== "noid" && r.span.name !== (named ?? "Node")) bad("name " + r.span.name); if (!r.span.name) bad("no name");
    if (at[P + "metadata.k"] !== (bare ? undefined : "v") || at[P + "metadata.tags"] !== (tags && JSON.stringify(tags))) bad("metadata"); for (const k of ["langfusePrompt", "langfuseUserId", "langfuseSessionId"]) if (at[P + "metadata." + k] !== undefined) bad("internal metadata " + k);
    if ((at[P + "level"] === "DEBUG") !== (a.in === "hidden")) bad("level"); if (a.in === "params" && at[P + "model.parameters"] !== '{"temperature":0,"max_tokens":5}') bad("model parameters");
    if (variant.full && at["langfuse.version"] !== "v9") bad("version");
    if (a.p === 0) {
      const tt = at["langfuse.trace.tags"]; const wantTags = [...new Set([...(tags ?? []), ...(variant.full ? ["h1", "both"] : [])])].sort(); if (wantTags.length === 0 ? tt?.length : !Array.isArray(tt) || JSON.stringify([...tt].sort()) !== JSON.stringify(wantTags)) bad("trace tags " + JSON.stringify(tt));
      const u = a.in === "override" ? "u2" : variant.full ? "usr" : undefined, s = a.in === "override" ? "s2" : variant.full ? "sess" : undefined;
      if (at["user.id"] !== u || at["session.id"] !== s) bad(`user ${at["user.id"]} session ${at["session.id"]}`);
      if (variant.full && (at["langfuse.trace.metadata.plain"] !== "text" || at["langfuse.trace.metadata.num"] !== "3")) bad("trace metadata");
    }
  }
  const mgrCall = (r, name, ...args) => (r.mgr && typeof r.mgr[name] === "function" ? r.mgr[name](...args) : H[name](...args, r.id, r.parentId));
  return {
    async step(a) {
      const r = a.i ? runs[a.i - 1] : null; const before = started.length; const endedBefore = ended.size;
      if (a.op === "start") return start(a);
      if (a.op === "finish") { r.o = a.o; const raw = a.o === "null" && r.mgr; const m = r.k; const call1 = (n, v) => call(() => (raw ? H[n](v, r.id, r.parentId) : mgrCall(r, n, v)));
        if (m === "chain") await call1("handleChainEnd", chainOut[a.o]); else if (m === "tool") await call1("handleToolEnd", a.o === "null" ? null : "tool out"); else if (m === "retriever") await call1("handleRetrieverEnd", a.o === "null" ? null : docs); else await call1("handleLLMEnd", gen(r.k, a.o)); }
      else if (a.op === "fail") { r.e = a.e; r.err = mkErr[a.e](); await call(() => mgrCall(r, { chain: "handleChainError", tool: "handleToolError", retriever: "handleRetrieverError" }[r.k] ?? "handleLLMError", r.err)); }
      else if (a.op === "token") { await world.advance(7); r.first ??= new Date().toISOString(); await call(() => (r.mgr ? r.mgr.handleLLMNewToken(a.t, { prompt: 0, completion: 0 }) : H.handleLLMNewToken(a.t, {}, r.id, r.parentId))); await world.advance(3); }
      else if (a.op === "action") { const n = started.length; await call(() => mgrCall(r, "handleAgentAction", action)); const s = started[n]; if (s) { acts.push([a.i, s]); if (s.name !== "search" || s.attributes[P + "input"] !== JSON.stringify(action)) bad("action"); } }
      else if (a.op === "agentEnd") await call(() => mgrCall(r, "handleAgentEnd", finishAgent));
      else if (a.op === "stray") {
        const id = r ? r.id : randomUUID(); const ev = a.ev;
        await call(() => ({ chainEnd: () => H.handleChainEnd({ a: 1 }, id), chainError: () => H.handleChainError(new Error("s"), id), llmEnd: () => H.handleLLMEnd(gen("llm", "usage"), id), llmError: () => H.handleLLMError(new Error("s"), id), toolEnd: () => H.handleToolEnd("x", id), retrieverEnd: () => H.handleRetrieverEnd([], id), token: () => H.handleLLMNewToken("t", {}, id), action: () => H.handleAgentAction(action, id), agentEnd: () => H.handleAgentEnd(finishAgent, id) })[ev]());
        if (!r) this.strays = [...(this.strays ?? []), id]; await world.drain(); if (started.length !== before) bad("observation for an unknown run"); if (ended.size !== endedBefore) bad("unknown run ended something");
      }
      await world.drain();
      if ((a.op === "finish" || a.op === "fail") && H.last_trace_id !== r.span?.spanContext().traceId) bad("last_trace_id");
    },
    observe() {
      if (world.unhandled.length) bad("unhandled " + world.unhandled[0]);
      const ids = new Map(runs.map((r, i) => [r.span?.spanContext().spanId, i + 1])); const parentOf = (s) => { const p = s.parentSpanContext?.spanId ?? s.parentSpanId; return p && p !== outer?.spanContext().spanId ? ids.get(p) ?? -1 : 0; };
      if (outer) for (const r of runs) if (r.a.p === 0 && (r.span?.parentSpanContext?.spanId) !== outer.spanContext().spanId) bad("not under the active span");
      const known = new Set(); const scan = (x, d) => { if (d > 2 || x == null) return; if (typeof x === "string") { known.add(x); return; } if (x instanceof Map) { for (const [k, v] of x) { if (typeof k === "string") known.add(k); scan(v, d + 1); } } else if (x instanceof Set || Array.isArray(x)) { for (const v of x) scan(v, d + 1); } else if (typeof x === "object" && (Object.getPrototypeOf(x) === Object.prototype || Object.getPrototypeOf(x) === null)) for (const [k, v] of Object.entries(x)) { known.add(k); scan(v, d + 1); } };
      for (const k of Object.getOwnPropertyNames(H)) scan(H[k], 0);
      let kept = 0; for (const r of runs) { const open = !r.o && !r.e; if (open || known.has(r.id)) kept++; } for (const id of this.strays ?? []) if (known.has(id)) kept++;
      const shown = runs.map((r, i) => {
        const s = r.span; if (!s) return { missing: true }; const at = s.attributes; const n = ended.get(s.spanContext().spanId) || 0; if (n > 1) bad("ended " + n + " times"); const model = r.k === "llm" || r.k === "chat";
        const o = at[P + "output"]; let out = "none"; if (o !== undefined) { if (o === JSON.stringify(finishAgent)) out = "agent"; else { const w = r.o === undefined ? undefined : r.k === "chain" ? chainOutShown[r.o] : r.k === "tool" ? "tool out" : r.k === "retriever" ? JSON.stringify(docs) : genShown[r.o]; out = w === o ? r.o : "other " + o; } }
        let fail = ""; if (at[P + "level"] === "ERROR") { const m = at[P + "status_message"]; let w = null; try { w = String(r.err); } catch {} fail = w === null ? (m ? r.e : "no message") : m === w || (r.e === "azure" && typeof m === "string" && m.startsWith(w) && (r.k === "tool" || r.k === "retriever" || m.includes("filter"))) ? r.e : "message " + m; }
        const u = at[P + "usage_details"]; let usage = "none"; if (u !== undefined && u !== "{}") { const j = JSON.stringify(Object.entries(JSON.parse(u)).sort()); usage = Object.keys(usageShown).find((k) => JSON.stringify(Object.entries(usageShown[k]).sort()) === j) ?? "other " + u; }
        const cst = at[P + "completion_start_time"]; if (cst !== undefined && cst !== r.first && cst !== JSON.stringify(r.first)) bad(`first token ${r.first} recorded as ${cst}`); const m = at[P + "model.name"]; const pn = at[P + "prompt.name"];
        const ac = acts.filter(([j, x]) => j === i + 1); for (const [, x] of ac) if (ended.get(x.spanContext().spanId) !== 1 || parentOf(x) !== i + 1) bad("agent action not an ended child of its run");
        return { ty: at[P + "type"], par: parentOf(s), ended: n > 0, out, fail, usage, model: m === undefined ? "none" : { "m-inv": "inv", "m-ls": "ls", "m-resp": "resp" }[m] ?? "other " + m, hid: at[P + "level"] === "DEBUG", tok: cst !== undefined, acts: ac.length, pr: pn === undefined ? "none" : ({ "prm 4": "p1", "prm 5": "p2", "prm-b 4": "p3" })[pn + " " + at[P + "prompt.version"]] ?? "other" };
      });
      return { runs: shown, ok, kept };
    },
    dispose() { T.setLangfuseTracerProvider(null); },
  };
}
