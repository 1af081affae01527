// Replays OpenAiTrace.tla against a stand-in client and the real OpenAI SDK.
const P = "langfuse.observation."; const SECRET = "SECRET-0042";
export function variants() {
  return [{ client: "fake" }, { client: "real" }, { client: "fake", cfg: "full" }, { client: "real", cfg: "full" }, { client: "fake", cfg: "name" }, { client: "fake", sub: true }];
}
const U = { u1: { prompt_tokens: 5, completion_tokens: 7, total_tokens: 12 }, u2: { prompt_tokens: 10, completion_tokens: 8, total_tokens: 18, prompt_tokens_details: { cached_tokens: 4 }, completion_tokens_details: { reasoning_tokens: 3 } }, r1: { input_tokens: 3, output_tokens: 4, total_tokens: 7, input_tokens_details: { cached_tokens: 1 }, output_tokens_details: { reasoning_tokens: 0 } } };
const UO = { u1: { input: 5, output: 7, total: 12 }, u2: { input: 6, output: 5, total: 18, input_cached_tokens: 4, output_reasoning_tokens: 3 }, r1: { input: 2, output: 4, total: 7, input_cached_tokens: 1, output_reasoning_tokens: 0 } };
const msg = { role: "assistant", content: "Hi é" }, toolMsg = { role: "assistant", content: null, tool_calls: [{ id: "c1", type: "function", function: { name: "f", arguments: "{}" } }] };
const item = { type: "message", id: "m1", role: "assistant", content: [{ type: "output_text", text: "yo", annotations: [] }] }, call = { type: "function_call", id: "fc", name: "f", arguments: "{}" };
const shape = {
  chat: () => ({ id: "x", object: "chat.completion", model: "gpt-res", choices: [{ index: 0, message: msg, finish_reason: "length" }, { index: 1, message: { role: "assistant", content: "second choice" }, finish_reason: "stop" }], usage: U.u1 }),
  chatU2: () => ({ model: "gpt-res", choices: [{ message: msg }], usage: U.u2 }),
  chatTools: () => ({ model: "gpt-res", choices: [{ message: toolMsg }] }),
  text: () => ({ model: "gpt-res", choices: [{ text: "done" }, { text: "other choice" }], usage: U.u1 }),
  resp1: () => ({ object: "response", model: "gpt-res", output: [item], usage: U.r1 }),
  respN: () => ({ object: "response", model: "gpt-res", output: [item, call] }),
  outputText: () => ({ model: "gpt-res", output_text: "yo", output: [item], usage: U.r1 }),
  embed: () => ({ object: "list", data: [{ embedding: [0.5] }], model: "emb-res", usage: { prompt_tokens: 4, total_tokens: 4 } }),
  empty: () => ({ choices: [] }), nullchoice: () => ({ choices: [null] }), strchoice: () => ({ choices: ["x"] }), nochoice: () => ({}), oddusage: () => ({ choices: [{ message: msg }], usage: "lots" }), numdetails: () => ({ choices: [{}], usage: null, output: "x", model: null }),
  null: () => null, undef: () => undefined, string: () => "plain", number: () => 3, throwing: () => ({ get choices() { throw new Error("getter"); } }),
  page: () => null,
};
const outShown = { chat: JSON.stringify(msg), chatU2: JSON.stringify(msg), chatTools: JSON.stringify(toolMsg), text: "done", resp1: JSON.stringify(item), respN: JSON.stringify([item, call]), outputText: "yo", rdone: JSON.stringify(item) };
const d = (delta, extra) => ({ id: "k", object: "chat.completion.chunk", model: "gpt-req", choices: [{ index: 0, delta }], ...extra }); const tc = (...xs) => xs.map(([index, name, args]) => ({ index, ...(name ? { id: "id" + index, type: "function" } : {}), function: { ...(name ? { name } : {}), arguments: args } }));
const chunk = {
  a: () => d({ content: "He" }), b: () => d({ content: "llo" }), role: () => d({ role: "assistant", content: "" }), stop: () => ({ choices: [{ index: 0, delta: {}, finish_reason: "stop" }] }), legacy: () => ({ choices: [{ text: "leg" }] }),
  tool0: () => d({ tool_calls: tc([0, "f", "x"]) }), more0: () => d({ tool_calls: tc([0, "", "y"]) }), tool1: () => d({ tool_calls: tc([1, "g", "v"]) }), more1: () => d({ tool_calls: tc([1, "", "w"]) }), tools: () => d({ tool_calls: tc([0, "f", "x"], [1, "g", "v"]) }), ttool0: () => d({ content: "T", tool_calls: tc([0, "f", "x"]) }),
  o1: () => ({ choices: [{ index: 1, delta: { content: "ZZ" } }] }), o1tool: () => ({ choices: [{ index: 1, delta: { tool_calls: tc([0, "other", "z"]) } }] }), ob: () => ({ choices: [{ index: 1, delta: { content: "ZZ" } }, { index: 0, delta: { content: "He" } }] }),
  u1: () => ({ choices: [], usage: U.u1 }), u2: () => ({ choices: [], usage: U.u2 }), unull: () => d({ content: "" }, { usage: null }), oddusage: () => d({ content: "" }, { usage: "lots" }),
  nulldelta: () => ({ choices: [{ delta: null }] }), nodelta: () => ({ choices: [{}] }), emptytools: () => d({ tool_calls: [] }), nulltool: () => d({ tool_calls: [null] }), nochoices: () => ({}), nullchoices: () => ({ choices: null }), null: () => null, string: () => "text", undef: () => undefined,
  rstart: () => ({ type: "response.created", response: { id: "r", model: "gpt-res", output: [], usage: null, status: "in_progress" } }), rdelta: () => ({ type: "response.output_text.delta", delta: "y" }), rdone: () => ({ type: "response.completed", response: { id: "r", model: "gpt-res", output: [item], usage: U.r1, status: "completed" } }),
};
const mkErr = { Error: () => new Error("boom"), TypeError: () => new TypeError("bad type"), string: () => "plain", np: () => Object.create(null), undef: () => undefined };
const fakeOnly = new Set(["null", "undef", "string", "number", "throwing"]);
const request = { chat: { model: "gpt-req", messages: [{ role: "user", content: "hi é" }], temperature: 0, tools: Array.from({ length: 40 }, (_, i) => ({ type: "function", function: { name: "f" + i } })), tool_choice: "auto" }, text: { model: "gpt-req", prompt: "say" }, resp: { model: "gpt-req", input: "ask" }, embed: { model: "gpt-req", input: ["a", "b"], encoding_format: "float" }, bare: undefined };
const inShown = { chat: JSON.stringify({ messages: request.chat.messages, tools: request.chat.tools, tool_choice: "auto" }), text: "say", resp: "ask", embed: '["a","b"]', bare: undefined };
const methodOf = { chat: ["chat", "completions", "create"], text: ["completions", "create"], resp: ["responses", "create"], embed: ["embeddings", "create"], bare: ["chat", "completions", "create"] };
const walk = (c, path) => path.slice(0, -1).reduce((o, k) => o[k], c);

export async function make({ lib, world, variant }) {
  const { context, ROOT_CONTEXT } = lib.otelApi; const T = lib.tracing; const started = []; const ended = new Map();
  let ok = "ok", rec = "ok"; const bad = (m) => { if (ok === "ok") ok = m; }; const badRec = (m) => { if (rec === "ok") rec = m; };
  const proc = { onStart(s) { started.push(s); }, onEnd(s) { const id = s.spanContext().spanId; ended.set(id, (ended.get(id) || 0) + 1); }, async forceFlush() {}, async shutdown() {} };
  const lf = new lib.otel.LangfuseSpanProcessor({ exporter: { export(_s, cb) { cb({ code: 0 }); }, async shutdown() {}, async forceFlush() {} }, publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test", exportMode: "immediate" });
  T.setLangfuseTracerProvider(new lib.sdkTraceBase.BasicTracerProvider({ spanProcessors: [lf, proc] }));
  const parent = { traceId: "0af7651916cd43dd8448eb211c80319c", spanId: "b7ad6b7169203331", traceFlags: 1 };
  const config = variant.cfg === "full" ? { generationName: "named", traceName: "tn", sessionId: "sess", userId: "usr", tags: ["t1", "t2"], generationMetadata: { k: "v" }, langfusePrompt: { name: "pr", version: 3, isFallback: false }, parentSpanContext: parent } : variant.cfg === "name" ? { generationName: "only", langfusePrompt: { name: "pr", version: 3, isFallback: true } } : undefined;
  const calls = []; let current = null; class SubPromise extends Promise {}
  const Pr = variant.sub ? SubPromise : Promise;
  // --- stand-in client: every method call is answered by the current call record
  class Res { constructor(path) { this.path = path; this.label = "res"; } create(...args) { return serve(this, args); } list(...args) { return serve(this, args); } }
  class Chat { completions = new Res("chat"); }
  class FakeAI {
    #hidden = 41; apiKey = "sk-" + SECRET; arr = [1, { a: 2 }]; when = new Date(5); empty = null; nested = { deep: { n: 0 }, f() { return this.deep.n; } }; map = new Map([["a", 1]]); reads = 0; [Symbol.for("tag")] = "sym";
    chat = new Chat(); completions = new Res("text"); responses = new Res("resp"); embeddings = new Res("embed"); models = new Res("models");
    get hidden() { this.reads++; return this.#hidden; } get hiddenObj() { return { h: this.#hidden }; } inc() { return ++this.#hidden; }
  }
  const bare = new FakeAI();
  function serve(self, args) {
    const c = current; if (self !== c.self) bad("method called on another object"); if (args.length !== c.args.length || args.some((x, i) => x !== c.args[i])) bad("arguments differ");
    if (c.k === "throw") throw c.err; if (c.k === "sync") return c.value;
    if (c.k === "sstream") return (c.src = source());
    const p = new Pr((res, rej) => { c.resolve = res; c.reject = rej; });
    if (c.k === "page") p[Symbol.asyncIterator] = async function* () { const pg = await p; yield* pg.data; };
    return p;
  }
  function source() {
    let wake; const q = []; const s = { closed: 0, controller: {}, push(x) { q.push(x); wake?.(); },
      [Symbol.asyncIterator]() { return { next: async () => { while (!q.length) await new Promise((r) => (wake = r)); const x = q.shift(); if (x.err) throw x.err.value; return x.end ? { done: true, value: undefined } : { done: false, value: x.value }; }, return: async (v) => { s.closed++; return { done: true, value: v }; } }; } };
    return s;
  }
  // --- the real SDK over a controlled fetch
  let real = null, realWrapped = null;
  function realClient() {
    if (!real) { real = new lib.OpenAI({ apiKey: "sk-" + SECRET, maxRetries: 0, baseURL: "http://api.test/v1", fetch: (url, init) => new Promise((res, rej) => { const c = current; c.url = String(url); c.init = init; c.respond = res; c.fail = rej; }) }); realWrapped = lib.openai.observeOpenAI(real, config); }
    return realWrapped;
  }
  const wrapped = lib.openai.observeOpenAI(bare, config);
  const isReal = (a, future) => variant.client === "real" && ["json", "stream", "page"].includes(a.k) && a.rq !== "bare" && (a.k === "json" || a.k === "page" || a.rq === "chat" || a.rq === "resp" || a.rq === "text");
  const json = (status, body) => new Response(JSON.stringify(body), { status, headers: { "content-type": "application/json" } });
  const deep = (a, b) => JSON.stringify(a) === JSON.stringify(b);
  const safe = (e) => { try { return String(e); } catch { return "?"; } };
  function sameErr(c, e) { if (c.real) return c.errBody ? (e instanceof lib.OpenAI.APIError && e.status === 400 ? c.errName : "other " + safe(e)) : e === c.err ? c.errName : "other " + safe(e); return Object.is(e, c.err) ? c.errName : "other " + safe(e); }
  function sameValue(c, v) {
    if (c.k === "page") return c.real ? (Array.isArray(v?.data) && v.data[0]?.id === "gpt-a" && typeof v.getNextPage === "function" ? "page" : "other") : v === c.value ? "page" : "other";
    if (c.real) { const w = { ...v }; if (c.rq === "resp" && !("output_text" in c.value)) delete w.output_text; return deep(w, c.value) || (c.rq === "resp" && c.shape === "outputText" && deep({ ...w, output_text: "yo" }, { ...c.value })) ? c.shape : "other " + JSON.stringify(v); }
    return Object.is(v, c.value) ? c.shape : "other";
  }
  function got(c, r) { c.st = r.threw ? "error" : "value"; c.got = r.threw ? sameErr(c, r.error) : sameValue(c, r.value); }
  return {
    async step(a) {
      if (a.op === "call") {
        const c = { k: a.k, rq: a.rq, st: "wait", got: "", real: isReal(a) }; calls.push(c); current = c;
        const path = a.k === "page" ? ["models", "list"] : methodOf[a.rq]; const cl = c.real ? realClient() : wrapped; const body = request[a.rq] && { ...request[a.rq], ...(a.k.includes("stream") ? { stream: true } : {}) };
        c.path = path; c.self = walk(c.real ? real : bare, path); c.args = a.k === "page" ? [] : body === undefined ? [] : [body, { headers: { "x-trace": SECRET } }];
        if (a.k === "throw") { c.err = mkErr.Error(); c.errName = "Error"; } if (a.k === "sync") { c.value = { some: "value" }; c.shape = "value"; }
        const n = started.length; let r;
        context.with(ROOT_CONTEXT, () => { try { r = { value: walk(cl, path)[path.at(-1)](...c.args) }; } catch (error) { r = { threw: true, error }; } });
        if (a.k !== "sync" && started.length !== n + 1) badRec(`${started.length - n} observations started`); c.span = started[n];
        if (a.k === "throw" || a.k === "sync") got(c, r);
        else if (a.k === "sstream") { if (r.threw || typeof r.value?.[Symbol.asyncIterator] !== "function") bad("not a stream"); else { c.it = r.value[Symbol.asyncIterator](); c.st = "open"; } }
        else if (r.threw || !(r.value instanceof Promise)) { c.st = "error"; c.got = "no promise " + safe(r.error); }
        else { if (a.k === "page" && typeof r.value[Symbol.asyncIterator] !== "function") bad("page promise cannot be iterated"); c.promise = r.value; r.value.then((v) => { if (a.k === "stream") { if (typeof v?.[Symbol.asyncIterator] !== "function") bad("no stream"); else { c.it = v[Symbol.asyncIterator](); c.st = "open"; } } else got(c, { value: v }); }, (error) => got(c, { threw: true, error })); }
      } else if (a.op === "answer") {
        const c = calls[a.i - 1]; c.shape = a.s; c.value = shape[a.s]();
        if (a.s === "page") { const body = { object: "list", data: [{ id: "gpt-a", object: "model" }] }; if (c.real) { c.respond(json(200, body)); } else { c.value = { ...body, getPaginatedItems() { return body.data; }, async *[Symbol.asyncIterator]() { yield* body.data; } }; c.resolve(c.value); }
          await world.drain(6); const items = []; if (!c.promise || typeof c.promise[Symbol.asyncIterator] !== "function") bad("page"); else { (async () => { for await (const m of c.promise) items.push(m.id); })().catch(() => {}); await world.drain(4); if (items.join() !== "gpt-a") bad("items of the page: " + items); } }
        else if (c.real && !fakeOnly.has(a.s)) c.respond(json(200, c.value));
        else if (c.real) { c.value = { choices: "odd" }; c.respond(json(200, c.value)); }
        else c.resolve(c.value);
      } else if (a.op === "open") {
        const c = calls[a.i - 1];
        if (c.real) { const s = new ReadableStream({ start(k) { c.ctl = k; }, cancel() { c.cancelled = true; } }); c.respond(new Response(s, { status: 200, headers: { "content-type": "text/event-stream" } })); }
        else { c.src = source(); c.resolve(c.src); }
      } else if (a.op === "reject") {
        const c = calls[a.i - 1]; c.errName = a.e; c.err = mkErr[a.e]();
        if (c.real) { c.errBody = true; c.respond(json(400, { error: { message: "nope", type: "invalid_request_error" } })); } else c.reject(c.err);
      } else if (a.op === "chunk") {
        const c = calls[a.i - 1]; let v = chunk[a.c](); if (c.real && fakeOnly.has(a.c)) v = { choices: "odd" };
        const p = c.it.next().then((r) => { c.got = r.done ? "early end" : c.real ? (deep(r.value, v) ? a.c : "other " + JSON.stringify(r.value)) : Object.is(r.value, v) ? a.c : "other"; }, (e) => { c.st = "error"; c.got = "error " + safe(e); });
        await world.drain(1); if (c.real) c.ctl.enqueue(new TextEncoder().encode(`data: ${JSON.stringify(v)}\n\n`)); else c.src.push({ value: v }); await world.drain();
      } else if (a.op === "finish") {
        const c = calls[a.i - 1]; c.it.next().then((r) => { c.st = "value"; c.got = r.done ? "end" : "more"; }, (e) => { c.st = "error"; c.got = "error " + safe(e); });
        await world.drain(1); if (c.real) { c.ctl.enqueue(new TextEncoder().encode("data: [DONE]\n\n")); c.ctl.close(); } else c.src.push({ end: true });
      } else if (a.op === "break") {
        const c = calls[a.i - 1]; c.errName = a.e; c.err = mkErr[a.e](); if (c.real && (c.err === undefined || typeof c.err !== "object")) c.err = new Error("cut");
        c.it.next().then(() => { c.st = "value"; c.got = "no error"; }, (e) => { c.st = "error"; c.got = Object.is(e, c.err) ? a.e : "other " + safe(e); });
        await world.drain(1); if (c.real) c.ctl.error(c.err); else c.src.push({ err: { value: c.err } });
      } else if (a.op === "abandon") {
        const c = calls[a.i - 1]; c.it.return?.().then((r) => { c.st = "left"; }, (e) => { c.st = "error"; c.got = safe(e); });
        await world.drain(); c.got = c.real ? (c.cancelled || c.init.signal?.aborted ? "closed" : "still open") : c.src.closed === 1 ? "closed" : "closed " + c.src.closed;
      } else if (a.op === "member") this.m = member(a.m);
      else if (a.op === "helper") this.m = await helper(a.m);
      await world.drain(4);
    },
    observe(e) {
      if (world.unhandled.length) bad("unhandled " + world.unhandled[0]);
      const gens = calls.map((c, i) => { if (c.k === "sync") return []; try { return gen(c, e.o.gens[i]); } catch (x) { return ["?", String(x)]; } });
      const m = e.a.op === "member" || e.a.op === "helper" ? this.m : "";
      return { calls: calls.map((c) => ({ st: c.st, got: c.got })), gens, ok, rec, member: m };
    },
    dispose() { T.setLangfuseTracerProvider(null); },
  };
  function gen(c, want) {
    const s = c.span; if (!s) return ["none"]; const at = s.attributes; const n = ended.get(s.spanContext().spanId) || 0; if (n > 1) badRec("ended " + n + " times");
    const p = s.parentSpanContext?.spanId ?? s.parentSpanId;
    if (at[P + "type"] !== "generation") badRec("type " + at[P + "type"]); if (!s.name || (config?.generationName && s.name !== config.generationName)) badRec("name " + s.name);
    if (at[P + "input"] !== (c.k === "page" ? undefined : inShown[c.rq])) badRec("input " + at[P + "input"]);
    if (c.rq === "chat" && c.k !== "page" && JSON.parse(at[P + "model.parameters"] ?? "{}").temperature !== 0 && !n) badRec("temperature");
    const all = JSON.stringify(at) + s.name; if (all.includes(SECRET)) badRec("secret recorded");
    if (variant.cfg === "full") { if (p !== parent.spanId) badRec("parent"); if (at["user.id"] !== "usr" || at["session.id"] !== "sess" || at["langfuse.trace.name"] !== "tn" || JSON.stringify(at["langfuse.trace.tags"]) !== '["t1","t2"]') badRec("trace attributes"); if (at[P + "metadata.k"] !== "v") badRec("metadata"); if (at[P + "prompt.name"] !== "pr" || at[P + "prompt.version"] !== 3) badRec("prompt"); }
    else { if (p) badRec("parent"); if (at[P + "prompt.name"]) badRec("prompt"); if (at["user.id"]) badRec("user"); }
    if (!n) return ["open"];
    const fail = at[P + "level"] === "ERROR" ? (c.errBody ? (/nope/.test(at[P + "status_message"]) ? c.errName : "message") : c.errName === "np" ? (at[P + "status_message"] ? "np" : "no message") : at[P + "status_message"] === String(c.err) ? c.errName : "message " + at[P + "status_message"]) : "";
    const o = at[P + "output"]; let out;
    if (want[2] === "any") out = "any"; else if (o === undefined) out = "none";
    else if (want[2]?.startsWith("text:")) { let j; try { j = JSON.parse(o); } catch {} if (j && typeof j === "object" && Array.isArray(j.tool_calls)) { const t = j.tool_calls.map((x) => [x.function.name, x.function.arguments]); const has = (nm) => t.filter((x) => x[0] === nm); const nameless = t.filter((x) => !x[0]); const w = want[2].split("|"); const f = (i) => { const [nm] = (w[i] ?? ":").split(":"); if (nm) { const h = has(nm); return h.length === 1 ? h[0].join(":") : "dup"; } if ((w[i] ?? ":") === ":") return ":"; const q = nameless.shift(); return q ? ":" + q[1] : ":"; }; out = "text:" + (j.content ?? "") + "|" + f(1) + "|" + f(2); if (t.length !== w.slice(1).filter((x) => x !== ":").length) out += " of " + t.length; } else out = "text:" + o; }
    else if (c.real && c.rq === "resp" && c.k === "json" && o === "yo") out = want[2]; // the SDK itself adds output_text
    else out = Object.keys(outShown).find((k) => outShown[k] === o && k === want[2]) ?? "other " + o;
    const u = at[P + "usage_details"]; const usage = want[3] === "any" ? "any" : u === undefined ? "none" : Object.keys(UO).find((k) => same(UO[k], JSON.parse(u))) ?? "other " + u;
    const m = at[P + "model.name"]; const model = want[4] === "any" ? "any" : m === "gpt-res" ? "res" : m === (c.k === "page" ? undefined : request[c.rq]?.model) ? "req" : "other " + m;
    return ["ended", fail, out, usage, model, at[P + "completion_start_time"] !== undefined];
  }
  function same(a, b) { return JSON.stringify(Object.entries(a).sort()) === JSON.stringify(Object.entries(b).sort()); }
  function member(m) {
    try {
      const w = wrapped;
      const t = { prim: () => w.apiKey === bare.apiKey && w.empty === null, getter: () => w.hidden === 41 && bare.reads === 1, getterObj: () => w.hiddenObj.h === 41, array: () => w.arr === bare.arr, date: () => w.when === bare.when && w.when.getTime() === 5, nested: () => w.nested.deep.n === 0 && w.nested.f() === 0, symbol: () => w[Symbol.for("tag")] === "sym", missing: () => w.nope === undefined && !("nope" in w), keys: () => JSON.stringify(Object.keys(w)) === JSON.stringify(Object.keys(bare)), instance: () => w instanceof FakeAI, set: () => { w.label = "new"; return bare.label === "new"; }, map: () => w.map.get("a") === 1 && w.map.size === 1, method: () => { const h = bare.inc(); return w.inc() === h + 1 && bare.inc() === h + 2; }, detached: () => { const { inc } = w; return inc() === bare.inc() - 1; } };
      return t[m]() ? "same" : "differs";
    } catch (e) { return "throws " + safe(e); }
  }
  async function helper(h) {
    const c = { k: "helper" }; current = c; let r = "same"; const cl = realClient(); const stream = h !== "withResponse" && h !== "asResponse";
    const p = cl.chat.completions.create({ ...request.chat, stream }); p.catch?.(() => {}); await world.drain(2);
    if (!stream) { r = typeof p[h] === "function" ? "same" : "missing " + h; c.respond(json(200, shape.chat())); await world.drain(); return r; }
    c.respond(new Response("data: [DONE]\n\n", { status: 200, headers: { "content-type": "text/event-stream" } })); await world.drain(); let s; p.then((x) => (s = x)); await world.drain();
    return s && (h === "controller" ? s.controller instanceof AbortController : typeof s[h] === "function") ? "same" : "missing " + h;
  }
}
