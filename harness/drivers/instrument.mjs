// Replays Instrument.tla: frames are instrumented calls, running asynchronous
// frames are live flows that interleave.
import { makeFlow } from "../lib/flows.mjs";
const A = { type: "langfuse.observation.type", level: "langfuse.observation.level", msg: "langfuse.observation.status_message", in: "langfuse.observation.input", out: "langfuse.observation.output" };
const NOTICE = (s) => typeof s === "string" && s.startsWith("<") && s.endsWith(">");
export function variants() { return ["function", "async", "subclass", "method"].map((style) => ({ style })); }
class SubPromise extends Promise {}
const cyc = () => { const x = { a: 1 }; x.self = x; return x; };
const mkRet = { undef: () => undefined, null: () => null, num: () => 7, zero: () => 0, false: () => false, empty: () => "", str: () => "text", obj: () => ({ a: [1, { b: "c" }] }), fn: () => () => 1, sym: () => Symbol("s"), cyc, big: () => 12n, thenable: () => ({ then(r) { r("adopted"); } }) };
const shownRet = { num: "7", zero: "0", false: "false", empty: "", str: "text", obj: '{"a":[1,{"b":"c"}]}', thenable: "{}" };
const mkErr = { Error: () => new Error("boom"), emptyError: () => new Error(""), TypeError: () => new TypeError("tt"), string: () => "plain failure", emptystr: () => "", undef: () => undefined, null: () => null, num: () => 5, obj: () => ({ code: 3 }), np: () => Object.assign(Object.create(null), { x: 1 }), badstr: () => ({ toString() { throw new Error("no string"); } }), sym: () => Symbol("e"), badmsg: () => { const e = new Error("m"); Object.defineProperty(e, "message", { get() { throw new Error("no message"); } }); return e; } };
const mkArgs = { none: () => [], zero: () => [0], empty: () => [""], undef: () => [undefined], obj: () => [{ q: "é\u0000" }], pair: () => ["a", undefined, { b: 2 }, null, 0], cyc: () => [cyc()] };
const shownIn = { zero: "0", empty: "", obj: JSON.stringify({ q: "é\u0000" }), pair: '["a",null,{"b":2},null,0]' };
export async function make({ lib, world, variant }) {
  const { context, trace, ROOT_CONTEXT } = lib.otelApi; const T = lib.tracing;
  const ended = new Map(); const started = new Map();
  const rec = { onStart(s) { started.set(s.spanContext().spanId, s); }, onEnd(s) { const id = s.spanContext().spanId; ended.set(id, (ended.get(id) || 0) + 1); }, async forceFlush() {}, async shutdown() {} };
  T.setLangfuseTracerProvider(new lib.sdkTraceBase.BasicTracerProvider({ spanProcessors: [rec] }));
  let ok = "ok"; const bad = (m) => { if (ok === "ok") ok = m; };
  const ext = { traceId: "0af7651916cd43dd8448eb211c80319c", spanId: "b7ad6b7169203331", traceFlags: 1, isRemote: true };
  const root = makeFlow(); context.with(ROOT_CONTEXT, () => { root.main(); });
  const frames = [], kids = [];
  const kid = (parent) => { const before = new Set(started.keys()); const o = T.startObservation("kid"); o.end(); if (before.has(o.id)) bad("kid reused"); kids.push(o.id); };
  const opts = (a) => ({ asType: a.ty, ...(a.eoe ? {} : { endOnExit: false }), ...(a.cap === "both" ? {} : { captureInput: a.cap === "in", captureOutput: a.cap === "out" }), ...(a.p === "ext" ? { parentSpanContext: ext } : {}) });
  // Calls `body` instrumented; returns what the caller observes.
  function invoke(a, f, body) {
    const self = { me: f }; const args = mkArgs[a.args](); const o = opts(a);
    const inner = function (thisArg, got, obs) {
      f.span = trace.getActiveSpan(); f.obs = obs;
      if (a.api === "observe") { if (thisArg !== self) bad("this differs"); if (got.length !== args.length || got.some((x, i) => x !== args[i])) bad("arguments differ"); }
      else if (!obs || obs.otelSpan !== f.span) bad("observation is not the active one");
      return body();
    };
    const before = new Set(started.keys());
    let r;
    try {
      let v;
      if (a.api === "observe") {
        const fn = variant.style === "method" ? { m() { return inner(this, [...arguments]); } }.m : function theFn(...x) { return inner(this, x); };
        const w = T.observe(fn, variant.style === "function" ? o : { name: "theFn", ...o }); v = w.apply(self, args);
      } else v = T.startActiveObservation("active", (obs) => inner(null, [], obs), o);
      r = { value: v };
    } catch (e) { r = { error: e, threw: true }; }
    if (!f.span) bad("body did not run under an observation");
    if (started.size <= before.size) bad("no observation started");
    return r;
  }
  const outcome = (o) => (o.k === "ret" ? { value: mkRet[o.v]() } : { error: mkErr[o.v](), threw: true });
  const same = (f, got) => { const w = f.want; if (!w) return { st: "early", val: "" }; if (!!got.threw !== !!w.threw) return { st: got.threw ? "err" : "ret", val: "other:" + safe(got.threw ? got.error : got.value) }; return { st: got.threw ? "err" : "ret", val: Object.is(got.threw ? got.error : got.value, w.threw ? w.error : w.value) ? f.name : "other:" + safe(got.threw ? got.error : got.value) }; };
  const safe = (x) => { try { return String(x && x.stack || x); } catch { return "?"; } };
  return {
    async step(a) {
      const flow = a.c ? frames[a.c - 1].flow : root;
      if (a.op === "kid") await flow.run(() => { kid(); });
      else if (a.op === "async") {
        const f = { a, flow: makeFlow() }; frames.push(f); let release; const gate = new Promise((r) => (release = r));
        f.finish = () => { f.flow.close(); release(); };
        const body = variant.style === "async" ? async () => { const m = f.flow.main(); await gate; await m; if (f.want.threw) throw f.want.error; return f.want.value; }
          : () => { const m = f.flow.main(); const P = variant.style === "subclass" ? SubPromise : Promise; return new P((res, rej) => gate.then(() => m).then(() => (f.want.threw ? rej(f.want.error) : res(f.want.value)))); };
        let r; await flow.run(() => { r = invoke(a, f, body); });
        if (r.threw) f.got = { st: "err", val: "threw " + safe(r.error) };
        else if (!(r.value instanceof Promise)) f.got = { st: "ret", val: "not a promise" };
        else r.value.then((value) => { f.got = same(f, { value }); }, (error) => { f.got = same(f, { error, threw: true }); });
      } else if (a.op === "sync") {
        const f = { a, name: a.out.v }; frames.push(f); const w = (f.want = outcome(a.out)); let g;
        if (a.nest === "observe" || a.nest === "active") { g = { a: { api: a.nest, ty: "span", eoe: true, cap: "both", args: "none", p: "ctx" }, name: a.out.v, want: w }; frames.push(g); }
        const done = () => { if (w.threw) throw w.error; return w.value; };
        await flow.run(() => {
          const r = invoke(a, f, () => {
            if (a.nest === "kid") kid();
            if (!g) return done();
            const r2 = invoke(g.a, g, done); g.got = same(g, r2); if (r2.threw) throw r2.error; return r2.value;
          });
          f.got = same(f, r);
        });
      } else if (a.op === "settle") { const f = frames[a.i - 1]; f.name = a.out.v; f.want = outcome(a.out); f.finish(); }
      else if (a.op === "end") { const f = frames[a.i - 1]; (f.obs ?? f.span).end(); }
      await world.drain();
    },
    observe() {
      if (world.unhandled.length) bad("unhandled " + world.unhandled[0]);
      const idOf = new Map(frames.map((f, i) => [f.span?.spanContext().spanId, i + 1])); idOf.set(ext.spanId, 99);
      const parentOf = (s) => { const p = s.parentSpanContext?.spanId ?? s.parentSpanId; return p ? idOf.get(p) ?? -1 : 0; };
      if (started.size !== frames.length + kids.length) bad(`${started.size} observations for ${frames.length} calls and ${kids.length} children`);
      const shown = frames.map((f) => {
        const s = f.span; if (!s) return { st: "never ran" }; const at = s.attributes; const n = ended.get(s.spanContext().spanId) || 0; if (n > 1) bad("ended " + n + " times");
        const failed = f.a.api === "observe" ? at[A.level] === "ERROR" : s.status.code === 2;
        let fail = ""; 
        if (failed) {
          const m = f.a.api === "observe" ? at[A.msg] : s.status.message; const e = f.want?.threw ? f.want.error : undefined; let want = null;
          if (f.name !== "badmsg" && e instanceof Error && e.message) want = e.message; else if (f.a.api === "observe" && ["string", "num", "undef", "null", "sym"].includes(f.name)) want = String(e);
          fail = want === null ? (typeof m === "string" && m ? f.name : f.a.api === "active" ? f.name : "no message") : m === want ? f.name : "message " + m;
        }
        const o = at[A.out]; let out = "none";
        if (o !== undefined) {
          if (failed) { let j; try { j = JSON.parse(o); } catch {} const e = f.want.error; let want = null; try { want = String(e); } catch {} out = j && typeof j.error === "string" && (want === null || j.error === want) ? "error:" + f.name : "other " + o; }
          else if (shownRet[f.name] === o) out = f.name; else out = NOTICE(o) ? "notice" : "other " + o;
        }
        const i = at[A.in]; const inn = i === undefined ? "none" : i === shownIn[f.a.args] ? f.a.args : NOTICE(i) ? "notice" : "other " + i;
        return { st: f.got?.st ?? "run", val: f.got?.val ?? "", ended: n > 0, par: parentOf(s), ty: at[A.type], fail, out, in: inn };
      });
      const ks = kids.map((id) => { if (ended.get(id) !== 1) bad("kid ended " + ended.get(id)); return parentOf(started.get(id)); });
      return { frames: shown, kids: ks, ok };
    },
    dispose() { for (const f of frames) f.flow?.close(); root.close(); T.setLangfuseTracerProvider(null); },
  };
}
