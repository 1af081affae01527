// Replays PromptCache.tla behaviours into the real prompt manager.
import { canon } from "../lib/util.mjs";
const V = (A, B, l1, l2, v1, v2, fail, extra = {}) => ({ A, B, l1, l2, v1, v2, fail, ...extra });
export function variants() {
  return [
    V("foo", "foobar", "a", "b", 1, 2, "404"),
    V("foo", "foo-label:a", "a-label:b", "b", 1, 11, "net"),
    V("foo-label:production", "foo", "production-label:x", "x", 0, 1, "500"),
    V("x", "x-version:1", "version:1", "1", 1, 10, "400"),
    V("dir/a b", "dir/a", "", "latest", 3, 33, "bad", { type: "chat" }),
    V("__proto__", "constructor", "__proto__", "toString", 1, 2, "404"),
    V("日本", "日本-label:日本", "日本-label:é", "é", 7, 70, "net", { type: "chat" }),
    V('p","label:x', "p", 'x"]', "x", 100, 1000, "500"),
    V("a-version:1-label:b", "a", "version:1-label:b", "b", 1, 12, "404"),
    V("q?version=1", "q", "production ", "Production", 5, 55, "net"),
    V("foo", "Foo", "a", "A", 1, -1, "404"),
    V("foo ", "foo", " a", "a", 2, 20, "net"),
    V("50%25", "50%", "100%25", "100%", 4, 44, "404"),
  ];
}
export async function make({ lib, world, variant: v }) {
  const client = new lib.client.LangfuseClient({ publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test" });
  const fetches = [], ops = [], gets = []; let content = "ok";
  const bad = (m) => { if (content === "ok") content = m; };
  const real = (n) => v[n];
  const selOpts = (s) => s === "none" ? {} : s === "prod" ? { label: "production" } : s[0] === "l" ? { label: v[s] } : { version: v[s] };
  const modelName = (real) => (real === v.A ? "A" : real === v.B ? "B" : "?" + real);
  function modelSel(q) {
    const ver = q.get("version"), lab = q.get("label");
    if (ver === null && lab === null) return "none";
    if (ver !== null && lab !== null) return "?both";
    if (ver !== null) { for (const s of ["v1", "v2"]) if (String(v[s]) === ver) return s; return "?v" + ver; }
    if (lab === "production") return "prod"; for (const s of ["l1", "l2"]) if (v[s] === lab) return s; return "?l" + lab;
  }
  let lastGetType = "text";
  function scan() {
    for (const r of world.requests) {
      if (r.scanned) continue; r.scanned = true;
      const m = r.url.match(/^http:\/\/lf\.test\/api\/public\/v2\/prompts\/([^/?]*)(\/versions\/([^/?]*))?/);
      if (!m) { bad("unexpected request " + r.url); continue; }
      const name = modelName(decodeURIComponent(m[1]));
      if (r.method === "GET") fetches.push({ r, name, sel: modelSel(r.query) });
      else ops.push({ r, name, kind: r.method === "DELETE" ? "delete" : "update", st: "out" });
    }
  }
  const body = (i, f) => {
    const chat = v.type === "chat" ? i % 2 === 1 : i % 3 === 2;
    const o = f.sel[0] === "v" ? { version: v[f.sel] } : { version: 1000 + i };
    return { name: real(f.name), ...o, type: chat ? "chat" : "text", prompt: chat ? [{ role: "user", content: "content #" + i }, { type: "placeholder", name: "ph" }] : "content #" + i, labels: f.sel[0] === "l" ? [v[f.sel]] : ["production"], tags: ["t" + i], config: { i }, commitMessage: "c" + i };
  };
  const FB_TEXT = (g) => "fallback text {{x}} " + g, FB_CHAT = (g) => [{ role: "system", content: "fallback chat " + g }, { role: "user", content: "{{y}}" }];
  const failWith = (r) => v.fail === "net" ? r.fail(new TypeError("fetch failed")) : v.fail === "bad" ? r.reply(401, { message: "unauth" }) : r.reply(Number(v.fail), { message: "nope" });
  return {
    async step(a) {
      switch (a.op) {
        case "get": {
          const g = gets.length + 1; const rec = { st: "pending", val: 0 }; gets.push(rec);
          const opts = { ...selOpts(a.sel), fetchTimeoutMs: 1e9, maxRetries: 0 };
          if (a.ttl !== 9999) opts.cacheTtlSeconds = a.ttl;
          if (a.fb === "text") opts.fallback = FB_TEXT(g);
          if (a.fb === "text" && g % 2 === 0) opts.type = "text";
          if (a.fb === "chat") { opts.fallback = FB_CHAT(g); opts.type = "chat"; }
          const fbBefore = canon(opts.fallback);
          const bare = a.sel === "none" && a.ttl === 9999 && a.fb === "no" && false;
          const p = bare ? client.prompt.get(real(a.name)) : g % 3 === 2 ? client.getPrompt(real(a.name), opts) : client.prompt.get(real(a.name), opts);
          p.then((x) => {
            if (x.isFallback) {
              rec.st = "fallback";
              if (a.fb === "no") bad("fallback invented");
              const isChat = a.fb === "chat";
              if (x.name !== real(a.name) || x.type !== (isChat ? "chat" : "text")) bad("fallback name/type " + x.name + "/" + x.type);
              const wantLabels = opts.label ? [opts.label] : [];
              if (canon(x.labels) !== canon(wantLabels)) bad("fallback labels " + canon(x.labels));
              if (opts.version !== undefined && x.version !== opts.version) bad("fallback version " + x.version);
              const c = isChat ? x.prompt.map((m) => ({ role: m.role, content: m.content })) : x.prompt;
              if (canon(c) !== canon(isChat ? FB_CHAT(g) : FB_TEXT(g))) bad("fallback content " + canon(c));
              if (canon(opts.fallback) !== fbBefore) bad("caller's fallback modified");
              return;
            }
            rec.st = "value";
            const c = x.type === "chat" ? x.prompt?.[0]?.content : x.prompt; const m = String(c).match(/^content #(\d+)$/);
            if (!m) { bad("unrecognised content " + canon(c)); return; }
            rec.val = Number(m[1]); const f = fetches[rec.val - 1]; const b = f && body(rec.val, f);
            if (!b) return bad("content never served");
            if (x.name !== b.name || x.version !== b.version || x.type !== b.type || canon(x.labels) !== canon(b.labels) || canon(x.tags) !== canon(b.tags) || canon(x.config) !== canon(b.config) || x.commitMessage !== b.commitMessage)
              bad("prompt fields differ from the server's: " + JSON.stringify(x));
          }, (e) => {
            rec.st = "rejected"; rec.err = String(e && e.stack || e);
            if (!gets.some((x) => x.failed)) {}
            if (v.fail !== "net" && !(e && typeof e.statusCode === "number" && e.statusCode === (v.fail === "bad" ? 401 : Number(v.fail)))) bad("rejected with something else than the fetch error: " + e);
          });
          break;
        }
        case "replyOk": { scan(); const f = fetches[a.i - 1]; if (!f) return; if (!f.r.reply(200, body(a.i, f))) bad("fetch not in flight"); break; }
        case "replyFail": { scan(); const f = fetches[a.i - 1]; if (!f) return; if (!failWith(f.r)) bad("fetch not in flight"); break; }
        case "start": {
          const p = a.kind === "delete" ? client.prompt.delete(real(a.name), ops.length % 2 ? { version: 1 } : undefined) : (ops.length % 2 ? client.prompt.update.bind(client.prompt) : client.updatePrompt)({ name: real(a.name), version: 1, newLabels: [["production", "x"], [], ["b"]][(ops.length + v.v1) % 3] });
          const i = ops.length; this.opRes ??= []; const res = (this.opRes[i] = { st: "out" });
          p.then(() => (res.st = "ok"), () => (res.st = "failed")); await world.drain(); scan();
          if (ops.length !== i + 1) bad("no request for " + a.kind); break;
        }
        case "opOk": { const o = ops[a.j - 1]; if (!o) return; o.r.reply(200, o.kind === "delete" ? undefined : body(999, { name: o.name, sel: "none" })); break; }
        case "opFail": { const o = ops[a.j - 1]; if (!o) return; o.r.reply(404, { message: "gone" }); break; }
        case "advance": await world.advance(a.d); break;
        default: throw new Error("op " + a.op);
      }
    },
    observe() {
      scan(); if (world.unhandled.length) bad("unhandled rejection: " + world.unhandled[0]);
      return { requests: fetches.map((f) => [f.name, f.sel]), ops: ops.map((o, j) => [o.kind, o.name, this.opRes?.[j]?.st ?? "out"]), gets: gets.map((g) => [g.st, g.val]), content };
    },
  };
}
