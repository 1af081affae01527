// Replays Config.tla behaviours into LangfuseClient and LangfuseSpanProcessor. The OTLP exporter is the real one:
// node's http(s).request is replaced by a recorder.
import http from "node:http"; import https from "node:https"; import { syncBuiltinESMExports } from "node:module"; import { Readable, Writable } from "node:stream";
let otlp = [];
const stub = (scheme) => (url, opts, cb) => {
  const chunks = []; const rec = { url: String(url), headers: Object.fromEntries(Object.entries(opts.headers ?? {}).map(([k, v]) => [k.toLowerCase(), v])), scheme };
  const req = new Writable({ write(c, e, n) { chunks.push(c); n(); }, final(n) { rec.body = Buffer.concat(chunks).toString("utf8"); otlp.push(rec); const res = new Readable({ read() { this.push("{}"); this.push(null); } }); res.statusCode = 200; res.headers = {}; cb(res); n(); } });
  req.setTimeout = (ms) => { rec.timeout = ms; return req; }; req.setHeader = (k, v) => (rec.headers[k.toLowerCase()] = v); return req;
};
export async function setup() { await import("http"); await import("https"); http.request = stub("http:"); https.request = stub("https:"); syncBuiltinESMExports(); for (const k of Object.keys(process.env)) if (/^(OTEL_|LANGFUSE_)/.test(k)) delete process.env[k]; }
const VAR = { pub: "LANGFUSE_PUBLIC_KEY", sec: "LANGFUSE_SECRET_KEY", url: "LANGFUSE_BASE_URL", legacy: "LANGFUSE_BASEURL", env: "LANGFUSE_TRACING_ENVIRONMENT", rel: "LANGFUSE_RELEASE", media: "LANGFUSE_MEDIA_UPLOAD_ENABLED", at: "LANGFUSE_FLUSH_AT", ivl: "LANGFUSE_FLUSH_INTERVAL", timeout: "LANGFUSE_TIMEOUT" };
const OPT = { pub: "publicKey", sec: "secretKey", url: "baseUrl", env: "environment", rel: "release", media: "mediaUploadEnabled", at: "flushAt", ivl: "flushInterval", timeout: "timeout", hdr: "additionalHeaders" };
const URLS = [{ o: "https://o.test", e: "http://e.test:3000", g: "https://g.test", el: "https://el.test", gl: "http://gl.test" }, { o: "http://o.test:3000/lang/fuse/", e: "https://e.test/", g: "http://g.test/base", el: "http://el.test/", gl: "https://gl.test/x" }, { o: "https://o.test/", e: "https://e.test/p/", g: "https://g.test/", el: "https://el.test/q", gl: "https://gl.test:1/" }];
const OFF = ["false", "0", "FALSE", "False"], ON = ["true", "1", "yes", "TRUE"];
const AT = { o: 3, e: 5, g: 2 }, IVL = { o: 7, e: 4, g: 3 }, TMO = { o: 3, e: 8, g: 2, default: 5 };
export function variants() { const out = []; for (let i = 0; i < 12; i++) out.push({ i, urls: URLS[i % 3], off: OFF[i % 4], on: ON[(i + 1) % 4], u: ["pk", "pk-lf-é", "pk:x"][(i >> 1) % 3] }); return out; }
const norm = (u) => u.replace(/\/+$/, "");
export async function make({ lib, world, variant: v }) {
  const insts = [], providers = []; let seen = { none: 0 }, ok = "ok"; const bad = (m) => { if (ok === "ok") ok = m; };
  otlp = [];
  const pub = { o: v.u + "-o", e: v.u + "-e", g: v.u + "-g" }, sec = { o: "sk-o", e: "sk-e ü", g: "sk-g" }, word = { o: "prod-o", e: "stage-e", g: "dev-g" };
  const val = (k, x, src) => (k === "pub" ? pub[x] : k === "sec" ? sec[x] : k === "url" ? v.urls[x] : k === "legacy" ? v.urls[x + "l"] : k === "media" ? (src === "opt" ? x === "on" : x === "on" ? v.on : v.off) : k === "at" ? (src === "opt" ? AT[x] : String(AT[x])) : k === "ivl" ? (src === "opt" ? IVL[x] : String(IVL[x])) : k === "timeout" ? (src === "opt" ? TMO[x] : String(TMO[x])) : k === "hdr" ? { "X-Extra": "extra-" + x } : word[x] + "-" + k);
  const back = (k, value) => { const d = { pub, sec, at: AT, ivl: IVL }[k]; for (const x of ["o", "e", "g"]) if ((d ? d[x] : val(k, x)) === value) return x; return value; };
  const backUrl = (u, path) => { const i = u.indexOf(path); if (i < 0) return u; const b = u.slice(0, i); for (const [k, x] of Object.entries(v.urls)) if (norm(x) === b) return k; return b === "https://cloud.langfuse.com" ? "default" : u; };
  const auth = (h) => { const m = /^Basic (.*)$/.exec(h ?? ""); const t = m ? Buffer.from(m[1], "base64").toString("utf8") : "?"; for (const p of "oeg") for (const s of "oeg") if (t === pub[p] + ":" + sec[s]) return { pub: p, sec: s }; return { pub: t, sec: t }; };
  const hdr = (h) => (h["x-extra"] === undefined ? "default" : back2(h["x-extra"])), back2 = (x) => (x === "extra-o" ? "o" : x);
  const identity = (h, path, url) => { const a = auth(h.authorization); if (back("pub", h["x-langfuse-public-key"]) !== a.pub) bad("public key header " + h["x-langfuse-public-key"]); return { ...a, url: backUrl(url, path), hdr: hdr(h) }; };
  const find = (p) => world.pending(p)[0];
  const until = async (f, n = 60) => { for (let i = 0; i < n && !f(); i++) await world.drain(1); return f(); };
  const ack = (r) => r.reply(207, { successes: r.json().batch.map((e) => ({ id: e.id, status: 201 })), errors: [] });
  const isIngest = (r) => r.path.endsWith("/api/public/ingestion");
  const span = (it) => it.tracer.startSpan("s");
  return {
    async step(a) {
      seen = { none: 0 };
      switch (a.op) {
        case "env": if (a.v === "none") delete process.env[VAR[a.k]]; else process.env[VAR[a.k]] = a.v === "empty" ? "" : val(a.k, a.v, "env"); break;
        case "glob": if (a.v === "none") delete globalThis[VAR[a.k]]; else globalThis[VAR[a.k]] = val(a.k, a.v, "glob"); break;
        case "make": {
          const o = {}; for (const [k, x] of Object.entries(a.o)) if (x !== "none") o[OPT[k]] = val(k, x, "opt"); else if (v.i % 2) o[OPT[k]] = undefined;
          if (a.kind === "client") { for (const k of Object.keys(o)) if (!["publicKey", "secretKey", "baseUrl", "timeout", "additionalHeaders"].includes(k)) delete o[k]; insts.push({ c: Object.keys(o).length || v.i % 3 ? new lib.client.LangfuseClient(o) : new lib.client.LangfuseClient() }); }
          else { const p = new lib.otel.LangfuseSpanProcessor(o); insts.push({ p, tracer: new lib.sdkTraceBase.BasicTracerProvider({ spanProcessors: [p] }).getTracer("langfuse-sdk") }); }
          break;
        }
        case "use": {
          const it = insts[a.i - 1];
          if (a.u === "api") { const p = it.c.api.health.health().catch(() => {}); await world.drain(); const r = find((x) => x.path.endsWith("/api/public/health")); if (!r) return bad("no request"); seen = identity(r.headers, "/api/public/health", r.url); r.reply(200, { version: "1", status: "OK" }); await p; }
          else if (a.u === "link") {
            let out; it.c.getTraceUrl("tr/1").then((u) => (out = u), (e) => (out = "error " + e)); await world.drain(); const r = find((x) => x.path.endsWith("/api/public/projects"));
            if (r) { const who = auth(r.headers.authorization); it.project = "proj-" + who.pub; r.reply(200, { data: [{ id: it.project, name: "p", metadata: {} }] }); await world.drain(); }
            const m = /\/project\/proj-(.*)\/traces\/tr\/1$/.exec(out ?? ""); seen = { pub: m ? m[1] : String(out), url: backUrl(out ?? "", "/project/") };
          } else if (a.u === "timeout") {
            const t0 = world.now; let t1; const p = it.c.api.health.health({ maxRetries: 0 }).then(() => bad("answered"), () => (t1 = world.now)); await world.drain(); for (let i = 0; i < 70 && t1 === undefined; i++) await world.advance(1000); await p;
            const s = (t1 - t0) / 1000; seen = { timeout: Object.keys(TMO).find((k) => TMO[k] === s) ?? s + " s" };
          } else if (a.u === "score") {
            const mk = () => it.c.score.create({ traceId: "t", name: "n", value: 1, ...(a.e === "o" ? { environment: word.o + "-env" } : {}) });
            let n = 0; while (!find(isIngest) && n < 30) { mk(); n++; await world.drain(1); } let r = find(isIngest); if (!r) return bad("scores never sent by size");
            const id = identity(r.headers, "/api/public/ingestion", r.url); const envs = new Set(r.json().batch.map((e) => e.body.environment)); ack(r); await world.drain();
            const t0 = world.now; mk(); await world.drain(1); if (!find(isIngest)) for (let i = 0; i < 40 && !find(isIngest); i++) await world.advance(250);
            r = find(isIngest); const ivl = (world.now - t0) / 1000; if (r) ack(r); await world.drain();
            seen = { at: n === 10 ? "default" : back("at", n), ivl: ivl === 1 ? "default" : back("ivl", ivl), pub: id.pub, url: id.url, env: envs.size !== 1 ? "mixed" : [...envs][0] === undefined ? "default" : back("env", [...envs][0]) };
          } else if (a.u === "span") {
            const n0 = otlp.length, r0 = world.requests.length; const s = span(it); s.setAttribute("langfuse.observation.input", "see data:image/png;base64,iVBORw0KGgo="); s.end(); await world.drain();
            const up = world.requests.slice(r0).find((r) => r.path.endsWith("/api/public/media")); let upId;
            if (up) { upId = identity(up.headers, "/api/public/media", up.url); up.reply(200, { mediaId: up.json().sha256Hash.replaceAll("+", "-").replaceAll("/", "_").slice(0, 22), uploadUrl: null }); }
            const f = it.p.forceFlush(); if (!(await until(() => otlp.length > n0))) return bad("span not exported"); const x = otlp.at(-1); await f;
            const attrs = Object.fromEntries(JSON.parse(x.body).resourceSpans[0].scopeSpans[0].spans[0].attributes.map((k) => [k.key, k.value.stringValue ?? k.value])); const id = identity(x.headers, "/api/public/otel/v1/traces", x.url);
            if (!x.url.endsWith("/api/public/otel/v1/traces") || new URL(x.url).protocol !== x.scheme) bad("exporter url " + x.url);
            if (upId && JSON.stringify(upId) !== JSON.stringify(id)) bad("media and spans go to different places: " + JSON.stringify(upId));
            const replaced = /@@@langfuseMedia:/.test(attrs["langfuse.observation.input"]); if (replaced !== !!up) bad("media replaced without upload");
            const cfgMedia = replaced ? "on" : "off";
            seen = { ...id, env: attrs["langfuse.environment"] === undefined ? "default" : back("env", attrs["langfuse.environment"]), rel: attrs["langfuse.release"] === undefined ? "default" : back("rel", attrs["langfuse.release"]), media: cfgMedia, timeout: Object.keys(TMO).find((k) => TMO[k] * 1000 === x.timeout) ?? x.timeout + " ms" };
          } else if (a.u === "batch") {
            const n0 = otlp.length; let n = 0; while (otlp.length === n0 && n < 20) { span(it).end(); n++; await world.drain(4); if (n >= 2 && otlp.length === n0) await until(() => otlp.length > n0, 15); }
            const at = otlp.length === n0 ? "default" : back("at", n); const f = it.p.forceFlush(); await until(() => otlp.length > n0); await f; await world.drain(4);
            const n1 = otlp.length, t0 = world.now; span(it).end(); await world.drain(2); for (let i = 0; i < 40 && otlp.length === n1; i++) { await world.advance(250); await until(() => otlp.length > n1, 15); }
            const ivl = (world.now - t0) / 1000; seen = { at, ivl: ivl === 5 ? "default" : back("ivl", ivl) };
          }
          break;
        }
      }
    },
    observe(e) { const s = { ...seen }; if (e.o.seen.media === "default" && s.media === "on") s.media = "default"; return { seen: s, ok }; },
    async dispose() { for (const k of Object.values(VAR)) { delete process.env[k]; delete globalThis[k]; } },
  };
}
