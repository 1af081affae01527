// Replays SpanPayload.tla cases: one ended span through LangfuseSpanProcessor.
import { createHash } from "node:crypto";
const b64 = (s) => Buffer.from(s, "latin1").toString("base64");
export const NOTICE = "<fully masked due to failed mask function>";
const C1 = "PNG\x00\xffcontent", C2 = "second content \x80\x81?>", C1X = C1 + "!more"; // length of C1 is a multiple of 3: the URI of u1 is a prefix of that of u1x
const KEY = { in: "langfuse.observation.input", tin: "langfuse.trace.input", out: "langfuse.observation.output", tout: "langfuse.trace.output", md: "langfuse.observation.metadata", tmd: "langfuse.trace.metadata",
  mdk: "langfuse.observation.metadata.input_key", tmdk: "langfuse.trace.metadata.output.key-2", num: "langfuse.observation.metadata.num", other: "custom.attribute", model: "langfuse.observation.model.name", status: "langfuse.observation.status_message", user: "user.id", name: "langfuse.trace.name" };
export function variants() {
  const out = []; const types = [["image/png", "image/jpeg"], ["application/pdf", "text/plain"], ["audio/mpeg", "image/svg+xml"], ["IMAGE/PNG", "x-world/x-3dmf"], ["video/3gpp", "application/vnd.ms-excel.sheet.macroEnabled.12"]];
  ["plain", "json", "tight", "json2"].forEach((shape, i) => ["raw", "obs", "late"].forEach((how, j) => out.push({ shape, how, types: types[(i * 3 + j) % 5], up: ["stored", "full", "e400", "net", "mismatch", "put500"][(i * 3 + j) % 6], mode: (i + j) % 2 ? "immediate" : "batched", env: j === 1 })));
  return out;
}
const sha = (c) => createHash("sha256").update(Buffer.from(c, "latin1")).digest("base64");
const idOf = (c) => sha(c).replaceAll("+", "-").replaceAll("/", "_").slice(0, 22);
export async function make({ lib, world, variant: v }) {
  if (C1.length % 3) throw new Error("C1");
  const content = { u1: [C1, v.types[0]], u2: [C2, v.types[0]], u1x: [C1X, v.types[0]], u1q: [C1, v.types[1]] };
  const MANY = Array.from({ length: 13 }, (_, i) => "uM" + i); MANY.forEach((u, i) => (content[u] = ["media number " + i + "\xfe", v.types[0]]));
  const uri = (u) => u === "many" ? MANY.map(uri).join(" ") : `data:${content[u][1]};base64,${b64(content[u][0])}`;
  const ref = (u) => u === "uany" ? MANY.map(ref).join(" ") : `@@@langfuseMedia:type=${content[u][1]}|id=${idOf(content[u][0])}|source=base64_data_uri@@@`;
  const text = { t: "hello, wörld; a=b 💥", s: "SECRET-123", d: "$& $1 $$ $` $'", dt: "data: data:text/plain,x data:", e: "@@@langfuseMedia:type=image/png|id=abcdefghijklmnopqrstuv|source=bytes@@@", m1: "data:;base64,QUJD", m2: "data:image/png;base64,", m3: `data:image/png;base64;${b64(C1)}`, m4: "data:image/png;base64,QUJDR", m5: "data:image/png;base64,QQ=", x: "***", c: "CONST", notice: NOTICE };
  const tok = (t) => (t in text ? text[t] : t[0] === "u" || t === "many" ? uri(t) : ref("u" + t.slice(1)));
  const join = (ts) => ts[0] === "n" ? 42 : ts[0] === "emp" ? "" : ts[0] === "sp" ? "  " + text.s + " \n" : ts[0] === "xp" ? "  " + text.x + " \n" : v.shape === "json" ? JSON.stringify({ a: ts.map(tok), text: "ok" }) : v.shape === "json2" ? JSON.stringify({ messages: ts.map((t, i) => ({ role: "user", ["data:" + i]: tok(t) })) }) : v.shape === "tight" ? "(" + ts.map(tok).join(")(") + ")" : ts.map(tok).join("  |\n");
  let got = null;
  return {
    async step(a) {
      const logs0 = world.requests.length; let content0 = "exported";
      const whole = new Map(); // masks that return a fixed value replace the whole attribute
      const mask = a.mask === "none" ? undefined : ({ data }) => {
        const red = (d) => (typeof d === "string" ? d.replaceAll(text.s, text.x) : d);
        switch (a.mask) {
          case "id": return data; case "aid": return Promise.resolve(data);
          case "red": return red(data); case "ared": return Promise.resolve().then(() => red(data)); case "slow": return new Promise((r) => setTimeout(() => r(red(data)), 1500));
          case "throw": throw new Error("mask " + data); case "reject": return Promise.reject(new Error("mask")); case "late": return new Promise((_, r) => setTimeout(() => r("nope"), 700));
          case "partial": if (String(data).includes(text.s)) throw new TypeError("x"); return data;
          case "const": return text.c; case "undef": return undefined; case "null": return null; case "obj": return { masked: [1] }; case "inject": return data + " " + uri("u2"); case "strip": return ["u1x", "u1", "u2", "u1q"].reduce((d, u) => d.replaceAll(uri(u), ""), data);
        }
      };
      const spans = []; const cbs = [];
      const exporter = { export(s, cb) { spans.push(...s.map((x) => [x, structuredClone(x.attributes)])); cbs.push(cb); cb({ code: 0 }); }, async shutdown() {}, async forceFlush() {} };
      const params = { exporter, mask, publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test", exportMode: v.mode, shouldExportSpan: () => true };
      delete process.env.LANGFUSE_MEDIA_UPLOAD_ENABLED;
      if (!a.media) { if (v.env) process.env.LANGFUSE_MEDIA_UPLOAD_ENABLED = "false"; else params.mediaUploadEnabled = false; } else if (v.env) process.env.LANGFUSE_MEDIA_UPLOAD_ENABLED = "true";
      const proc = new lib.otel.LangfuseSpanProcessor(params); delete process.env.LANGFUSE_MEDIA_UPLOAD_ENABLED;
      const provider = new lib.sdkTraceBase.BasicTracerProvider({ spanProcessors: [proc] });
      const attrs = Object.fromEntries(a.attrs.map(([k, ts]) => [KEY[k], join(ts)]));
      const marker = { "marker.num": 42, "marker.list": ["data:image/png", text.s] };
      let span;
      if (v.how === "late") { span = provider.getTracer("langfuse-sdk").startSpan("s"); for (const [k, val] of Object.entries(attrs)) span.setAttribute(k, val); span.setAttributes(marker); }
      else if (v.how === "obs" && a.attrs.every(([k]) => ["in", "out", "mdk"].includes(k))) {
        lib.tracing.setLangfuseTracerProvider(provider); const o = {}; for (const [k, ts] of a.attrs) k === "in" ? (o.input = join(ts)) : k === "out" ? (o.output = join(ts)) : (o.metadata = { input_key: join(ts) });
        span = lib.tracing.startObservation("s", o).otelSpan; span.setAttributes(marker); lib.tracing.setLangfuseTracerProvider(null);
      } else span = provider.getTracer("some-lib").startSpan("s", { attributes: { ...attrs, ...marker } });
      span.end(); await world.drain(); if (["slow", "late"].includes(a.mask)) for (let i = 0; i < a.attrs.length; i++) await world.advance(1500);
      let flushed = "pending"; proc.forceFlush().then(() => (flushed = "resolved"), (e) => (flushed = "rejected " + e)); await world.drain();
      // answer the uploads
      const posts = []; let bytesBad = null;
      for (let round = 0; round < 60; round++) {
        const p = world.pending().filter((r) => r.id > 0 && world.requests.indexOf(r) >= logs0); if (!p.length) { if ([...world.timers.values()].length && flushed === "pending") { await world.advance(1000); continue; } break; }
        for (const r of p) {
          const j = r.json();
          if (r.method === "POST" && r.path === "/api/public/media") {
            const u = Object.keys(content).find((k) => sha(content[k][0]) === j.sha256Hash && content[k][1] === j.contentType); posts.push([j.field, u ?? "unknown " + JSON.stringify(j)]);
            if (u && j.contentLength !== content[u][0].length) bytesBad = "content length " + j.contentLength;
            if (j.traceId !== span.spanContext().traceId || j.observationId !== span.spanContext().spanId) bytesBad = "upload for another span";
            if (v.up === "e400") r.reply(400, {}); else if (v.up === "net") r.fail(new TypeError("fetch failed")); else if (v.up === "stored" || !u) r.reply(200, { uploadUrl: null, mediaId: "m" });
            else r.reply(200, { uploadUrl: "http://upload.test/" + u, mediaId: v.up === "mismatch" ? "other" : idOf(content[u][0]) });
          } else if (r.method === "PUT") {
            const u = r.path.slice(1); if (Buffer.from(r.body).toString("latin1") !== content[u][0]) bytesBad = "other bytes uploaded"; if (r.headers["content-type"] !== content[u][1]) bytesBad = "other content type uploaded";
            r.reply(v.up === "put500" ? 500 : 200, "");
          } else r.reply(200, {});
        }
        await world.drain();
      }
      await world.drain();
      if (spans.length !== 1) content0 = "exported " + spans.length + " times"; else if (flushed !== "resolved") content0 = "flush " + flushed; else if (bytesBad) content0 = bytesBad; else if (world.unhandled.length) content0 = "unhandled " + world.unhandled[0];
      const out = spans[0]?.[1] ?? {};
      if (spans[0] && JSON.stringify(out) !== JSON.stringify(spans[0][0].attributes)) content0 = "attributes changed after export";
      for (const [k, val] of Object.entries(marker)) if (JSON.stringify(out[k]) !== JSON.stringify(val)) content0 = "attribute " + k + " changed";
      got = { out, uploads: [...new Set(posts.map((x) => JSON.stringify(x)))], span: content0 };
    },
    observe(e) {
      // compare concrete strings against the concretised expectation
      const a = e.a; const exp = a.attrs.map(([k], i) => {
        const ts = e.o.attrs[i]; const orig = a.attrs[i][1]; const payload = !["other", "model", "status", "user", "name"].includes(k);
        if (payload && ts.length === 1 && (ts[0] === "notice" || ts[0] === "c") && a.mask !== "none") return text[ts[0]];
        if (payload && ["undef", "null", "obj"].includes(ts[0])) return { undef: undefined, null: null, obj: { masked: [1] } }[ts[0]];
        if (payload && a.mask === "inject") return join(ts.slice(0, -1)) + " " + tok(ts[ts.length - 1]);
        if (a.mask === "strip") return stripExpected(orig, k);
        return join(ts);
      });
      const attrs = a.attrs.map(([k], i) => { const g = got.out[KEY[k]]; const x = exp[i]; return g === x || (x && typeof x === "object" && JSON.stringify(g) === JSON.stringify(x)) ? e.o.attrs[i] : { got: g, expected: x }; });
      const known = new Set(a.attrs.map(([k]) => KEY[k]).concat(["marker.num", "marker.list"]));
      for (const k of Object.keys(got.out)) if (!known.has(k) && !/^langfuse\.(internal|observation\.type|environment|release)/.test(k)) return { attrs: "unexpected attribute " + k, uploads: e.o.uploads, span: got.span };
      const up = new Set(got.uploads); for (const f of ["input", "output", "metadata"]) { const all = MANY.map((u) => JSON.stringify([f, u])); if (all.every((x) => up.has(x))) { all.forEach((x) => up.delete(x)); up.add(JSON.stringify([f, "many"])); } } const same = e.o.uploads.length === up.size && e.o.uploads.every((u) => up.has(JSON.stringify(u)));
      return { attrs, uploads: same ? e.o.uploads : got.uploads, span: got.span };
    },
    dispose() {},
  };
  function stripExpected(orig, k) { const payload = !["other", "model", "status", "user", "name"].includes(k); return payload ? ["u1x", "u1", "u2", "u1q"].reduce((d, u) => d.replaceAll(uri(u), ""), join(orig)) : join(orig); }
}
