// Replays MediaUpload.tla behaviours into uploadMedia (directly, through the span processor, through createItem).
import { createHash } from "node:crypto";
const BYTES = [new Uint8Array([1, 2, 3, 255, 0]), new TextEncoder().encode("héllo"), Buffer.concat([Buffer.from("before"), Buffer.from("pooled bytes \xff", "latin1"), Buffer.from("after")]).subarray(6, 19), new Uint8Array(4000).map((_, i) => i * 7)];
const BIG = new Uint8Array(11_000_000).map((_, i) => i * 31 + (i >> 8));
const HOSTS = ["https://bucket.s3.amazonaws.com/k?sig=1", "https://storage.googleapis.com/b/o", "https://b.storage.googleapis.com/x", "https://storage.googleapis.com.evil.test/x", "http://minio.test:9000/b?a=storage.googleapis.com", "https://x.blob.core.windows.net/c"];
export function variants() {
  const out = []; for (let i = 0; i < 12; i++) out.push({ i, via: ["direct", "direct", "span", "item"][i % 4], bytes: BYTES[(i + (i >> 2)) % 4], type: ["image/png", "text/plain", "application/pdf"][(i + 1) % 3], url: HOSTS[i % 6], base: i % 4 === 0 ? 250 : 1000, rand: [0, 0.999999, 0.5][i % 3] });
  out.push({ i: 15, via: "direct", bytes: BIG, type: "video/mp4", url: HOSTS[3], base: 1000, rand: 0.25 });
  return out;
}
const realRandom = Math.random;
export async function make({ lib, world, variant: v }) {
  let r0 = 0, done = null, content = "ok", cur = null, t0 = 0, failedAt = 0, lastStatus; const bad = (m) => { if (content === "ok") content = m; };
  const sha = createHash("sha256").update(v.bytes).digest("base64"), id = sha.replaceAll("+", "-").replaceAll("/", "_").slice(0, 22);
  const find = (p) => world.pending().filter((r) => world.requests.indexOf(r) >= r0).find(p);
  const isPost = (r) => r.method === "POST" && r.path === "/api/public/media", isPatch = (r) => r.method === "PATCH" && r.path === "/api/public/media/" + id, isPut = (r) => r.method === "PUT" && r.url === v.url;
  const client = new lib.client.LangfuseClient({ publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test" });
  let via;
  return {
    async step(a) {
      switch (a.op) {
        case "start": {
          r0 = world.requests.length; done = { st: "pending" }; const st = done; t0 = world.now; lastStatus = undefined;
          via = v.via === "span" && (a.media !== "ok" || a.retries !== 3) ? "direct" : v.via === "item" && a.retries !== 3 ? "direct" : v.via;
          let media;
          if (a.media === "ok") media = via === "span" ? null : v.i % 2 ? new lib.core.LangfuseMedia({ source: "bytes", contentBytes: v.bytes, contentType: v.type }) : new lib.core.LangfuseMedia({ source: "base64_data_uri", base64DataUri: `data:${v.type};base64,${Buffer.from(v.bytes).toString("base64")}` });
          else if (a.media === "empty") media = new lib.core.LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array(0), contentType: v.type });
          else if (a.media === "notype") media = new lib.core.LangfuseMedia({ source: "bytes", contentBytes: v.bytes, contentType: undefined });
          else media = new lib.core.LangfuseMedia({ source: "base64_data_uri", base64DataUri: "data:nope" });
          let p;
          if (via === "direct") { const o = { apiClient: client.api, media, field: "output", traceId: "tr", observationId: "ob" }; if (!(a.retries === 3 && v.base === 1000)) { o.maxRetries = a.retries; o.baseDelay = v.base; } cur = { base: v.base, want: { traceId: "tr", observationId: "ob", field: "output" } }; p = lib.core.uploadMedia(o); }
          else if (via === "span") {
            const proc = new lib.otel.LangfuseSpanProcessor({ exporter: { export: (s, cb) => cb({ code: 0 }), shutdown: async () => {}, forceFlush: async () => {} }, publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test", exportMode: "immediate" });
            const s = new lib.sdkTraceBase.BasicTracerProvider({ spanProcessors: [proc] }).getTracer("langfuse-sdk").startSpan("x"); s.setAttribute("langfuse.trace.output", `data:${v.type};base64,${Buffer.from(v.bytes).toString("base64")}`); s.end();
            cur = { base: 1000, want: { traceId: s.spanContext().traceId, observationId: s.spanContext().spanId, field: "output" } }; await world.drain(); p = proc.forceFlush();
          } else {
            cur = { base: 1000, want: { datasetId: "ds", datasetItemId: "it", field: "input" } };
            p = client.dataset.createItem({ datasetName: "d", id: "it", input: { m: media } }); p.catch(() => {}); await world.drain();
            find((r) => r.method === "GET" && r.path.includes("datasets"))?.reply(200, { id: "ds", name: "d" });
          }
          p.then(() => (st.st = "resolved"), () => (st.st = "rejected")); break;
        }
        case "post": {
          const r = find(isPost); if (!r) return bad("no upload target requested"); const j = r.json();
          const want = { ...cur.want, contentLength: v.bytes.length, contentType: v.type, sha256Hash: sha }; for (const k of Object.keys(want)) if (j[k] !== want[k]) bad(`${k}: ${j[k]} expected ${want[k]}`);
          if (a.o === "stored") r.reply(200, { mediaId: id, uploadUrl: null }); else if (a.o === "target") r.reply(200, { mediaId: id, uploadUrl: v.url }); else if (a.o === "mismatch") r.reply(200, { mediaId: "x" + id.slice(1), uploadUrl: v.url }); else if (a.o === "e400") r.reply(400, {}); else r.fail();
          t0 = world.now; break;
        }
        case "put": {
          const r = find(isPut); if (!r) return bad("no PUT in flight");
          if (Buffer.compare(Buffer.from(r.body), Buffer.from(v.bytes))) bad("other bytes sent"); if (r.headers["content-type"] !== v.type) bad("content type header");
          const gcs = v.i % 6 === 1 || v.i % 6 === 2;
          if (gcs ? r.headers["x-amz-checksum-sha256"] || r.headers["x-ms-blob-type"] : r.headers["x-amz-checksum-sha256"] !== sha || r.headers["x-ms-blob-type"] !== "BlockBlob") bad("storage headers");
          if (r.headers.authorization) bad("credentials sent to the storage");
          failedAt = world.now; lastStatus = a.o; a.o === "net" ? r.fail() : r.reply(Number(a.o), "body-" + a.o, { "content-type": "text/plain" }); break;
        }
        case "wait": {
          const min = cur.base * 2 ** (a.k - 1); Math.random = () => v.rand; const n0 = world.requests.length;
          await world.advance(Math.max(0, failedAt + min - 1 - world.now)); if (world.requests.length !== n0) bad("retried too early");
          await world.advance(failedAt + min + 1000 - world.now); break;
        }
        case "patch": {
          const r = find(isPatch); if (!r) return bad("status not reported"); const j = r.json();
          if (j.uploadHttpStatus !== Number(lastStatus)) bad("reported status " + j.uploadHttpStatus); if (j.uploadHttpError !== "body-" + lastStatus) bad("reported error " + j.uploadHttpError); if (j.uploadTimeMs !== world.now - t0) bad("reported time " + j.uploadTimeMs + " expected " + (world.now - t0)); if (j.uploadedAt !== new Date(world.now).toISOString()) bad("reported date");
          a.o === "ok" ? r.reply(200, {}) : r.reply(400, {}); break;
        }
        case "again": done = null; break;
      }
      if (a.op === "put" || a.op === "start") Math.random = () => v.rand;
      await world.drain();
    },
    observe(e) {
      const reqs = world.requests.slice(r0); const log = [];
      for (const r of reqs) { if (isPost(r)) log.push(["post"]); else if (isPut(r)) log.push(["put"]); else if (isPatch(r)) log.push(["patch", String(r.json().uploadHttpStatus)]); else if (r.method === "GET" && r.path.includes("datasets")) continue; else if (r.method === "POST" && r.path.endsWith("/dataset-items")) { if (r.state === "pending") { r.reply(200, { id: "it" }); } log.created = true; } else log.push([r.method + " " + r.url]); }
      if (!done) return { log: [], res: "none", content };
      let res = done.st;
      if (via === "span") { res = e.o.res; if ((done.st === "pending") !== (e.o.res === "pending")) res = "flush " + done.st; } // upload failures never surface
      if (via === "item") { const want = e.o.res; if (want === "resolved") res = log.created ? "resolved" : done.st; else { if (log.created) bad("item created although the upload did not succeed"); } }
      if (world.unhandled.length) bad("unhandled " + world.unhandled[0]);
      return { log: log.map((x) => x), res, content };
    },
    dispose() { Math.random = realRandom; },
  };
}
