// Replays AiSdkMedia.tla cases.
import { createHash } from "node:crypto";
const b64 = (s) => Buffer.from(s, "latin1").toString("base64");
const CONTENT = { c1: "image one \xff\xd8", c2: "other bytes", c3: "third\x00" };
const sha = (c) => createHash("sha256").update(Buffer.from(c, "latin1")).digest("base64");
const idOf = (c) => sha(c).replaceAll("+", "-").replaceAll("/", "_").slice(0, 22);
export function variants() { return [{ split: false, mt: "image/png" }, { split: true, mt: "application/pdf" }]; }
export async function make({ lib, world, variant: v }) {
  let got;
  const ref = (c, mt) => `@@@langfuseMedia:type=${mt}|id=${idOf(CONTENT[c])}|source=bytes@@@`;
  const BAD = "not base64 at all!";
  function part(p, v6, mt, r) { // r: content replaced by its reference
    const c = { b1: "c1", b2: "c2", i1: "c1", d1: "c3" }[p];
    const raw = p === "d1" ? `data:${mt};base64,${b64(CONTENT.c3)}` : c ? b64(CONTENT[c]) : p === "http" ? "https://x.test/" + b64(CONTENT.c1) : p === "bad" ? BAD : p === "dnb" ? "data:text/plain,hello" : p === "dnone" ? "data:image/png;base64," : b64(CONTENT.c1);
    const val = r ? ref(c, mt) : raw;
    if (p === "txt") return { type: "text", [v6 ? "text" : "content"]: "hello \"q\" $& é" };
    if (p === "txtb") return { type: "text", [v6 ? "text" : "content"]: `look: ${b64(CONTENT.c1)} and ${b64(CONTENT.c2)}$1` };
    if (p === "oth") return v6 ? { type: "tool-call", toolCallId: "1", args: { a: [null, 1] } } : { type: "tool_call", id: "1", arguments: {} };
    if (v6) { const o = p === "i1" ? { type: "file", image: val, mediaType: mt } : { type: "file", data: val, mediaType: mt, filename: "f" }; if (p === "nomt") { delete o.mediaType; o.data = b64("unique " + "nomt"); } return o; }
    const o = { type: "blob", mime_type: mt, modality: "image", content: val }; if (p === "nomt") { delete o.mime_type; o.content = b64("unique nomt"); } return o;
  }
  const build = (a, outs) => { const v6 = a.attr.startsWith("ai."); const ps = a.parts.map((p, i) => part(p, v6, v.mt, outs && outs[i] === "ref"));
    const k = v6 ? "content" : "parts"; const msgs = v.split ? ps.map((p, i) => ({ role: ["assistant", "tool", "system"][i % 3], [k]: [p] })).flatMap((m, i) => (i ? [{ role: "user" }, m] : [{ role: "system", [k]: null }, m])) : [{ role: "system", [k]: v6 ? "sys" : [] }, { role: "user", [k]: ps }]; return JSON.stringify(msgs); };
  return {
    async step(a) {
      const spans = []; const r0 = world.requests.length;
      const exporter = { export(s, cb) { spans.push(...s); cb({ code: 0 }); }, async shutdown() {}, async forceFlush() {} };
      const proc = new lib.otel.LangfuseSpanProcessor({ exporter, publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test", exportMode: "immediate", shouldExportSpan: () => true });
      const provider = new lib.sdkTraceBase.BasicTracerProvider({ spanProcessors: [proc] });
      const s = provider.getTracer(a.scope).startSpan("s", { attributes: { [a.attr]: build(a), "ai.response.text": b64(CONTENT.c1) } }); s.end(); await world.drain();
      const ups = new Set(); let span = spans.length === 1 ? "ok" : "exported " + spans.length;
      for (const r of world.requests.slice(r0)) { const j = r.json(); const c = Object.keys(CONTENT).find((k) => sha(CONTENT[k]) === j?.sha256Hash); ups.add(JSON.stringify([j?.field, c ?? "unknown"])); if (c && (j.contentLength !== CONTENT[c].length || j.contentType !== v.mt)) span = "upload metadata"; r.reply(200, { mediaId: "m", uploadUrl: null }); }
      if (spans[0]?.attributes["ai.response.text"] !== b64(CONTENT.c1)) span = "other attribute changed";
      await world.drain(); got = { val: spans[0]?.attributes[a.attr], ups, span };
    },
    observe(e) {
      const want = build(e.a, e.o.out); const same = e.o.uploads.length === got.ups.size && e.o.uploads.every((u) => got.ups.has(JSON.stringify(u)));
      return { out: got.val === want ? e.o.out : { got: got.val, want }, uploads: same ? e.o.uploads : [...got.ups], span: got.span };
    },
    dispose() {},
  };
}
