// Replays MediaValue.tla into LangfuseMedia, LangfuseMediaReference and
// MediaManager.parseReferenceString.
import { createHash } from "node:crypto";
const all = Uint8Array.from({ length: 256 }, (_, i) => i);
const CONTENT = { 1: Uint8Array.of(0), 2: Uint8Array.of(255, 254), 3: Uint8Array.of(251, 239, 190), 4: Buffer.from("héllo ∀ @@@langfuseMedia:"), 5: all, 6: Uint8Array.from({ length: 100_003 }, (_, i) => (i * 31 + (i >> 8)) & 255), 7: Buffer.from("c1035") /* an id with several + and / */ };
const bytes = (c) => new Uint8Array(CONTENT[c]), b64 = (c) => Buffer.from(CONTENT[c]).toString("base64");
const hash = (c) => createHash("sha256").update(CONTENT[c]).digest("base64"), mid = (c) => hash(c).replaceAll("+", "-").replaceAll("/", "_").slice(0, 22);
const who = (f, x) => { for (const c of Object.keys(CONTENT)) if (f(c) === x) return Number(c); return "other " + String(x).slice(0, 60); };
const SHAPE = { array: bytes, buffer: (c) => Buffer.from(CONTENT[c]), view: (c) => { const b = new Uint8Array(CONTENT[c].length + 7).fill(9); b.set(CONTENT[c], 3); return b.subarray(3, 3 + CONTENT[c].length); }, copy: (c) => Uint8Array.from([...CONTENT[c]]) };
const BADURI = { undefined: undefined, null: null, number: 5, empty: "", noscheme: "image/png;base64,AAAA", nocomma: "data:image/png;base64", nodata: "data:image/png;base64,", notbase64: "data:text/plain,hello", notype: "data:;base64,AAAA", looksbase64: "data:text/base64,AAAA", param: "data:text/plain;x=base64,AAAA", badchars: "data:image/png;base64,*#!é", uppercase: "DATA:image/png;base64,AAAA", object: { startsWith: 1 } };
const BADBYTES = { undefined: undefined, null: null, string: "abc", number: 7, object: { a: 1 } };
export function variants() { return [{ crypto: true }]; }
export async function make({ lib, world }) {
  const { LangfuseMedia, LangfuseMediaReference } = lib.core, { MediaManager } = lib.client; const made = []; let last, seen, ok = "ok", fetched = "none"; const bad = (m) => { if (ok === "ok") ok = m; };
  const digest = crypto.subtle.digest; // as the platform: only buffers can be hashed
  Object.defineProperty(Object.getPrototypeOf(crypto.subtle), "digest", { value: async (a, d) => { if (!ArrayBuffer.isView(d) && !(d instanceof ArrayBuffer)) throw new TypeError("not a BufferSource"); return digest(a, d); }, configurable: true, writable: true });
  const decode = (uri) => { const m = /^data:([^,]*);base64,([A-Za-z0-9+/]*={0,2})$/s.exec(uri); return m && m[2].length % 4 === 0 ? { type: m[1], bytes: Buffer.from(m[2], "base64") } : null; };
  return {
    async step(a, e) {
      let m; try {
        if (a.op === "bytes") { const b = SHAPE[a.sh](a.c); m = new LangfuseMedia({ source: "bytes", contentBytes: b, contentType: a.t }); }
        else if (a.op === "uri") m = new LangfuseMedia({ source: "base64_data_uri", base64DataUri: `data:${a.t}${a.sh === "param" ? ";name=x.y" : ""};base64,${a.sh === "unpadded" ? b64(a.c).replace(/=+$/, "") : b64(a.c)}` });
        else if (a.op === "baduri") m = new LangfuseMedia({ source: "base64_data_uri", base64DataUri: BADURI[a.b] });
        else if (a.op === "badbytes") m = new LangfuseMedia({ source: "bytes", contentBytes: BADBYTES[a.b], contentType: "image/png" });
        else if (a.op === "notype") m = new LangfuseMedia({ source: "bytes", contentBytes: bytes(a.c) });
        else if (a.op === "again") { const p = made[a.i - 1], uri = p.base64DataUri; m = a.how === "uri" ? new LangfuseMedia({ source: "base64_data_uri", base64DataUri: uri }) : new LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array(decode(uri).bytes), contentType: p._contentType }); }
        else if (a.op === "fetch") {
          const tag = `@@@langfuseMedia:type=${a.t}|id=${mid(a.c)}|source=bytes@@@`, ref = new LangfuseMediaReference({ mediaId: mid(a.c), contentType: a.t, url: "https://store.test/x?sig=1&y=é", referenceString: tag, contentLength: CONTENT[a.c].length });
          if (JSON.stringify({ r: [ref] }) !== JSON.stringify({ r: [tag] })) bad("reference does not serialise to its tag");
          let res = "pending", val; (a.f === "bytes" ? ref.fetchBytes() : a.f === "base64" ? ref.fetchBase64() : ref.fetchDataUri()).then((v) => { res = "resolved"; val = v; }, () => { res = "rejected"; });
          await world.drain(); const r = world.pending()[0]; if (!r) bad("no request"); else { if (r.method !== "GET" || r.url !== ref.url || Object.keys(r.headers).some((h) => /auth|langfuse/i.test(h))) bad("request"); if (a.o === "ok") r.reply(200, Buffer.from(CONTENT[a.c])); else if (a.o === "net") r.fail(); else if (a.o === "body") { r.reply(403, Buffer.from(CONTENT[a.c])); } else r.reply(a.o === "e404" ? 404 : 500, "<Error/>"); }
          await world.drain(); fetched = res;
          if (res === "resolved") { if (a.f === "bytes" ? val instanceof Uint8Array && !Buffer.compare(Buffer.from(val), Buffer.from(CONTENT[a.c])) : val === (a.f === "base64" ? b64(a.c) : `data:${a.t};base64,${b64(a.c)}`)) fetched = a.f; else fetched = "other " + String(val).slice(0, 60); }
        } else if (a.op === "expiry") {
          const at = { none: undefined, junk: "soon-ish", past: new Date(world.now - 1000).toISOString(), edge: new Date(world.now).toISOString(), soon: new Date(world.now + 59_000).toISOString(), later: new Date(world.now + 61_000).toISOString() }[a.d];
          const ref = new LangfuseMediaReference({ mediaId: "x", contentType: "image/png", url: "https://store.test/x", referenceString: "r", urlExpiry: at }); fetched = (a.th === "zero" ? ref.isUrlExpired(0) : ref.isUrlExpired()) === true ? "expired" : "valid";
        }
      } catch (e) { bad("threw " + e.message); m = null; }
      made.push(m); last = m; seen = await this.look(e.o);
    },
    async look(e) {
      if (world.unhandled.length) bad("unhandled " + world.unhandled[0]);
      if ("fetched" in e) return { fetched, ok };
      const g = async (f) => { try { return await f(); } catch (x) { bad("threw " + x.message); return null; } };
      const [id, tag, h, again] = await Promise.all([g(() => last.getId()), g(() => last.getTag()), g(() => last.getSha256Hash()), g(() => last.getId())]); const uri = await g(() => last.base64DataUri), js = await g(() => JSON.parse(JSON.stringify({ last }))?.last);
      if (id !== again) bad("id changed"); if (js !== (uri ?? null)) bad("JSON form"); if ((id === null) !== (h === undefined)) bad("hash without id"); if (h !== undefined && who(hash, h) !== who(mid, id)) bad("hash");
      let t = "none"; if (tag !== null) { try { const p = MediaManager.parseReferenceString(tag); t = { id: who(mid, p.mediaId), type: p.contentType, source: p.source }; } catch (x) { t = "threw " + x.message; } }
      const has = e.id !== 0; const d = has && typeof uri === "string" ? decode(uri) : null;
      // the data URI and length of a value without content are not judged beyond not throwing
      return { id: id === null ? 0 : who(mid, id), tag: t, uri: !has ? 0 : d ? who((c) => Buffer.from(CONTENT[c]).toString("latin1"), d.bytes.toString("latin1")) : "undecodable", len: !has ? 0 : last.contentLength === CONTENT[e.id].length ? e.id : "length " + last.contentLength, ok };
    },
    observe() { return seen; },
    dispose() { Object.defineProperty(Object.getPrototypeOf(crypto.subtle), "digest", { value: digest, configurable: true, writable: true }); },
  };
}
