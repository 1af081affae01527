// Controlled environment for the code under test: virtual clock and timers,
// controlled HTTP, synchronous hashing, microtask draining.
import { createHash } from "node:crypto";
import { format } from "node:util";
const real = { setImmediate: globalThis.setImmediate, setTimeout: globalThis.setTimeout, Date: globalThis.Date, fetch: globalThis.fetch };
export const BASE_TIME = Date.UTC(2025, 0, 15, 12, 0, 0);

export class World {
  constructor() { this.now = BASE_TIME; this.timers = new Map(); this.seq = 0; this.requests = []; this.nextReq = 0; this.unhandled = []; this.logs = []; this.onRequest = null; }
  install() {
    const w = this; World.current = w;
    if (!World.installed) {
      World.installed = true;
      class VDate extends real.Date {
        constructor(...a) { if (a.length === 0) super(World.current.now); else super(...a); }
        static now() { return World.current.now; }
      }
      globalThis.Date = VDate;
      const mk = (repeat) => (fn, ms, ...args) => {
        const cw = World.current; const id = ++cw.seq; const t = { id, at: cw.now + Math.max(0, Number(ms) || 0), ms: Number(ms) || 0, fn, args, repeat, ref: true, world: cw, order: id,
          ref() { this._ref = true; return this; }, unref() { this._ref = false; return this; }, hasRef() { return this._ref; }, refresh() { this.at = cw.now + this.ms; return this; }, [Symbol.toPrimitive]() { return id; }, _ref: true };
        cw.timers.set(id, t); return t;
      };
      globalThis.setTimeout = mk(false); globalThis.setInterval = mk(true);
      const clr = (t) => { if (t == null) return; const id = typeof t === "object" ? t.id : Number(t); const cw = typeof t === "object" ? t.world ?? World.current : World.current; cw.timers.delete(id); };
      globalThis.clearTimeout = clr; globalThis.clearInterval = clr;
      globalThis.fetch = (url, init) => World.current.doFetch(url, init);
      const subtle = globalThis.crypto?.subtle;
      if (subtle) { const digest = async (alg, data) => { const name = typeof alg === "string" ? alg : alg.name; const h = createHash(name.replace("-", "").toLowerCase()).update(Buffer.from(data.buffer ? new Uint8Array(data.buffer, data.byteOffset, data.byteLength) : new Uint8Array(data))).digest(); return h.buffer.slice(h.byteOffset, h.byteOffset + h.length); };
        Object.defineProperty(Object.getPrototypeOf(subtle), "digest", { value: digest, configurable: true, writable: true }); }
      process.on("unhandledRejection", (e) => World.current.unhandled.push(String(e && e.message || e)));
      for (const k of ["log", "info", "warn", "error", "debug"]) { const o = console[k].bind(console); console["real_" + k] = o; console[k] = (...a) => { World.current.logs.push([k, World.current.inspectLogs ? format(...a) : a.map(String).join(" ")]); }; }
    }
    return this;
  }
  doFetch(url, init = {}) {
    const w = this; let resolve, reject; const p = new Promise((a, b) => { resolve = a; reject = b; });
    let u = url, i = init;
    if (typeof Request !== "undefined" && url instanceof Request) { u = url.url; i = { method: url.method, headers: url.headers, ...init }; }
    const headers = {}; const h = i.headers; if (h) { if (typeof h.forEach === "function" && !Array.isArray(h)) h.forEach((v, k) => (headers[k.toLowerCase()] = v)); else for (const [k, v] of Array.isArray(h) ? h : Object.entries(h)) if (v !== undefined) headers[k.toLowerCase()] = k.toLowerCase() in headers ? headers[k.toLowerCase()] + ", " + v : v; }
    const U = new URL(String(u), "http://relative.invalid");
    const req = { id: ++w.nextReq, method: (i.method || "GET").toUpperCase(), url: String(u), path: U.pathname, query: U.searchParams, host: U.host, headers, body: i.body, at: w.now, state: "pending", keepalive: i.keepalive, credentials: i.credentials,
      json() { try { return typeof this.body === "string" ? JSON.parse(this.body) : this.body; } catch { return undefined; } },
      reply(status, body, hdrs = {}, opt) { if (this.state !== "pending") return false; this.state = "answered:" + status; resolve(mkResponse(status, body, hdrs, this.url, opt)); return true; },
      fail(err) { if (this.state !== "pending") return false; this.state = "failed"; reject(err ?? new TypeError("fetch failed")); return true; } };
    if (i.signal) { if (i.signal.aborted) { req.bornAborted = true; req.fail(i.signal.reason ?? new Error("aborted")); } else i.signal.addEventListener?.("abort", () => req.fail(i.signal.reason ?? new DOMException("This operation was aborted", "AbortError"))); }
    w.requests.push(req); if (w.onRequest) w.onRequest(req);
    return p;
  }
  pending(pred = () => true) { return this.requests.filter((r) => r.state === "pending" && pred(r)); }
  async drain(rounds = 3) { for (let i = 0; i < rounds; i++) await new Promise((r) => real.setImmediate(r)); }
  // Advance virtual time, firing due timers in order, draining after each.
  async advance(ms) {
    const target = this.now + ms;
    for (;;) {
      let best = null; for (const t of this.timers.values()) if (t.at <= target && (!best || t.at < best.at || (t.at === best.at && t.order < best.order))) best = t;
      if (!best) break;
      this.now = Math.max(this.now, best.at);
      if (best.repeat) { best.at = this.now + best.ms; best.order = ++this.seq; } else this.timers.delete(best.id);
      best.fn(...best.args); await this.drain(2);
    }
    this.now = target; await this.drain(2);
  }
  refdTimers() { return [...this.timers.values()].filter((t) => t._ref); }
}
export function mkResponse(status, body, hdrs, url, opt) {
  const text = body === undefined || body === null ? "" : typeof body === "string" ? body : Buffer.isBuffer(body) || body instanceof Uint8Array ? null : JSON.stringify(body);
  const bytes = text === null ? new Uint8Array(body) : new TextEncoder().encode(text);
  const headers = new Headers(hdrs); if (!headers.has("content-type") && text !== null) headers.set("content-type", "application/json");
  const broken = () => { if (opt?.unreadable) throw new TypeError("terminated"); }; // the connection is lost while the body is read
  const mk = () => ({ status, ok: status >= 200 && status < 300, statusText: "S" + status, headers, url, redirected: false, type: "basic", bodyUsed: false, get body() { if (opt?.unreadable) return new ReadableStream({ start(c) { c.error(new TypeError("terminated")); } }); return bytes.length ? new ReadableStream({ start(c) { c.enqueue(bytes); c.close(); } }) : null; },
    async text() { broken(); return text === null ? Buffer.from(bytes).toString("utf8") : text; },
    async json() { return JSON.parse(await this.text()); },
    async arrayBuffer() { broken(); return bytes.buffer.slice(bytes.byteOffset, bytes.byteOffset + bytes.length); },
    async blob() { broken(); return new Blob([bytes]); },
    async bytes() { broken(); return bytes; },
    clone() { return mk(); } });
  return mk();
}
export async function settle(p, into, key) { // track settlement of a promise
  into[key] = { state: "pending" };
  try { const v = await p; into[key] = { state: "resolved", value: v }; } catch (e) { into[key] = { state: "rejected", error: e }; }
}
