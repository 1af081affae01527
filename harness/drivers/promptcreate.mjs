// Replays PromptCreate.tla into the prompt manager.
import { isDeepStrictEqual } from "node:util";
export function variants() { return [{ name: "p" }, { name: "folder/é 1", alias: true }]; }
const piece = (p, i, n) => ({ msg: { role: "user", content: `hi {{x}} ${i} ${n}` }, typed: { type: "chatmessage", role: "system", content: "" }, ph: { type: "placeholder", name: "ph" + i }, phx: { type: "placeholder", name: "", role: "assistant", content: "c" }, extra: { role: "tool", content: "{\"a\": 1}", tool_call_id: "t" + i } })[p];
const shown = (p, i, n) => { const x = piece(p, i, n); return p === "ph" || p === "phx" ? { type: "placeholder", name: x.name } : { ...x, type: "chatmessage" }; };
const EXTRA = { labels: ["production", "é"], labels0: [], tags: ["t1", ""], config: { t: 0, n: { a: null } }, confignull: null, commit: "why \"é\"", commitempty: "" };
const KEY = { labels: "labels", labels0: "labels", tags: "tags", config: "config", confignull: "config", commit: "commitMessage", commitempty: "commitMessage" };
export async function make({ lib, world, variant: v }) {
  const client = new lib.client.LangfuseClient({ publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test" }); let ok = "ok"; const bad = (m) => { if (ok === "ok") ok = m; }; const calls = [];
  const build = (a, n) => ({ name: v.name + n, ...(a.type === "none" ? {} : { type: a.type }), prompt: a.type === "chat" ? a.pieces.map((p, i) => piece(p, i, n)) : "text {{x}} #" + n, ...Object.fromEntries(a.extras.map((x) => [KEY[x], EXTRA[x]])) });
  return {
    async step(a) {
      if (a.op === "create") {
        const n = calls.length + 1, c = { a, n, st: "out" }; calls.push(c); const body = build(a, n), twin = build(a, n), r0 = world.requests.length;
        (v.alias ? client.createPrompt : client.prompt.create.bind(client.prompt))(body).then((x) => { c.st = "ok"; c.x = x; }, (e) => { c.st = "failed"; c.e = e; });
        await world.drain(); if (!isDeepStrictEqual(body, twin)) bad("the caller's prompt was modified"); const rs = world.requests.slice(r0); if (rs.length !== 1) return bad(rs.length + " requests"); c.r = rs[0];
        if (c.r.method !== "POST" || c.r.path !== "/api/public/v2/prompts") bad("request " + c.r.method + " " + c.r.path);
      } else if (a.op === "change") {
        const n = calls.length + 1, c = { a, n, st: "out" }; calls.push(c); const name = v.name + n, r0 = world.requests.length;
        const up = (x) => (v.alias ? client.updatePrompt : client.prompt.update.bind(client.prompt))(x), del = (...x) => client.prompt.delete(...x);
        const newLabels = a.c === "update0" ? [] : ["production", "é", ""]; const body = { name, version: n * 7, newLabels };
        const p = { update: () => up(body), update0: () => up(body), deleteAll: () => del(name), deleteVersion: () => del(name, { version: n * 3 }), deleteZero: () => del(name, { version: 0 }), deleteLabel: () => del(name, { label: "é &=" + n }) }[a.c]();
        p.then((x) => { c.st = "ok"; c.x = x; }, (e) => { c.st = "failed"; c.e = e; }); await world.drain();
        const rs = world.requests.slice(r0); if (rs.length !== 1) return bad(rs.length + " requests"); c.r = rs[0];
        const base = "/api/public/v2/prompts/" + encodeURIComponent(name), sent = [c.r.method, c.r.path.replace(/%2f/gi, "%2F"), Object.fromEntries(c.r.query), a.c.startsWith("update") ? c.r.json() : c.r.body ?? null];
        const want = a.c.startsWith("update") ? ["PATCH", base + "/versions/" + n * 7, {}, { newLabels }] : ["DELETE", base, { deleteAll: {}, deleteVersion: { version: String(n * 3) }, deleteZero: { version: "0" }, deleteLabel: { label: "é &=" + n } }[a.c], null];
        if (!isDeepStrictEqual(sent, want)) bad("sent " + JSON.stringify(sent) + " for " + JSON.stringify(want)); if (!isDeepStrictEqual(body, { name, version: n * 7, newLabels })) bad("the caller's value was modified");
      } else {
        const c = calls[a.i - 1]; if (!c.r) return; if (c.a.op === "change" && (a.o === "text" || a.o === "chat")) { c.server = { name: "server " + c.n, version: 10 + c.n, type: a.o, prompt: "u" + c.n, labels: ["l" + c.n], tags: [], config: null }; c.a.c.startsWith("update") ? c.r.reply(200, c.server) : c.r.reply(204, undefined); await world.drain(); return; } if (a.o === "text" || a.o === "chat") { c.server = { name: "server " + c.n, version: 10 + c.n, type: a.o, prompt: a.o === "chat" ? [{ role: "user", content: "from {{x}} " + c.n }, { type: "placeholder", name: "q" }, { type: "chatmessage", role: "system", content: "s" }] : "from {{x}} " + c.n, labels: ["l" + c.n], tags: ["g"], config: { s: c.n }, commitMessage: c.n % 2 ? "cm" : null }; c.r.reply(200, c.server); }
        else { c.o = a.o; a.o === "net" ? c.r.fail() : c.r.reply(Number(a.o.slice(1)), { message: "no" }); }
        await world.drain();
      }
    },
    observe() {
      if (world.unhandled.length) bad("unhandled " + world.unhandled[0]); if (world.requests.length !== calls.length) bad("requests");
      return { ok, calls: calls.map((c) => {
        if (c.a.op === "change") { if (c.st === "failed" && c.o !== "net" && c.e?.statusCode !== Number(c.o?.slice(1))) bad("rejected with " + c.e); let got = "none"; if (c.st === "ok") { if (c.a.c.startsWith("update")) { got = "updated"; if (!isDeepStrictEqual({ ...c.x }, c.server)) bad("updated prompt " + JSON.stringify(c.x)); } else got = c.x === undefined ? "nothing" : "something"; } return { type: c.a.c, pieces: [], extras: [], st: c.st, got }; }
        const j = c.r?.json() ?? {}; const pieces = c.a.type === "chat" ? (j.prompt ?? []).map((m, i) => [m.type, isDeepStrictEqual(m, shown(c.a.pieces[i], i, c.n)) ? c.a.pieces[i] : "other " + JSON.stringify(m)]) : (j.prompt !== "text {{x}} #" + c.n && bad("text " + j.prompt), []);
        const { name, type, prompt, ...rest } = j; if (name !== v.name + c.n) bad("name"); const want = Object.fromEntries(c.a.extras.map((x) => [KEY[x], EXTRA[x]])); if (!isDeepStrictEqual(rest, want)) bad("sent with " + JSON.stringify(rest));
        let got = "none"; if (c.st === "ok") { const x = c.x, s = c.server; got = x.type; if (x.isFallback !== false) bad("isFallback"); for (const k of ["name", "version", "labels", "tags", "config", "commitMessage"]) if (!isDeepStrictEqual(x[k], s[k])) bad(k + " of the result"); const sp = s.type === "chat" ? s.prompt.map((m) => (m.type === "placeholder" ? m : { ...m, type: "chatmessage" })) : s.prompt; if (!isDeepStrictEqual(x.prompt, sp)) bad("content of the result");
          const out = x.compile({ x: "X" }, { q: [{ role: "assistant", content: "ph" }] }); if (!isDeepStrictEqual(s.type === "chat" ? out.map((m) => [m.role, m.content]) : out, s.type === "chat" ? [["user", "from X " + c.n], ["assistant", "ph"], ["system", "s"]] : "from X " + c.n)) bad("compiled result " + JSON.stringify(out));
          const js = JSON.parse(x.toJSON()); for (const k of ["name", "version", "labels", "tags", "config", "type"]) if (!isDeepStrictEqual(js[k], s[k])) bad("toJSON " + k); const plain = s.type === "chat" ? s.prompt.map((m) => { const { type, ...r } = m; return type === "placeholder" ? m : r; }) : s.prompt; if (js.isFallback !== false || !isDeepStrictEqual(js.prompt, plain)) bad("toJSON " + JSON.stringify(js.prompt)); }
        if (c.st === "failed" && c.o !== "net" && c.e?.statusCode !== Number(c.o?.slice(1))) bad("rejected with " + c.e);
        return { type, pieces, extras: c.a.extras, st: c.st, got };
      }) };
    },
  };
}
