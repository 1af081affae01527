// Replays PromptFetch.tla: retries and timeout of one prompt lookup.
export function variants() { return [{ type: "text" }, { type: "chat" }]; }
export async function make({ lib, world, variant: v }) {
  const client = new lib.client.LangfuseClient({ publicKey: "pk", secretKey: "sk-lf-5ecret-77", baseUrl: "http://lf.test" }); let ok = "ok"; const bad = (m) => { if (ok === "ok") ok = m; };
  const body = (n) => ({ name: "p", version: n, type: v.type, prompt: v.type === "chat" ? [{ role: "user", content: "c" + n }] : "c" + n, labels: ["production"], tags: [], config: {} });
  let base = 0, res = "none", err, opts, last; const count = () => world.requests.length - base;
  const name = (x) => (x.isFallback ? "fallback" : x.version === 1 ? "old" : x.version === 2 ? "new" : "other");
  return {
    async step(a) {
      if (a.op === "get") {
        if (a.kind === "refresh") { const p = client.prompt.get("p", { type: v.type, fetchTimeoutMs: 5000, maxRetries: 0 }); await world.drain(); world.requests[0].reply(200, body(1)); await world.drain(); await p; await world.advance(60001); base = world.requests.length; }
        opts = { type: v.type, fetchTimeoutMs: a.t, ...(a.r === 99 ? {} : { maxRetries: a.r }), ...(a.fb ? { fallback: v.type === "chat" ? [{ role: "user", content: "f" }] : "f" } : {}) };
        res = "pending"; client.prompt.get("p", opts).then((x) => (res = name(x)), (e) => { res = "rejected"; err = e; });
        await world.drain();
      } else if (a.op === "answer") { const r = world.requests.at(-1); last = a.o; if (!r) return bad("no request"); const did = a.o === "ok" ? r.reply(200, body(2)) : a.o === "net" ? r.fail() : r.reply(Number(a.o), { message: "no" }); if (did === false) bad("request not waiting"); await world.drain(); }
      else if (a.op === "again") { const n = count(); for (let i = 0; i < 700 && count() === n; i++) await world.advance(100); }
      else if (a.op === "probe") client.prompt.get("p", { type: v.type }).then((x) => (res = name(x)), (e) => (res = "rejected"));
      else if (a.op === "half") { last = "timeout"; await world.advance(opts.fetchTimeoutMs / 2); }
      await world.drain();
    },
    observe(e) {
      if (world.unhandled.length) bad("unhandled " + world.unhandled[0]);
      if (e?.t?.ph === "done" && res === "rejected" && last !== "net" && last !== "timeout" && err?.statusCode !== Number(last)) bad("rejected with " + err);
      return { requests: count(), res, ok };
    },
  };
}
