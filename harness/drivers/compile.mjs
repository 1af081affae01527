// Replays PromptCompile.tla behaviours into the real prompt clients.
import { canon } from "../lib/util.mjs";
const SPECIAL = ["<b>&\"'`=/</b>", "{{Y}}", "{{{user_name}}} {user_name}", "$& $1 \\n", "", "line1\nline2 \u2028é💥", "0", "a}}b{{", "{\"k\": 1}", "&amp;lt;"];
export function variants() {
  const out = []; const tags = ["{{%}}", "{{ % }}", "{{{%}}}", "{{& %}}"];
  for (let i = 0; i < 10; i++) out.push({ special: SPECIAL[i], tag: tags[i % 4], via: ["ctor", "get", "fallback", "get"][i % 4], mode: i, x: ["x", "userName", "user_name", "X1", "_"][i % 5], y: ["y", "Y", "y2", "x_", "user"][i % 5] });
  return out;
}
const tag = (v, n) => v.tag.replace("%", () => v[n]);
export async function make({ lib, world, variant: v, path }) {
  let p, before, stable = "ok", out = []; const bad = (m) => { if (stable === "ok") stable = m; };
  const isChat = path[0]?.mode === "chat", isLc = path[0]?.mode === "langchain";
  const msg = (it, i) => it === "m0" ? { type: "chatmessage", role: "system", content: v.mode % 3 === 1 ? "" : `plain #${i} <&> { } }` } : it === "mx" ? { type: "chatmessage", role: "user", content: `x=${tag(v, "x")} #${i}` }
    : it === "mxy" ? { type: "chatmessage", role: "assistant", content: `${tag(v, "x")}${tag(v, "y")}${tag(v, "x")}#${i}` } : it === "legacy" ? { role: "user", content: `legacy ${tag(v, "x")} #${i}` } : { type: "placeholder", name: NAME[it[1]] };
  const text = { lit: "text <&> \"q\" ", vx: tag(v, "x"), vy: tag(v, "y"), brace: " { } ", single: "{y}", open: ['{"k": ', "{ 'k': ", '{\n  "k": '][v.mode % 3], close: ["}", " }", "\n}"][v.mode % 3] };
  const val = (name, kind) => kind === "plain" ? name + "-val" : kind === "special" ? v.special : undefined;
  const NAME = v.mode === 8 ? { a: "toString", b: "constructor" } : v.mode === 5 ? { a: "valueOf", b: "hasOwnProperty" } : { a: "a", b: "b" };
  let tm = [];
  const phList = (name, k) => ({ one: [{ role: "user", content: `${name} one ${tag(v, "x")}` }], two: [{ role: "user", content: `${name} one ${tag(v, "x")}`, extra: 1 }, { role: "assistant", content: [`${name} two`, null, [{ type: "text", text: `${name} {{x}}` }]][v.mode % 3], tool_calls: [{ id: 1 }] }], empty: [], bad: [[{ role: "user" }, { foo: 1 }], [{ role: "user" }], [{ content: "x" }], ["s"], [{ role: "user", content: "x" }, { role: "user" }], [[]]][v.mode % 6], str: "just a string " + tag(v, "x"), nulls: [null, { role: "a", content: "b" }] })[k];
  return {
    async step(a) {
      if (a.op === "template") {
        tm = a.t; const base = { name: "p", version: 1, labels: ["production"], tags: ["t"], config: { c: 1 } };
        const prompt = isChat ? tm.map(msg) : tm.map((x) => (isLc && x === "vx" ? `{{${v.x}}}` : text[x])).join("");
        const full = { ...base, type: isChat ? "chat" : "text", prompt };
        if (v.via === "ctor" || (v.via === "fallback" && isChat && tm.some((x) => x[0] === "p"))) p = new (isChat ? lib.client.ChatPromptClient : lib.client.TextPromptClient)(full);
        else {
          const c = new lib.client.LangfuseClient({ publicKey: "a", secretKey: "b", baseUrl: "http://lf.test" });
          const opts = { type: isChat ? "chat" : "text", maxRetries: 0 }; if (v.via === "fallback") opts.fallback = prompt;
          const pr = c.prompt.get("p", opts); await world.drain();
          v.via === "fallback" ? world.requests[0].reply(404, {}) : world.requests[0].reply(200, JSON.parse(JSON.stringify(full))); p = await pr;
        }
        before = [p.toJSON(), canon(p.prompt)]; out = [];
      } else {
        const vars = {}; for (const k of ["x", "y"]) { const x = val(k, a.a[k]); if (x !== undefined) vars[v[k]] = x; }
        const ph = {}; for (const k of ["a", "b"]) if (a.a[k] !== "none") ph[NAME[k]] = phList(k, a.a[k]);
        const argsBefore = canon([vars, ph]);
        const omit = !Object.keys(vars).length && v.mode % 2;
        const res = isLc ? p.getLangchainPrompt() : p.compile(omit ? undefined : vars, Object.keys(ph).length || v.mode % 2 ? ph : undefined);
        if (canon([vars, ph]) !== argsBefore) bad("arguments modified");
        out = this.abstract(res, a.a, ph);
        if (p.toJSON() !== before[0] || canon(p.prompt) !== before[1]) bad("prompt modified by compile");
        if (isChat) { // conversion for LangChain keeps positions too
          const lc = p.getLangchainPrompt({ placeholders: ph }); const want = [];
          tm.forEach((it, i) => { if (it[0] !== "p") { const m = msg(it, i); want.push(v.tag === "{{%}}" ? { role: m.role, content: lcText(m.content) } : m.role); return; } const k = it[1], av = a.a[k];
            if (av === "none") want.push(["placeholder", `{${NAME[k]}}`]); else if (av === "empty") return; else if (av === "one" || av === "two") for (const m of ph[NAME[k]]) want.push(v.tag === "{{%}}" ? { role: m.role, content: typeof m.content === "string" ? lcText(m.content) : m.content } : m.role); else want.push(JSON.stringify(ph[NAME[k]])); });
          const got = v.tag === "{{%}}" ? lc : lc.map((x) => (x && x.role && !Array.isArray(x) ? x.role : x));
          if (canon(got) !== canon(want)) bad("langchain conversion: " + canon(got) + " expected " + canon(want));
          if (p.toJSON() !== before[0]) bad("prompt modified by getLangchainPrompt");
        }
      }
    },
    abstract(res, a, ph) {
      const X = (k) => val(k, a[k]) ?? "";
      if (isLc) { const m = { open2: text.open.replace("{", "{{"), close2: text.close.replace("}", "}}"), close1: text.close, var1: `{${v.x}}`, lit: text.lit, single: "{y}" };
        return { lc: res, m }; }
      if (!isChat) return { text: res, m: (t) => t[0] === "var" ? X(t[1]) : text[t[0]] };
      const sub = (s) => (typeof s !== "string" ? s : s.split(tag(v, "x")).map((part) => part.split(tag(v, "y")).join("\u0001")).join("\u0000").replace(/[\u0000\u0001]/g, (c) => (c === "\u0000" ? X("x") : X("y"))));
      return { chat: res, want: (toks) => { let j = 0; const left = tm.map((it, i) => [it, i]).filter(([it]) => it[0] !== "p");
        return toks.map((t) => { if (["m0", "mx", "mxy", "legacy"].includes(t[0])) { const [it, i] = left[j++]; const m = msg(it, i); return { role: m.role, content: sub(m.content) }; }
          if (t[0] === "ph") return { type: "placeholder", name: NAME[t[1]] };
          if (t[0] === "phmsg") { const m = ph[NAME[t[1]]][Number(t[2]) - 1]; return { ...m, content: sub(m.content) }; }
          return JSON.stringify(ph[NAME[t[1]]]); }); } };
    },
    observe(e) { // the model's tokens are rendered with this variant's strings and compared
      const want = e.o.out; let got = want;
      if (e.a.op === "compile") {
        if (out.lc !== undefined) { const w = want.map((t) => out.m[t]).join(""); if (out.lc !== w) got = { got: out.lc, rendered: w }; }
        else if (out.text !== undefined) { const w = want.map((t) => out.m(t)).join(""); if (out.text !== w) got = { got: out.text, rendered: w }; }
        else { const w = out.want(want); if (canon(out.chat) !== canon(w)) got = { got: out.chat, rendered: w }; }
      }
      return { out: got, stable };
    },
  };
}
// Conversion of one message for LangChain, for templates whose braces are not adjacent.
function lcText(s) { return s.replace(/\{\{(\w+)\}\}/g, "{$1}"); }
