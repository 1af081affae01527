// Which models and drivers decide which property.
export const PROPERTIES = {};
const add = (ids, def) => { for (const [id, extra] of Object.entries(ids)) PROPERTIES[id] = { ...def, ...extra }; };

// ---- scores ---------------------------------------------------------------
const scoreCfg = (o) => `SPECIFICATION Spec
CONSTANTS BatchMax = 100 QueueMax = 100000 FlushAts = {${o.at}} Bursts = {${o.b}} MaxCreates = ${o.c} MaxFlushes = ${o.f} MaxRetries = ${o.r ?? 1} ReplyMode = "${o.mode ?? "one"}"
Outcomes = {${o.o.map((x) => `"${x}"`)}}
VIEW View
INVARIANTS C01_Partition C01_Bound C01_Drop C01_Queue C02_Complete C03_Armed C03_Follow
${o.live ? "PROPERTIES C02_Live C03_Live" : "ACTION_CONSTRAINT Export"}
`;
const scoreModels = [
  { name: "live", spec: "Score", cfg: scoreCfg({ at: "2, 10", b: "1, 9, 101", c: 2, f: 2, o: ["ok", "net"], live: true }) },
  { name: "schedules", spec: "Score", driver: "score", cfg: (t) => scoreCfg({ at: t === "quick" ? "1, 10" : "1, 10, 150", b: "1, 9, 101", c: 3, f: 2, o: ["ok"] }), maxPaths: 7000 },
  { name: "faults", spec: "Score", driver: "score", cfg: (t) => scoreCfg({ at: t === "quick" ? "10" : "10, 199", b: "9, 10, 199", c: 2, f: 1, o: ["ok", "perr", "http400", "net", "retry"] }), maxPaths: 4000 },
  { name: "limits", spec: "Score", driver: "score", cfg: scoreCfg({ at: "10, 500000", b: "2, 99999", c: 2, f: 1, o: ["ok"], mode: "all" }), maxPaths: 8, maxPathsThorough: 60, walks: 0, walksThorough: 0 },
];
add({ C01: { keys: { score: ["sent", "content"] } }, C02: { keys: { score: ["flushes", "sent", "content"] } }, C03: { keys: { score: ["sent", "content"] } } },
  { models: scoreModels, assumptions: ["virtual clock and controlled fetch; the HTTP layer is the real generated client"] });

// ---- prompts --------------------------------------------------------------
const promptCfg = (o) => `SPECIFICATION Spec
CONSTANTS Names = {${o.names.map((x) => `"${x}"`)}} Sels = {${o.sels.map((x) => `"${x}"`)}} Ttls = {${o.ttls}} Fallbacks = {${o.fb.map((x) => `"${x}"`)}} Steps = {${o.steps}}
MaxGets = ${o.g} MaxOps = ${o.ops} MaxAdvances = ${o.adv} MaxFails = ${o.fails}
VIEW View
INVARIANTS C04_SingleRefresh C05_Right C06_NotOutdated C07_Fallback C07_NeverCached
PROPERTIES C04_Step C04_FailKeeps C06_Others
ACTION_CONSTRAINT Export
`;
const promptModels = {
  ttl: { name: "ttl", spec: "PromptCache", driver: "prompt", cfg: (t) => promptCfg({ names: ["A"], sels: ["l1"], ttls: "0, 10, 9999", fb: ["no"], steps: "1, 10000, 60000", g: 3, ops: 0, adv: t === "quick" ? 2 : 3, fails: 1 }), maxPaths: 6000 },
  ident: { name: "identity", spec: "PromptCache", driver: "prompt", cfg: promptCfg({ names: ["A", "B"], sels: ["none", "prod", "l1", "l2", "v1", "v2"], ttls: "9999", fb: ["no"], steps: "1", g: 2, ops: 0, adv: 0, fails: 0 }), maxPaths: 3000, variantsPerPath: 13 },
  inval: { name: "invalidation", spec: "PromptCache", driver: "prompt", cfg: (t) => promptCfg({ names: ["A", "B"], sels: ["l1"], ttls: "9999", fb: ["no"], steps: "60001", g: 3, ops: t === "quick" ? 1 : 2, adv: 1, fails: 1 }), maxPaths: 9000 },
  inval2: { name: "invalidation-selectors", spec: "PromptCache", driver: "prompt", cfg: promptCfg({ names: ["A"], sels: ["none", "v1"], ttls: "9999", fb: ["no"], steps: "60001", g: 3, ops: 1, adv: 1, fails: 0 }), maxPaths: 4000 },
  two: { name: "two-selectors", spec: "PromptCache", driver: "prompt", cfg: promptCfg({ names: ["A"], sels: ["none", "v1"], ttls: "9999", fb: ["no"], steps: "60001", g: 4, ops: 0, adv: 1, fails: 0 }), maxPaths: 4000 },
  fb: { name: "fallback", spec: "PromptCache", driver: "prompt", cfg: promptCfg({ names: ["A"], sels: ["l1"], ttls: "0, 9999", fb: ["no", "text", "chat"], steps: "60001", g: 3, ops: 0, adv: 1, fails: 2 }), maxPaths: 6000 },
  fb2: { name: "fallback-selectors", spec: "PromptCache", driver: "prompt", cfg: promptCfg({ names: ["A", "B"], sels: ["none", "v1", "l2"], ttls: "9999", fb: ["no", "text", "chat"], steps: "60001", g: 2, ops: 0, adv: 0, fails: 1 }), maxPaths: 3000 },
};
promptModels.deep = { name: "deep", spec: "PromptCache", driver: "prompt", simulate: (t) => ({ num: t === "quick" ? 60 : 1500, depth: 28 }), maxLen: 60,
  cfg: promptCfg({ names: ["A", "B"], sels: ["none", "prod", "l1", "v1", "v2"], ttls: "0, 10, 9999", fb: ["no", "text", "chat"], steps: "1, 9999, 10000, 60000", g: 10, ops: 3, adv: 6, fails: 4 }), maxPaths: 1500, maxPathsThorough: 30000, walks: 200, walkLen: 28 };
PROPERTIES.C04 = { models: [promptModels.ttl, promptModels.two, promptModels.ident, promptModels.deep] };
PROPERTIES.C05 = { models: [promptModels.ident, promptModels.inval, promptModels.deep] };
PROPERTIES.C06 = { models: [promptModels.inval, promptModels.inval2, promptModels.deep] };
PROPERTIES.C07 = { models: [promptModels.fb, promptModels.fb2, promptModels.deep] };
PROPERTIES.C07.models.push({ name: "patience", spec: "PromptFetch", driver: "promptfetch", variantsPerPath: 2, maxPaths: 3000, ...{ walks: 0, walksThorough: 0 },
  cfg: `SPECIFICATION Spec\nCONSTANTS Kinds = {"miss", "refresh"} Retries = {99, 0, 1, 3} Timeouts = {500, 5000} Fbs = {TRUE, FALSE} Answers = {"ok", "404", "408", "429", "503", "net"}\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS C07_Tries C07_Fallback\nPROPERTIES C07_Settles\nACTION_CONSTRAINT Export\n` });
const compileCfg = (mode, len, n) => `SPECIFICATION Spec
CONSTANTS Mode = "${mode}" MaxLen = ${len} MaxCompiles = ${n}
VIEW View
INVARIANTS TypeOk C08_Keep
PROPERTIES C08_Stable
ACTION_CONSTRAINT Export
`;
PROPERTIES.C08 = { models: [
  { name: "text", spec: "PromptCompile", driver: "compile", cfg: (t) => compileCfg("text", t === "quick" ? 3 : 4, 2) },
  { name: "chat", spec: "PromptCompile", driver: "compile", cfg: (t) => compileCfg("chat", 3, 2), maxPaths: 8000 },
  { name: "langchain", spec: "PromptCompile", driver: "compile", cfg: (t) => compileCfg("langchain", t === "quick" ? 5 : 6, 1), variantsPerPath: 3, walks: 0, walksThorough: 0 },
] };

// ---- span export ----------------------------------------------------------
const q = (xs) => xs.map((x) => (typeof x === "string" ? `"${x}"` : x)).join(", ");
const pipeCfg = (o) => `SPECIFICATION Spec
CONSTANTS Modes = {${q(o.modes)}} BatchSizes = {${q(o.b)}} Kinds = {${q(o.kinds)}} MaxSpans = ${o.s} MaxFlushes = ${o.f} MaxTicks = ${o.t} MaxFails = ${o.x} Downs = {${o.down === false ? "" : '"down"'}} Faulty = ${o.faulty === false ? "FALSE" : "TRUE"}
VIEW View
INVARIANTS C09_Once C09_Flush C09_NoLoss
${o.live ? "PROPERTIES C09_Live" : "ACTION_CONSTRAINT Export"}
`;
const allKinds = ["p", "m", "u", "mu", "rej", "thr", "uns"];
PROPERTIES.C09 = { keys: { pipeline: ["exported", "flushes", "content"] }, models: [
  { name: "live", spec: "SpanPipeline", cfg: pipeCfg({ modes: ["batched", "immediate"], b: [2], kinds: ["p", "mu"], s: 2, f: 1, t: 2, x: 0, live: true }) },
  { name: "kinds", spec: "SpanPipeline", driver: "pipeline", cfg: pipeCfg({ modes: ["batched", "immediate"], b: [512], kinds: allKinds, s: 2, f: 1, t: 2, x: 1 }), maxPaths: 8000 },
  { name: "flushes", spec: "SpanPipeline", driver: "pipeline", cfg: (t) => pipeCfg({ modes: ["batched", "immediate"], b: [2], kinds: ["p", "mu"], s: t === "quick" ? 2 : 3, f: 2, t: 1, x: 0, faulty: false }), maxPaths: 8000 },
  { name: "deep", spec: "SpanPipeline", driver: "pipeline", simulate: (t) => ({ num: t === "quick" ? 300 : 5000, depth: 30 }), maxLen: 60, cfg: pipeCfg({ modes: ["batched", "immediate"], b: [1, 2, 3, 512], kinds: allKinds, s: 8, f: 4, t: 3, x: 3 }), maxPaths: 3000, maxPathsThorough: 40000, walks: 0, walksThorough: 0 },
] };
const payloadCfg = (mode, deep) => `SPECIFICATION Spec
CONSTANTS Mode = "${mode}" Deep = ${deep ? "TRUE" : "FALSE"}
VIEW View
INVARIANTS C10_NoSecret C10_Others C10_Upload C11_NoInline C11_Kept C11_Uploaded
ACTION_CONSTRAINT Export
`;
const noWalks = { walks: 0, walksThorough: 0 };
const payload = (mode, o = {}) => ({ name: mode, spec: "SpanPayload", driver: "payload", cfg: (t) => payloadCfg(mode, t === "thorough"), ...noWalks, ...o });
PROPERTIES.C10 = { models: [payload("mask", { variantsPerPath: 6 })] };
PROPERTIES.C11 = { models: [payload("media", { variantsPerPath: 6 }), payload("pairs", { variantsPerPath: 6 })] };
PROPERTIES.C11.models.push({ name: "ai-sdk", spec: "AiSdkMedia", driver: "aimedia", cfg: (t) => `SPECIFICATION Spec\nCONSTANTS MaxLen = ${t === "quick" ? 2 : 3}\nVIEW View\nINVARIANTS C11_AiKept\nACTION_CONSTRAINT Export\n`, variantsPerPath: 2, ...noWalks });
const uploadCfg = (o) => `SPECIFICATION Spec\nCONSTANTS Retries = {${o.r}} Medias = {${q(o.m)}}\nVIEW View\nINVARIANTS C12_Order C12_Bounded C12_Reported C12_Success\nPROPERTIES C12_Settles\n${o.export === false ? "" : "ACTION_CONSTRAINT Export"}\n`;
PROPERTIES.C12 = { models: [{ name: "protocol", spec: "MediaUpload", driver: "upload", cfg: uploadCfg({ r: "0, 1, 3", m: ["ok", "empty", "notype", "invalid"] }), variantsPerPath: 13, maxLen: 60, walks: 600 }] };
PROPERTIES.C09.models.push({ name: "burst", spec: "SpanPipeline", driver: "pipelineburst", cfg: pipeCfg({ modes: ["batched", "immediate"], b: [512], kinds: ["p", "mu"], s: 2, f: 1, t: 1, x: 0, faulty: false }), maxPaths: 60, maxPathsThorough: 1000, ...noWalks });
PROPERTIES.C09.models.push({ name: "default-filter", spec: "SpanFilter", driver: "filter", cfg: `SPECIFICATION Spec\nCONSTANTS Others = {"http", "langfuse", "ai_sdk", "opentelemetry.instrumentation", "opentelemetry.instrumentation.http", "langfuse-sdk-x", "Langsmith", ""}\nVIEW View\nINVARIANTS C09_Foreign\nACTION_CONSTRAINT Export\n`, variantsPerPath: 1, ...noWalks });
const rootCfg = (o) => `SPECIFICATION Spec\nCONSTANTS MaxSpans = ${o.s} MaxHops = ${o.h} Services = 2 Kinds = {${q(o.k)}} Hows = {${q(o.how)}} Ends = ${o.e === false ? "FALSE" : "TRUE"}\nVIEW View\nINVARIANTS C13_OnlyExpected C13_Topmost\nPROPERTIES C13_Claimed C13_Stable\nACTION_CONSTRAINT Export\n`;
PROPERTIES.C13 = { models: [
  { name: "kinds", spec: "AppRoot", driver: "approot", cfg: rootCfg({ s: 2, h: 1, k: ["exp", "filt", "late", "early", "thr"], how: ["lf", "otel", "handle"] }), maxPaths: 5000 },
  { name: "trees", spec: "AppRoot", driver: "approot", cfg: rootCfg({ s: 3, h: 0, k: ["exp", "filt"], how: ["lf", "otel", "handle"] }), maxPaths: 4000 },
  { name: "hops", spec: "AppRoot", driver: "approot", cfg: (t) => rootCfg({ s: 3, h: 1, k: t === "quick" ? ["exp"] : ["exp", "filt"], how: ["lf", "otel"] }), maxPaths: 4000, maxPathsThorough: 60000 },
  { name: "traces", spec: "AppRoot", driver: "approot", cfg: rootCfg({ s: 3, h: 2, k: ["exp"], how: ["lf"], e: false }), maxPaths: 12000, maxPathsThorough: 60000, walks: 100 },
  { name: "deep", spec: "AppRoot", driver: "approot", simulate: (t) => ({ num: t === "quick" ? 80 : 1500, depth: 16 }), cfg: rootCfg({ s: 8, h: 3, k: ["exp", "filt", "late", "early", "thr"], how: ["lf", "otel", "handle"] }), maxLen: 40, maxPaths: 3000, maxPathsThorough: 40000, ...noWalks },
] };
const propCfg = (o) => `SPECIFICATION Spec\nCONSTANTS Params = {${q(o.p)}} Bags = {${o.bags}} MaxScopes = ${o.s} MaxSpans = ${o.n} MaxHops = ${o.h ?? 0} MaxEnds = ${o.e ?? 0} Explicit = ${o.x ? "TRUE" : "FALSE"}\nVIEW View\nINVARIANTS C14_Dropped C14_Tags C15_OptIn C15_Same\nPROPERTIES C14_Isolated\nACTION_CONSTRAINT Export\n`;
const allParams = ["u1", "u2s", "bs", "ne", "be", "e2", "ab", "bc", "xc", "xx", "m1", "m2", "mb", "mx", "p1", "p2", "pf", "pb", "all", "alb", "exp", "exe"];
const propDeep = { name: "deep", spec: "Propagation", driver: "propagation", simulate: (t) => ({ num: t === "quick" ? 40 : 1500, depth: 14 }), cfg: propCfg({ p: allParams, bags: "TRUE, FALSE", s: 6, n: 5, h: 2, e: 3, x: true }), maxLen: 30, maxPaths: 2000, maxPathsThorough: 30000, ...noWalks };
PROPERTIES.C14 = { keys: { propagation: ["spans", "ok"] }, models: [
  { name: "values", spec: "Propagation", driver: "propagation", cfg: propCfg({ p: allParams, bags: "FALSE", s: 2, n: 1, x: true }), maxPaths: 6000 },
  { name: "flows", spec: "Propagation", driver: "propagation", cfg: (t) => propCfg({ p: t === "quick" ? ["u2s", "ab", "alb"] : ["u2s", "all", "alb", "ab", "m2"], bags: "FALSE", s: 2, n: 2, e: 1, x: true }), maxPaths: 5000 },
  propDeep,
] };
PROPERTIES.C15 = { models: [
  { name: "values", spec: "Propagation", driver: "propagation", cfg: propCfg({ p: allParams, bags: "TRUE, FALSE", s: 1, n: 2, h: 1 }), maxPaths: 4000, variantsPerPath: 7 },
  { name: "scopes", spec: "Propagation", driver: "propagation", cfg: (t) => propCfg({ p: t === "quick" ? ["u2s", "ab", "m2", "alb"] : allParams, bags: "TRUE, FALSE", s: 2, n: 1, h: 1 }), maxPaths: 6000 },
  propDeep,
] };

// ---- tracing --------------------------------------------------------------
const B = (x) => (x ? "TRUE, FALSE" : "TRUE");
const insCfg = (o) => `SPECIFICATION Spec\nCONSTANTS MaxFrames = ${o.n} MaxKids = ${o.kids ?? 0} Apis = {"observe", "active"} Styles = {${q(o.styles ?? ["sync", "async"])}} Types = {${q(o.types ?? ["span"])}} Eoe = {${B(o.eoe)}} Caps = {${q(o.caps ?? ["both"])}} Parents = {${q(o.par ?? ["ctx"])}} Argss = {${q(o.args ?? ["pair"])}} Rets = {${q(o.rets ?? ["obj"])}} Errs = {${q(o.errs ?? ["Error"])}} Nests = {${q(o.nests ?? ["none"])}}\nVIEW View\nINVARIANTS C16_EndedIffSettled C16_ErrorShown\nPROPERTIES C16_Once\nACTION_CONSTRAINT Export\n`;
const allRets = ["undef", "null", "num", "zero", "false", "empty", "str", "obj", "fn", "sym", "cyc", "big", "thenable"];
const allErrs = ["Error", "emptyError", "TypeError", "string", "emptystr", "undef", "null", "num", "obj", "np", "badstr", "sym", "badmsg"];
const allArgs = ["none", "zero", "empty", "undef", "obj", "pair", "cyc"];
const allTypes = ["span", "generation", "agent", "tool", "chain", "retriever", "evaluator", "guardrail", "embedding", "event"];
PROPERTIES.C16 = { models: [
  { name: "values", spec: "Instrument", driver: "instrument", cfg: insCfg({ n: 1, eoe: true, caps: ["both", "in", "out", "none"], rets: allRets, errs: allErrs, args: ["pair"] }), variantsPerPath: 2, ...noWalks },
  { name: "calls", spec: "Instrument", driver: "instrument", cfg: insCfg({ n: 1, kids: 1, eoe: true, types: allTypes, par: ["ctx", "ext"], args: allArgs, rets: ["obj", "undef"], errs: ["Error"], nests: ["none", "kid"] }), maxPaths: 4000, variantsPerPath: 1, ...noWalks },
  { name: "schedules", spec: "Instrument", driver: "instrument", cfg: (t) => insCfg({ n: t === "quick" ? 2 : 3, kids: 1, eoe: true, par: ["ctx"], rets: ["obj"], errs: ["Error"], nests: ["none", "observe", "active"] }), maxPaths: 4000, maxPathsThorough: 60000, walks: 300 },
  { name: "deep", spec: "Instrument", driver: "instrument", simulate: (t) => ({ num: t === "quick" ? 40 : 1500, depth: 20 }), cfg: insCfg({ n: 7, kids: 4, eoe: true, types: ["span", "generation", "event"], par: ["ctx", "ext"], args: ["none", "pair"], rets: ["obj", "zero"], errs: ["Error", "np"], nests: ["none", "kid", "observe", "active"] }), maxLen: 40, maxPaths: 2000, maxPathsThorough: 30000, ...noWalks },
] };

const obsCfg = (o) => `SPECIFICATION Spec\nCONSTANTS Types = {${q(o.types ?? ["span"])}} Fields = {${q(o.f)}} AnyKinds = {${q(o.any ?? ["s1", "null"])}} TextKinds = {${q(o.text ?? ["s1", "undef"])}} ObjKinds = {${q(o.objs ?? ["obj", "null"])}} PromptKinds = {${q(o.prompt ?? ["p1", "p2"])}} TimeKinds = {${q(o.time ?? ["date", "null"])}} MetaKinds = {${q(o.meta ?? ["s1", "obj"])}} WholeKinds = {${q(o.whole ?? ["s1", "arr"])}} PatchSize = ${o.size ?? 1} MaxObs = ${o.n ?? 1} MaxUpdates = ${o.u} CreateVias = {${q(o.cv ?? ["start"])}} UpdateVias = {${q(o.uv ?? ["method", "active"])}}\nVIEW View\nINVARIANTS C17_Notice\nPROPERTIES C17_Frozen C17_Keeps C17_Isolated\nACTION_CONSTRAINT Export\n`;
const anyKinds = ["undef", "null", "s1", "s2", "empty", "zero", "num", "false", "obj", "arr", "fn", "sym", "big", "cyc", "badjson", "date", "nullobj"];
const textKinds = ["undef", "null", "s1", "s2", "empty"];
const objKinds = ["undef", "null", "obj", "nullobj", "cyc"];
const promptKinds = ["undef", "null", "p0", "p1", "p2", "fallback"];
const metaKinds = ["undef", "null", "s1", "empty", "zero", "false", "obj", "fn", "cyc", "big"];
const wholeKinds = ["undef", "null", "s1", "empty", "zero", "arr", "thr", "thrproxy"];
const obsAll = { any: anyKinds, text: textKinds, objs: objKinds, prompt: promptKinds, meta: metaKinds, whole: wholeKinds };
const obsGroups = { io: ["input", "output"], text: ["level", "statusMessage", "version", "environment", "model"], objects: ["modelParameters", "usageDetails", "costDetails"], prompt: ["prompt", "completionStartTime"], metadata: ["meta.a", "metadata"], trace: ["traceInput", "traceOutput", "public"] };
PROPERTIES.C17 = { models: [
  ...Object.entries(obsGroups).map(([name, f]) => ({ name, spec: "Observation", driver: "observation", cfg: (t) => obsCfg({ f, u: t === "quick" ? 1 : 2, cv: ["start", "active"], uv: ["method", "active", "void"], ...obsAll }), maxPaths: 3500, maxPathsThorough: 60000, ...noWalks })),
  { name: "types", spec: "Observation", driver: "observation", cfg: obsCfg({ types: allTypes, f: ["input"], n: 1, u: 2, cv: ["start", "active"], uv: ["method", "active", "activeT", "void"], any: ["s1"] }), maxPaths: 6000, ...noWalks },
  { name: "children", spec: "Observation", driver: "observation", cfg: obsCfg({ types: allTypes, f: ["input"], n: 2, u: 0, cv: ["start", "active", "child"], any: ["s1"] }), maxPaths: 4000, ...noWalks },
  { name: "isolation", spec: "Observation", driver: "observation", cfg: obsCfg({ types: ["span", "tool"], f: ["input", "meta.a"], n: 2, u: 2, cv: ["start", "child"], uv: ["method", "active", "activeT", "void"], any: ["s1"], meta: ["s1"] }), maxPaths: 4000, ...noWalks },
  { name: "overlay", spec: "Observation", driver: "observation", cfg: (t) => obsCfg({ f: ["input", "meta.a", "meta.b", "prompt"], size: 2, n: 1, u: 2, any: ["s1", "null"], meta: ["s1", "undef"], prompt: ["p1", "fallback"] }), maxPaths: 4000, ...noWalks },
  { name: "deep", spec: "Observation", driver: "observation", simulate: (t) => ({ num: t === "quick" ? 25 : 800, depth: 14 }), cfg: obsCfg({ types: ["span", "generation", "event"], f: ["input", "output", "level", "prompt", "meta.a", "metadata", "traceOutput", "public"], size: 1, n: 4, u: 8, cv: ["start", "active", "child"], uv: ["method", "active", "activeT", "void"], any: ["s1", "zero", "null", "cyc"], text: ["s1", "s2"], meta: ["s1", "empty"], prompt: ["p1", "fallback"] }), maxLen: 30, maxPaths: 2000, maxPathsThorough: 30000, ...noWalks },
] };

// ---- OpenAI ---------------------------------------------------------------
const oaCfg = (o) => `SPECIFICATION Spec\nCONSTANTS Kinds = {${q(o.k)}} Requests = {${q(o.rq ?? ["chat"])}} Shapes = {${q(o.s ?? [])}} Chunks = {${q(o.c ?? [])}} Errs = {${q(o.e ?? ["Error"])}} MaxCalls = ${o.n ?? 1} MaxChunks = ${o.m ?? 0} Members = {${q(o.mem ?? [])}} Helpers = {${q(o.h ?? [])}}\nVIEW View\nINVARIANTS C19_EndedIffFinished C19_Failed\nPROPERTIES C19_Once C18_Isolated\nACTION_CONSTRAINT Export\n`;
const oaShapes = ["chat", "chatU2", "chatTools", "text", "resp1", "respN", "outputText", "embed", "empty", "nullchoice", "strchoice", "nochoice", "oddusage", "numdetails", "null", "undef", "string", "number", "throwing", "page"];
const oaChunks = ["a", "b", "o1", "o1tool", "ob", "role", "stop", "legacy", "tool0", "more0", "tool1", "more1", "tools", "ttool0", "u1", "u2", "unull", "oddusage", "nulldelta", "nodelta", "emptytools", "nulltool", "nochoices", "nullchoices", "null", "string", "undef", "rstart", "rdelta", "rdone"];
const oaMembers = ["prim", "getter", "getterObj", "array", "date", "nested", "symbol", "missing", "keys", "instance", "set", "map", "method", "detached"];
const oaModels = [
  { name: "answers", spec: "OpenAiTrace", driver: "openai", cfg: oaCfg({ k: ["json", "stream", "sstream", "sync", "throw", "page"], rq: ["chat", "text", "resp", "embed", "bare"], s: oaShapes, e: ["Error", "TypeError", "string", "np", "undef"] }), variantsPerPath: 6, ...noWalks },
  { name: "streams", spec: "OpenAiTrace", driver: "openai", cfg: (t) => oaCfg({ k: ["stream", "sstream"], rq: ["chat", "resp"], c: oaChunks, m: t === "quick" ? 2 : 3, e: ["Error", "np"] }), maxPaths: 5000, maxPathsThorough: 60000, ...noWalks },
  { name: "tools", spec: "OpenAiTrace", driver: "openai", cfg: (t) => oaCfg({ k: ["stream"], c: ["a", "tool0", "more0", "tool1", "more1", "tools", "u1"], m: t === "quick" ? 4 : 5 }), maxPaths: 6000, maxPathsThorough: 40000, ...noWalks },
  { name: "interleaved", spec: "OpenAiTrace", driver: "openai", cfg: (t) => oaCfg({ k: ["json", "stream"], s: ["chat", "empty"], c: ["a", "tool0"], n: 2, m: t === "quick" ? 2 : 3 }), maxPaths: 3000, maxPathsThorough: 30000, walks: 300 },
  { name: "deep", spec: "OpenAiTrace", driver: "openai", simulate: (t) => ({ num: t === "quick" ? 200 : 3000, depth: 30 }), cfg: oaCfg({ k: ["json", "stream", "sstream", "throw", "page"], rq: ["chat", "resp"], s: ["chat", "resp1", "nochoice", "page"], c: ["a", "b", "tool0", "more0", "tools", "u1", "u2", "unull", "rstart", "rdelta", "rdone", "emptytools"], n: 4, m: 8 }), maxLen: 40, maxPaths: 1500, maxPathsThorough: 30000, ...noWalks },
];
const oaExtra = [
  { name: "members", spec: "OpenAiTrace", driver: "openai", cfg: oaCfg({ k: ["json"], s: ["chat"], n: 1, mem: oaMembers.slice(0, 6) }), maxPaths: 400, maxPathsThorough: 4000, ...noWalks },
  { name: "members2", spec: "OpenAiTrace", driver: "openai", cfg: oaCfg({ k: ["json"], s: ["chat"], n: 1, mem: oaMembers.slice(6) }), maxPaths: 400, maxPathsThorough: 4000, ...noWalks },
  { name: "helpers", spec: "OpenAiTrace", driver: "openai", cfg: oaCfg({ k: [], n: 0, h: ["withResponse", "asResponse", "controller", "toReadableStream", "tee"] }), variantsPerPath: 1, ...noWalks },
];
PROPERTIES.C18 = { keys: { openai: ["calls", "ok", "member"] }, models: [...oaModels, ...oaExtra] };
PROPERTIES.C19 = { keys: { openai: ["gens", "rec"] }, models: oaModels };

// ---- LangChain ------------------------------------------------------------
const lcCfg = (o) => `SPECIFICATION Spec\nCONSTANTS Kinds = {${q(o.k)}} Ins = {${q(o.i ?? ["dict", "std"])}} Outs = {${q(o.o ?? ["dict", "text", "str"])}} Errs = {${q(o.e ?? ["Error"])}} MaxRuns = ${o.n ?? 1} MaxActs = ${o.a ?? 0} MaxToks = ${o.tk ?? 1} MaxStray = ${o.x ?? 0} Prompts = {${q(o.pr ?? ["none"])}}\nVIEW View\nINVARIANTS C20_Forgets C20_ErrorIffFailed\nPROPERTIES C20_Stable C20_OneEach\nACTION_CONSTRAINT Export\n`;
const lcKinds = ["chain", "llm", "chat", "tool", "retriever"], lcIns = ["dict", "messages", "inputmsgs", "content", "content2", "mixed", "choice", "null", "text", "noid", "hidden", "override", "std", "params", "tools", "noinv", "lsmodel", "bothmodels", "bare", "named", "kinds"], lcOuts = ["dict", "str", "messages", "msgout", "null", "text", "msg", "usage", "details", "tokens", "empty", "empty2", "toolcalls", "zero", "overlap"], lcErrs = ["Error", "azure", "string", "undef", "null", "np", "sym", "badstr"];
const lc = (name, o) => ({ name, spec: "LangChain", driver: "langchain", ...o });
PROPERTIES.C20 = { models: [
  lc("shapes", { cfg: lcCfg({ k: lcKinds, i: lcIns, o: lcOuts, e: lcErrs }), variantsPerPath: 5, ...noWalks }),
  lc("trees", { cfg: (t) => lcCfg({ k: t === "quick" ? ["chain", "chat", "tool"] : lcKinds, n: 3 }), maxPaths: 5000, maxPathsThorough: 40000, walks: 200 }),
  lc("prompts", { cfg: (t) => lcCfg({ k: ["chain", "llm", "chat"], n: t === "quick" ? 3 : 4, pr: ["none", "p1", "pf"], e: [], o: ["dict", "text"] }), maxPaths: 4000, maxPathsThorough: 40000, walks: 200 }),
  lc("relink", { cfg: lcCfg({ k: ["chain", "chat"], n: 4, pr: ["none", "p1"], e: [], i: ["dict", "bare"], o: [] }), maxPaths: 3000, maxPathsThorough: 20000, ...noWalks }),
  lc("reprompt", { cfg: (t) => lcCfg({ k: ["chain", "chat"], n: t === "quick" ? 4 : 5, pr: t === "quick" ? ["p1", "p2", "pf", "none"] : ["p1", "p2", "p3", "none"], e: [], i: ["dict", "std"], o: [] }), maxPaths: 5000, maxPathsThorough: 40000, ...noWalks }),
  lc("tokens", { cfg: lcCfg({ k: ["llm", "chat"], n: 2, tk: 3, o: ["text", "toolcalls"] }), maxPaths: 2000, maxPathsThorough: 20000, walks: 100 }),
  lc("agent", { cfg: lcCfg({ k: ["chain", "tool"], n: 2, a: 2 }), maxPaths: 3000, walks: 200 }),
  lc("strays", { cfg: lcCfg({ k: ["chain", "llm"], n: 2, x: 2 }), maxPaths: 4000, maxPathsThorough: 40000, walks: 200 }),
  lc("deep", { simulate: (t) => ({ num: t === "quick" ? 150 : 3000, depth: 30 }), cfg: lcCfg({ k: lcKinds, i: lcIns, o: lcOuts, e: lcErrs, n: 6, a: 2, tk: 2, x: 3, pr: ["none", "p1", "pf"] }), maxLen: 40, maxPaths: 1500, maxPathsThorough: 30000, ...noWalks }),
] };

// ---- experiments ----------------------------------------------------------
const exCfg = (o) => `SPECIFICATION ${o.live ? "Fair" : "Spec"}\nCONSTANTS Ns = {${q(o.n)}} Limits = {${q(o.l)}} NEs = {${q(o.e ?? [0])}} NRs = {${q(o.r ?? [0])}} Sources = {${q(o.src ?? ["local"])}} ItemKinds = {${q(o.k ?? ["ok"])}} TaskOuts = {${q(o.t ?? ["val", "rej"])}} EvOuts = {${q(o.ev ?? ["one"])}} LinkOuts = {${q(o.lo ?? ["ok", "e400"])}} ProjOuts = {${q(o.po ?? ["ok"])}} SendOuts = {${q(o.so ?? ["ok"])}}\n${o.live ? "" : "VIEW View\n"}CHECK_DEADLOCK FALSE\nINVARIANTS C21_Limit C21_Busy C21_Once C21_Resolves C21_OneScoreEach\nPROPERTIES C21_Isolated${o.live ? " C21_Live" : "\nACTION_CONSTRAINT Export"}\n`;
const ex = (name, o) => ({ name, spec: "Experiment", driver: "experiment", ...o });
const exKinds = ["ok", "noinput", "cyc", "sthrow", "evthrow"];
PROPERTIES.C21 = { models: [
  { name: "live", spec: "Experiment", cfg: exCfg({ n: [0, 1, 3], l: [1, 2], e: [1], r: [0, 1], src: ["local", "dataset"], k: ["ok", "sthrow"], live: true }) },
  ex("concurrency", { cfg: (t) => exCfg({ n: [0, 1, 2, 4], l: t === "quick" ? [1, 2, 3] : [1, 2, 3, 4, 50], k: ["ok", "noinput"] }), maxPaths: 4000, maxPathsThorough: 40000, walks: 200 }),
  ex("evaluators", { cfg: (t) => exCfg({ n: [2], l: [1, 2], e: t === "quick" ? [2] : [1, 2], r: [0], ev: ["one", "two", "none", "rej", "falsy", "same", "auto", "autonull"] }), maxPaths: 4000, maxPathsThorough: 40000, walks: 200 }),
  ex("dataset", { cfg: (t) => exCfg({ n: t === "quick" ? [1, 2] : [2, 3], l: [1, 2], e: [0, 1], r: [0, 1], src: ["dataset"], lo: ["ok", "e400", "net", "odd"], po: ["ok", "e400", "odd"], so: ["ok", "e400"], ev: ["one", "rej"] }), maxPaths: 4000, maxPathsThorough: 40000, walks: 200 }),
  ex("runs", { cfg: exCfg({ n: [1], l: [1], e: [1], r: [2], src: ["local", "dataset"], t: ["val"], lo: ["ok"], ev: ["one", "two", "none", "rej", "np", "falsy", "same"], po: ["ok", "net"] }), maxPaths: 3000, walks: 100 }),
  ex("kinds", { cfg: exCfg({ n: [1, 2], l: [1, 2], e: [0, 1], src: ["local", "dataset"], k: exKinds, t: ["val", "str", "undef0", "null0", "cyc", "rej", "np", "undef"], lo: ["ok"], ev: ["one", "np", "undef"] }), maxPaths: 9000, maxPathsThorough: 40000, walks: 100 }),
  ex("deep", { simulate: (t) => ({ num: t === "quick" ? 100 : 2000, depth: 40 }), cfg: exCfg({ n: [3, 5], l: [1, 2, 3, 5], e: [0, 1, 2], r: [0, 1, 2], src: ["local", "dataset"], k: ["ok", "sthrow", "evthrow", "noinput"], t: ["val", "undef0", "rej", "np"], lo: ["ok", "e400", "odd"], ev: ["one", "two", "rej", "undef", "falsy", "same"], po: ["ok", "e400"], so: ["ok", "e400"] }), maxLen: 60, maxPaths: 1500, maxPathsThorough: 30000, ...noWalks }),
] };

// ---- media references -----------------------------------------------------
const mrCfg = (mode, o = {}) => `SPECIFICATION Spec\nCONSTANTS Mode = "${mode}" MaxLen = ${o.len ?? 1} Outcomes = {${q(o.o ?? ["ok", "m404"])}} Depths = {${q(o.d ?? [10])}} MaxCalls = ${o.c ?? 1}\nVIEW View\nPROPERTIES C24_Exact\nACTION_CONSTRAINT Export\n`;
const mr = (name, mode, o) => ({ name, spec: "MediaRefs", driver: "mediarefs", cfg: (t) => mrCfg(mode, t === "quick" ? o : { ...o, ...o.thorough }), variantsPerPath: 3, ...noWalks });
PROPERTIES.C24 = { models: [
  mr("strings", "strings", { len: 3, thorough: { len: 4 } }), mr("pairs", "pairs", { o: ["ok"], thorough: { o: ["ok", "ok2", "m404"] } }), mr("depth", "deep", { o: ["ok", "fnet"], d: [0, 1, 2, 10] }),
  mr("outcomes", "triples", { o: ["ok", "ok2", "m404", "mnet", "modd", "f404", "f500", "fnet"] }), mr("again", "triples", { o: ["ok", "ok2", "m404"], c: 2 }),
] };

// ---- datasets -------------------------------------------------------------
const dgCfg = (mode, o = {}) => `SPECIFICATION Spec\nCONSTANTS Mode = "${mode}" MaxPages = ${o.p ?? 3} Sizes = {${q(o.s ?? [0, 1, 2])}} MaxRefs = ${o.r ?? 2} MaxGets = ${o.g ?? 1}\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS C22_Order C22_All\nPROPERTIES C22_FailureFails\nACTION_CONSTRAINT Export\n`;
PROPERTIES.C22 = { models: [
  { name: "pages", spec: "DatasetGet", driver: "datasetget", cfg: (t) => dgCfg("pages", t === "quick" ? {} : { p: 5, s: [0, 1, 2, 50] }), maxPaths: 5000, maxPathsThorough: 40000 },
  { name: "long", spec: "DatasetGet", driver: "datasetget", cfg: dgCfg("pages", { p: 30, s: [1] }), maxPaths: 2000, walks: 100 },
  { name: "again", spec: "DatasetGet", driver: "datasetget", cfg: dgCfg("pages", { p: 2, s: [0, 2, 60], g: 2 }), maxPaths: 3000, walks: 200 },
  { name: "hydrate", spec: "DatasetGet", driver: "datasetget", cfg: (t) => dgCfg("hydrate", { r: 2 }), maxPaths: 12000, variantsPerPath: 1, ...noWalks },
] };
const dcCfg = (vals, o = {}) => `SPECIFICATION Spec\nCONSTANTS Values = "${vals}" MaxItems = ${o.n ?? 1} Faults = ${o.f === false ? "FALSE" : "TRUE"}\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS C23_UploadedFirst C23_Once C23_NoItemOnFailure C23_NoTraffic\nACTION_CONSTRAINT Export\n`;
PROPERTIES.C23 = { models: [
  { name: "places", spec: "DatasetCreate", driver: "datasetcreate", cfg: dcCfg("one", { f: false }), variantsPerPath: 2, ...noWalks },
  { name: "pairs", spec: "DatasetCreate", driver: "datasetcreate", cfg: (t) => dcCfg("two", { f: t !== "quick" }), maxPaths: 4000, maxPathsThorough: 40000, ...noWalks },
  { name: "structure", spec: "DatasetCreate", driver: "datasetcreate", cfg: dcCfg("cyc"), maxPaths: 4000, ...noWalks },
  { name: "faults", spec: "DatasetCreate", driver: "datasetcreate", cfg: dcCfg("many", { n: 2 }), maxPaths: 5000, maxPathsThorough: 40000, walks: 300 },
] };

// ---- media values ---------------------------------------------------------
const mvTypes = ["Image/PNG", "image/png", "image/svg+xml", "application/vnd.openxmlformats-officedocument.wordprocessingml.document", "text/plain; charset=utf-8", "application/json"];
const mvCfg = (mode, o = {}) => `SPECIFICATION Spec\nCONSTANTS Mode = "${mode}" Contents = {${q(o.c ?? [1, 2, 3, 4, 5, 6, 7])}} Types = {${q(o.t ?? mvTypes)}} MaxSteps = ${o.n ?? 1}\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS C27_IdIsContent C27_NoTagWithoutContent C27_RoundTrip\nACTION_CONSTRAINT Export\n`;
PROPERTIES.C27 = { models: [
  { name: "made", spec: "MediaValue", driver: "mediavalue", cfg: mvCfg("make"), ...noWalks },
  { name: "again", spec: "MediaValue", driver: "mediavalue", cfg: (t) => mvCfg("make", { n: t === "quick" ? 2 : 3, c: t === "quick" ? [2, 3, 5] : [3, 5], t: ["image/png", "text/plain; charset=utf-8"] }), maxPaths: 4000, maxPathsThorough: 60000, ...noWalks },
  { name: "references", spec: "MediaValue", driver: "mediavalue", cfg: mvCfg("ref", { n: 1 }), ...noWalks },
] };

// ---- browser client -------------------------------------------------------
const brCfg = (o = {}) => `SPECIFICATION Spec\nCONSTANTS Bodies = {${q(o.b ?? ["plain"])}} HeaderSets = {${q(o.h ?? ["none"])}} Answers = {${q(o.a ?? ["some"])}} MaxCalls = 2\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS C26_OneRequestPerCall\nPROPERTIES C26_ResolvedOnlyIfAcknowledged C26_Final\nACTION_CONSTRAINT Export\n`;
const br = (name, o, x = {}) => ({ name, spec: "BrowserScore", driver: "browser", cfg: (t) => brCfg(t === "quick" ? o : { ...o, ...o.thorough }), maxPaths: 4000, maxPathsThorough: 60000, walks: 100, walkLen: 6, ...x });
PROPERTIES.C26 = { models: [
  br("answers", { a: ["acks", "broken", "http", "net"], thorough: { b: ["plain", "withid"] } }),
  br("headers", { h: ["none", "empty", "custom", "lower", "upper", "mixed", "odd"], b: ["plain", "withid"] }, { variantsPerPath: 4 }),
  br("bodies", { b: ["plain", "withid", "zero", "cyclic", "bigint"] }, { variantsPerPath: 8 }),
] };

// ---- API requests ---------------------------------------------------------
const arCfg = (o = {}) => `SPECIFICATION Spec\nCONSTANTS Limits = {${q(o.l ?? [99, 0, 1])}} Statuses = {${q(o.s ?? [200, 404, 500])}} Hdrs = {${q(o.h ?? ["none"])}} Bodies = {${q(o.b ?? ["json"])}} Ends = {${q(o.e ?? [])}} MaxCalls = ${o.c ?? 1}\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS C25_Bounded\nPROPERTIES C25_TransientOnly C25_NoEarlyGiveUp C25_FinalStatus C25_Monotone\nACTION_CONSTRAINT Export\n`;
const ar = (name, o, x = {}) => ({ name, spec: "ApiRequest", driver: "apirequest", cfg: (t) => arCfg(t === "quick" ? o : { ...o, ...o.thorough }), maxPaths: 4000, maxPathsThorough: 60000, walks: 100, walksThorough: 1000, walkLen: 12, ...x });
PROPERTIES.C25 = { models: [
  ar("statuses", { l: [99, 0, 1], s: [200, 201, 207, 400, 401, 403, 404, 405, 407, 408, 409, 413, 418, 422, 425, 429, 430, 499, 500, 501, 502, 503, 504, 520, 599] }, { variantsPerPath: 6 }),
  ar("headers", { l: [1, 3], s: [200, 429, 503], h: ["none", "ra2", "ra2rl30", "ra90", "date5", "rl30", "rapastrl30", "rl200", "ra0", "rajunk", "rapast", "rlpast", "rljunk"] }, { variantsPerPath: 3 }),
  ar("bodies", { l: [0, 1], s: [200, 207, 400, 404, 500], b: ["json", "problem", "text", "badjson", "empty", "unreadable"] }, { variantsPerPath: 10 }),
  ar("long", { l: [8], s: [200, 400, 500] }, { variantsPerPath: 3 }),
  ar("endpoints", { l: [0, 1], s: [200, 400, 401, 403, 404, 405, 500], e: ["net", "abort", "timeout"] }, { variantsPerPath: 127, walks: 0, walksThorough: 0 }), // every endpoint
  ar("ends", { l: [99, 1], e: ["net", "nonerror", "abort", "abortwait", "timeout"], c: 2 }, { variantsPerPath: 20 }),
] };
const aaCfg = (mode, o = {}) => `SPECIFICATION Spec\nCONSTANTS Mode = "${mode}" ArgKinds = {${q(o.a ?? ["plain", "slash", "special", "percent", "unicode", "dots", "quote", "ends"])}} FieldKinds = {${q(o.f ?? ["str", "empty", "zero", "false", "null", "undef", "arr", "arr0", "num", "true"])}} BodyKinds = {${q(["obj", "nested", "empty", "undef", "date", "big", "text"])}} HeaderKinds = {${q(["none", "tenant", "call", "auth", "authlower", "sdk", "nullish"])}}\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS C29_Places\nPROPERTIES C29_Faithful\nACTION_CONSTRAINT Export\n`;
PROPERTIES.C29 = { models: ["args", "fields", "bodies", "headers"].map((m) => ({ name: m, spec: "ApiArgs", driver: "apiargs", cfg: aaCfg(m), maxLen: 4, ...noWalks })) };

// ---- Vercel AI SDK --------------------------------------------------------
const vcCfg = (o) => `SPECIFICATION Spec\nCONSTANTS Kinds = {${q(o.k ?? ["text", "object", "embed", "rerank"])}} Prompts = {${q(o.p ?? ["none", "plain"])}} Metas = {${q(o.m ?? ["string"])}} Recs = {${q(o.r ?? ["both"])}} Tools = {${q(o.t ?? ["t1"])}} Execs = {${q(o.x ?? [])}} Errs = {${q(o.e ?? ["Error"])}} AuxOn = ${o.aux ? "TRUE" : "FALSE"} MaxCalls = ${o.c ?? 1} MaxSteps = ${o.s ?? 1} MaxStray = ${o.y ?? 0}\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS C28_LinkPlace C28_AllEnded C28_Tree C28_Recording\nPROPERTIES C28_Isolated\nACTION_CONSTRAINT Export\n`;
const vcPrompts = ["none", "plain", "client", "v0", "unflagged", "extra", "fallback", "noversion", "noname", "strversion", "numname", "array", "null", "undef", "string", "number", "fn", "empty"];
const vcMetas = ["none", "string", "emptystr", "jsonstr", "number", "zero", "false", "true", "object", "array", "empty", "emptyarr", "date", "bigint", "badjson", "null", "undef", "fn", "symbol", "nan", "dotted", "proto", "prompty", "userId", "sessionId", "tags", "version"];
const vc = (name, o, x = {}) => ({ name, spec: "VercelTelemetry", driver: "vercel", cfg: (t) => vcCfg(t === "quick" ? o : { ...o, ...o.thorough }), maxPaths: 4000, maxPathsThorough: 40000, ...noWalks, ...x });
PROPERTIES.C28 = { models: [
  vc("prompts", { aux: true, p: vcPrompts, m: ["none"], t: [], s: 1 }), vc("metadata", { k: ["text"], p: ["none"], m: vcMetas, t: [], s: 1 }, { maxPaths: 5000 }),
  vc("recording", { r: ["both", "in", "out", "neither"], p: ["plain"], m: ["none"], s: 1, e: ["Error", "string", "undef", "object"], x: ["value", "reject", "throw"] }),
  vc("steps", { k: ["text"], p: ["plain"], s: 2, thorough: { s: 3, t: ["t1", "t2"], p: ["plain"], e: [] } }),
  vc("interleaved", { k: ["text", "object"], p: ["plain"], t: [], c: 2, thorough: { k: ["text", "object", "embed", "rerank"] } }, { walks: 200 }),
  vc("strays", { p: ["plain"], c: 1, y: 2 }),
  vc("deep", { aux: true, p: ["none", "plain", "fallback"], m: ["string", "zero", "null"], r: ["both", "neither"], t: ["t1", "t2"], x: ["value", "reject"], c: 4, s: 3, y: 2, e: ["Error", "undef"] }, { simulate: (t) => ({ num: t === "quick" ? 60 : 2000, depth: 40 }), maxLen: 60, maxPaths: 1500, maxPathsThorough: 30000 }),
] };

// ---- configuration --------------------------------------------------------
const cfgCfg = (o) => `SPECIFICATION Spec\nCONSTANTS Keys = {${q(o.k)}} Kinds = {${q(o.kinds)}} Ops = {${q(o.ops)}} MaxSets = ${o.s ?? 2} MaxMakes = ${o.m ?? 2} MaxUses = ${o.u ?? 2}\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS TypeOk\nPROPERTIES C30_Fixed C30_Option\nACTION_CONSTRAINT Export\n`;
const cf = (name, o, x = {}) => ({ name, spec: "Config", driver: "config", cfg: (t) => cfgCfg(t === "quick" ? o : { ...o, ...o.thorough }), maxPaths: 1500, maxPathsThorough: 30000, walks: 60, walkLen: 8, variantsPerPath: 2, ...x });
PROPERTIES.C30 = { models: [
  cf("endpoint", { k: ["url", "legacy"], kinds: ["client", "processor"], ops: ["api", "link", "span"], s: 3, m: 1, thorough: { m: 2 } }),
  cf("keys", { k: ["pub", "sec"], kinds: ["client", "processor"], ops: ["api", "link", "span"], s: 3, m: 1, thorough: { m: 2 } }),
  cf("instances", { k: ["url", "pub", "hdr"], kinds: ["client", "processor"], ops: ["api", "span"], s: 1, m: 2 }),
  cf("labels", { k: ["env", "rel"], kinds: ["client", "processor"], ops: ["score", "span"], s: 2, m: 1, thorough: { s: 3, m: 2 } }),
  cf("media", { k: ["media", "timeout"], kinds: ["processor"], ops: ["span"], s: 2, m: 1, thorough: { s: 3, m: 2 } }),
  cf("batching", { k: ["at", "ivl"], kinds: ["client", "processor"], ops: ["score", "batch"], s: 2, m: 1, u: 1, thorough: { s: 3, m: 2 } }, { variantsPerPath: 1 }),
  cf("client-timeout", { k: ["timeout"], kinds: ["client"], ops: ["timeout"], s: 2, m: 1, u: 1 }),
] };

// ---- tracer providers and ids ---------------------------------------------
const isoCfg = (o) => `SPECIFICATION Spec\nCONSTANTS Kinds = {${q(o.k)}} HasGlobal = ${o.g ?? "TRUE"} MaxSpans = ${o.n ?? 3} MaxSets = ${o.s ?? 2} Seeds = {${q(o.seeds ?? [])}}\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS C31_Foreign C31_Trace\nPROPERTIES C31_Owner\nACTION_CONSTRAINT Export\n`;
const iso = (name, o, x = {}) => ({ name, spec: "Isolation", driver: "isolation", cfg: (t) => isoCfg(t === "quick" ? o : { ...o, ...o.thorough }), maxPaths: 2500, maxPathsThorough: 60000, walks: 200, walkLen: 12, ...x });
PROPERTIES.C31 = { models: [
  iso("providers", { k: ["start", "foreign"], n: 3, s: 2, thorough: { n: 3, s: 3 } }),
  iso("calls", { k: ["start", "active", "observe", "openai", "chain"], n: 3, s: 2, thorough: { n: 3, s: 3 } }),
  iso("ids", { k: ["start", "active", "observe"], n: 3, s: 1, seeds: ["s1", "s2"] }),
  iso("no-global", { k: ["start", "active", "observe", "chain"], g: "FALSE", n: 2, s: 3 }),
] };

// ---- logging --------------------------------------------------------------
const lgCfg = (o) => `SPECIFICATION Spec\nCONSTANTS Levels = {${q(o.l ?? ["DEBUG", "WARN", "NONE"])}} Prefixes = {${q(o.p ?? ["std", "p1"])}} Debugs = {${q(o.d ?? ["none"])}} EnvLevels = {${q(o.e ?? ["none"])}} Sdk = {${q(o.sdk ?? [])}} MaxCfg = ${o.c ?? 2} MaxLogs = ${o.n ?? 1} Holds = ${o.h ?? "FALSE"}\nVIEW View\nCHECK_DEADLOCK FALSE\nPROPERTIES C32_None\nACTION_CONSTRAINT Export\n`;
const allLevels = ["DEBUG", "INFO", "WARN", "ERROR", "NONE"];
const lg = (name, o, x = {}) => ({ name, spec: "Logging", driver: "logging", cfg: lgCfg(o), maxPaths: 2000, maxPathsThorough: 60000, walks: 100, walkLen: 8, ...x });
const quiet = (m, x = {}) => ({ ...m, name: "debug-" + m.name, debug: true, ...x });
PROPERTIES.C32 = { models: [
  lg("levels", { l: allLevels, p: ["std", "p1", "p2"], c: 2, n: 2 }),
  lg("loggers", { l: ["DEBUG", "WARN", "NONE"], c: 4, n: 2, h: "TRUE" }),
  lg("sdk", { l: allLevels, p: ["std"], sdk: ["DEBUG", "WARN", "ERROR"], c: 3, n: 3 }),
  lg("environment", { l: ["ERROR"], p: ["std"], d: ["none", "true", "TRUE", "false", "1"], e: ["none", "junk", ...allLevels], c: 1, n: 1 }, { ...noWalks, maxPaths: 400 }),
  // debug logging on: nothing else changes, and no message holds the secret key
  ...[[scoreModels[2]], [promptModels.fb], [PROPERTIES.C09.models.find((m) => m.driver === "pipeline")], [PROPERTIES.C10.models[0]], [PROPERTIES.C12.models[0], { variantsPerPath: 3 }], [PROPERTIES.C20.models.find((m) => m.name === "strays")],
    [PROPERTIES.C21.models.find((m) => m.name === "runs")], [PROPERTIES.C22.models[0]], [PROPERTIES.C23.models[0]], [PROPERTIES.C24.models[0]], [PROPERTIES.C25.models[0]], [PROPERTIES.C16.models.find((m) => m.name === "calls")]]
    .map(([m, x]) => quiet(m, { maxPaths: 400, walks: 50, maxPathsThorough: 20000, variantsPerPath: 1, ...x })),
] };

// ---- score targets --------------------------------------------------------
const stCfg = (o) => `SPECIFICATION Spec\nCONSTANTS Kinds = {${q(o.k)}} Vias = {${q(o.v)}} Bodies = {${q(o.b ?? ["num"])}} Clients = {${(o.c ?? [1]).join()}} MaxObs = ${o.n} MaxScores = ${o.s}\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS C33_OwnTrace C33_Somewhere C33_Roots\nPROPERTIES C33_Fixed\nACTION_CONSTRAINT Export\n`;
const stm = (name, o, x = {}) => ({ name, spec: "ScoreTarget", driver: "scoretarget", cfg: (t) => stCfg(t === "quick" ? o : { ...o, ...o.thorough }), maxPaths: 2500, maxPathsThorough: 60000, walks: 200, walkLen: 12, ...x });
const obKinds = ["active", "observe", "manual", "otel", "remote", "event"];
PROPERTIES.C33 = { models: [
  stm("flows", { k: ["active", "observe"], v: ["activeObs", "activeTrace"], n: 3, s: 2 }),
  stm("kinds", { k: obKinds, v: ["activeObs", "activeTrace", "obs", "trace"], n: 2, s: 2, thorough: { n: 3, s: 1 } }),
  stm("bodies", { k: ["active"], v: ["activeObs", "activeTrace", "obs", "trace", "create", "session", "run"], b: Object.keys({ num: 1, zero: 1, cat: 1, full: 1, undef: 1 }), c: [1, 2], n: 1, s: 2 }),
  stm("deep", { k: obKinds, v: ["activeObs", "activeTrace", "obs", "trace", "create"], b: ["num", "full"], c: [1, 2], n: 6, s: 8 }, { simulate: (t) => ({ num: t === "quick" ? 120 : 3000, depth: 24 }), maxLen: 30, ...noWalks }),
] };

// ---- creating prompts -----------------------------------------------------
const pcCfg = (o) => `SPECIFICATION Spec\nCONSTANTS Types = {${q(o.t ?? ["none", "text", "chat"])}} Pieces = {${q(o.p ?? [])}} MaxPieces = ${o.m ?? 0} Extras = {${q(o.x ?? [])}} MaxExtras = ${o.mx ?? 1} Answers = {${q(o.a ?? ["text", "chat", "e400"])}} Changes = {${q(o.ch ?? [])}} MaxCalls = ${o.c ?? 1}\nVIEW View\nCHECK_DEADLOCK FALSE\nPROPERTIES C34_One C34_Own\nACTION_CONSTRAINT Export\n`;
const pcm = (name, o, x = {}) => ({ name, spec: "PromptCreate", driver: "promptcreate", cfg: (t) => pcCfg(t === "quick" ? o : { ...o, ...o.thorough }), maxPaths: 3000, maxPathsThorough: 60000, ...noWalks, ...x });
const pcPieces = ["msg", "typed", "ph", "phx", "extra"];
PROPERTIES.C34 = { models: [
  pcm("pieces", { p: pcPieces, m: 4, a: ["chat"], thorough: { m: 5 } }, { variantsPerPath: 1 }),
  pcm("members", { p: ["msg"], m: 1, x: ["labels", "labels0", "tags", "config", "confignull", "commit", "commitempty"], mx: 2, a: ["text", "chat", "e400", "e409", "net"] }),
  pcm("changes", { t: ["none"], ch: ["update", "update0", "deleteAll", "deleteVersion", "deleteZero", "deleteLabel"], c: 2, a: ["text", "chat", "e400", "e404", "net"], thorough: { c: 3, a: ["text", "e404", "net"] } }, { variantsPerPath: 2, walks: 200 }),
  pcm("overlapping", { p: ["msg", "ph"], m: 1, c: 2, a: ["text", "chat", "e400", "net"], thorough: { c: 3 } }, { walks: 300 }),
] };

// ---- runner contexts ------------------------------------------------------
const rcCfg = (o) => `SPECIFICATION Spec\nCONSTANTS Datas = {${q(o.d)}} Versions = {${q(o.v)}} Mds = {${q(o.m)}} MaxCtx = ${o.c ?? 1} MaxRuns = ${o.r ?? 1}\nVIEW View\nCHECK_DEADLOCK FALSE\nPROPERTIES C35_Kept C35_Own C35_CallWins\nACTION_CONSTRAINT Export\n`;
const rcm = (name, o, x = {}) => ({ name, spec: "RunnerContext", driver: "runnercontext", cfg: (t) => rcCfg(t === "quick" ? o : { ...o, ...o.thorough }), maxPaths: 2000, maxPathsThorough: 40000, ...noWalks, ...x });
PROPERTIES.C35 = { models: [
  rcm("defaults", { d: ["none", "d1", "d2", "empty"], v: ["none", "v1", "v2"], m: ["none", "ab", "bc", "empty"] }, { variantsPerPath: 3 }),
  rcm("runs", { d: ["none", "d1"], v: ["none", "v1"], m: ["none", "ab", "bc"], c: 1, r: 2, thorough: { r: 3, d: ["d1"] } }, { walks: 200 }),
  rcm("contexts", { d: ["none", "d1"], v: ["none"], m: ["none", "ab", "bc"], c: 2, r: 2 }, { walks: 200 }),
] };

// ---- experiment contexts --------------------------------------------------
const ecCfg = (o) => `SPECIFICATION Spec\nCONSTANTS NE = ${o.e ?? 0} NI = ${o.i ?? 1} Lims = {${(o.l ?? [1]).join()}} MaxDepth = ${o.d ?? 0} Kinds = {${q(o.k ?? [])}} Mds = {${q(o.m ?? [])}} IMds = {${q(o.im ?? [])}} Exps = {${q(o.x ?? [])}} Descs = {${q(o.ds ?? [])}} Srcs = {${q(o.s ?? [])}} Envs = {${q(o.v ?? [])}}\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS C36_Own C36_Outside C36_Limit\nPROPERTIES C36_Bound\nACTION_CONSTRAINT Export\n`;
const ecm = (name, o, x = {}) => ({ name, spec: "ExperimentContext", driver: "experimentcontext", cfg: (t) => ecCfg(t === "quick" ? o : { ...o, ...o.thorough }), maxPaths: 2000, maxPathsThorough: 40000, ...noWalks, ...x });
const spanKinds = ["obs", "otel", "linked", "prop", "child"];
PROPERTIES.C36 = { models: [
  ecm("values", { m: ["none", "empty", "ab", "bc", "reserved"], im: ["none", "empty", "ab", "bc", "reserved"], x: ["undef", "null", "empty", "zero", "false", "str", "obj", "list"], ds: ["none", "empty", "text"], s: ["local", "linked", "unlinked", "noItem", "noDataset"], v: ["none", "set"] }, { variantsPerPath: 1 }),
  ecm("items", { e: 1, i: 2, l: [1, 2], d: 1, k: spanKinds, thorough: { i: 3, l: [1, 2, 3] } }, { walks: 300 }),
  ecm("experiments", { e: 2, i: 1, l: [1], d: 1, k: ["obs", "otel"], thorough: { i: 2, l: [1, 2], d: 0 } }, { walks: 400 }),
  ecm("deep", { e: 3, i: 3, l: [1, 2, 3], d: 2, k: spanKinds }, { simulate: (t) => ({ num: t === "quick" ? 150 : 4000, depth: 45 }), maxLen: 50 }),
] };
