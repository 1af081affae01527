// Source of /verif/properties.jsonl. Run: node tools/gen_properties.mjs
import fs from "node:fs";
const P = [];
const p = (id, title, statement, over, qtext, why, files, state, mechanism, observe_at, hook_needed = "none") =>
  P.push({ id, title, statement, quantifier: { over, text: qtext }, why_tests_cant: why,
    anchors: { files, state: state.map(([name, meaning, where]) => ({ name, meaning, where })),
      mechanism: mechanism.map(([name, where]) => ({ name, where })), observe_at, hook_needed } });

const SC = "packages/client/src/score/index.ts";
p("C01", "Accepted scores are delivered exactly once, in order, in bounded batches",
  "Every score a client accepts is handed to the ingestion endpoint in exactly one batch, unchanged (plus a generated id and the configured default environment when the caller gave none), whatever the timing of responses, failures, timers and flushes. Batches carry scores in creation order, follow each other in creation order and never exceed 100 events. A score is discarded only when 100,000 are already waiting.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "all interleavings of score creation, manual flush, interval timer, and success / partial-error / rejection of in-flight batches, with burst sizes around the flush threshold, the batch limit and the queue limit",
  "Unit tests create a handful of scores and await one flush with an immediately resolving server; no test interleaves creation, timers and flushes with an in-flight or failing batch.",
  [SC, "packages/client/src/LangfuseClient.ts"],
  [["eventQueue", "scores accepted and not yet handed to the server", SC], ["flushPromise", "the delivery in progress", SC], ["flushTimer", "pending interval flush", SC]],
  [["create", SC], ["handleFlush", SC]],
  ["HTTP requests to POST /api/public/ingestion", "return of score.create/observation/trace"]);
p("C02", "flush() and shutdown() wait for every score created before them",
  "When a flush or shutdown of the client (or of its score API) resolves, every score created before that call has been sent and its batch has been answered or has definitively failed. This holds even if another flush or an automatic delivery is already in progress when it is called, and a failing server never makes flush or shutdown reject.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of create, one or more overlapping flush/shutdown calls, timer expiry and batch completion or failure",
  "Tests call flush once with nothing else in flight; the guarantee is about overlap with deliveries that are still in progress.",
  [SC, "packages/client/src/LangfuseClient.ts"],
  [["flushPromise", "the delivery in progress that later flush calls must extend, not replace", SC]],
  [["flush", SC], ["shutdown", SC]],
  ["settlement of the promise returned by flush()/shutdown() relative to ingestion responses"]);
p("C03", "Scores leave the process without a manual flush",
  "A created score is sent on its own: at once when the configured number of queued scores is reached, otherwise no later than the configured flush interval after it was queued, or, if a delivery is in progress at that moment, when that delivery ends. A failed, slow or partially rejected delivery never stops later scores from being sent, and the waiting timer never keeps the process alive.",
  ["schedules", "histories", "fault_sequences", "configurations"],
  "every reachable combination of queue contents, armed timer and in-flight delivery, under fairness of the timer and of server responses, for flush thresholds and intervals from the environment",
  "Liveness over all schedules cannot be sampled; existing tests only check that a timer or threshold triggers a send from an idle state.",
  [SC, "packages/core/src/utils.ts"],
  [["flushTimer", "armed interval timer", SC], ["flushAtCount", "threshold", SC]],
  [["create", SC], ["safeSetTimeout", "packages/core/src/utils.ts"]],
  ["HTTP requests to POST /api/public/ingestion as virtual time advances"]);

const PC = "packages/client/src/prompt/promptCache.ts", PM = "packages/client/src/prompt/promptManager.ts", PCl = "packages/client/src/prompt/promptClients.ts";
p("C04", "Prompt cache: fresh hits are free, stale hits refresh once in the background",
  "Within the time-to-live given when a prompt was cached (60 s by default) a get returns the cached prompt without any request; after it, a get still returns the cached prompt immediately and starts one background refresh, and no further refresh for that prompt while one is running. A successful refresh replaces the cached prompt, a failed one leaves it in place and allows another attempt. A time-to-live of zero always fetches.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "all interleavings of get calls (any of several prompts, versions, labels and TTLs), clock advances around the expiry instant and completion or failure of each fetch",
  "Tests sample one prompt with a mocked clock and an immediately resolving server; overlapping gets, failing refreshes and mixed TTLs are not combined.",
  [PC, PM], [["_cache", "cached prompts with their expiry", PC], ["_refreshingKeys", "background refreshes in progress", PC]],
  [["get", PM], ["getIncludingExpired", PC], ["fetchPromptAndUpdateCache", PM]],
  ["HTTP requests to GET /api/public/v2/prompts/{name}", "value and settlement of prompt.get()"]);
p("C05", "A prompt lookup never returns a different prompt",
  "The prompt returned by a get for a given name and version, or name and label, is always one the server returned for exactly that name and that version or label (production when neither is given). No other name, version, label or earlier call can make the cache answer with another prompt.",
  ["inputs", "histories"],
  "all histories of gets over names, versions and labels drawn from adversarial strings (separators, shared prefixes, version/label look-alikes, reserved words, empty and zero values)",
  "Tests use well-behaved names; collisions need two particular names/labels in one history.",
  [PC, PM], [["cache key", "identity of a cached prompt", PC]], [["createKey", PC], ["get", PM]],
  ["path and query of prompt requests", "value of prompt.get()"]);
p("C06", "Updating or deleting a prompt invalidates exactly that prompt's cache",
  "Once an update or delete of a prompt has resolved, no get started afterwards returns content the server had produced for that prompt before the change, for any of its versions and labels, even if a fetch or background refresh was in flight meanwhile. A failed update or delete, and any operation on another prompt, leaves cached entries untouched.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of gets, background refreshes, updates and deletes of several prompts (including names that are prefixes of one another) with success and failure of each request",
  "Tests invalidate with nothing in flight and with unrelated names.",
  [PC, PM], [["_cache", "cached prompts", PC], ["_refreshingKeys", "refreshes in progress", PC]], [["invalidate", PC], ["update", PM], ["delete", PM]],
  ["HTTP requests and responses for prompts", "value of prompt.get()"]);
p("C07", "Fallback prompts are used only when the server fails, and are never cached",
  "When a prompt that is not cached cannot be fetched within the timeout and retries given to get, get resolves to the caller's fallback, marked as a fallback and carrying the requested name, type and labels; without a fallback it rejects with the original error. A fallback is never cached, never replaces a cached prompt and never used when the fetch succeeds.",
  ["fault_sequences", "histories", "inputs"],
  "all histories of gets with and without fallback, text and chat, over fetch success and failure",
  "Tests check single calls; that a fallback leaks into later calls needs a multi-call history.",
  [PM, PCl], [["isFallback", "marks a prompt built from the caller's fallback", PCl]], [["get", PM]],
  ["value or rejection of prompt.get()", "prompt requests"]);
p("C08", "Prompt compilation substitutes exactly the given variables and placeholders",
  "Compiling a text or chat prompt replaces each variable with the given value verbatim (no escaping), splices given placeholder message lists in position, keeps unresolved placeholders, and changes nothing else. Compiling never alters the prompt, so compiling again, in any order and with any variables, gives the same result.",
  ["inputs", "histories"],
  "all small chat templates over messages, variables and placeholders, and all assignments of placeholder values (lists, empty, invalid, missing) and variable values including markup-significant characters",
  "Tests sample a few templates; the combination of message order, placeholder kinds and repeated compilation is not covered.",
  [PCl], [["prompt", "template messages", PCl]], [["compile", PCl]], ["return value of compile(), toJSON() and getLangchainPrompt()"]);

const SP = "packages/otel/src/span-processor.ts", MS = "packages/otel/src/MediaService.ts", MU = "packages/core/src/mediaUpload.ts", SF = "packages/otel/src/span-filter.ts";
p("C09", "Selected spans are exported exactly once; forceFlush and shutdown await them",
  "Each sampled span that ended before shutdown and that the configured (or default) filter accepts reaches the exporter exactly once (within the exporter queue's capacity), and no other span does; a throwing filter drops only the span it threw on. When forceFlush or shutdown resolves, every accepted span ended before the call has been handed to the exporter and its media uploads have settled. This holds in batched and immediate mode, whatever the timing of masking, media handling and export, and their failures.",
  ["schedules", "configurations", "fault_sequences"],
  "all interleavings of span ends, asynchronous mask and media completions, export completions and forceFlush/shutdown calls, for both export modes and every filter verdict",
  "Tests flush once at the end of a straight-line program; overlap of spans still being processed with flush and shutdown is not explored.",
  [SP, SF], [["pendingEndedSpans", "ended spans still being masked or scanned for media", SP]], [["onEnd", SP], ["forceFlush", SP], ["shutdown", SP], ["isDefaultExportSpan", SF]],
  ["spans passed to the exporter", "settlement of forceFlush()/shutdown()"]);
p("C10", "With a mask configured, no unmasked payload leaves the process",
  "When a mask is configured, every Langfuse input, output and metadata attribute of an observation or trace (metadata whole or per key) reaches the exporter and media upload only in the form returned by the mask for it, awaited if it is a promise. If the mask throws or rejects, the raw value still never leaves: it is replaced by a fixed notice. Other attributes are exported unchanged.",
  ["inputs", "fault_sequences", "schedules"],
  "all combinations of payload-bearing attributes (whole and per-key metadata) and mask behaviours (sync, async, throwing, rejecting) on one or several spans",
  "Tests mask input/output and whole metadata with a well-behaved function; per-key metadata and failure per attribute are not combined.",
  [SP], [["maskable attributes", "attributes that hold payloads", SP]], [["applyMaskInPlace", SP]], ["attributes of exported spans", "media upload requests"]);
p("C11", "Inline media is replaced by a reference to exactly the uploaded content",
  "Every base64 data URI (data:<media type>;base64,<content>) inside an exported observation's or trace's input, output or metadata (and in supported AI-SDK message attributes) is replaced by a media reference whose id is derived from that content, and that content is uploaded; all other text is left byte-for-byte unchanged. This holds for any number, order, repetition and overlap of media in one or several attributes, and a failing upload never affects the span.",
  ["inputs", "fault_sequences"],
  "all small arrangements of distinct, repeated and prefix-related data URIs and plain text over attributes and spans, with any upload outcome",
  "Tests use one or two clean data URIs; repetition and overlap across positions and attributes need particular content.",
  [MS, "packages/core/src/media.ts"], [["pendingMediaUploads", "uploads in progress", MS]], [["process", MS], ["LangfuseMedia", "packages/core/src/media.ts"]],
  ["attributes of exported spans", "media upload requests (POST /api/public/media, PUT, PATCH)"]);
p("C12", "Media upload protocol: verified, retried, reported",
  "An upload first asks for a target for the exact content; if the server already has it, nothing is sent, and if the server's media id differs from the content's, nothing is sent and the upload fails. Otherwise the bytes are sent with their content type and checksum, retried with growing delay on any answer other than 200 or 201 or on a network failure, up to the configured number of retries and never after a success, and the final HTTP status is reported exactly once.",
  ["fault_sequences", "configurations", "inputs"],
  "every sequence of server answers (target issued, already stored, id mismatch, 2xx, 4xx, 5xx, network error) and retry limits",
  "Tests mock one or two outcomes; the protocol is over every fault sequence.",
  [MU], [["attempt", "number of PUTs so far", MU]], [["uploadMedia", MU], ["uploadWithBackoff", MU]], ["requests to the media API and to the upload URL, and their timing"]);
p("C13", "Exactly the topmost exported span of a trace part is marked as application root",
  "A span is marked as application root precisely when the export filter accepts it at its start, its parent is not an open span of this process that the filter accepted at its start, and no active Langfuse observation enclosing it, in this process or upstream, has claimed its trace. Code running inside startActiveObservation or observe, and services called from it that receive its headers, carry the claim for that trace. A marker never changes after the start.",
  ["programs", "configurations", "histories"],
  "all small trees of spans over exported and filtered instrumentation, local and remote parents, orders of start and end, and presence of the upstream claim",
  "Tests check fixed trees; the classification quantifies over all trees, end orders and filters.",
  [SP, "packages/core/src/propagation.ts"], [["active expected spans", "open spans expected to be exported", SP]], [["onStart", SP]], ["attributes of exported spans", "outgoing baggage"]);

const PR = "packages/core/src/propagation.ts", TI = "packages/tracing/src/index.ts", TA = "packages/tracing/src/attributes.ts", SW = "packages/tracing/src/spanWrapper.ts";
p("C14", "Propagated attributes reach exactly the spans started inside their scope",
  "A span carries the user id, session id, trace name, version, tags, metadata, environment and prompt link of the propagation scopes enclosing its start (a prompt given at its creation wins), inner scopes overriding single values and merging tags and metadata. It also takes on the values of scopes opened while it is the active, unended span, and nothing from any other scope, whatever the interleaving of concurrent asynchronous flows. Invalid values are dropped individually without affecting the valid ones.",
  ["schedules", "programs", "inputs"],
  "all small programs of nested and concurrent scopes and span starts over valid, boundary and invalid attribute values",
  "Tests run one flow with well-formed values; leakage needs concurrent flows and inner/outer combinations.",
  [PR, SP], [["context keys", "propagated values", PR]], [["propagateAttributes", PR], ["getPropagatedAttributesFromContext", PR], ["onStart", SP]], ["attributes of exported spans"]);
p("C15", "Propagation across services through baggage is lossless and opt-in",
  "When a scope requests propagation as baggage, a downstream service that extracts the outgoing headers gives its spans each value the scope set (user id, session id, version, trace name, environment, prompt, experiment values, and tags and metadata as merged with enclosing scopes) as local spans would get it, for every valid value within the W3C baggage size limits. Scopes opened downstream override and merge with these as local ones do. Values never set in a requesting scope do not appear in outgoing headers.",
  ["inputs", "programs"],
  "all subsets of attributes with valid values including separators, percent signs, unicode and JSON-significant characters, with and without baggage, over one or two hops",
  "Tests check a few ASCII values on one hop.",
  [PR], [["baggage entries", "values carried in headers", PR]], [["propagateAttributes", PR], ["getPropagatedAttributesFromContext", PR]], ["outgoing headers", "attributes of spans started downstream"]);
p("C16", "Instrumented functions behave as if they were not instrumented",
  "Running code through observe or startActiveObservation returns, resolves, throws or rejects with exactly the value or error of the code itself, in the same synchronous or asynchronous fashion, with the same this and arguments, whatever is returned or thrown. The observation is ended exactly once, after the code settles (or by the caller when automatic ending is disabled), with the arguments and result recorded unless capturing is switched off and the error recorded on failure, and work started inside becomes its child. Promises are native Promise instances.",
  ["programs", "inputs", "fault_sequences"],
  "all small nestings of sync/async instrumented functions that return, throw, resolve or reject, with every option combination and argument/result kinds that cannot be serialised",
  "Tests sample individual options; transparency is over all programs, values and failure points.",
  [TI, SW, "packages/tracing/src/tracerProvider.ts"], [["otelSpan", "the underlying span", SW]], [["observe", TI], ["startActiveObservation", TI], ["wrapPromise", TI]], ["return values and errors", "exported spans: count, parent, end, status, input/output"]);
p("C17", "Observation attributes reflect the creation values overlaid by updates in order",
  "An exported observation shows, for every field (input, output, level, status message, version, model, model parameters, usage, cost, prompt, completion start, each metadata key, trace input and output, and the public mark), the last non-null value given at creation or in any later update before it ended, and its type is the one requested last. Updates after the end and updates of other observations have no effect. Values of any kind are accepted: unserialisable ones are replaced by a notice and never throw into the caller; functions, symbols and fallback prompts count as absent.",
  ["histories", "inputs"],
  "all short histories of creations and updates over field subsets and value kinds (null, undefined, zero, empty, cyclic, bigint, throwing toJSON), for every observation type",
  "Tests set each field once; overlay order and unserialisable kinds per field are not combined.",
  [TA, SW, TI], [["span attributes", "recorded fields", TA]], [["createObservationAttributes", TA], ["updateOtelSpanAttributes", SW]], ["attributes of exported spans"]);

const OT = "packages/openai/src/traceMethod.ts", OP = "packages/openai/src/parseOpenAI.ts", OO = "packages/openai/src/observeOpenAI.ts";
p("C18", "The OpenAI wrapper never changes what the caller gets",
  "A client wrapped for tracing gives the caller exactly what the original client would: the same resolved values, the same errors, the same stream chunks in the same order, the same synchronous results and the same other members, for every call, stream and nesting. Response shapes the tracer does not understand never surface as errors in the caller's code.",
  ["inputs", "schedules", "fault_sequences"],
  "all call kinds (chat, completion, responses, embeddings, unknown) with complete, partial, empty or malformed responses, and streams consumed fully, partially, or failing midway",
  "Tests use well-formed mocks consumed to the end.",
  [OT, OO, OP], [["generation", "the observation of the call", OT]], [["withTracing", OT], ["wrapAsyncIterable", OT]], ["values, errors and chunks delivered to the caller"]);
p("C19", "Each traced OpenAI call yields exactly one ended generation with its true result",
  "Every call through the wrapper that returns a promise or a stream, or throws, produces exactly one generation observation, ended once the call or its stream is finished, fails or is abandoned while being read, holding the request, the model, the complete output of the first choice assembled from all chunks (text and every tool call) and the last reported token usage, or the error. Secrets and client internals are not recorded.",
  ["inputs", "schedules", "fault_sequences"],
  "all chunk sequences (text deltas, interleaved tool-call fragments, usage chunks, empty choices) and all ways a call or stream can end",
  "Tests use a few fixed streams; abandonment, mid-stream failure and interleaved tool calls are not covered.",
  [OT, OP], [["generation", "the observation of the call", OT]], [["wrapAsyncIterable", OT], ["parseChunk", OP], ["parseUsage", OP]], ["exported spans"]);
const LC = "packages/langchain/src/CallbackHandler.ts";
p("C20", "LangChain runs are mirrored one-to-one as ended observations",
  "For every sequence of callback events, each started run becomes exactly one observation of the matching kind (models as generations, tools as tools) under its parent run's observation, ended exactly once when the run ends or fails, with its input, output, model, usage, first-token time and error; agent actions become ended children of their run. Top-level runs carry the handler's session, user, tags and metadata, and a prompt announced in a run is linked to the next model run under the same parent only. The handler never throws or rejects into the application, ignores events of unknown runs, and keeps no state for finished runs.",
  ["schedules", "histories", "inputs"],
  "all interleavings of start, token, end and error events of small run trees (chains, models, tools, retrievers, agents), including unknown, duplicate and malformed events",
  "Tests replay a few well-formed runs; interleaving and malformed events need exploration.",
  [LC], [["runMap", "open runs", LC], ["completionStartTimes", "first-token times", LC]], [["startAndRegisterOtelSpan", LC], ["handleOtelSpanEnd", LC]], ["exported spans", "settlement of handler methods"]);

const EX = "packages/client/src/experiment/ExperimentManager.ts", DS = "packages/client/src/dataset/index.ts", JP = "packages/client/src/dataset/jsonPath.ts", MD = "packages/client/src/media/index.ts";
p("C21", "Experiments isolate items, respect concurrency and report in input order",
  "An experiment runs the task once per item that has an input, inside that item's own observation and with at most the requested number in progress, returns (and formats) the successful items' results in input order, each with its own item, and neither a failing task, evaluator, run evaluator nor server request affects any other item or evaluator. Each evaluation becomes exactly one score on its own item's trace (run-level ones on the dataset run). Run evaluators see all results, and the experiment resolves only after its scores were flushed.",
  ["schedules", "fault_sequences", "configurations"],
  "all interleavings of task and evaluator completions and failures for small item counts and every concurrency limit, with and without a dataset",
  "Tests run tasks that resolve immediately; completion order, failures and limits are not combined.",
  [EX, "packages/client/src/experiment/RunnerContext.ts"], [["results", "item results by index", EX]], [["run", EX], ["runItem", EX]], ["task and evaluator invocations", "score, dataset-run-item requests", "experiment result"]);
p("C22", "A fetched dataset holds every item once, with its media in place",
  "Fetching a dataset returns all of its items, in server order and without omission or duplication, whatever the number of pages and the page size, and rejects if any page fails. Media references are hydrated exactly at the locations the server indicates, on the item's own value, and a location that does not exist leaves the item unchanged.",
  ["inputs", "histories", "fault_sequences"],
  "all page counts, page fills and page failures; all small nested item values with media locations including arrays, quoted keys and missing paths",
  "Tests use one or two pages and a few paths.",
  [DS, JP], [["page", "next page", DS]], [["get", DS], ["setValueAtPath", JP]], ["dataset-items requests", "returned items"]);
p("C23", "A dataset item is created only after all of its media is uploaded",
  "Creating a dataset item uploads each distinct media value contained in its input, expected output or metadata (through up to twenty levels of arrays and plain objects) exactly once, and sends the item only after every upload succeeded, with each media value replaced by its reference and all else unchanged. If any upload fails the creation rejects and no item is created; items without media cause no upload traffic, and the caller's objects are not modified.",
  ["inputs", "fault_sequences", "schedules"],
  "all small nested values with shared, repeated and cyclic structure and media at any position, and every upload outcome and completion order",
  "Tests use one media value at fixed positions and successful uploads.",
  [DS, MU], [["uploads", "distinct media by content", DS]], [["createItem", DS], ["uploadMedia", MU]], ["media and dataset-item requests in order", "settlement of createItem"]);
p("C24", "Resolving media references replaces exactly the references and never fails",
  "Resolving references in a value yields a copy in which every well-formed media reference, at any supported depth and any number of times, is replaced by its content as a data URI, and every malformed, unknown or unfetchable reference and all other data are left as they were. The original value is not modified and one failing reference never prevents the others.",
  ["inputs", "fault_sequences"],
  "all small nested values over well-formed, repeated, malformed and plain strings and every outcome of the metadata and content requests",
  "Tests cover a couple of shapes with successful fetches.",
  [MD], [["references", "references found", MD]], [["resolveReferences", MD], ["parseReferenceString", MD]], ["requests to the media API", "returned value"]);
const FR = "packages/core/src/api/core/fetcher/requestWithRetries.ts";
p("C25", "API requests are retried on transient failures only, with compliant delays",
  "On every endpoint, a request answered with 408, 429 or any 5xx is repeated unchanged up to the configured number of retries, waiting as the server's Retry-After or rate-limit headers say (at most a minute, plus jitter) or else with bounded exponential backoff; any other answer is final. The caller receives the body of the success (also through withRawResponse), or the endpoint's declared error carrying the final status code and body (also when an answer is not the JSON it should be). A request unanswered within its timeout rejects as a timeout, a cancelled or failed one rejects at once, and a settled call leaves no timer behind.",
  ["fault_sequences", "configurations"],
  "all sequences of answers and retry limits, with all forms of retry headers",
  "Existing tests cover none of the retry sequences end to end.",
  [FR, "packages/core/src/api/core/fetcher/Fetcher.ts"], [["retry count", "attempts so far", FR]], [["requestWithRetries", FR]], ["HTTP requests and their timing", "result of API calls"]);
p("C26", "The browser client resolves a score only when the server acknowledged it",
  "A score call of the browser client sends exactly one request authenticated with the public key only, and resolves only if the server acknowledged that very score without error; every other outcome (HTTP error, network failure, malformed or partial answer) rejects with the library's own error type. User-supplied headers can never replace the authentication or identification headers.",
  ["inputs", "fault_sequences", "configurations"],
  "all response shapes (statuses, malformed bodies, acknowledgements of other ids, mixed success and error lists) and header sets in any case",
  "Tests cover a few responses.",
  ["packages/browser/src/index.ts", "packages/browser/src/utils.ts"], [["headers", "request headers", "packages/browser/src/utils.ts"]], [["score", "packages/browser/src/index.ts"]], ["the HTTP request", "settlement of score()"]);
p("C27", "Media values round-trip between content, id and reference tag",
  "For any non-empty content and any content type, a media value's id depends only on the content's bytes, its reference tag parses back to the same id, type and source, and its data URI decodes to the same bytes, however the value was constructed; invalid input yields a value without tag rather than an exception. A resolved media reference serialises back to its tag and delivers exactly the stored bytes in every offered format, or rejects when they cannot be fetched.",
  ["inputs"],
  "all constructions (data URI, bytes, base64, file-like) of contents of every length class and content type, and malformed inputs",
  "Tests sample single contents.",
  ["packages/core/src/media.ts", MD], [["content bytes", "the media", "packages/core/src/media.ts"]], [["LangfuseMedia", "packages/core/src/media.ts"], ["parseReferenceString", MD]], ["id, tag and data URI of a media value"]);
p("C28", "AI SDK calls produce exactly their own observations, links and metadata",
  "With the Vercel AI SDK integration, every telemetry event of a call reaches the observations of that call and no other, once and in order: observations nest as operation, step, model call and tool, all are ended when the call ends, aborts or fails (failures recorded), functions executed for a model call or tool run inside its observation with their outcome unchanged, and per-call recording of inputs and outputs is honoured. Exactly the model-call observations link the runtime context's prompt, and only a genuine non-fallback prompt. Every other runtime context value is recorded as metadata on the call's observations (strings as they are, others as JSON), absent or unserialisable ones never disturbing the rest.",
  ["inputs", "configurations", "histories", "schedules"],
  "all interleavings of the events of concurrent text, object, embedding and reranking calls, all prompt forms, metadata values and recording settings",
  "No unit test covers the integration; end-to-end tests sample single calls.",
  ["packages/vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts", "packages/vercel-ai-sdk/src/utils.ts"], [["runtime context", "settings of the call", "packages/vercel-ai-sdk/src/utils.ts"]], [["createLangfuseObservationAttributes", "packages/vercel-ai-sdk/src/utils.ts"]], ["attributes of emitted spans"]);
p("C29", "API methods send exactly the arguments they are given",
  "Every method of the API client sends one request with the method and path of its endpoint in which each path argument, each query field that is set (including empty strings, zero and false) and the request body arrive, after standard decoding, as the very values given, and nothing else. Every request carries the client's own credentials and identification headers, whatever additional headers are configured in whatever spelling.",
  ["inputs", "configurations"],
  "all endpoints, each with all kinds of path arguments (slashes, percent signs, unicode), all kinds of values in each query field, all kinds of bodies and header sets",
  "Tests exercise a handful of endpoints with plain arguments.",
  ["packages/core/src/api/core/url/join.ts", "packages/core/src/api/core/url/qs.ts", "packages/core/src/api/core/headers.ts"], [["_queryParams", "the query", "packages/core/src/api/api/resources/scores/client/Client.ts"]], [["join", "packages/core/src/api/core/url/join.ts"], ["toQueryString", "packages/core/src/api/core/url/qs.ts"], ["mergeHeaders", "packages/core/src/api/core/headers.ts"]], ["HTTP requests"]);
p("C30", "Settings come from the option, else the environment, else the default",
  "Every setting of a client or span processor (keys, base URL, additional headers, environment, release, media upload, export timeout, flush size and interval) is the constructor option if given, else the environment variable if non-empty (LANGFUSE_BASE_URL before LANGFUSE_BASEURL), else the global of the same name, else the documented default, and all requests of that instance, span export, media uploads, scores and trace links alike, follow it, whether or not the base URL has a path or ends in a slash. An instance keeps the settings it was made with, whatever is changed or constructed later; only the environment of a score is read when the score is created. A request timeout set for a client bounds its API requests.",
  ["configurations", "histories"],
  "all combinations of option, environment variable, empty variable and global for each setting, all orders of changing them, constructing several clients and processors and using them",
  "Tests set one source at a time on one instance and replace the exporter.",
  ["packages/client/src/LangfuseClient.ts", "packages/otel/src/span-processor.ts", "packages/core/src/utils.ts", "packages/client/src/score/index.ts"], [["baseUrl", "the endpoint", "packages/client/src/LangfuseClient.ts"]], [["getEnv", "packages/core/src/utils.ts"], ["getTraceUrl", "packages/client/src/LangfuseClient.ts"]], ["URL, headers and content of every request"]);
p("C31", "Langfuse spans go to Langfuse's tracer provider, and nothing else does",
  "Every Langfuse span, started by whichever API or integration, belongs to the tracer provider set for Langfuse at the moment it starts, or to the global one when none is set, from every copy of the package in the process; spans of other tracers never reach a provider set for Langfuse, and a span stays with its provider when the setting changes. Whatever the providers, spans nest by the active context and the handle they are created from, and the active trace and span ids are those of the active span. A trace id made from a seed is the first 32 hex digits of the seed's SHA-256, an unseeded one is random, and observations given it belong to that trace.",
  ["histories", "configurations"],
  "all orders of setting and clearing providers (through two copies of the package), starting, ending and activating spans of all kinds, with and without a global provider and with seeded trace ids",
  "Tests set one provider once and start plain spans.",
  ["packages/tracing/src/tracerProvider.ts", "packages/tracing/src/index.ts", "packages/tracing/src/spanWrapper.ts"], [["isolatedTracerProvider", "the provider set for Langfuse", "packages/tracing/src/tracerProvider.ts"]], [["getLangfuseTracerProvider", "packages/tracing/src/tracerProvider.ts"], ["createTraceId", "packages/tracing/src/index.ts"]], ["which provider's processors see which spans"]);
p("C32", "Logging follows the configured level, reveals no secret and changes nothing",
  "A message is printed, once, with its level's console method, prefix and arguments, iff its level is at least that of the logger it is sent to at that moment: the global logger starts at the level of LANGFUSE_DEBUG or LANGFUSE_LOG_LEVEL (else INFO), every message of the SDK follows what configure, setLevel and reset made of it last, also for clients constructed before, and loggers of one's own are independent. No message at any level contains the secret key or an authorization header. Turning debug logging on changes nothing else that the SDK does.",
  ["configurations", "histories"],
  "all sequences of configuring, resetting and using loggers, all environment settings, and the behaviours of scores, prompts, spans, media, datasets, experiments and callbacks with debug logging on",
  "Tests run at the default level and check single messages.",
  ["packages/core/src/logger/index.ts"], [["LoggerSingleton.instance", "the global logger", "packages/core/src/logger/index.ts"]], [["getGlobalLogger", "packages/core/src/logger/index.ts"], ["parseLogLevelFromEnv", "packages/core/src/logger/index.ts"]], ["console output"]);
p("C33", "A score is recorded on exactly the trace and observation it was made for",
  "A score made for an observation, for its trace, or for whatever is active at the call carries exactly those ids, however calls, awaits and concurrent flows interleave, whoever created the active span and whether or not the observation has ended; with nothing active, nothing is recorded and nothing is thrown. The rest of the score arrives as given, a missing id being generated and a missing environment being the configured one, through the client it was made with, and the caller's value is not modified.",
  ["schedules", "histories", "inputs"],
  "all interleavings of opening, nesting and closing observations of every kind in concurrent flows with scores made in any of them through every method and two clients",
  "Tests score one observation in one synchronous block.",
  ["packages/client/src/score/index.ts", "packages/tracing/src/index.ts"], [["active span", "the flow's context", "packages/client/src/score/index.ts"]], [["activeObservation", "packages/client/src/score/index.ts"], ["observation", "packages/client/src/score/index.ts"]], ["ingestion requests"]);
p("C34", "Prompt creations and changes are sent as written and return the server's answer",
  "Creating a prompt sends one request with exactly the given members, without modifying the caller's value: a type left out is text, every message of a chat prompt is marked as a message or a placeholder and keeps its order and content, and nothing is added. The caller gets the prompt the server answered to that very request, of the type the server states and ready to compile or to serialise, or a rejection with the server's error, however calls overlap. Likewise an update sends exactly the given version and labels and returns the server's prompt, and a deletion names exactly the given version or label, or neither.",
  ["inputs", "fault_sequences", "schedules"],
  "all short chat prompts over typed, untyped, placeholder and extended messages, all pairs of optional members, all forms of updates and deletions, all orders of answers and failures of overlapping calls",
  "Tests create one text and one chat prompt.",
  ["packages/client/src/prompt/promptManager.ts", "packages/client/src/prompt/promptClients.ts"], [["request body", "messages with types", "packages/client/src/prompt/promptManager.ts"]], [["create", "packages/client/src/prompt/promptManager.ts"], ["toJSON", "packages/client/src/prompt/promptClients.ts"]], ["prompt requests", "returned prompt clients"]);
p("C35", "A runner context fills in exactly what an experiment run leaves out",
  "An experiment run through a runner context uses the data and dataset version of the call if given, even an empty data list, else the context's, and metadata merged key by key with the call's values winning; without any data it rejects before anything is sent. Runs neither change the context, nor the caller's values, nor each other, however they overlap.",
  ["inputs", "histories", "schedules"],
  "all combinations of data, dataset versions and metadata in contexts and calls, and all interleavings of several runs of several contexts",
  "Tests check single combinations with a mocked client.",
  ["packages/client/src/experiment/RunnerContext.ts", "packages/client/src/experiment/ExperimentManager.ts"], [["defaults", "data, dataset version and metadata of a context", "packages/client/src/experiment/RunnerContext.ts"]], [["runExperiment", "packages/client/src/experiment/RunnerContext.ts"]], ["dataset run item requests", "task calls", "results"]);
p("C36", "Every span of an experiment item carries that item's context, others none",
  "Every span started inside an item's task, at whatever depth and through whatever API, and the item's root span carry exactly that item's experiment id (the dataset run's if linked), run name, run and item metadata, dataset, item id, root observation id and the environment sdk-experiment; spans of evaluators, run evaluators and unrelated code carry what the place of the run call has, usually nothing, however items and experiments overlap or nest. The root span alone has the description and expected output, and its metadata is the item's overlaid by the run's and by the experiment and dataset ids. Items without an id get one determined by their input.",
  ["inputs", "schedules", "histories"],
  "all combinations of run metadata, item metadata, expected output, description and kind of item; all interleavings of overlapping and nested experiments with spans of every kind in tasks, evaluators, run evaluators and outside",
  "Tests check single experiments with tasks that finish at once, no overlap and no nesting.",
  ["packages/client/src/experiment/ExperimentManager.ts", "packages/core/src/propagation.ts", "packages/otel/src/span-processor.ts"], [["experiment context", "attributes of the current item in the context", "packages/core/src/propagation.ts"]], [["runItem", "packages/client/src/experiment/ExperimentManager.ts"], ["getPropagatedAttributesFromContext", "packages/core/src/propagation.ts"]], ["span attributes", "dataset run item requests", "results"]);
for (const x of P) { if (x.title.length > 80) throw new Error(x.id + " title " + x.title.length); if ((x.statement.match(/\.(\s|$)/g) || []).length > 3) throw new Error(x.id + " sentences"); }
fs.writeFileSync(new URL("../properties.jsonl", import.meta.url), P.map((x) => JSON.stringify(x)).join("\n") + "\n");
console.log(P.length, "properties");
