From c0551783bd3de86aab900b33451415c9bb02c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:03 +0000
Subject: [PATCH 01/49] fix: score flush during an in-flight flush no longer
 skips or strands newer scores

---
 packages/client/src/score/index.ts | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/packages/client/src/score/index.ts b/packages/client/src/score/index.ts
index 9cbe359..f87236d 100644
--- a/packages/client/src/score/index.ts
+++ b/packages/client/src/score/index.ts
@@ -27,6 +27,7 @@ export class ScoreManager {
   private apiClient: LangfuseAPIClient;
   private eventQueue: IngestionEvent[] = [];
   private flushPromise: Promise<void> | null = null;
+  private followUpFlushPromise: Promise<void> | null = null;
   private flushTimer: any = null;
   private flushAtCount: number;
   private flushIntervalSeconds: number;
@@ -102,10 +103,10 @@ export class ScoreManager {
     }
 
     if (this.eventQueue.length >= this.flushAtCount) {
-      this.flushPromise = this.flush();
+      void this.flush();
     } else if (!this.flushTimer) {
       this.flushTimer = safeSetTimeout(() => {
-        this.flushPromise = this.flush();
+        void this.flush();
       }, this.flushIntervalSeconds * 1_000);
     }
   }
@@ -298,8 +299,6 @@ export class ScoreManager {
       await Promise.all(promises);
     } catch (err) {
       this.logger.error("Error flushing Score Manager: ", err);
-    } finally {
-      this.flushPromise = null;
     }
   }
 
@@ -317,8 +316,24 @@ export class ScoreManager {
    * await langfuse.score.flush(); // Ensures the score is sent immediately
    * ```
    */
-  public async flush() {
-    return this.flushPromise ?? this.handleFlush();
+  public async flush(): Promise<void> {
+    if (!this.flushPromise) {
+      this.flushPromise = this.handleFlush().finally(() => {
+        this.flushPromise = null;
+      });
+
+      return this.flushPromise;
+    }
+
+    // The flush in flight does not cover scores queued since it started, so
+    // run another one as soon as it is done.
+    this.followUpFlushPromise ??= this.flushPromise.then(() => {
+      this.followUpFlushPromise = null;
+
+      return this.flush();
+    });
+
+    return this.followUpFlushPromise;
   }
 
   /**
-- 
2.43.0


From 5daa739c112cdb22ee2ac1e86b70339cabfe82de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:17 +0000
Subject: [PATCH 02/49] fix: prompt cache keys of different prompts can no
 longer collide

---
 packages/client/src/prompt/promptCache.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/prompt/promptCache.ts b/packages/client/src/prompt/promptCache.ts
index bfae38d..523b4fb 100644
--- a/packages/client/src/prompt/promptCache.ts
+++ b/packages/client/src/prompt/promptCache.ts
@@ -49,7 +49,8 @@ export class LangfusePromptCache {
       parts.push("label:production");
     }
 
-    return parts.join("-");
+    // Encode the parts so that no other name, version or label can yield the same key
+    return JSON.stringify(parts);
   }
 
   public set(
-- 
2.43.0


From 3bd2249e8f2dee9b9520429e2bdf9dc3f16bfeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:17 +0000
Subject: [PATCH 03/49] fix: invalidating a prompt no longer evicts prompts
 whose name starts with its name

---
 packages/client/src/prompt/promptCache.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/client/src/prompt/promptCache.ts b/packages/client/src/prompt/promptCache.ts
index 523b4fb..a47c234 100644
--- a/packages/client/src/prompt/promptCache.ts
+++ b/packages/client/src/prompt/promptCache.ts
@@ -88,7 +88,7 @@ export class LangfusePromptCache {
     );
 
     for (const key of this._cache.keys()) {
-      if (key.startsWith(promptName)) {
+      if (JSON.parse(key)[0] === promptName) {
         this._cache.delete(key);
       }
     }
-- 
2.43.0


From f78eeb23e7e39916229d39de876a619e5ebe6bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:17 +0000
Subject: [PATCH 04/49] fix: a prompt fetch in flight during update or delete
 no longer repopulates the cache with outdated content

---
 packages/client/src/prompt/promptCache.ts   | 12 ++++++++++++
 packages/client/src/prompt/promptManager.ts |  6 +++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/prompt/promptCache.ts b/packages/client/src/prompt/promptCache.ts
index a47c234..ed3dbe7 100644
--- a/packages/client/src/prompt/promptCache.ts
+++ b/packages/client/src/prompt/promptCache.ts
@@ -22,11 +22,13 @@ export class LangfusePromptCache {
   private _cache: Map<string, LangfusePromptCacheItem>;
   private _defaultTtlSeconds: number;
   private _refreshingKeys: Map<string, Promise<void>>;
+  private _invalidationCounts: Map<string, number>;
 
   constructor() {
     this._cache = new Map<string, LangfusePromptCacheItem>();
     this._defaultTtlSeconds = DEFAULT_PROMPT_CACHE_TTL_SECONDS;
     this._refreshingKeys = new Map<string, Promise<void>>();
+    this._invalidationCounts = new Map<string, number>();
   }
 
   public getIncludingExpired(key: string): LangfusePromptCacheItem | null {
@@ -80,7 +82,17 @@ export class LangfusePromptCache {
     return this._refreshingKeys.has(key);
   }
 
+  /** Number of times the prompt was invalidated; a fetch that saw a lower count is outdated. */
+  public getInvalidationCount(promptName: string): number {
+    return this._invalidationCounts.get(promptName) ?? 0;
+  }
+
   public invalidate(promptName: string): void {
+    this._invalidationCounts.set(
+      promptName,
+      this.getInvalidationCount(promptName) + 1,
+    );
+
     getGlobalLogger().debug(
       "Invalidating cache keys for",
       promptName,
diff --git a/packages/client/src/prompt/promptManager.ts b/packages/client/src/prompt/promptManager.ts
index 1d1cb6f..4f84ccd 100644
--- a/packages/client/src/prompt/promptManager.ts
+++ b/packages/client/src/prompt/promptManager.ts
@@ -420,6 +420,7 @@ export class PromptManager {
     fetchTimeoutMs?: number;
   }): Promise<LangfusePromptClient> {
     const cacheKey = this.cache.createKey(params);
+    const invalidationCount = this.cache.getInvalidationCount(params.name);
 
     try {
       const {
@@ -450,7 +451,10 @@ export class PromptManager {
         prompt = new TextPromptClient(data);
       }
 
-      this.cache.set(cacheKey, prompt, cacheTtlSeconds);
+      // Do not cache a response that was requested before an update or delete
+      if (this.cache.getInvalidationCount(name) === invalidationCount) {
+        this.cache.set(cacheKey, prompt, cacheTtlSeconds);
+      }
 
       return prompt;
     } catch (error) {
-- 
2.43.0


From fddd424501d160ee2bbe121f9f010c03b8ae61d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:29 +0000
Subject: [PATCH 05/49] fix: compiling a chat prompt no longer throws on a null
 entry in a placeholder list

---
 packages/client/src/prompt/promptClients.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index 8872765..d5b810c 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -340,7 +340,10 @@ export class ChatPromptClient extends BasePromptClient {
           placeholderValue.length > 0 &&
           placeholderValue.every(
             (msg) =>
-              typeof msg === "object" && "role" in msg && "content" in msg,
+              typeof msg === "object" &&
+              msg !== null &&
+              "role" in msg &&
+              "content" in msg,
           )
         ) {
           messagesWithPlaceholdersReplaced.push(
@@ -430,7 +433,10 @@ export class ChatPromptClient extends BasePromptClient {
           placeholderValue.length > 0 &&
           placeholderValue.every(
             (msg) =>
-              typeof msg === "object" && "role" in msg && "content" in msg,
+              typeof msg === "object" &&
+              msg !== null &&
+              "role" in msg &&
+              "content" in msg,
           )
         ) {
           // Complete placeholder fill-in, replace with it
-- 
2.43.0


From fd46da34ef561fd276ed593c77e1f5bfe144443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:30 +0000
Subject: [PATCH 06/49] fix: apply the mask to metadata stored per key

---
 packages/otel/src/span-processor.ts | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/packages/otel/src/span-processor.ts b/packages/otel/src/span-processor.ts
index 67b6020..823dff6 100644
--- a/packages/otel/src/span-processor.ts
+++ b/packages/otel/src/span-processor.ts
@@ -557,11 +557,18 @@ export class LangfuseSpanProcessor implements SpanProcessor {
       LangfuseOtelSpanAttributes.TRACE_METADATA,
     ];
 
-    for (const maskCandidate of maskCandidates) {
-      if (maskCandidate in span.attributes) {
-        span.attributes[maskCandidate] = await this.applyMask(
-          span.attributes[maskCandidate],
-        );
+    // Metadata is also stored per top-level key, e.g. `langfuse.trace.metadata.key`
+    const maskCandidatePrefixes = [
+      `${LangfuseOtelSpanAttributes.OBSERVATION_METADATA}.`,
+      `${LangfuseOtelSpanAttributes.TRACE_METADATA}.`,
+    ];
+
+    for (const key of Object.keys(span.attributes)) {
+      if (
+        (maskCandidates as string[]).includes(key) ||
+        maskCandidatePrefixes.some((prefix) => key.startsWith(prefix))
+      ) {
+        span.attributes[key] = await this.applyMask(span.attributes[key]);
       }
     }
   }
-- 
2.43.0


From dff67fa5878f0c2f4716df93899f2a81e2bce550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:30 +0000
Subject: [PATCH 07/49] fix: replacing inline media no longer corrupts a data
 URI that starts with another one

---
 packages/otel/src/MediaService.ts | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 79ae77e..e4cd8fe 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -53,9 +53,9 @@ export class MediaService {
         }
 
         // Find media base64 data URI
-        let mediaReplacedValue = value;
         const regex = /data:[^;]+;base64,[A-Za-z0-9+/]+=*/g;
         const foundMedia = [...new Set(value.match(regex) ?? [])];
+        const mediaTags = new Map<string, string>();
 
         if (foundMedia.length === 0) continue;
 
@@ -86,14 +86,15 @@ export class MediaService {
                 : "metadata", // todo: make more robust
           });
 
-          // Replace original attribute with media escaped attribute
-          mediaReplacedValue = mediaReplacedValue.replaceAll(
-            mediaDataUri,
-            langfuseMediaTag,
-          );
+          mediaTags.set(mediaDataUri, langfuseMediaTag);
         }
 
-        span.attributes[key] = mediaReplacedValue;
+        // Replace original attribute with media escaped attribute in one pass,
+        // as one data URI may be a prefix of another
+        span.attributes[key] = value.replace(
+          regex,
+          (mediaDataUri) => mediaTags.get(mediaDataUri) ?? mediaDataUri,
+        );
       }
     }
 
-- 
2.43.0


From 6b38163ea2a71530aadd05017bad7904e4305ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:30 +0000
Subject: [PATCH 08/49] fix: text before a data URI that contains "data:" is no
 longer treated as its media type

---
 packages/otel/src/MediaService.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index e4cd8fe..db78220 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -53,7 +53,7 @@ export class MediaService {
         }
 
         // Find media base64 data URI
-        const regex = /data:[^;]+;base64,[A-Za-z0-9+/]+=*/g;
+        const regex = /data:[^;,\s]+;base64,[A-Za-z0-9+/]+=*/g;
         const foundMedia = [...new Set(value.match(regex) ?? [])];
         const mediaTags = new Map<string, string>();
 
-- 
2.43.0


From 3462a1ac3f9439350abad5eb800f4e41ff8aca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:44 +0000
Subject: [PATCH 09/49] fix: replacing AI SDK media no longer alters other text
 that contains the same characters

---
 packages/otel/src/MediaService.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index db78220..39e9afb 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -264,9 +264,10 @@ export class MediaService {
       field: params.field,
     });
 
+    // Replace whole JSON strings only, as the content may also be part of other text
     return params.mediaReplacedValue.replaceAll(
-      params.contentToReplace ?? params.base64Content,
-      langfuseMediaTag,
+      JSON.stringify(params.contentToReplace ?? params.base64Content),
+      () => JSON.stringify(langfuseMediaTag),
     );
   }
 
-- 
2.43.0


From f3d454977d53d1c4294c307fc6b3cb7714c07686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:11 +0000
Subject: [PATCH 10/49] fix: a data URI in an AI SDK v6 file part is uploaded
 as its decoded content

---
 packages/otel/src/MediaService.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 39e9afb..648546f 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -144,10 +144,18 @@ export class MediaService {
                       continue;
                     }
 
+                    const normalizedContent =
+                      normalizeBase64Content(base64Content);
+
+                    if (!normalizedContent) {
+                      continue;
+                    }
+
                     mediaReplacedValue = await this.replaceBytesMedia({
                       span,
                       mediaReplacedValue,
-                      base64Content,
+                      base64Content: normalizedContent.base64Content,
+                      contentToReplace: base64Content,
                       contentType: mediaType,
                       field: "input",
                     });
-- 
2.43.0


From 40b81ccee2d1ad1e2bc64c9288c60704664983e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:23 +0000
Subject: [PATCH 11/49] fix: one undecodable AI SDK file part no longer keeps
 other media of the span inline

---
 packages/otel/src/MediaService.ts | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 648546f..e8abcf7 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -250,9 +250,22 @@ export class MediaService {
     contentType: string;
     field: string;
   }): Promise<string> {
+    let contentBytes: Uint8Array;
+
+    try {
+      contentBytes = base64ToBytes(params.base64Content);
+    } catch (err) {
+      this.logger.warn(
+        "Failed to decode base64 content. Skipping media item.",
+        err,
+      );
+
+      return params.mediaReplacedValue;
+    }
+
     const media = new LangfuseMedia({
       contentType: params.contentType as MediaContentType,
-      contentBytes: base64ToBytes(params.base64Content),
+      contentBytes,
       source: "bytes",
     });
 
-- 
2.43.0


From 91c979fcd07167e06206245ac828341ceda376cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:12 +0000
Subject: [PATCH 12/49] fix: a media type cannot contain colons or quotes, so
 text ending in data: is left alone

---
 packages/otel/src/MediaService.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index e8abcf7..a458f81 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -53,7 +53,7 @@ export class MediaService {
         }
 
         // Find media base64 data URI
-        const regex = /data:[^;,\s]+;base64,[A-Za-z0-9+/]+=*/g;
+        const regex = /data:[^;:,"\s]+;base64,[A-Za-z0-9+/]+=*/g;
         const foundMedia = [...new Set(value.match(regex) ?? [])];
         const mediaTags = new Map<string, string>();
 
-- 
2.43.0


From 29e6ac956a4463bca7ac9c1be4f42cf9e321c2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:02 +0000
Subject: [PATCH 13/49] fix: a tag that contains a comma is no longer split
 when propagated as baggage

---
 packages/core/src/propagation.ts | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/propagation.ts b/packages/core/src/propagation.ts
index 7b42781..3246cd0 100644
--- a/packages/core/src/propagation.ts
+++ b/packages/core/src/propagation.ts
@@ -644,7 +644,7 @@ export function getPropagatedAttributesFromContext(
             baggageKey == getBaggageKeyForPropagatedKey("tags");
 
           propagatedAttributes[spanKey] = isMergedTags
-            ? baggageEntry.value.split(LANGFUSE_BAGGAGE_TAGS_SEPARATOR)
+            ? parseBaggageTags(baggageEntry.value)
             : baggageEntry.value;
         }
       }
@@ -821,7 +821,7 @@ function setPropagatedAttribute(params: SetPropagatedAttributeParams): Context {
       }
     } else if (key === "tags") {
       baggage = baggage.setEntry(baggageKey, {
-        value: mergedTags.join(LANGFUSE_BAGGAGE_TAGS_SEPARATOR),
+        value: serializeBaggageTags(mergedTags),
       });
     } else {
       // Baggage values must be strings; integer values (prompt version) are
@@ -835,6 +835,20 @@ function setPropagatedAttribute(params: SetPropagatedAttributeParams): Context {
   return context;
 }
 
+// Tags may contain the separator, so it is escaped within a tag. Tags without
+// separator or escape sequence are transmitted as they are.
+function serializeBaggageTags(tags: string[]): string {
+  return tags
+    .map((tag) => tag.replace(/%(?=25|2C)/g, "%25").replace(/,/g, "%2C"))
+    .join(LANGFUSE_BAGGAGE_TAGS_SEPARATOR);
+}
+
+function parseBaggageTags(value: string): string[] {
+  return value
+    .split(LANGFUSE_BAGGAGE_TAGS_SEPARATOR)
+    .map((tag) => tag.replace(/%2C/g, ",").replace(/%25/g, "%"));
+}
+
 function getContextMergedTags(context: Context, newTags: string[]): string[] {
   const existingTags = context.getValue(LangfuseOtelContextKeys["tags"]);
 
-- 
2.43.0


From 6ac592f1eb6c2439bce04f69eaeca5208c115cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:39 +0000
Subject: [PATCH 14/49] fix: tags received through baggage are merged with, not
 replaced by, tags of a local scope

---
 packages/core/src/propagation.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/propagation.ts b/packages/core/src/propagation.ts
index 3246cd0..8bfdcf6 100644
--- a/packages/core/src/propagation.ts
+++ b/packages/core/src/propagation.ts
@@ -850,7 +850,14 @@ function parseBaggageTags(value: string): string[] {
 }
 
 function getContextMergedTags(context: Context, newTags: string[]): string[] {
-  const existingTags = context.getValue(LangfuseOtelContextKeys["tags"]);
+  const contextTags = context.getValue(LangfuseOtelContextKeys["tags"]);
+  const baggageTags = propagation
+    .getBaggage(context)
+    ?.getEntry(getBaggageKeyForPropagatedKey("tags"))?.value;
+
+  // Tags received from an upstream service are extended as local ones are
+  const existingTags =
+    contextTags ?? (baggageTags ? parseBaggageTags(baggageTags) : undefined);
 
   if (existingTags && Array.isArray(existingTags)) {
     return [...new Set([...existingTags, ...newTags])];
-- 
2.43.0


From be580c209cbd2d1234e00ed256e85ba691489967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:46 +0000
Subject: [PATCH 15/49] fix: observe never replaces the function's own result
 or error

Recording a failure called String(error) unguarded, which throws for values
such as null-prototype objects, and asType "event" has no update method, so
both surfaced as a TypeError in place of the function's outcome.
---
 packages/tracing/src/index.ts | 80 +++++++++++++++++++++++++++--------
 1 file changed, 62 insertions(+), 18 deletions(-)

diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index ac99d0e..c27463d 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -177,7 +177,7 @@ function wrapPromise<T>(
     (err: unknown) => {
       span.setStatus({
         code: SpanStatusCode.ERROR,
-        message: err instanceof Error ? err.message : "Unknown error",
+        message: _errorMessage(err) ?? "Unknown error",
       });
 
       if (endOnExit !== false) {
@@ -877,7 +877,7 @@ export function startActiveObservation<
         } catch (err) {
           span.setStatus({
             code: SpanStatusCode.ERROR,
-            message: err instanceof Error ? err.message : "Unknown error",
+            message: _errorMessage(err) ?? "Unknown error",
           });
 
           if (observationOptions?.endOnExit !== false) {
@@ -1481,7 +1481,9 @@ export function observe<T extends (...args: any[]) => any>(
         return result.then(
           (value) => {
             if (captureOutput) {
-              observation.update({ output: _captureOutput(value) });
+              observation.updateOtelSpanAttributes({
+                output: _captureOutput(value),
+              });
             }
 
             if (options?.endOnExit !== false) {
@@ -1491,13 +1493,9 @@ export function observe<T extends (...args: any[]) => any>(
             return value;
           },
           (error: unknown) => {
-            observation.update({
-              level: "ERROR",
-              statusMessage:
-                (error instanceof Error ? error.message : String(error)) ||
-                "Function threw an error",
-              output: captureOutput ? { error: String(error) } : undefined,
-            });
+            observation.updateOtelSpanAttributes(
+              _describeFailure(error, captureOutput),
+            );
 
             if (options?.endOnExit !== false) {
               observation.end();
@@ -1509,7 +1507,9 @@ export function observe<T extends (...args: any[]) => any>(
       } else {
         // Handle sync functions
         if (captureOutput) {
-          observation.update({ output: _captureOutput(result) });
+          observation.updateOtelSpanAttributes({
+            output: _captureOutput(result),
+          });
         }
 
         if (options?.endOnExit !== false) {
@@ -1519,13 +1519,9 @@ export function observe<T extends (...args: any[]) => any>(
         return result as ReturnType<T>;
       }
     } catch (error: unknown) {
-      observation.update({
-        level: "ERROR",
-        statusMessage:
-          (error instanceof Error ? error.message : String(error)) ||
-          "Function threw an error",
-        output: captureOutput ? { error: String(error) } : undefined,
-      });
+      observation.updateOtelSpanAttributes(
+        _describeFailure(error, captureOutput),
+      );
 
       if (options?.endOnExit !== false) {
         observation.end();
@@ -1576,6 +1572,54 @@ function _captureOutput(value: unknown): unknown {
   }
 }
 
+/**
+ * Reads the message of a thrown value if it is an Error.
+ *
+ * Never throws, so that recording a failure cannot replace the original error.
+ *
+ * @internal
+ */
+function _errorMessage(error: unknown): string | undefined {
+  try {
+    return error instanceof Error ? error.message : undefined;
+  } catch {
+    return undefined;
+  }
+}
+
+/**
+ * Converts any thrown value to a string without ever throwing itself.
+ *
+ * @internal
+ */
+function _stringifyError(error: unknown): string {
+  try {
+    return String(error);
+  } catch {
+    return "<failed to serialize>";
+  }
+}
+
+/**
+ * Describes a failed function execution as observation attributes.
+ *
+ * @internal
+ */
+function _describeFailure(
+  error: unknown,
+  captureOutput: boolean,
+): LangfuseObservationAttributes {
+  const text = _stringifyError(error);
+
+  return {
+    level: "ERROR",
+    statusMessage:
+      (error instanceof Error ? _errorMessage(error) : text) ||
+      "Function threw an error",
+    output: captureOutput ? { error: text } : undefined,
+  };
+}
+
 /**
  * Creates a trace ID for OpenTelemetry spans.
  *
-- 
2.43.0


From 4ceef31b63c828d6b54eae437424aaddadd9935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:46 +0000
Subject: [PATCH 16/49] fix: observe records falsy arguments such as 0, false
 and the empty string

---
 packages/tracing/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index c27463d..ee8afe5 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -1457,7 +1457,7 @@ export function observe<T extends (...args: any[]) => any>(
     // Create the appropriate observation type
     const observation = startObservation(
       name,
-      inputData ? { input: inputData } : {},
+      { input: inputData },
       {
         asType: asType as "span", // typecast necessary as ts cannot narrow down type
         parentSpanContext,
-- 
2.43.0


From 7b135edee715feefa2823cf93eb95aa56e5296ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:11 +0000
Subject: [PATCH 17/49] fix: an empty string given as metadata replaces the
 earlier value

---
 packages/tracing/src/attributes.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/tracing/src/attributes.ts b/packages/tracing/src/attributes.ts
index 66a00b9..0be72d1 100644
--- a/packages/tracing/src/attributes.ts
+++ b/packages/tracing/src/attributes.ts
@@ -133,13 +133,13 @@ function _flattenAndSerializeMetadata(
 
   if (typeof metadata !== "object" || Array.isArray(metadata)) {
     const serialized = _serialize(metadata);
-    if (serialized) {
+    if (serialized !== undefined) {
       metadataAttributes[prefix] = serialized;
     }
   } else {
     for (const [key, value] of Object.entries(metadata)) {
       const serialized = typeof value === "string" ? value : _serialize(value);
-      if (serialized) {
+      if (serialized !== undefined) {
         metadataAttributes[`${prefix}.${key}`] = serialized;
       }
     }
-- 
2.43.0


From 182abdb4deed8ae20f26ec8a76bb0f7bf9f67918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:13 +0000
Subject: [PATCH 18/49] fix: metadata that cannot be read never throws into the
 caller

---
 packages/tracing/src/attributes.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/tracing/src/attributes.ts b/packages/tracing/src/attributes.ts
index 0be72d1..04e6242 100644
--- a/packages/tracing/src/attributes.ts
+++ b/packages/tracing/src/attributes.ts
@@ -137,7 +137,15 @@ function _flattenAndSerializeMetadata(
       metadataAttributes[prefix] = serialized;
     }
   } else {
-    for (const [key, value] of Object.entries(metadata)) {
+    let entries: [string, unknown][];
+
+    try {
+      entries = Object.entries(metadata);
+    } catch {
+      return { [prefix]: "<failed to serialize>" };
+    }
+
+    for (const [key, value] of entries) {
       const serialized = typeof value === "string" ? value : _serialize(value);
       if (serialized !== undefined) {
         metadataAttributes[`${prefix}.${key}`] = serialized;
-- 
2.43.0


From dd2316afa5fe12258714918179a3f01eedcb1313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:01 +0000
Subject: [PATCH 19/49] fix: OpenAI responses and chunks the tracer does not
 understand never fail the call

A response with an empty choices list, a delta with an empty tool call list or
an unusual usage value made the wrapped call reject or the stream throw.
---
 packages/openai/src/parseOpenAI.ts |  13 +-
 packages/openai/src/traceMethod.ts | 197 +++++++++++++++++------------
 2 files changed, 128 insertions(+), 82 deletions(-)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index c60aac3..d7221cc 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -94,9 +94,13 @@ export const parseCompletionOutput = (res: unknown): unknown => {
     return "";
   }
 
-  return "message" in res.choices[0]
-    ? res.choices[0].message
-    : (res.choices[0].text ?? "");
+  const choice = res.choices[0];
+
+  if (!(choice instanceof Object)) {
+    return "";
+  }
+
+  return "message" in choice ? choice.message : (choice.text ?? "");
 };
 
 export const parseUsageDetails = (
@@ -215,7 +219,8 @@ export const parseChunk = (
     if (
       "delta" in chunkData &&
       "tool_calls" in chunkData.delta &&
-      Array.isArray(chunkData.delta.tool_calls)
+      Array.isArray(chunkData.delta.tool_calls) &&
+      chunkData.delta.tool_calls[0]
     ) {
       isToolCall = true;
 
diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index bafe35c..6aaf6f4 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -111,38 +111,12 @@ const wrapMethod = <T extends GenericMethod>(
                 return wrapAsyncIterable(result, generation);
               }
 
-              const output = parseCompletionOutput(result);
-              const usageDetails = parseUsageDetailsFromResponse(result);
-              const {
-                model: modelFromResponse,
-                modelParameters: modelParametersFromResponse,
-                metadata: metadataFromResponse,
-              } = parseModelDataFromResponse(result);
-
-              generation
-                .update({
-                  output,
-                  usageDetails,
-                  model: modelFromResponse,
-                  modelParameters: modelParametersFromResponse,
-                  metadata: metadataFromResponse,
-                })
-                .end();
+              recordResponse(generation, result);
 
               return result;
             })
             .catch((err) => {
-              generation
-                .update({
-                  statusMessage: String(err),
-                  level: "ERROR",
-                  costDetails: {
-                    input: 0,
-                    output: 0,
-                    total: 0,
-                  },
-                })
-                .end();
+              recordFailure(generation, err);
 
               throw err;
             });
@@ -152,17 +126,7 @@ const wrapMethod = <T extends GenericMethod>(
 
         return res;
       } catch (error) {
-        generation
-          .update({
-            statusMessage: String(error),
-            level: "ERROR",
-            costDetails: {
-              input: 0,
-              output: 0,
-              total: 0,
-            },
-          })
-          .end();
+        recordFailure(generation, error);
 
         throw error;
       }
@@ -170,6 +134,70 @@ const wrapMethod = <T extends GenericMethod>(
   );
 };
 
+/**
+ * Records a complete response on the generation and ends it.
+ *
+ * A response the parser does not understand must not surface in the caller's
+ * code, so the generation is ended without its details in that case.
+ *
+ * @internal
+ */
+function recordResponse(generation: LangfuseGeneration, result: unknown): void {
+  try {
+    const output = parseCompletionOutput(result);
+    const usageDetails = parseUsageDetailsFromResponse(result);
+    const {
+      model: modelFromResponse,
+      modelParameters: modelParametersFromResponse,
+      metadata: metadataFromResponse,
+    } = parseModelDataFromResponse(result);
+
+    generation.update({
+      output,
+      usageDetails,
+      model: modelFromResponse,
+      modelParameters: modelParametersFromResponse,
+      metadata: metadataFromResponse,
+    });
+  } catch {
+    // Unknown response shape
+  }
+
+  generation.end();
+}
+
+/**
+ * Records a failed call on the generation and ends it.
+ *
+ * @internal
+ */
+function recordFailure(generation: LangfuseGeneration, error: unknown): void {
+  generation
+    .update({
+      statusMessage: describeError(error),
+      level: "ERROR",
+      costDetails: {
+        input: 0,
+        output: 0,
+        total: 0,
+      },
+    })
+    .end();
+}
+
+/**
+ * Converts any thrown value to a string without ever throwing itself.
+ *
+ * @internal
+ */
+function describeError(error: unknown): string {
+  try {
+    return String(error);
+  } catch {
+    return "Unknown error";
+  }
+}
+
 /**
  * Wraps an async iterable (streaming response) with Langfuse tracing.
  *
@@ -204,58 +232,71 @@ function wrapAsyncIterable<R>(
     for await (const rawChunk of response as AsyncIterable<unknown>) {
       completionStartTime = completionStartTime ?? new Date();
 
-      // Handle Response API chunks
-      if (typeof rawChunk === "object" && rawChunk && "response" in rawChunk) {
-        const result = rawChunk["response"];
-        output = parseCompletionOutput(result);
-        usageDetails = parseUsageDetailsFromResponse(result);
-
-        const {
-          model: modelFromResponse,
-          modelParameters: modelParametersFromResponse,
-          metadata: metadataFromResponse,
-        } = parseModelDataFromResponse(result);
-
-        generation.update({
-          model: modelFromResponse,
-          modelParameters: modelParametersFromResponse,
-          metadata: metadataFromResponse,
-        });
-      }
+      try {
+        // Handle Response API chunks
+        if (
+          typeof rawChunk === "object" &&
+          rawChunk &&
+          "response" in rawChunk
+        ) {
+          const result = rawChunk["response"];
+          output = parseCompletionOutput(result);
+          usageDetails = parseUsageDetailsFromResponse(result);
 
-      if (
-        typeof rawChunk === "object" &&
-        rawChunk != null &&
-        "usage" in rawChunk
-      ) {
-        usage = rawChunk.usage as OpenAI.CompletionUsage | null;
-      }
+          const {
+            model: modelFromResponse,
+            modelParameters: modelParametersFromResponse,
+            metadata: metadataFromResponse,
+          } = parseModelDataFromResponse(result);
+
+          generation.update({
+            model: modelFromResponse,
+            modelParameters: modelParametersFromResponse,
+            metadata: metadataFromResponse,
+          });
+        }
+
+        if (
+          typeof rawChunk === "object" &&
+          rawChunk != null &&
+          "usage" in rawChunk &&
+          rawChunk.usage instanceof Object
+        ) {
+          usage = rawChunk.usage as OpenAI.CompletionUsage;
+        }
 
-      const processedChunk = parseChunk(rawChunk);
+        const processedChunk = parseChunk(rawChunk);
 
-      if (!processedChunk.isToolCall) {
-        textChunks.push(processedChunk.data);
-      } else {
-        toolCallChunks.push(processedChunk.data);
+        if (!processedChunk.isToolCall) {
+          textChunks.push(processedChunk.data);
+        } else {
+          toolCallChunks.push(processedChunk.data);
+        }
+      } catch {
+        // Unknown chunk shape: pass it on untouched
       }
 
       yield rawChunk;
     }
 
-    output =
-      output ??
-      (toolCallChunks.length > 0
-        ? getToolCallOutput(toolCallChunks)
-        : textChunks.join(""));
+    try {
+      output =
+        output ??
+        (toolCallChunks.length > 0
+          ? getToolCallOutput(toolCallChunks)
+          : textChunks.join(""));
 
-    generation
-      .update({
+      generation.update({
         output,
         completionStartTime,
         usageDetails:
           usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),
-      })
-      .end();
+      });
+    } catch {
+      // Unknown chunk shapes
+    }
+
+    generation.end();
   }
 
   return tracedOutputGenerator() as R;
-- 
2.43.0


From 22a8d8b31876e5bd83de1bab801d989e63f5a0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:03 +0000
Subject: [PATCH 20/49] fix: end the generation of an OpenAI stream that fails
 or is abandoned

---
 packages/openai/src/traceMethod.ts | 132 ++++++++++++++++-------------
 1 file changed, 71 insertions(+), 61 deletions(-)

diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index 6aaf6f4..4dde088 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -229,74 +229,84 @@ function wrapAsyncIterable<R>(
     let usageDetails: Record<string, number> | undefined = undefined;
     let output: unknown = null;
 
-    for await (const rawChunk of response as AsyncIterable<unknown>) {
-      completionStartTime = completionStartTime ?? new Date();
-
-      try {
-        // Handle Response API chunks
-        if (
-          typeof rawChunk === "object" &&
-          rawChunk &&
-          "response" in rawChunk
-        ) {
-          const result = rawChunk["response"];
-          output = parseCompletionOutput(result);
-          usageDetails = parseUsageDetailsFromResponse(result);
-
-          const {
-            model: modelFromResponse,
-            modelParameters: modelParametersFromResponse,
-            metadata: metadataFromResponse,
-          } = parseModelDataFromResponse(result);
-
-          generation.update({
-            model: modelFromResponse,
-            modelParameters: modelParametersFromResponse,
-            metadata: metadataFromResponse,
-          });
-        }
-
-        if (
-          typeof rawChunk === "object" &&
-          rawChunk != null &&
-          "usage" in rawChunk &&
-          rawChunk.usage instanceof Object
-        ) {
-          usage = rawChunk.usage as OpenAI.CompletionUsage;
+    try {
+      for await (const rawChunk of response as AsyncIterable<unknown>) {
+        completionStartTime = completionStartTime ?? new Date();
+
+        try {
+          // Handle Response API chunks
+          if (
+            typeof rawChunk === "object" &&
+            rawChunk &&
+            "response" in rawChunk
+          ) {
+            const result = rawChunk["response"];
+            output = parseCompletionOutput(result);
+            usageDetails = parseUsageDetailsFromResponse(result);
+
+            const {
+              model: modelFromResponse,
+              modelParameters: modelParametersFromResponse,
+              metadata: metadataFromResponse,
+            } = parseModelDataFromResponse(result);
+
+            generation.update({
+              model: modelFromResponse,
+              modelParameters: modelParametersFromResponse,
+              metadata: metadataFromResponse,
+            });
+          }
+
+          if (
+            typeof rawChunk === "object" &&
+            rawChunk != null &&
+            "usage" in rawChunk &&
+            rawChunk.usage instanceof Object
+          ) {
+            usage = rawChunk.usage as OpenAI.CompletionUsage;
+          }
+
+          const processedChunk = parseChunk(rawChunk);
+
+          if (!processedChunk.isToolCall) {
+            textChunks.push(processedChunk.data);
+          } else {
+            toolCallChunks.push(processedChunk.data);
+          }
+        } catch {
+          // Unknown chunk shape: pass it on untouched
         }
 
-        const processedChunk = parseChunk(rawChunk);
+        yield rawChunk;
+      }
+    } catch (error) {
+      generation.update({
+        statusMessage: describeError(error),
+        level: "ERROR",
+      });
 
-        if (!processedChunk.isToolCall) {
-          textChunks.push(processedChunk.data);
-        } else {
-          toolCallChunks.push(processedChunk.data);
-        }
+      throw error;
+    } finally {
+      // Also reached when the consumer stops before the end of the stream
+      try {
+        output =
+          output ??
+          (toolCallChunks.length > 0
+            ? getToolCallOutput(toolCallChunks)
+            : textChunks.join(""));
+
+        generation.update({
+          output,
+          completionStartTime,
+          usageDetails:
+            usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),
+        });
       } catch {
-        // Unknown chunk shape: pass it on untouched
+        // Unknown chunk shapes
       }
 
-      yield rawChunk;
+      generation.end();
     }
-
-    try {
-      output =
-        output ??
-        (toolCallChunks.length > 0
-          ? getToolCallOutput(toolCallChunks)
-          : textChunks.join(""));
-
-      generation.update({
-        output,
-        completionStartTime,
-        usageDetails:
-          usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),
-      });
-    } catch {
-      // Unknown chunk shapes
-    }
-
-    generation.end();
   }
 
   return tracedOutputGenerator() as R;
-- 
2.43.0


From 4b6182a7efb6a88720c5f9fb14df742de0426f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:05 +0000
Subject: [PATCH 21/49] fix: record every tool call and the text of a streamed
 OpenAI answer

Arguments of parallel tool calls were concatenated into one call, all but the
first tool call of a chunk and any text next to tool calls were dropped.
---
 packages/openai/src/parseOpenAI.ts | 38 +++++++++++++++++++-----------
 packages/openai/src/traceMethod.ts |  5 ++--
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index d7221cc..2d3713d 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -207,7 +207,8 @@ export const parseChunk = (
   | { isToolCall: false; data: string }
   | {
       isToolCall: true;
-      data: OpenAI.Chat.Completions.ChatCompletionChunk.Choice.Delta.ToolCall;
+      data: OpenAI.Chat.Completions.ChatCompletionChunk.Choice.Delta.ToolCall[];
+      text: string;
     } => {
   let isToolCall = false;
   const _chunk = rawChunk as
@@ -224,7 +225,11 @@ export const parseChunk = (
     ) {
       isToolCall = true;
 
-      return { isToolCall, data: chunkData.delta.tool_calls[0] };
+      return {
+        isToolCall,
+        data: chunkData.delta.tool_calls,
+        text: chunkData.delta.content || "",
+      };
     }
     if ("delta" in chunkData) {
       return { isToolCall, data: chunkData.delta?.content || "" };
@@ -259,7 +264,9 @@ function hasCompletionUsage(
 
 export const getToolCallOutput = (
   toolCallChunks: OpenAI.Chat.Completions.ChatCompletionChunk.Choice.Delta.ToolCall[],
+  content = "",
 ): {
+  content?: string;
   tool_calls: {
     function: {
       name: string;
@@ -267,23 +274,26 @@ export const getToolCallOutput = (
     };
   }[];
 } => {
-  let name = "";
-  let toolArguments = "";
+  // Parallel tool calls are told apart by their index
+  const toolCalls = new Map<number, { name: string; arguments: string }>();
 
   for (const toolCall of toolCallChunks) {
-    name = toolCall.function?.name || name;
-    toolArguments += toolCall.function?.arguments || "";
+    if (!toolCall) continue;
+
+    const index = toolCall.index ?? 0;
+    const current = toolCalls.get(index) ?? { name: "", arguments: "" };
+
+    toolCalls.set(index, {
+      name: toolCall.function?.name || current.name,
+      arguments: current.arguments + (toolCall.function?.arguments || ""),
+    });
   }
 
   return {
-    tool_calls: [
-      {
-        function: {
-          name,
-          arguments: toolArguments,
-        },
-      },
-    ],
+    ...(content ? { content } : {}),
+    tool_calls: [...toolCalls.entries()]
+      .sort(([a], [b]) => a - b)
+      .map(([, toolCall]) => ({ function: toolCall })),
   };
 };
 
diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index 4dde088..0b1471a 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -271,7 +271,8 @@ function wrapAsyncIterable<R>(
           if (!processedChunk.isToolCall) {
             textChunks.push(processedChunk.data);
           } else {
-            toolCallChunks.push(processedChunk.data);
+            toolCallChunks.push(...processedChunk.data);
+            textChunks.push(processedChunk.text);
           }
         } catch {
           // Unknown chunk shape: pass it on untouched
@@ -292,7 +293,7 @@ function wrapAsyncIterable<R>(
         output =
           output ??
           (toolCallChunks.length > 0
-            ? getToolCallOutput(toolCallChunks)
+            ? getToolCallOutput(toolCallChunks, textChunks.join(""))
             : textChunks.join(""));
 
         generation.update({
-- 
2.43.0


From 5c6a8bec276bc2bf725b21036c5e72ea0ca45fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:08 +0000
Subject: [PATCH 22/49] fix: paginated OpenAI lists keep their members when
 traced

await client.models.list() gave an async generator without the page's data.
---
 packages/openai/src/traceMethod.ts | 25 ++++++++++++++++++-------
 packages/openai/src/utils.ts       | 15 +++++++++++++++
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index 0b1471a..806513d 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -15,7 +15,7 @@ import {
   parseUsageDetailsFromResponse,
 } from "./parseOpenAI.js";
 import type { LangfuseConfig } from "./types.js";
-import { isAsyncIterable } from "./utils.js";
+import { isAsyncIterable, isPage } from "./utils.js";
 
 /**
  * Generic method type for any function that can be traced.
@@ -99,15 +99,21 @@ const wrapMethod = <T extends GenericMethod>(
       try {
         const res = tracedMethod(...args);
 
-        // Handle stream responses
-        if (isAsyncIterable(res)) {
-          return wrapAsyncIterable(res, generation);
-        }
-
         if (res instanceof Promise) {
+          // Paginated lists can be awaited and iterated, so the caller keeps
+          // the original object
+          if (isAsyncIterable(res)) {
+            res.then(
+              (result) => recordResponse(generation, result),
+              (err) => recordFailure(generation, err),
+            );
+
+            return res;
+          }
+
           const wrappedPromise = res
             .then((result) => {
-              if (isAsyncIterable(result)) {
+              if (isAsyncIterable(result) && !isPage(result)) {
                 return wrapAsyncIterable(result, generation);
               }
 
@@ -124,6 +130,11 @@ const wrapMethod = <T extends GenericMethod>(
           return wrappedPromise;
         }
 
+        // Handle stream responses
+        if (isAsyncIterable(res)) {
+          return wrapAsyncIterable(res, generation);
+        }
+
         return res;
       } catch (error) {
         recordFailure(generation, error);
diff --git a/packages/openai/src/utils.ts b/packages/openai/src/utils.ts
index 4886412..d562d80 100644
--- a/packages/openai/src/utils.ts
+++ b/packages/openai/src/utils.ts
@@ -35,3 +35,18 @@ export const isAsyncIterable = (x: unknown): x is AsyncIterable<unknown> =>
   x != null &&
   typeof x === "object" &&
   typeof (x as any)[Symbol.asyncIterator] === "function";
+
+/**
+ * Checks if a value is one page of a paginated list.
+ *
+ * Pages are async iterable as well but are no model output.
+ *
+ * @param x - The value to check
+ * @returns True if the value is a page of the OpenAI SDK, false otherwise
+ *
+ * @internal
+ */
+export const isPage = (x: unknown): boolean =>
+  x != null &&
+  typeof x === "object" &&
+  typeof (x as any).getPaginatedItems === "function";
-- 
2.43.0


From d6be81222d8c15bfcaaf6aaa9fe2bdd94cf9175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:10 +0000
Subject: [PATCH 23/49] fix: read members of a wrapped OpenAI client once and
 on the client itself

Getters using private fields threw because they ran a second time on the proxy.
---
 packages/openai/src/observeOpenAI.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/openai/src/observeOpenAI.ts b/packages/openai/src/observeOpenAI.ts
index f786450..469305d 100644
--- a/packages/openai/src/observeOpenAI.ts
+++ b/packages/openai/src/observeOpenAI.ts
@@ -94,7 +94,7 @@ export const observeOpenAI = <SDKType extends object>(
   langfuseConfig?: LangfuseConfig,
 ): SDKType => {
   return new Proxy(sdk, {
-    get(wrappedSdk, propKey, proxy) {
+    get(wrappedSdk, propKey) {
       const originalProperty = wrappedSdk[propKey as keyof SDKType];
 
       const defaultGenerationName = `${sdk.constructor?.name}.${propKey.toString()}`;
@@ -119,7 +119,7 @@ export const observeOpenAI = <SDKType extends object>(
       }
 
       // Fallback to returning the original value
-      return Reflect.get(wrappedSdk, propKey, proxy);
+      return originalProperty;
     },
   });
 };
-- 
2.43.0


From 95480ce9ac1d9ece6b792b006763ced435ad2f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:00 +0000
Subject: [PATCH 24/49] fix: a LangChain model run without invocation
 parameters is traced instead of rejecting

handleGenerationStart was not awaited, so its failure became an unhandled
rejection in the application.
---
 packages/langchain/src/CallbackHandler.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 6c0ffa1..1109bfb 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -316,8 +316,8 @@ export class CallbackHandler extends BaseCallbackHandler {
     let extractedModelName: string | undefined;
     if (extraParams) {
       const invocationParamsModelName = (
-        extraParams.invocation_params as InvocationParams
-      ).model;
+        extraParams.invocation_params as InvocationParams | undefined
+      )?.model;
       const metadataModelName =
         metadata && "ls_model_name" in metadata
           ? (metadata["ls_model_name"] as string)
@@ -375,7 +375,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         message.map((m) => this.extractChatMessageContent(m)),
       );
 
-      this.handleGenerationStart(
+      await this.handleGenerationStart(
         llm,
         prompts,
         runId,
@@ -444,7 +444,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`LLM start with ID: ${runId}`);
 
-      this.handleGenerationStart(
+      await this.handleGenerationStart(
         llm,
         prompts,
         runId,
-- 
2.43.0


From aa2e7d5b9ad68c6d27cfc030ea12ccb4a1e6d8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:02 +0000
Subject: [PATCH 25/49] fix: end the observation of a LangChain run that fails
 with an unusual value

undefined, null and objects without a string conversion left it open.
---
 packages/langchain/src/CallbackHandler.ts | 35 +++++++++++++++++------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 1109bfb..2045a60 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -256,7 +256,9 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`Chain error: ${err} with ID: ${runId}`);
+      this.logger.debug(
+        `Chain error: ${this.describeError(err)} with ID: ${runId}`,
+      );
 
       const azureRefusalError = this.parseAzureRefusalError(err);
 
@@ -264,7 +266,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString() + azureRefusalError,
+          statusMessage: this.describeError(err) + azureRefusalError,
         },
       });
     } catch (e) {
@@ -541,12 +543,14 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`Retriever error: ${err} with ID: ${runId}`);
+      this.logger.debug(
+        `Retriever error: ${this.describeError(err)} with ID: ${runId}`,
+      );
       this.handleOtelSpanEnd({
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString(),
+          statusMessage: this.describeError(err),
         },
       });
     } catch (e) {
@@ -578,13 +582,15 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`Tool error ${err} with ID: ${runId}`);
+      this.logger.debug(
+        `Tool error ${this.describeError(err)} with ID: ${runId}`,
+      );
 
       this.handleOtelSpanEnd({
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString(),
+          statusMessage: this.describeError(err),
         },
       });
     } catch (e) {
@@ -685,7 +691,9 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`LLM error ${err} with ID: ${runId}`);
+      this.logger.debug(
+        `LLM error ${this.describeError(err)} with ID: ${runId}`,
+      );
 
       // Azure has the refusal status for harmful messages in the error property
       // This would not be logged as the error message is only a generic message
@@ -696,7 +704,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString() + azureRefusalError,
+          statusMessage: this.describeError(err) + azureRefusalError,
         },
       });
     } catch (e) {
@@ -849,12 +857,21 @@ export class CallbackHandler extends BaseCallbackHandler {
     this.last_trace_id = span.traceId;
     this.runMap.delete(runId);
   }
+  /** Describes any thrown value without ever throwing itself */
+  private describeError(err: unknown): string {
+    try {
+      return String(err);
+    } catch {
+      return "Unknown error";
+    }
+  }
+
   private parseAzureRefusalError(err: any): string {
     // Azure has the refusal status for harmful messages in the error property
     // This would not be logged as the error message is only a generic message
     // that there has been a refusal
     let azureRefusalError = "";
-    if (typeof err == "object" && "error" in err) {
+    if (typeof err == "object" && err !== null && "error" in err) {
       try {
         azureRefusalError =
           "\n\nError details:\n" + JSON.stringify(err["error"], null, 2);
-- 
2.43.0


From 3519f16aa123ba63e0d702ee37d1d306b44c3cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:04 +0000
Subject: [PATCH 26/49] fix: trace LangChain runs without generations, input,
 output or serialized id

Such events were dropped, losing the run or leaving its observation open.
---
 packages/langchain/src/CallbackHandler.ts | 25 +++++++++++++----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 2045a60..97b9689 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -112,13 +112,14 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`Chain start with Id: ${runId}`);
 
-      const runName = name ?? chain.id.at(-1)?.toString() ?? "Langchain Run";
+      const runName = name ?? chain?.id?.at(-1)?.toString() ?? "Langchain Run";
 
       this.registerLangfusePrompt(parentRunId, metadata);
 
       // In chains, inputs can be a string or an array of BaseMessage
       let finalInput: string | ChainValues = inputs;
       if (
+        inputs &&
         typeof inputs === "object" &&
         "input" in inputs &&
         Array.isArray(inputs["input"]) &&
@@ -128,6 +129,7 @@ export class CallbackHandler extends BaseCallbackHandler {
           this.extractChatMessageContent(m),
         );
       } else if (
+        inputs &&
         typeof inputs === "object" &&
         "messages" in inputs &&
         Array.isArray(inputs["messages"]) &&
@@ -137,6 +139,7 @@ export class CallbackHandler extends BaseCallbackHandler {
           this.extractChatMessageContent(m),
         );
       } else if (
+        inputs &&
         typeof inputs === "object" &&
         "content" in inputs &&
         typeof inputs["content"] === "string" &&
@@ -288,7 +291,8 @@ export class CallbackHandler extends BaseCallbackHandler {
       `Generation start with ID: ${runId} and parentRunId ${parentRunId}`,
     );
 
-    const runName = name ?? llm.id.at(-1)?.toString() ?? "Langchain Generation";
+    const runName =
+      name ?? llm?.id?.at(-1)?.toString() ?? "Langchain Generation";
 
     const modelParameters: Record<string, any> = {};
     const invocationParams = extraParams?.["invocation_params"];
@@ -403,12 +407,14 @@ export class CallbackHandler extends BaseCallbackHandler {
 
       let finalOutput: ChainValues | string = outputs;
       if (
+        outputs &&
         typeof outputs === "object" &&
         "output" in outputs &&
         typeof outputs["output"] === "string"
       ) {
         finalOutput = outputs["output"];
       } else if (
+        outputs &&
         typeof outputs === "object" &&
         "messages" in outputs &&
         Array.isArray(outputs["messages"]) &&
@@ -477,7 +483,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         type: "tool",
         runId,
         parentRunId,
-        runName: name ?? tool.id.at(-1)?.toString() ?? "Tool execution",
+        runName: name ?? tool?.id?.at(-1)?.toString() ?? "Tool execution",
         attributes: {
           input,
         },
@@ -504,7 +510,7 @@ export class CallbackHandler extends BaseCallbackHandler {
       this.startAndRegisterOtelSpan({
         runId,
         parentRunId,
-        runName: name ?? retriever.id.at(-1)?.toString() ?? "Retriever",
+        runName: name ?? retriever?.id?.at(-1)?.toString() ?? "Retriever",
         attributes: {
           input: query,
         },
@@ -607,12 +613,9 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`LLM end with ID: ${runId}`);
 
-      const lastResponse =
-        output.generations[output.generations.length - 1][
-          output.generations[output.generations.length - 1].length - 1
-        ];
+      const lastResponse = output.generations.at(-1)?.at(-1);
       const llmUsage =
-        this.extractUsageMetadata(lastResponse) ??
+        (lastResponse ? this.extractUsageMetadata(lastResponse) : undefined) ??
         output.llmOutput?.["tokenUsage"] ??
         {};
       const modelName = this.extractModelNameFromMetadata(lastResponse);
@@ -656,11 +659,11 @@ export class CallbackHandler extends BaseCallbackHandler {
       }
 
       const extractedOutput =
-        "message" in lastResponse
+        lastResponse && "message" in lastResponse
           ? this.extractChatMessageContent(
               lastResponse["message"] as BaseMessage,
             )
-          : lastResponse.text;
+          : lastResponse?.text;
 
       this.handleOtelSpanEnd({
         runId,
-- 
2.43.0


From dcfee4cf35c35430579bfb93c48c318e2b761742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:06 +0000
Subject: [PATCH 27/49] fix: forget first-token times and prompts of LangChain
 runs that failed

---
 packages/langchain/src/CallbackHandler.ts | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 97b9689..ba48b20 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -93,7 +93,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     _fields?: any,
   ): Promise<void> {
     // if this is the first token, add it to completionStartTimes
-    if (runId && !(runId in this.completionStartTimes)) {
+    if (this.runMap.has(runId) && !(runId in this.completionStartTimes)) {
       this.logger.debug(`LLM first streaming token: ${runId}`);
       this.completionStartTimes[runId] = new Date();
     }
@@ -678,10 +678,6 @@ export class CallbackHandler extends BaseCallbackHandler {
           usageDetails: usageDetails,
         },
       });
-
-      if (runId in this.completionStartTimes) {
-        delete this.completionStartTimes[runId];
-      }
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
@@ -859,6 +855,8 @@ export class CallbackHandler extends BaseCallbackHandler {
 
     this.last_trace_id = span.traceId;
     this.runMap.delete(runId);
+    delete this.completionStartTimes[runId];
+    this.deregisterLangfusePrompt(runId);
   }
   /** Describes any thrown value without ever throwing itself */
   private describeError(err: unknown): string {
-- 
2.43.0


From 0d2f33685cfd5a7151fac0cbc8d2ab016973ee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:09 +0000
Subject: [PATCH 28/49] fix: LangChain agent events no longer replace or end
 the observation of their run

They carry the run id of the agent chain, whose own observation was dropped
from the run map and never ended.
---
 packages/langchain/src/CallbackHandler.ts | 28 ++++++++++++++---------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index ba48b20..cf23a13 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -217,18 +217,26 @@ export class CallbackHandler extends BaseCallbackHandler {
   async handleAgentAction(
     action: AgentAction,
     runId: string,
+    // eslint-disable-next-line @typescript-eslint/no-unused-vars
     parentRunId?: string,
   ): Promise<void> {
     try {
       this.logger.debug(`Agent action ${action.tool} with ID: ${runId}`);
-      this.startAndRegisterOtelSpan({
-        runId,
-        parentRunId,
-        runName: action.tool,
-        attributes: {
+
+      // Agent events carry the id of the run they belong to
+      const run = this.runMap.get(runId);
+      if (!run) {
+        this.logger.warn("Span not found in runMap. Skipping operation");
+
+        return;
+      }
+
+      run
+        .startObservation(action.tool, {
           input: action,
-        },
-      });
+          version: this.version,
+        })
+        .end();
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
@@ -243,10 +251,8 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`Agent finish with ID: ${runId}`);
 
-      this.handleOtelSpanEnd({
-        runId,
-        attributes: { output: action },
-      });
+      // The run itself ends with its chain event
+      this.runMap.get(runId)?.update({ output: action });
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
-- 
2.43.0


From 9631f19e3ac67ce72543e1f60e0d0d029bf880c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:11 +0000
Subject: [PATCH 29/49] fix: top-level LangChain model, tool and retriever runs
 carry the trace attributes

Session, user, tags and trace metadata were only set when the run was a chain.
---
 packages/langchain/src/CallbackHandler.ts | 107 +++++++++-------------
 1 file changed, 45 insertions(+), 62 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index cf23a13..34a2d67 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -22,6 +22,7 @@ import {
   LangfuseGenerationAttributes,
   LangfuseSpanAttributes,
   propagateAttributes,
+  type PropagateAttributesParams,
 } from "@langfuse/tracing";
 
 const LANGSMITH_HIDDEN_TAG = "langsmith:hidden";
@@ -148,67 +149,16 @@ export class CallbackHandler extends BaseCallbackHandler {
         finalInput = inputs["content"];
       }
 
-      // If there's no parent run, this is a top-level chain execution
-      // and we need to propagate trace attributes
-      if (!parentRunId) {
-        const traceTags = [...new Set([...(tags ?? []), ...this.tags])];
-
-        const traceUserId =
-          metadata &&
-          "langfuseUserId" in metadata &&
-          typeof metadata["langfuseUserId"] === "string"
-            ? metadata["langfuseUserId"]
-            : this.userId;
-
-        const traceSessionId =
-          metadata &&
-          "langfuseSessionId" in metadata &&
-          typeof metadata["langfuseSessionId"] === "string"
-            ? metadata["langfuseSessionId"]
-            : this.sessionId;
-
-        const traceMetadata = this.traceMetadata
-          ? Object.fromEntries(
-              Object.entries(this.traceMetadata).map(([k, v]) => [
-                k,
-                typeof v === "string" ? v : JSON.stringify(v),
-              ]),
-            )
-          : undefined;
-
-        propagateAttributes(
-          {
-            tags: traceTags,
-            userId: traceUserId,
-            sessionId: traceSessionId,
-            metadata: traceMetadata,
-            version: this.version,
-          },
-          () => {
-            this.startAndRegisterOtelSpan({
-              runName,
-              parentRunId,
-              runId,
-              tags,
-              metadata,
-              attributes: {
-                input: finalInput,
-              },
-            });
-          },
-        );
-      } else {
-        this.startAndRegisterOtelSpan({
-          runName,
-          parentRunId,
-          runId,
-          tags,
-          metadata,
-          attributes: {
-            input: finalInput,
-          },
-        });
-      }
+      this.startAndRegisterOtelSpan({
+        runName,
+        parentRunId,
+        runId,
+        tags,
+        metadata,
+        attributes: {
+          input: finalInput,
+        },
+      });
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
@@ -790,7 +740,7 @@ export class CallbackHandler extends BaseCallbackHandler {
       ? this.runMap.get(parentRunId)?.otelSpan.spanContext()
       : undefined;
 
-    const observation =
+    const start = (): TrackedObservation =>
       type === "generation"
         ? startActiveObservation(
             runName,
@@ -828,11 +778,44 @@ export class CallbackHandler extends BaseCallbackHandler {
                 endOnExit: false,
               },
             );
+
+    // If there's no parent run, this is a top-level execution
+    // and we need to propagate trace attributes
+    const observation = parentRunId
+      ? start()
+      : propagateAttributes(this.getTraceAttributes(tags, metadata), start);
+
     this.runMap.set(runId, observation);
 
     return observation;
   }
 
+  private getTraceAttributes(
+    tags?: string[],
+    metadata?: Record<string, unknown>,
+  ): PropagateAttributesParams {
+    return {
+      tags: [...new Set([...(tags ?? []), ...this.tags])],
+      userId:
+        typeof metadata?.["langfuseUserId"] === "string"
+          ? metadata["langfuseUserId"]
+          : this.userId,
+      sessionId:
+        typeof metadata?.["langfuseSessionId"] === "string"
+          ? metadata["langfuseSessionId"]
+          : this.sessionId,
+      metadata: this.traceMetadata
+        ? Object.fromEntries(
+            Object.entries(this.traceMetadata).map(([k, v]) => [
+              k,
+              typeof v === "string" ? v : JSON.stringify(v),
+            ]),
+          )
+        : undefined,
+      version: this.version,
+    };
+  }
+
   private handleOtelSpanEnd(params: {
     runId: string;
     attributes?: LangfuseSpanAttributes;
-- 
2.43.0


From 4d1b2e35d900ec130b63f40814c1906adb14664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:13 +0000
Subject: [PATCH 30/49] fix: trace LangChain runs when the trace metadata
 cannot be serialised

---
 packages/langchain/src/CallbackHandler.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 34a2d67..fdee91a 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -790,6 +790,14 @@ export class CallbackHandler extends BaseCallbackHandler {
     return observation;
   }
 
+  private serializeTraceMetadata(value: unknown): string {
+    try {
+      return typeof value === "string" ? value : JSON.stringify(value);
+    } catch {
+      return "<failed to serialize>";
+    }
+  }
+
   private getTraceAttributes(
     tags?: string[],
     metadata?: Record<string, unknown>,
@@ -808,7 +816,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         ? Object.fromEntries(
             Object.entries(this.traceMetadata).map(([k, v]) => [
               k,
-              typeof v === "string" ? v : JSON.stringify(v),
+              this.serializeTraceMetadata(v),
             ]),
           )
         : undefined,
-- 
2.43.0


From 5b4de8e7e8fd822a6c602bc1447f877c6f954ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 31/49] fix: formatted experiment results show each result with
 its own item

---
 packages/client/src/experiment/ExperimentManager.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 668ae98..373c828 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -626,7 +626,8 @@ export class ExperimentManager {
     if (includeItemResults) {
       for (let index = 0; index < itemResults.length; index++) {
         const result = itemResults[index];
-        const originalItem = originalData[index];
+        // Failed items have no result, so positions in the data do not match
+        const originalItem = result.item ?? originalData[index];
 
         output += `\n${index + 1}. Item ${index + 1}:\n`;
 
-- 
2.43.0


From 63faaa8caa3a1ce1fd17d180b7c469d5b53125b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:59 +0000
Subject: [PATCH 32/49] fix: an experiment survives tasks failing with unusual
 values

---
 packages/client/src/experiment/ExperimentManager.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 373c828..10c569e 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -225,8 +225,13 @@ export class ExperimentManager {
             datasetVersion: config.datasetVersion,
           });
         } catch (reason) {
-          const errorMessage =
-            reason instanceof Error ? reason.message : String(reason);
+          let errorMessage = "unknown error";
+          try {
+            errorMessage =
+              reason instanceof Error ? reason.message : String(reason);
+          } catch {
+            // thrown values need not be convertible to strings
+          }
           this.logger.error(
             `Task failed with error: ${errorMessage}. Skipping item.`,
           );
-- 
2.43.0


From cc09a6b002dd14921c8a87eb6ee6c0d25bb92c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:59 +0000
Subject: [PATCH 33/49] fix: an experiment keeps its results when the project
 URL cannot be resolved

---
 .../client/src/experiment/ExperimentManager.ts     | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 10c569e..4a6a51b 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -261,11 +261,15 @@ export class ExperimentManager {
     let datasetRunUrl = undefined;
     if (datasetRunId && data.length > 0 && "datasetId" in data[0]) {
       const datasetId = data[0].datasetId;
-      const projectUrl = (await this.langfuseClient.getTraceUrl("mock")).split(
-        "/traces",
-      )[0];
-
-      datasetRunUrl = `${projectUrl}/datasets/${datasetId}/runs/${datasetRunId}`;
+      try {
+        const projectUrl = (
+          await this.langfuseClient.getTraceUrl("mock")
+        ).split("/traces")[0];
+
+        datasetRunUrl = `${projectUrl}/datasets/${datasetId}/runs/${datasetRunId}`;
+      } catch (err) {
+        this.logger.error("Resolving the dataset run URL failed", err);
+      }
     }
 
     // Execute run evaluators
-- 
2.43.0


From c7aeb62f426d798ca34f972f0fb179a1ea30ee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:00 +0000
Subject: [PATCH 34/49] fix: experiment items and metadata need not be
 serialisable

---
 packages/core/src/utils.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/utils.ts b/packages/core/src/utils.ts
index 4248057..c20011f 100644
--- a/packages/core/src/utils.ts
+++ b/packages/core/src/utils.ts
@@ -128,5 +128,9 @@ export function serializeValue(value: any): string | undefined {
   if (value === undefined || value === null) return undefined;
   if (typeof value === "string") return value;
 
-  return JSON.stringify(value);
+  try {
+    return JSON.stringify(value);
+  } catch {
+    return "<failed to serialize>";
+  }
 }
-- 
2.43.0


From 48da29fc26e2667f2c79a72b8ab4055393ce5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:41 +0000
Subject: [PATCH 35/49] fix: experiment item results carry the input and
 expected output their type declares

---
 packages/client/src/experiment/ExperimentManager.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 4a6a51b..65aac3e 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -531,6 +531,8 @@ export class ExperimentManager {
     }
 
     return {
+      input: item.input,
+      expectedOutput: item.expectedOutput,
       output,
       evaluations: evals,
       traceId,
-- 
2.43.0


From dcd107acb713743f1adf59f2f2bad758634d89b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:26 +0000
Subject: [PATCH 36/49] fix: experiment results that cannot be serialised can
 be formatted

---
 packages/client/src/experiment/ExperimentManager.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 65aac3e..5545a82 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -774,7 +774,11 @@ export class ExperimentManager {
     if (typeof value === "string") {
       return value.length > 50 ? `${value.substring(0, 47)}...` : value;
     }
-    return JSON.stringify(value);
+    try {
+      return JSON.stringify(value);
+    } catch {
+      return "<failed to serialize>";
+    }
   }
 
   private isOtelRegistered(): boolean {
-- 
2.43.0


From 6f4b87f385d3809cdfb638993242d687274592a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:52 +0000
Subject: [PATCH 37/49] fix: an unterminated media reference no longer hides
 the one after it

---
 packages/client/src/media/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/media/index.ts b/packages/client/src/media/index.ts
index 081741b..531ec55 100644
--- a/packages/client/src/media/index.ts
+++ b/packages/client/src/media/index.ts
@@ -90,7 +90,8 @@ export class MediaManager {
 
       // Handle string with potential media references
       if (typeof obj === "string") {
-        const regex = /@@@langfuseMedia:.+?@@@/g;
+        // An unterminated reference must not swallow the start of the next one
+        const regex = /@@@langfuseMedia:(?:(?!@@@).)+@@@(?!langfuseMedia:)/g;
         const referenceStringMatches = obj.match(regex);
         if (!referenceStringMatches) {
           return obj;
-- 
2.43.0


From 908fcbbf3f30c54c19b945e1328524b512f6a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:53 +0000
Subject: [PATCH 38/49] fix: resolving media references keeps dates, media and
 other class instances

---
 packages/client/src/media/index.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/media/index.ts b/packages/client/src/media/index.ts
index 531ec55..3a0c97d 100644
--- a/packages/client/src/media/index.ts
+++ b/packages/client/src/media/index.ts
@@ -155,8 +155,12 @@ export class MediaManager {
         ) as Promise<T>;
       }
 
-      // Handle objects
-      if (typeof obj === "object" && obj !== null) {
+      // Handle plain objects, anything else (dates, media, ...) is kept as it is
+      if (
+        typeof obj === "object" &&
+        obj !== null &&
+        [Object.prototype, null].includes(Object.getPrototypeOf(obj))
+      ) {
         return Object.fromEntries(
           await Promise.all(
             Object.entries(obj).map(async ([key, value]) => [
-- 
2.43.0


From 86e87cd8a4fee09ab99339f50e68f842d75597aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:54 +0000
Subject: [PATCH 39/49] fix: media references keep content types with
 parameters

---
 packages/client/src/media/index.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/media/index.ts b/packages/client/src/media/index.ts
index 3a0c97d..32df262 100644
--- a/packages/client/src/media/index.ts
+++ b/packages/client/src/media/index.ts
@@ -210,8 +210,9 @@ export class MediaManager {
     const parsedData: { [key: string]: string } = {};
 
     for (const pair of pairs) {
-      const [key, value] = pair.split("=", 2);
-      parsedData[key] = value;
+      const separator = pair.indexOf("=");
+      if (separator < 0) continue;
+      parsedData[pair.slice(0, separator)] = pair.slice(separator + 1);
     }
 
     if (
-- 
2.43.0


From ccfe724a202847712e0866ca22cd7cce64d418c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:54 +0000
Subject: [PATCH 40/49] fix: dataset media is hydrated only at locations that
 exist

---
 packages/client/src/dataset/jsonPath.ts | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/packages/client/src/dataset/jsonPath.ts b/packages/client/src/dataset/jsonPath.ts
index ed03c33..275427b 100644
--- a/packages/client/src/dataset/jsonPath.ts
+++ b/packages/client/src/dataset/jsonPath.ts
@@ -74,9 +74,20 @@ export function setValueAtPath(
   }
 
   let target = value;
-  for (const segment of segments.slice(0, -1)) {
-    target = (target as Record<string | number, unknown>)[segment];
-  }
+  segments.forEach((segment, index) => {
+    // Only existing locations can be replaced
+    if (
+      typeof target !== "object" ||
+      target === null ||
+      !Object.prototype.hasOwnProperty.call(target, segment)
+    ) {
+      throw new Error(`Cannot resolve JSONPath: ${jsonPath}`);
+    }
+
+    if (index < segments.length - 1) {
+      target = (target as Record<string | number, unknown>)[segment];
+    }
+  });
 
   const leaf = segments[segments.length - 1];
   // A numeric leaf on a non-array means jsonpath-plus rendered an all-digit
-- 
2.43.0


From cb97eecdc6a9cec3909c78f45b4f8c861a3423ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:32 +0000
Subject: [PATCH 41/49] fix: browser score calls reject with the library's
 error when the answer cannot be read

---
 packages/browser/src/index.ts |  2 +-
 packages/browser/src/utils.ts | 19 +++++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/packages/browser/src/index.ts b/packages/browser/src/index.ts
index 483c3be..68eddf8 100644
--- a/packages/browser/src/index.ts
+++ b/packages/browser/src/index.ts
@@ -77,7 +77,7 @@ export class LangfuseBrowserClient {
     }
 
     const hasSuccess = response.successes.some(
-      (success) => success.id === event.id,
+      (success) => success?.id === event.id,
     );
     if (!hasSuccess) {
       throw new LangfuseBrowserError(
diff --git a/packages/browser/src/utils.ts b/packages/browser/src/utils.ts
index 0c3ffe7..ef36f70 100644
--- a/packages/browser/src/utils.ts
+++ b/packages/browser/src/utils.ts
@@ -12,7 +12,16 @@ const RESERVED_ADDITIONAL_HEADER_NAMES = new Set([
 ]);
 
 export async function parseJsonResponse(response: Response): Promise<unknown> {
-  const text = await response.text();
+  let text: string;
+  try {
+    text = await response.text();
+  } catch (error) {
+    throw new LangfuseBrowserError(
+      "Failed to read the Langfuse ingestion response.",
+      { status: response.status, originalError: error },
+    );
+  }
+
   if (!text) {
     return undefined;
   }
@@ -34,7 +43,13 @@ export async function parseJsonResponse(response: Response): Promise<unknown> {
 export async function parseErrorResponseBody(
   response: Response,
 ): Promise<unknown> {
-  const text = await response.text();
+  let text: string;
+  try {
+    text = await response.text();
+  } catch {
+    return undefined;
+  }
+
   if (!text) {
     return undefined;
   }
-- 
2.43.0


From ff0656fe534343a2370710d462ee8f7de01b023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:54 +0000
Subject: [PATCH 42/49] fix: API request timeouts are reported as timeouts and
 their timers cleared

---
 .../core/src/api/core/fetcher/makeRequest.ts  | 28 +++++++++----------
 packages/core/src/api/core/fetcher/signals.ts |  4 +--
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/makeRequest.ts b/packages/core/src/api/core/fetcher/makeRequest.ts
index f6859af..159ddc6 100644
--- a/packages/core/src/api/core/fetcher/makeRequest.ts
+++ b/packages/core/src/api/core/fetcher/makeRequest.ts
@@ -26,19 +26,19 @@ export const makeRequest = async (
     signals.push(abortSignal);
   }
   let newSignals = anySignal(signals);
-  const response = await fetchFn(url, {
-    method: method,
-    headers,
-    body: requestBody,
-    signal: newSignals,
-    credentials: withCredentials ? "include" : undefined,
-    // @ts-ignore
-    duplex,
-  });
-
-  if (timeoutAbortId != null) {
-    clearTimeout(timeoutAbortId);
+  try {
+    return await fetchFn(url, {
+      method: method,
+      headers,
+      body: requestBody,
+      signal: newSignals,
+      credentials: withCredentials ? "include" : undefined,
+      // @ts-ignore
+      duplex,
+    });
+  } finally {
+    if (timeoutAbortId != null) {
+      clearTimeout(timeoutAbortId);
+    }
   }
-
-  return response;
 };
diff --git a/packages/core/src/api/core/fetcher/signals.ts b/packages/core/src/api/core/fetcher/signals.ts
index 0cd3298..a8ad109 100644
--- a/packages/core/src/api/core/fetcher/signals.ts
+++ b/packages/core/src/api/core/fetcher/signals.ts
@@ -1,11 +1,9 @@
-const TIMEOUT = "timeout";
-
 export function getTimeoutSignal(timeoutMs: number): {
   signal: AbortSignal;
   abortId: NodeJS.Timeout;
 } {
   const controller = new AbortController();
-  const abortId = setTimeout(() => controller.abort(TIMEOUT), timeoutMs);
+  const abortId = setTimeout(() => controller.abort(), timeoutMs);
   return { signal: controller.signal, abortId };
 }
 
-- 
2.43.0


From e083e178feadc9b0c01c8ba24b49c42e756ba4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:41 +0000
Subject: [PATCH 43/49] fix: answers that are not JSON are reported with their
 status and body

---
 packages/core/src/api/core/fetcher/Fetcher.ts | 32 ++++++++++++++-----
 .../api/core/fetcher/getErrorResponseBody.ts  | 21 ++++++++----
 .../src/api/core/fetcher/getResponseBody.ts   | 19 ++++++-----
 3 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/Fetcher.ts b/packages/core/src/api/core/fetcher/Fetcher.ts
index a74add3..99ad1f5 100644
--- a/packages/core/src/api/core/fetcher/Fetcher.ts
+++ b/packages/core/src/api/core/fetcher/Fetcher.ts
@@ -4,7 +4,7 @@ import { createRequestUrl } from "./createRequestUrl.js";
 import { getErrorResponseBody } from "./getErrorResponseBody.js";
 import { getFetchFn } from "./getFetchFn.js";
 import { getRequestBody } from "./getRequestBody.js";
-import { getResponseBody } from "./getResponseBody.js";
+import { getResponseBody, NonJsonBodyError } from "./getResponseBody.js";
 import { makeRequest } from "./makeRequest.js";
 import {
   abortRawResponse,
@@ -125,19 +125,35 @@ export async function fetcherImpl<R = unknown>(
     );
 
     if (response.status >= 200 && response.status < 400) {
-      return {
-        ok: true,
-        body: (await getResponseBody(response, args.responseType)) as R,
-        headers: response.headers,
-        rawResponse: toRawResponse(response),
-      };
+      try {
+        return {
+          ok: true,
+          body: (await getResponseBody(response, args.responseType)) as R,
+          headers: response.headers,
+          rawResponse: toRawResponse(response),
+        };
+      } catch (error) {
+        if (!(error instanceof NonJsonBodyError)) {
+          throw error;
+        }
+        return {
+          ok: false,
+          error: {
+            reason: "non-json",
+            statusCode: response.status,
+            rawBody: error.rawBody,
+          },
+          rawResponse: toRawResponse(response),
+        };
+      }
     } else {
       return {
         ok: false,
         error: {
           reason: "status-code",
           statusCode: response.status,
-          body: await getErrorResponseBody(response),
+          // an unreadable body must not hide the status code
+          body: await getErrorResponseBody(response).catch(() => undefined),
         },
         rawResponse: toRawResponse(response),
       };
diff --git a/packages/core/src/api/core/fetcher/getErrorResponseBody.ts b/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
index 1df82fe..619e7fc 100644
--- a/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
+++ b/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
@@ -1,12 +1,23 @@
 import { fromJson } from "../json.js";
-import { getResponseBody } from "./getResponseBody.js";
+
+/**
+ * Parses a JSON error body. A body that is not valid JSON is returned as text,
+ * so that the status code of the response is still reported.
+ */
+function parseJsonOrText(text: string): unknown {
+  try {
+    return text.length > 0 ? fromJson(text) : undefined;
+  } catch {
+    return text;
+  }
+}
 
 export async function getErrorResponseBody(
   response: Response,
 ): Promise<unknown> {
   let contentType = response.headers.get("Content-Type")?.toLowerCase();
   if (contentType == null || contentType.length === 0) {
-    return getResponseBody(response);
+    return parseJsonOrText(await response.text());
   }
 
   if (contentType.indexOf(";") !== -1) {
@@ -19,15 +30,13 @@ export async function getErrorResponseBody(
     case "application/problem+json":
     case "application/vnd.api+json":
     case "text/json":
-      const text = await response.text();
-      return text.length > 0 ? fromJson(text) : undefined;
+      return parseJsonOrText(await response.text());
     default:
       if (
         contentType.startsWith("application/vnd.") &&
         contentType.endsWith("+json")
       ) {
-        const text = await response.text();
-        return text.length > 0 ? fromJson(text) : undefined;
+        return parseJsonOrText(await response.text());
       }
 
       // Fallback to plain text if content type is not recognized
diff --git a/packages/core/src/api/core/fetcher/getResponseBody.ts b/packages/core/src/api/core/fetcher/getResponseBody.ts
index 2a06812..22bcfac 100644
--- a/packages/core/src/api/core/fetcher/getResponseBody.ts
+++ b/packages/core/src/api/core/fetcher/getResponseBody.ts
@@ -2,6 +2,16 @@ import { getBinaryResponse } from "./BinaryResponse.js";
 import { isResponseWithBody } from "./ResponseWithBody.js";
 import { fromJson } from "../json.js";
 
+/**
+ * Thrown when a body that should be JSON cannot be parsed.
+ */
+export class NonJsonBodyError extends Error {
+  constructor(public readonly rawBody: string) {
+    super("The response body is not valid JSON");
+    Object.setPrototypeOf(this, NonJsonBodyError.prototype);
+  }
+}
+
 export async function getResponseBody(
   response: Response,
   responseType?: string,
@@ -32,14 +42,7 @@ export async function getResponseBody(
       let responseBody = fromJson(text);
       return responseBody;
     } catch (err) {
-      return {
-        ok: false,
-        error: {
-          reason: "non-json",
-          statusCode: response.status,
-          rawBody: text,
-        },
-      };
+      throw new NonJsonBodyError(text);
     }
   }
   return undefined;
-- 
2.43.0


From 230f063495e17c84b994a30b344adc4eaab5d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:40 +0000
Subject: [PATCH 44/49] fix: additional headers in any spelling never displace
 the client's own

---
 packages/core/src/api/core/headers.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/api/core/headers.ts b/packages/core/src/api/core/headers.ts
index 1864d3b..f292bb7 100644
--- a/packages/core/src/api/core/headers.ts
+++ b/packages/core/src/api/core/headers.ts
@@ -18,10 +18,15 @@ export function mergeHeaders(
   for (const [key, value] of headersArray
     .filter((headers) => headers != null)
     .flatMap((headers) => Object.entries(headers))) {
+    // header names are case-insensitive: a later header replaces an earlier
+    // one whatever its spelling
+    for (const existing of Object.keys(result)) {
+      if (existing.toLowerCase() === key.toLowerCase()) {
+        delete result[existing];
+      }
+    }
     if (value != null) {
       result[key] = value;
-    } else if (key in result) {
-      delete result[key];
     }
   }
 
-- 
2.43.0


From 12f2d61b600c9c5e772764b9da93401f4db6c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:12 +0000
Subject: [PATCH 45/49] fix: streamed OpenAI choices are not mixed into each
 other

With n > 1 the chunks of all choices arrive interleaved; the recorded
output joined the deltas of every choice. Only the first choice is recorded.
---
 packages/openai/src/parseOpenAI.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index 2d3713d..5017fd4 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -214,9 +214,13 @@ export const parseChunk = (
   const _chunk = rawChunk as
     | OpenAI.ChatCompletionChunk
     | OpenAI.Completions.Completion;
-  const chunkData = _chunk?.choices?.[0];
 
   try {
+    // With n > 1 the chunks of all choices are interleaved
+    const chunkData = _chunk.choices.find(
+      (choice) => (choice.index ?? 0) === 0,
+    )!;
+
     if (
       "delta" in chunkData &&
       "tool_calls" in chunkData.delta &&
-- 
2.43.0


From a9e261802fdf4bbcd808bfb9bdf23951ccb03e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:57 +0000
Subject: [PATCH 46/49] fix: a base URL with a trailing slash breaks span
 export and trace links

The span exporter's URL and the link returned by getTraceUrl were built by
appending a path to the base URL as given, so that a base URL ending in a
slash produced "https://host//api/public/otel/v1/traces" and
"https://host//project/...", while the API client and the browser client
accept it.
---
 packages/client/src/LangfuseClient.ts | 3 ++-
 packages/otel/src/span-processor.ts   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/LangfuseClient.ts b/packages/client/src/LangfuseClient.ts
index 4f1badf..e0947ed 100644
--- a/packages/client/src/LangfuseClient.ts
+++ b/packages/client/src/LangfuseClient.ts
@@ -398,7 +398,8 @@ export class LangfuseClient {
       this.projectId = projectId;
     }
 
-    const traceUrl = `${this.baseUrl}/project/${projectId}/traces/${traceId}`;
+    const baseUrl = this.baseUrl.replace(/\/+$/, "");
+    const traceUrl = `${baseUrl}/project/${projectId}/traces/${traceId}`;
 
     return traceUrl;
   }
diff --git a/packages/otel/src/span-processor.ts b/packages/otel/src/span-processor.ts
index 823dff6..46f44e0 100644
--- a/packages/otel/src/span-processor.ts
+++ b/packages/otel/src/span-processor.ts
@@ -278,7 +278,7 @@ export class LangfuseSpanProcessor implements SpanProcessor {
     const exporter =
       params?.exporter ??
       new OTLPTraceExporter({
-        url: `${baseUrl}/api/public/otel/v1/traces`,
+        url: `${baseUrl.replace(/\/+$/, "")}/api/public/otel/v1/traces`,
         headers: {
           Authorization: `Basic ${authHeaderValue}`,
           "x-langfuse-sdk-name": "javascript",
-- 
2.43.0


From bdd0108e06201446dcd6b86c27d6679113474563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:29 +0000
Subject: [PATCH 47/49] fix: an experiment inside an item of another one
 inherits its metadata and dataset

The optional experiment attributes (metadata, dataset id, item metadata) of the
enclosing item stayed in the context, so that the observations of an inner
experiment that does not set them were recorded with those of the outer one.
---
 .../client/src/experiment/ExperimentManager.ts     | 12 ++++++++++--
 packages/core/src/propagation.ts                   | 14 ++++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 5545a82..6721c81 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -2,6 +2,7 @@ import {
   DatasetItem,
   getGlobalLogger,
   propagateAttributes,
+  removeExperimentAttributesFromContext,
   serializeValue,
   createExperimentId,
   createExperimentItemId,
@@ -9,7 +10,7 @@ import {
   LANGFUSE_SDK_EXPERIMENT_ENVIRONMENT,
 } from "@langfuse/core";
 import { startActiveObservation } from "@langfuse/tracing";
-import { ProxyTracerProvider, trace } from "@opentelemetry/api";
+import { context, ProxyTracerProvider, trace } from "@opentelemetry/api";
 
 import { LangfuseClient } from "../LangfuseClient.js";
 
@@ -379,8 +380,15 @@ export class ExperimentManager {
   }): Promise<ExperimentItemResult<Input, ExpectedOutput, Metadata>> {
     const { item, evaluators = [], task, experimentMetadata } = params;
 
+    // The experiment may run inside an item of another one, whose attributes
+    // must not leak into this item
+    const startItemObservation = context.bind(
+      removeExperimentAttributesFromContext(context.active()),
+      startActiveObservation,
+    );
+
     const { output, traceId, observationId, datasetRunId } =
-      await startActiveObservation("experiment-item-run", async (span) => {
+      await startItemObservation("experiment-item-run", async (span) => {
         // Extract experiment data
         const input = item.input;
         const expectedOutput = item.expectedOutput;
diff --git a/packages/core/src/propagation.ts b/packages/core/src/propagation.ts
index 8bfdcf6..bc9e58c 100644
--- a/packages/core/src/propagation.ts
+++ b/packages/core/src/propagation.ts
@@ -605,6 +605,20 @@ function extractPropagatedPrompt(
   return { name, version };
 }
 
+/**
+ * Returns the context without the attributes of an enclosing experiment item.
+ *
+ * @internal
+ */
+export function removeExperimentAttributesFromContext(
+  context: Context,
+): Context {
+  return experimentKeys.reduce(
+    (ctx, key) => ctx.deleteValue(LangfuseOtelContextKeys[key]),
+    context,
+  );
+}
+
 export function getPropagatedAttributesFromContext(
   context: Context,
 ): Record<string, string | string[] | number> {
-- 
2.43.0


From 0ce5c3d534321ce338e9c0c782381595f375a013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:16 +0000
Subject: [PATCH 48/49] fix: a placeholder named like an Object method is
 replaced by undefined

An unresolved placeholder such as toString or constructor was looked up in the
prototype of the placeholder values and compiled to undefined.
---
 packages/client/src/prompt/promptClients.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index d5b810c..ac88243 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -334,7 +334,12 @@ export class ChatPromptClient extends BasePromptClient {
 
     for (const item of this.prompt) {
       if ("type" in item && item.type === ChatMessageType.Placeholder) {
-        const placeholderValue = placeholderValues[item.name];
+        const placeholderValue = Object.prototype.hasOwnProperty.call(
+          placeholderValues,
+          item.name,
+        )
+          ? placeholderValues[item.name]
+          : undefined;
         if (
           Array.isArray(placeholderValue) &&
           placeholderValue.length > 0 &&
@@ -427,7 +432,12 @@ export class ChatPromptClient extends BasePromptClient {
 
     for (const item of this.prompt) {
       if ("type" in item && item.type === ChatMessageType.Placeholder) {
-        const placeholderValue = placeholderValues[item.name];
+        const placeholderValue = Object.prototype.hasOwnProperty.call(
+          placeholderValues,
+          item.name,
+        )
+          ? placeholderValues[item.name]
+          : undefined;
         if (
           Array.isArray(placeholderValue) &&
           placeholderValue.length > 0 &&
-- 
2.43.0


From 03e5f368a126a4de8b60ae5faa3cb15499f4b3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:51 +0000
Subject: [PATCH 49/49] fix: getLangchainPrompt throws for placeholder messages
 without text content

compile() passes messages whose content is null or a list of parts through
unchanged; the conversion for LangChain failed with a TypeError.
---
 packages/client/src/prompt/promptClients.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index ac88243..e89eea8 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -454,7 +454,10 @@ export class ChatPromptClient extends BasePromptClient {
             ...(placeholderValue as ChatMessage[]).map((msg) => {
               return {
                 role: msg.role,
-                content: this._transformToLangchainVariables(msg.content),
+                content:
+                  typeof msg.content === "string"
+                    ? this._transformToLangchainVariables(msg.content)
+                    : msg.content,
               };
             }),
           );
-- 
2.43.0

