// Bundles /repo's working-tree sources (packages/*/src) plus the OpenTelemetry
// SDK into one CommonJS file in a scratch directory. Every check run rebuilds.
import { createRequire } from "node:module";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
const require = createRequire(import.meta.url);
export const REPO = process.env.VERIF_REPO || "/repo";
const NODE_MODULES = "/opt/veriftools/node/node_modules";

export async function buildBundle(outDir) {
  const esbuild = require(path.join(NODE_MODULES, "esbuild"));
  const pk = (n) => path.join(REPO, "packages", n, "src/index.ts");
  const alias = {};
  for (const n of ["browser", "client", "core", "langchain", "openai", "otel", "tracing", "vercel-ai-sdk"])
    alias["@langfuse/" + n] = pk(n);
  const entry = `
    export * as client from "@langfuse/client";
    export * as core from "@langfuse/core";
    export * as tracing from "@langfuse/tracing";
    export * as otel from "@langfuse/otel";
    export * as openai from "@langfuse/openai";
    export * as langchain from "@langfuse/langchain";
    export * as browser from "@langfuse/browser";
    export * as vercel from "@langfuse/vercel-ai-sdk";
    export * as otelApi from "@opentelemetry/api";
    export * as otelCore from "@opentelemetry/core";
    export * as sdkTraceBase from "@opentelemetry/sdk-trace-base";
    export * as asyncHooks from "@opentelemetry/context-async-hooks";
    export * as lcPrompts from "@langchain/core/prompts";
    export * as lcMessages from "@langchain/core/messages";
    export * as lcManager from "@langchain/core/callbacks/manager";
    export { default as OpenAI } from "openai";
  `;
  // One copy of every third-party package, resolved from a fixed place.
  const pnpm = path.join(REPO, "node_modules/.pnpm");
  const roots = [path.join(REPO, "packages/otel"), path.join(REPO, "packages/client"), path.join(REPO, "packages/langchain"),
    path.join(REPO, "packages/vercel-ai-sdk"), path.join(REPO, "packages/openai"), REPO, path.join(pnpm, "node_modules")];
  const single = {
    name: "single",
    setup(b) {
      b.onResolve({ filter: /^(@opentelemetry|@langchain|mustache|openai$|@ai-sdk|ai$)/ }, async (a) => {
        if (a.pluginData === "s") return;
        const names = a.path;
        const dirs = names.startsWith("@opentelemetry/api") && !names.startsWith("@opentelemetry/api-logs") ? [roots[0]] : /node_modules/.test(a.resolveDir) ? [a.resolveDir, ...roots] : roots;
        for (const d of dirs) {
          const r = await b.resolve(names, { resolveDir: d, kind: a.kind, pluginData: "s" });
          if (!r.errors.length) return r;
        }
        const hoisted = path.join(pnpm, "node_modules", names);
        if (fs.existsSync(hoisted)) return b.resolve(hoisted, { resolveDir: REPO, kind: a.kind, pluginData: "s" });
      });
    },
  };
  fs.mkdirSync(outDir, { recursive: true });
  const outfile = path.join(outDir, "bundle.cjs");
  await esbuild.build({
    stdin: { contents: entry, resolveDir: REPO, loader: "ts" },
    bundle: true, platform: "node", format: "cjs", target: "node22", outfile, alias, plugins: [single],
    logLevel: "error", sourcemap: false, mainFields: ["module", "main"], conditions: ["import", "node"],
    tsconfigRaw: { compilerOptions: { target: "es2022" } },
    define: { "import.meta.url": "__importMetaUrl" }, banner: { js: "var __importMetaUrl = require('url').pathToFileURL(__filename).href;" },
  });
  return outfile;
}
export function scratchDir(prefix = "verif-") { return fs.mkdtempSync(path.join(os.tmpdir(), prefix)); }
