#!/bin/bash
# Parses every specification and builds the code bundle once: shows that the sandbox has what the checks need.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
for f in spec/*.tla; do ( cd spec && tla-sany "$(basename "$f")" >"$T/sany.log" 2>&1 ) || { cat "$T/sany.log"; exit 1; }; done
node -e 'import("./harness/lib/bundle.mjs").then((m)=>m.buildBundle(process.argv[1])).then(()=>console.log("bundle ok"),(e)=>{console.error(e);process.exit(1)})' "$T"
