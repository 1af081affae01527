#!/usr/bin/env python3
"""mkseed.py FILE.py...: each defines ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (module text).
Writes /verif/seeded/<ID>/ from a scratch worktree of /repo's HEAD."""
import sys, os, subprocess, json, tempfile, shutil
PRE = '''import { createRequire } from "node:module";
import path from "node:path";
const repo = process.cwd();
const load = (n) => createRequire(path.join(repo, "packages", n, "package.json"))(path.join(repo, "packages", n, "dist/index.cjs"));
const from = (n, m) => createRequire(path.join(repo, "packages", n, "package.json"))(m);
const fail = (m) => { console.error("DEMO FAILED: " + m); process.exit(1); };
const check = (c, m) => { if (!c) fail(m); };
const tick = (ms = 20) => new Promise((r) => setTimeout(r, ms));
const json = (status, body, headers = {}) => new Response(body === undefined ? "" : JSON.stringify(body), { status, headers: { "content-type": "application/json", ...headers } });
setTimeout(() => fail("timed out"), 60000).unref();
'''
for f in sys.argv[1:]:
    g = {}; exec(open(f).read(), g)
    wt = tempfile.mkdtemp(prefix="seedwt-"); os.rmdir(wt)
    subprocess.check_call(["git","-C","/repo","worktree","add","-q","--detach",wt,"HEAD"])
    try:
        for file, old, new in g["EDITS"]:
            p = os.path.join(wt, file); s = open(p).read()
            assert s.count(old) == 1, (f, file, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = subprocess.check_output(["git","-C",wt,"diff"]).decode()
    finally:
        subprocess.check_call(["git","-C","/repo","worktree","remove","--force",wt])
    out = "/verif/seeded/" + g["ID"]; os.makedirs(out, exist_ok=True)
    open(out+"/patch.diff","w").write(d)
    open(out+"/demo.sh","w").write('#!/bin/bash\nexec timeout 120 node "$(cd "$(dirname "$0")" && pwd)/demo.mjs"\n'); os.chmod(out+"/demo.sh",0o755)
    open(out+"/demo.mjs","w").write(PRE + g["DEMO"].strip("\n") + "\nprocess.exit(0);\n")
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(out+"/meta.json","w"), indent=1)
    print("wrote", out)
