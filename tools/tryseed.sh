#!/bin/bash
# tryseed.sh ID...: validates planted bugs in a scratch copy and runs the property's check against it.
rc=0
T=/tmp/seedtry; [ -d $T ] || cp -a /repo $T
for id in "$@"; do
  S=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C $T checkout -q -- . ; git -C $T fetch -q /repo HEAD && git -C $T reset -q --hard FETCH_HEAD
  run() { ( . /opt/vp/env.sh; cd $T; node_modules/.bin/turbo run build --cache=local:rw --output-logs=errors-only --ui=stream ) >/tmp/seed.build 2>&1; }
  run || echo "$id clean build FAILED"
  (cd $T && bash $S/demo.sh >/tmp/seed.demo0 2>&1); d0=$?
  git -C $T apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  run; b=$?
  (cd $T && bash $S/demo.sh >/tmp/seed.demo1 2>&1); d1=$?
  t=skip
  if [ -z "$NOTEST" ]; then
    ( . /opt/vp/env.sh; cd $T; node_modules/.bin/vitest run --project=unit --project=integration --reporter=json --outputFile.json=/tmp/seed.vitest.json >/tmp/seed.test 2>&1
      node_modules/.bin/vitest run --project=e2e tests/e2e/prompts.e2e.test.ts -t "prompt compilation" --reporter=json --outputFile.json=/tmp/seed.vitest-e2e.json >>/tmp/seed.test 2>&1 )
    t=$(python3 - <<'P'
import json
f=[]
for x in ("/tmp/seed.vitest.json","/tmp/seed.vitest-e2e.json"):
    for s in json.load(open(x))["testResults"]:
        f+=[a["fullName"] for a in s["assertionResults"] if a["status"]=="failed"]
print("tests-failed=%d %s"%(len(f),f[:3]))
P
)
  fi
  out=$(cd /verif && VERIF_REPO=$T node harness/check.mjs $prop quick 2>&1 | tail -1 | cut -c1-150)
  echo "$id [$prop] demo clean=$d0 patched=$d1 build=$b $t | $out"
  git -C $T checkout -q -- .
done
