#!/bin/bash
# seed.sh ID...: confirm planted changes in a scratch copy of /repo: the patch
# applies, builds, passes the stable tests, and its demonstration tells the
# two trees apart. (vcheck repeats this; no check uses this script.)
cd /verif/seeded || exit 2
W=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "${W:?}"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo"; git checkout -q -- . ; rm -rf "$W/repo/target/vp-cargo-test.log"
. /opt/vp/env.sh; export CARGO_TARGET_DIR="$W/repo/target"
for id in "$@"; do
  d=/verif/seeded/$id; r="$id:"
  mkdir -p "$W/d"; rm -rf "$W/d/x"; cp -r $d "$W/d/x"; rm -f "$W/d/x"/*.diff "$W/d/x"/meta.json
  (unset CARGO_TARGET_DIR; bash "$W/d/x/demo.sh") > "$W/out" 2>&1 && r="$r demo-clean-ok" || { r="$r DEMO-FAILS-CLEAN"; tail -5 "$W/out"; }
  git apply $d/patch.diff || { echo "$r NO-APPLY"; continue; }
  cargo test --workspace --all-features --no-fail-fast --offline > "$W/log" 2>&1
  python3 /opt/vp/results.py "$W/res.json" "cargo:$W/log" >/dev/null 2>&1
  python3 - "$W/res.json" <<'P' && r="$r tests-pass" || { r="$r TESTS-FAIL"; grep -E "^error|FAILED|warning: unused" "$W/log" | head -5; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def names(x):
    for k in ('passed','stable','stable_passing','pass','tests'):
        if isinstance(x,dict) and k in x: return set(map(str,x[k]))
    return set(map(str,x))
m=names(b)-names(r); print('missing',len(m),sorted(m)[:4]) if m else None
sys.exit(1 if m or not names(b) else 0)
P
  (unset CARGO_TARGET_DIR; bash "$W/d/x/demo.sh") > "$W/out" 2>&1 && r="$r DEMO-PASSES-PATCHED" || r="$r demo-patched-fails"
  tail -2 "$W/out" | cut -c1-200
  git checkout -q -- .
  echo "$r"
done
