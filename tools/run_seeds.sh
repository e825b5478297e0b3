#!/bin/bash
# tools/run_seeds.sh [ids...]: apply each planted bug to /repo, run its property's quick check, undo.
# ALL=1: run every check, not only the bug's own.
V=$(cd "$(dirname "$0")/.." && pwd)
ids=${*:-$(ls "$V/seeded")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in $ids; do
  p=$(python3 -c "import json,sys; print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$V/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  checks=$p; [ -n "${ALL:-}" ] && checks=$(python3 -c "import json; print(*[json.loads(l)['id'] for l in open('$V/properties.jsonl')])")
  hit=; s=$(date +%s)
  for c in $checks; do
    out=$(VERIF_TIER=${VERIF_TIER:-quick} timeout 900 "$V/run.sh" "$c" 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$c" <<<"$out"; then hit="$hit $c"; elif [ $rc != 0 ]; then hit="$hit $c(rc=$rc)"; fi
  done
  git -C /repo checkout -q -- .
  case " $hit " in *" $p "*) v=CAUGHT;; *) v=MISSED;; esac
  echo "$id property=$p $v by:${hit:- none} ($(( $(date +%s)-s )) s)"
done
