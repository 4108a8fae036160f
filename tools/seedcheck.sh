#!/bin/bash
# seedcheck.sh ID...: run the check of the property a planted bug belongs to against a patched scratch copy of /repo
# (not a check: no registered command uses this or reads seeded/)
cd "$(dirname "$0")/.."
for id in "$@"; do
  d=$(mktemp -d /tmp/seedcheck.XXXXXX)
  cp -a /repo/. "$d"
  git -C "$d" apply "$PWD/seeded/$id/patch.diff" || echo "$id: patch does not apply"
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  FALWA_REPO=$d VERIF_SEED=1 VERIF_TIER=quick python3-vt -B fv/check.py "$p" >"$d.txt" 2>&1
  echo "$id $p exit=$? $(grep -a '^VIOLATION' "$d.txt" | head -1) :: $(grep -a 'obligations' "$d.txt" | tail -1 | cut -c1-160)"
  find "$d" "$d.txt" -delete
done
