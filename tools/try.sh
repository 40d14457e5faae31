#!/bin/bash
# Editing aid: try.sh SEEDED-ID [CHECK]: apply to /repo, run the check, undo.
id="$1"; p="${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}"
git -C /repo apply "/verif/seeded/$id/patch.diff" || exit 1
VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 /verif/check.sh "$p" >/tmp/try.log 2>&1; rc=$?
git -C /repo checkout -- .
echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/try.log)"; grep -m2 -E "VIOLATION|KNOWN" /tmp/try.log
