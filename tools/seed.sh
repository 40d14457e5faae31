#!/bin/bash
# Editing aid (no check runs it).  seed.sh new ID: scratch copy in /tmp/seed-ID.
# seed.sh fin ID: diff, build, tests, demonstration, into /verif/seeded/ID.
id="$2"; w="/tmp/seed-$id"; s="/verif/seeded/$id"
. /opt/vp/env.sh; export CARGO_TARGET_DIR="$w/repo/target"
case "$1" in
new) mkdir -p "$w" && cp -a /repo "$w/" && mkdir -p "$s"
     cp /verif/tools/demo.sh "$s/demo.sh"; echo "$w/repo" ;;
fin) cd "$w/repo" || exit 1
     git diff > "$s/patch.diff"; git apply --check -R "$s/patch.diff" || exit 1
     # every removed line has to be one of the base
     git diff -U0 | grep -E '^(---|@@)' | python3 -c '
import sys,re,subprocess
f=None
for l in sys.stdin:
    if l.startswith("---"): f=l.split("a/",1)[1].strip(); continue
    m=re.match(r"@@ -(\d+)(?:,(\d+))?",l); a=int(m[1]); n=int(m[2] or 1)
    if n==0: print("pure insertion at",f,a); continue
    o=subprocess.run(["git","blame","-s","-L",f"{a},{a+n-1}","HEAD","--",f],capture_output=True,text=True).stdout
    for x in o.splitlines():
        print("BASE" if x.startswith("^ff449cf") else "MINE", x[:110])
'
     cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 > "$w/log" 2>&1
     grep -E "^test result|FAILED|^error" -A3 "$w/log" | head -30
     cd "$w/repo" && bash "$s/demo.sh" >"$w/demo.log" 2>&1; echo "patched: $?"; tail -3 "$w/demo.log"
     cd /repo && bash "$s/demo.sh" >"$w/demo0.log" 2>&1; echo "unchanged: $?"; tail -3 "$w/demo0.log"
     rm -rf "$w" ;;
esac
