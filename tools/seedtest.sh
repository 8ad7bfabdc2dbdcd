#!/bin/bash
# Confirms a planted change and runs the check of its property on it.
# usage: tools/seedtest.sh ID [-nocheck] [PROP...]
# Everything happens in scratch copies of /repo under /tmp.
. /opt/vp/env.sh
V=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; shift
NOCHECK=
[ "$1" = -nocheck ] && { NOCHECK=1; shift; }
SRC=${REPO:-/repo}
S=$V/seeded/$ID
W=$(mktemp -d /tmp/seed-XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir "$W/demo"
for f in "$S"/*; do
	case $f in *.diff|*.patch|*/meta.json) ;; *) cp -a "$f" "$W/demo/" ;; esac
done
cp -a "$SRC" "$W/clean"; cp -a "$SRC" "$W/bug"
git -C "$W/clean" checkout -q -- . ; git -C "$W/bug" checkout -q -- .
git -C "$W/bug" apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
(cd "$W/bug" && go build ./... ) || { echo "$ID: does not build"; exit 1; }
# removed lines must come from the original repository
base=$(git -C "$SRC" rev-list --max-parents=0 HEAD)
orig=$(cd "$W/bug" && git diff -U0 | python3 -c "
import sys,re,subprocess
f=None;n=0
for l in sys.stdin:
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m:
        a=int(m[1]);c=int(m[2]) if m[2] else 1
        if c:
            o=subprocess.check_output(['git','blame','-s','-l','-L',f'{a},{a+c-1}','HEAD','--',f],text=True)
            n+=sum(1 for x in o.splitlines() if x.lstrip('^')[:38]=='$base'[:38])
print(n)")
[ "$orig" -gt 0 ] || echo "$ID: WARNING changes no line of the original repository"
# -X: stable tests
(cd "$W/bug" && go test -vet=off -count=1 ./... >"$W/t.txt" 2>&1) || { echo "$ID: existing tests FAIL"; grep -E '^(---|FAIL|panic)' "$W/t.txt" | head; [ "$FORCE" ] || exit 1; }
for i in 1 2 3; do
	(cd "$W/clean" && timeout 300 bash "$W/demo/demo.sh" >"$W/d0.txt" 2>&1) || { echo "$ID: demo fails on the clean tree"; tail -20 "$W/d0.txt"; exit 1; }
	(cd "$W/bug" && timeout 300 bash "$W/demo/demo.sh" >"$W/d1.txt" 2>&1) && { echo "$ID: demo passes on the bug"; tail -20 "$W/d1.txt"; exit 1; }
done
grep -q 'build failed\|setup failed' "$W/d1.txt" && { echo "$ID: demo does not build"; cat "$W/d1.txt"; exit 1; }
echo "$ID: confirmed (orig lines $orig); demo says: $(grep -vE '^(FAIL|exit|ok)' "$W/d1.txt" | head -3 | tr '\n' '|' | cut -c1-250)"
[ "$NOCHECK" ] && exit 0
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
for p in $P; do
	t0=$(date +%s)
	REPO=$W/bug VERIF_SEED=1 VERIF_TIER=quick bash "$V/check.sh" "$p" >"$W/c.txt" 2>&1; rc=$?
	echo "$ID: check $p rc=$rc $(($(date +%s)-t0))s $(grep -m1 -A2 VIOLATION "$W/c.txt" | tr '\n' '|' | cut -c1-400)"
	[ $rc = 0 -o $rc = 1 ] || tail -5 "$W/c.txt"
done
