#!/bin/bash
# against.sh PATCH CHECK...   runs checks against a scratch copy of /repo with PATCH applied (-R PATCH: reverted)
rev=; [ "$1" = -R ] && { rev=-R; shift; }
patch=$(realpath "$1"); shift
d=$(mktemp -d /tmp/against.XXXXXX); cp -a /repo "$d/repo"
cd "$d/repo" && git apply $rev --3way "$patch" 2>"$d/err" || git apply $rev "$patch" || { cat "$d/err"; rm -rf "$d"; echo APPLY-FAILED; exit 3; }
cd "$(dirname "$0")/.." 2>/dev/null || cd /verif
for c in "$@"; do VERIF_REPO="$d/repo" timeout 880 python3 /verif/run.py $c >"$d/out" 2>&1; rc=$?
 echo "$c rc=$rc $(grep -a '^part' "$d/out" | cut -c1-220)"; [ $rc = 2 ] && tail -5 "$d/out"; done
rm -rf "$d"
