#!/bin/bash
# hunt.sh [-a] [ID…] — runs the check of the violated property (with -a: every check) against each
# planted change, undoing it afterwards. Prints which checks report it.
ROOT="$(cd "$(dirname "$0")/.." && pwd)"
all=; [ "$1" = -a ] && { all=1; shift; }
[ $# -gt 0 ] || set -- $(ls "$ROOT/seeded")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
    own="$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$ROOT/seeded/$id/meta.json")"
    git -C /repo apply "$ROOT/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
    line="$id ($own):"
    if [ -n "$all" ]; then ids="$(ls "$ROOT/tools/../evidence" | sed 's/.json//' | sort)"; else ids="$own"; fi
    for c in $ids; do
        s=$(date +%s)
        out="$(VERIF_SEED=${VERIF_SEED:-1} bash "$ROOT/check.sh" "$c" quick 2>&1)"; rc=$?
        t=$(($(date +%s)-s))
        if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " <<<"$out"; then line="$line $c"; [ -z "$all" ] && line="$line CAUGHT ${t}s"
        elif [ $rc != 0 ]; then line="$line $c=error$rc"
        elif [ -z "$all" ]; then line="$line MISSED ${t}s"; fi
    done
    git -C /repo checkout -q -- .
    echo "$line"
done
