#!/bin/bash
# tools/seeded.sh ID [CHECK...]: run the checks named (default: the property's own) against a scratch copy of /repo that
# holds the planted bug seeded/ID.
set -u
ID=$1; shift
P=/verif/seeded/$ID
C=${*:-$(python3 -c "import json;print(json.load(open('$P/meta.json'))['property'])")}
T=$(mktemp -d /tmp/seeded.XXXXXX)
trap 'rm -rf "$T"' EXIT
cp -a /repo "$T/repo" && git -C "$T/repo" apply "$P/patch.diff" || { echo "$ID does not apply"; exit 2; }
for c in $C; do
    VERIF_REPO=$T/repo VERIF_EVIDENCE=$T/ev VERIF_OUT=$T/out VERIF_BUILD=$T/bld timeout 900 /verif/run.sh "$c" > "$T/log" 2>&1
    rc=$?
    echo "$ID $c exit=$rc $(grep '^---' "$T/log" | head -2 | cut -c1-140 | tr '\n' '|')"
done
