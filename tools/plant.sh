#!/bin/bash
# tools/plant.sh ID TREE [CHECK...]: TREE is a scratch copy of /repo whose working tree holds a planted bug (uncommitted);
# seeded/ID holds demo.sh and meta.json. Records patch.diff, confirms that the tree builds, passes the stable tests and fails
# the demo, runs the checks named on it, then undoes the change and confirms that the demo passes. TREE is shown as /repo
# (private mount namespace), so that several can run at once.
set -u
if [ "${IN_NS:-}" = "" ]; then
    TREE=$2
    export IN_NS=1
    exec unshare -Urm bash -c 'mount --bind "$0" /repo && exec "$@"' "$TREE" "$0" "$@"
fi
ID=$1; shift; shift
V=$(dirname "$(dirname "$(realpath "$0")")")
D=$V/seeded/$ID
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cd /repo || exit 2
git diff > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "no change in /repo"; exit 2; }
rc=0
# only original lines may change
for f in $(git diff --name-only); do
    git diff -U0 "$f" | grep '^@@' | sed 's/@@ -\([0-9,]*\) .*/\1/' | while IFS=, read -r a n; do
        n=${n:-1}; [ "$n" = 0 ] && continue
        git blame -s -L "$a,+$n" HEAD -- "$f" | grep -v '^\^' | sed "s|^|NOT-ORIGINAL $f: |"
    done
done
bash /opt/vp/test.sh "$T/o.json" > "$T/log" 2>&1
tail -1 "$T/log"
python3 - "$T/o.json" <<'P' || rc=1
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(sys.argv[1]))
get = lambda x: set(x['stable'] if 'stable' in x else x['passed'])
m = get(b) - get(o)
print('tests broken by the plant:', len(m), sorted(m)[:4]); sys.exit(bool(m))
P
cp -a "$D" "$T/demo"; rm -f "$T/demo/patch.diff" "$T/demo/meta.json"
timeout 300 bash "$T/demo/demo.sh" > "$T/d1" 2>&1; d1=$?
echo "demo with the plant: exit $d1: $(tail -1 "$T/d1" | cut -c1-160)"
[ $d1 = 0 ] && rc=1
for c in "$@"; do
    (cd "$V" && VERIF_EVIDENCE=$T/ev VERIF_OUT=$T/out VERIF_BUILD=$T/bld timeout 900 ./run.sh "$c" > "$T/c" 2>&1
     echo "check $c: exit $? $(grep -m2 '^---' "$T/c" | cut -c1-160 | tr '\n' '|')")
done
git checkout -q -- .
bash /opt/vp/build.sh > "$T/log" 2>&1 || { tail -3 "$T/log"; rc=1; }
timeout 300 bash "$T/demo/demo.sh" > "$T/d0" 2>&1; d0=$?
echo "demo without it: exit $d0 $( [ $d0 = 0 ] || tail -2 "$T/d0")"
[ $d0 = 0 ] || rc=1
echo "$ID rc=$rc"
exit $rc
