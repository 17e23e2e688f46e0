#!/bin/bash
# usage: confirm.sh <seed id>...   Confirms planted changes in a scratch copy, then
# runs the property's quick check on /repo with the change applied.
for id in "$@"; do
    d=/verif/seeded/$id
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    w=/tmp/seed/repo
    mkdir -p /tmp/seed; [ -d "$w" ] || cp -a /repo "$w"
    git -C "$w" checkout -q -- . ; git -C "$w" pull -q /repo HEAD 2>/dev/null
    (cd "$w" && bash "$d/demo.sh" >/tmp/seed/$id.clean 2>&1); c=$?
    (cd "$w" && git apply "$d/patch.diff") || { echo "$id: patch does not apply"; continue; }
    (cd "$w" && cargo test --offline >/tmp/seed/$id.test 2>&1); t=$?
    n=$(grep -c '^test .* ok$' /tmp/seed/$id.test)
    (cd "$w" && bash "$d/demo.sh" >/tmp/seed/$id.patched 2>&1); b=$?
    git -C "$w" checkout -q -- .
    # the check
    git -C /repo apply "$d/patch.diff"
    s=$(date +%s); timeout 900 bash /verif/check.sh $p quick >/tmp/seed/$id.check 2>&1; k=$?
    e=$(( $(date +%s) - s ))
    git -C /repo checkout -- .
    ok=BAD; [ $c = 0 ] && [ $b != 0 ] && [ $b != 3 ] && [ $t = 0 ] && ok=good
    echo "$id $p $ok (clean $c, tests rc $t n $n, patched $b) check rc $k in ${e}s: $(grep -m1 VIOLATION /tmp/seed/$id.check)"
done
