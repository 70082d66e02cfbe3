#!/bin/bash
# catches.sh [ID...]: runs the check of each planted bug against a scratch copy with the
# bug, and prints "<id> <property> caught|MISSED <what was reported>"
root=$(cd "$(dirname "$0")/.." && pwd)
one() {
    id=$1; root=$2; d=$(mktemp -d /tmp/catch.XXXXXX)
    cp -a /repo "$d/repo"
    property=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$root/seeded/$id/meta.json")
    if (cd "$d/repo" && git apply "$root/seeded/$id/patch.diff"); then
        cp -a "$root" "$d/verif"
        out=$(cd "$d/verif" && VERIF_REPO="$d/repo" VERIF_SEED=1 ./run.sh "$property" quick 2>&1)
        if grep -q "^VIOLATION property=$property " <<< "$out"; then
            what=$(grep -B1 "^VIOLATION" <<< "$out" | head -1 | cut -c1-60)
            [ -z "$what" ] && what=$(grep -m1 -i "^[a-z-]*[:@]" <<< "$out" | cut -c1-60)
            echo "$id $property caught $what"
        else
            echo "$id $property MISSED $(tail -1 <<< "$out" | cut -c1-80)"
        fi
    else
        echo "$id $property DOES-NOT-APPLY"
    fi
    rm -rf "$d"
}
export -f one
ids=${*:-$(ls "$root/seeded")}
printf '%s\n' $ids | xargs -P4 -I{} bash -c 'one {} '"$root"
