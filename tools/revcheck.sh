# revcheck ID commit...
ID=$1; shift
rm -rf /tmp/rv; cp -a /repo /tmp/rv
for c in "$@"; do
 cd /tmp/rv && git checkout -q -f HEAD && if git revert -n $c >/dev/null 2>&1; then
 echo "== $c $(git log -1 --format=%s $c)"; cd ${VW:-/verif}; VERIF_REPO=/tmp/rv ./run.sh $ID quick 2>&1 | grep -v propag | tail -2 | cut -c1-200; else echo "conflict $c"; fi
 cd /tmp/rv && git reset -q --hard HEAD
done
rm -rf /tmp/rv
