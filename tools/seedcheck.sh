#!/bin/bash
# Usage: seedcheck.sh SEED...   Tries planted bugs, each in private copies of /repo and /verif bind-mounted
# over the real ones in a user+mount+network namespace. Prints one line per seed.
# NOTEST=1 skips the stable tests, NOCHECK=1 skips the check.
one() {
  id=$1; D=/var/tmp/seed-$id; rm -rf "$D"; mkdir -p $D
  cp -a /repo $D/repo; mkdir $D/verif; (cd /verif; tar cf - --exclude=./build --exclude=./.git --exclude=./replays .) | tar xf - -C $D/verif
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  unshare -Urmn bash -c '
    id='$id'; D='$D'; prop='$prop'
    ip link set lo up 2>/dev/null
    mount --bind $D/repo /repo; mount --bind $D/verif /verif; mkdir -p $D/tmp; mount --bind $D/tmp /tmp
    cd /repo; git checkout -q -- . 
    mkdir /tmp/demo; cp /verif/seeded/$id/* /tmp/demo/; rm -f /tmp/demo/*.diff /tmp/demo/meta.json
    bash /opt/vp/build.sh >/tmp/b0 2>&1 || echo "BASE BUILD FAILED"
    timeout 300 bash /tmp/demo/demo.sh >/tmp/d0 2>&1; d0=$?
    git apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; exit; }
    bash /opt/vp/build.sh >/tmp/b1 2>&1 || { echo "$id: BUILD FAILED"; grep -m3 error: /tmp/b1; exit; }
    timeout 300 bash /tmp/demo/demo.sh >/tmp/d1 2>&1; d1=$?
    t=skipped; c=skipped
    if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; t=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]; r=json.load(open(\"/tmp/t.json\")); p=set(r[\"passed\"])
m=[x for x in b if x not in p]; print(\"pass\" if not m else \"FAIL \"+str(m))"); fi
    if [ -z "$NOCHECK" ]; then cd /verif; s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 lib/run.py $prop >/tmp/c.out 2>/tmp/c.err; c=$?; e=$(date +%s); c="$c ($((e-s))s) $(grep -m1 ^VIOLATION /tmp/c.out | cut -c1-150)"; [ "${c%% *}" = 1 ] || tail -3 /tmp/c.err; fi
    v=OK; [ $d0 = 0 ] && [ $d1 != 0 ] && [ "$t" = pass -o "$t" = skipped ] || v=BAD
    echo "$id [$prop] $v demo:$d0/$d1 tests:$t check:$c"
    if [ $d0 != 0 ]; then tail -5 /tmp/d0; fi
  '
  rm -rf "$D"
}
export -f one
P=${PAR:-3}
printf '%s\n' "$@" | xargs -P $P -I{} bash -c 'one {}'
