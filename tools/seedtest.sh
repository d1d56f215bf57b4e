#!/bin/bash
# usage: tools/seedtest.sh [-n] ID...   validates planted bugs in a private mount namespace (scratch copies bound over /repo, /opt/vp, /verif)
# -n: skip the repository's own tests.  Prints one line per bug.
S=/tmp/sr; NOTEST=
[ "$1" = -n ] && { NOTEST=1; shift; }
mkdir -p $S
if [ -z "$INNS" ]; then
    [ -d $S/repo ] || { cp -a /repo $S/repo; cp -a /opt/vp $S/vp; }
    (cd $S/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD)
    mkdir -p $S/verif; cp -a /verif/. $S/verif/
    INNS=1 exec unshare -Urm bash "$0" ${NOTEST:+-n} "$@"
fi
mount --bind $S/repo /repo && mount --bind $S/vp /opt/vp && mount --bind $S/verif /verif || exit 2
cd /repo
for id in "$@"; do
    D=$S/demo.$id; mkdir -p $D; cp -a /verif/seeded/$id/. $D/
    P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
    git checkout -q -- .; r="$id $P:"
    bash /opt/vp/build.sh >$S/log 2>&1 || r="$r BASE-BUILD-FAILS"
    (timeout 300 bash $D/demo.sh) >$S/demo0.log 2>&1 && r="$r demo0=ok" || r="$r demo0=FAILS"
    git apply $D/patch.diff || r="$r PATCH-FAILS"
    bash /opt/vp/build.sh >$S/log 2>&1 || r="$r BUILD-FAILS"
    (timeout 300 bash $D/demo.sh) >$S/demo1.log 2>&1 && r="$r demo1=PASSES" || r="$r demo1=ok"
    if [ -z "$NOTEST" ]; then
        bash /opt/vp/test.sh $S/t.json >$S/log 2>&1
        r="$r $(python3 -c "
import json;d=json.load(open('$S/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));m=[t for t in b['stable'] if t not in d['passed']]
print('tests=ok' if not m else 'TESTS-FAIL %s'%m[:3])")"
    fi
    [ -n "$TESTONLY" ] && { echo "$r"; git checkout -q -- .; continue; }
    for p in $P ${EXTRA:-}; do
        (cd /verif; VERIF_SEED=1 timeout 900 ./run.sh $p >$S/check.$id.$p.log 2>&1; rc=$?
         v=$(grep -c "^VIOLATION property=$p" $S/check.$id.$p.log)
         echo "$rc $v") >$S/rc
        read rc v <$S/rc
        [ "$rc" = 1 ] && [ "$v" != 0 ] && r="$r $p=caught($v)" || r="$r $p=MISSED(rc=$rc)"
    done
    echo "$r"
    git checkout -q -- .
done
