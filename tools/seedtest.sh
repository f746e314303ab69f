#!/bin/bash
# seedtest.sh ID...: confirms planted changes in a scratch copy: builds, passes the tests, demo tells them apart,
# and whether the property's check reports them.
# SEED_COPY names the scratch copy (left behind for the next run; remove it when done)
V=$(cd "$(dirname "$0")/.." && pwd)
S=${SEED_COPY:-/tmp/crefl-seed}
sed "s#/repo#$S#g" /opt/vp/build.sh >$S.build.sh; sed "s#/repo#$S#g; s#/opt/vp/build.sh#$S.build.sh#g" /opt/vp/test.sh >$S.test.sh
[ -d "$S" ] || { git clone -q /repo $S; bash $S.build.sh >$S.log 2>&1 || { tail $S.log; exit 2; }; }
git -C $S fetch -q /repo HEAD && git -C $S checkout -q -f FETCH_HEAD
for id in "$@"; do
    D=$V/seeded/$id
    T=$(mktemp -d); cp -a $D/. $T; rm -f $T/*.diff $T/meta.json
    prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
    git -C $S checkout -q -f . ; bash $S.build.sh >$S.log 2>&1 || { echo "$id: clean build fails"; tail $S.log; continue; }
    (cd $S && timeout 300 bash $T/demo.sh >$S.demo0 2>&1); r0=$?
    git -C $S apply $D/patch.diff || { echo "$id: does not apply"; continue; }
    bash $S.build.sh >$S.log 2>&1 || { echo "$id: patched build fails"; tail $S.log; continue; }
    bash $S.test.sh $S.json >$S.tlog 2>&1
    miss=$(python3 - $S.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    for k in ('passed','stable','tests'):
        if k in x:
            v=x[k]; return set(v if isinstance(v,list) else v.keys())
print(len(names(b)-names(o)))
P
)
    (cd $S && timeout 300 bash $T/demo.sh >$S.demo1 2>&1); r1=$?
    ok=ok; [ $r0 = 0 ] && [ $r1 != 0 ] && [ "$miss" = 0 ] || ok=BAD
    chk=skipped
    if [ -z "$NOCHECK" ]; then
        E=$(mktemp -d); cp -a $V/. $E/ 2>/dev/null
        (cd $E && CREFL_REPO=$S timeout 900 python3 check.py $prop >$S.chk 2>&1); rc=$?
        chk="rc=$rc $(grep -c "^VIOLATION property=$prop" $S.chk)"
        [ $rc = 1 ] && chk="caught" || chk="MISSED($rc)"
        rm -rf "$E"
    fi
    echo "$id: $prop $ok demo $r0/$r1 missing-tests $miss check $chk :: $(grep -v '^VIOLATION\|^note' $S.chk 2>/dev/null | head -1 | cut -c1-200)"
    git -C $S checkout -q -f .
    rm -rf "$T"
done
