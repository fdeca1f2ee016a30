#!/bin/bash
# tools/plant.sh ID...: confirm planted bugs in a scratch copy of /repo which is bind mounted
# over /repo in a private mount namespace (the real /repo is never touched):
# patch applies, builds, stable tests pass, demo 0 without / nonzero with it, check catches it.
HERE=$(cd "$(dirname "$0")/.." && pwd)
one() {
    id=$1; d=$HERE/seeded/$id; w=$(mktemp -d /tmp/plant.XXXXXX)
    cp -a /repo "$w/repo"; cp -a /opt/vp "$w/vp"; mkdir "$w/ev" "$w/demo"; cp "$d"/* "$w/demo/"; rm -f -- "$w/demo/patch.diff" "$w/demo/meta.json"
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    unshare -m bash -c '
        w=$1; d=$2; prop=$3; here=$4
        mount --bind $w/repo /repo; mount --bind $w/vp /opt/vp; mount --bind $w/ev $here/evidence
        cd /repo; res=""
        bash /opt/vp/build.sh >$w/log 2>&1
        timeout 300 bash $w/demo/demo.sh >$w/demo0 2>&1 && res="demo0=ok" || res="demo0=FAIL"
        git checkout -q -- . ; git apply $d/patch.diff 2>$w/apply && res="$res apply=ok" || { echo "apply FAIL"; cat $w/apply; exit; }
        bash /opt/vp/build.sh >$w/log 2>&1 && res="$res build=ok" || res="$res build=FAIL"
        bash /opt/vp/test.sh $w/o.json >$w/tests 2>&1
        res="$res tests=$(python3 - $w/o.json <<"P"
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open("/opt/vp/BASELINE.json"))
m=set(b["stable"])-set(o["passed"])
print("ok" if not m else "FAIL:"+",".join(sorted(m)[:3]))
P
)"
        timeout 300 bash $w/demo/demo.sh >$w/demo1 2>&1 && res="$res demo1=FAIL" || res="$res demo1=ok"
        if [ -z "$NOCHECK" ]; then
        s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick $here/run.sh $prop --tier quick >$w/chk 2>&1; rc=$?; e=$(date +%s)
        if [ $rc = 1 ] && grep -q "VIOLATION property=$prop" $w/chk; then res="$res check=CAUGHT($((e-s))s)"; else res="$res check=MISSED(rc=$rc)"; fi
        fi
        echo "$res"; [ "$(echo "$res" | grep -c FAIL)" = 0 ] || { tail -3 $w/demo0; tail -3 $w/demo1; }
        [ -z "$NOCHECK" ] && grep -m2 -A2 VIOLATION $w/chk | cut -c1-300
    ' _ "$w" "$d" "$prop" "$HERE" >"$w/out" 2>&1
    echo "== $id [$prop] $(cat "$w/out")"
    rm -rf -- "$w"
}
export -f one; export HERE NOCHECK
printf '%s\n' "$@" | xargs -P "${J:-5}" -I{} bash -c 'one {}'
