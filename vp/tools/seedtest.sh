#!/bin/bash
# bash seedtest.sh [-t] ID...   try planted bugs in private copies of /repo (mounted over /repo in a mount namespace of their own)
# prints per bug: base demo exit, patched demo exit, stable tests missing (with -t), check exit and its VIOLATION line
V=$(cd "$(dirname "$0")/../.." && pwd)
T=0; [ "$1" = "-t" ] && { T=1; shift; }
one() {
  id=$1; S=$V/seeded/$id; [ -d "$S" ] || S=$V/seeded_nw/$id; W=$(mktemp -d /tmp/vp_st.XXXXXX)
  git clone -q "${SEED_REPO:-/repo}" "$W/r"; cp -r "$S" "$W/seed"
  export W T V id PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  unshare -Urm bash -c '
    mount --bind "$W/r" /repo; cd /repo
    bash /opt/vp/build.sh >"$W/b0" 2>&1 || { echo "$id: BASE BUILD FAILED"; exit; }
    timeout 300 bash "$W/seed/demo.sh" >"$W/d0" 2>&1; a=$?
    git apply "$W/seed/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit; }
    bash /opt/vp/build.sh >"$W/b1" 2>&1 || { echo "$id: PATCHED BUILD FAILED"; tail -5 "$W/b1"; exit; }
    timeout 300 bash "$W/seed/demo.sh" >"$W/d1" 2>&1; b=$?
    m=-
    if [ $T = 1 ]; then bash /opt/vp/test.sh "$W/o.json" >/dev/null 2>&1; m=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); st=set(b[\"stable\"] if isinstance(b,dict) and \"stable\" in b else b)
o=json.load(open(\"$W/o.json\")); print(sorted(st-set(o.get(\"passed\") or [])))"); fi
    cp -r "$V" "$W/v"; cd "$W/v"; VERIF_SEED=1 timeout 900 bash check.sh $PROP quick >"$W/c" 2>&1; c=$?
    echo "$id ($PROP): demo $a/$b tests-missing $m check exit $c $(grep ^VIOLATION "$W/c" | head -1 | cut -c1-90) $(tail -1 "$W/d1" | cut -c1-100)"
  '
  rm -rf "$W"
}
export -f one; export V T
for i in "$@"; do echo "$i"; done | xargs -P ${J:-4} -I{} bash -c 'one {}'
