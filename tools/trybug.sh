#!/bin/bash
# trybug.sh ID [notest]: confirms a planted bug in a scratch copy of /repo (demo passes without and fails with it,
# stable tests pass), then runs its property's check on /repo with the patch applied and undoes it.
set -u
id=$1; dir=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
. /opt/vp/env.sh
w=$(mktemp -d /tmp/try-XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
(cd "$w/repo" && bash "$dir/demo.sh" >"$w/d0" 2>&1); r0=$?
(cd "$w/repo" && git apply "$dir/patch.diff") || { echo "$id: patch does not apply"; exit 2; }
(cd "$w/repo" && GOWORK=$PWD/go.work go build ./... ./x/ftdc/... ) || { echo "$id: does not build"; exit 2; }
(cd "$w/repo" && bash "$dir/demo.sh" >"$w/d1" 2>&1); r1=$?
echo "$id: demo clean=$r0 patched=$r1"; [ $r0 = 0 ] || tail -5 "$w/d0"; [ $r1 != 0 ] || tail -5 "$w/d1"
git -C /repo apply "$dir/patch.diff" || exit 2
if [ "${2:-}" != notest ]; then
  bash /opt/vp/test.sh "$w/out.json" >/dev/null 2>&1
  python3 - "$w/out.json" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=set(b.get('stable') or b.get('passed')); ps=set(o.get('passed',[]))
m=sorted(st-ps); print("stable tests missing:",len(m), m[:3])
PY
fi
(cd /verif && ./run_check.sh $prop quick >"$w/c" 2>&1); rc=$?
git -C /repo checkout -- .
echo "$id: check $prop rc=$rc"; grep VIOLATION "$w/c" | head -3; [ $rc = 1 ] || tail -4 "$w/c"
