#!/bin/bash
# try_bug.sh ID [notest]: applies /verif/seeded/ID/patch.diff in a scratch copy of /repo, runs the test suite there, the demo on both trees
# and the quick check of the property named in meta.json; prints one summary line.
V=$(cd "$(dirname "$0")/.."; pwd); id=$1; S=$V/seeded/$id; W=/tmp/try_$id
rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"; mkdir "$W/demo"; cp -r $S/. "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
pid=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd "$W/repo"
(export PYTHONPATH="$W/repo"; timeout 300 bash "$W/demo/demo.sh" >"$W/demo0.log" 2>&1); d0=$?
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
(export PYTHONPATH="$W/repo"; timeout 300 bash "$W/demo/demo.sh" >"$W/demo1.log" 2>&1); d1=$?
(cd $V; VERIF_REPO="$W/repo" VERIF_EVIDENCE="$W/ev" timeout 900 ./run.sh $pid >"$W/check.log" 2>&1); ck=$?
t=skipped
if [ "$2" != notest ]; then
  . /opt/vp/env.sh >/dev/null 2>&1
  (cd "$W/repo"; PYTHONPATH="$W/repo" MPLBACKEND=Agg timeout 1500 /opt/venv/bin/python -m pytest test -q -x --maxfail=12 -p no:cacheprovider --deselect test/test_display_server.py >"$W/test.log" 2>&1)
  t=$(grep -E '^FAILED|^ERROR' "$W/test.log" | grep -v test_elt_m1_ifunc | wc -l; tail -1 "$W/test.log")
fi
echo "$id property=$pid demo(clean)=$d0 demo(bug)=$d1 check=$ck [$(grep -c ^VIOLATION $W/check.log) violations] tests(extra failures)=$(echo $t)"
