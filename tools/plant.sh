#!/bin/bash
# usage: plant.sh <id> : confirm a planted bug of seeded/<id> in a scratch copy (builds, tests pass, demo passes without and fails with)
# Expects seeded/<id>/{patch.diff,demo.py|demo.sh,meta.json}
S=/verif/seeded/$1
[ -f "$S/demo.sh" ] || { cp /verif/tools/demo.sh "$S/demo.sh"; }
grep -q "import mini\|from mini" "$S/demo.py" 2>/dev/null && cp /verif/tools/mini.py "$S/mini.py"
D=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo"; cd "$D/repo" || exit 3
(bash "$S/demo.sh") > "$D/demo0" 2>&1; r0=$?
git apply "$S/patch.diff" || { echo "$1: PATCH does not apply"; exit 3; }
(bash "$S/demo.sh") > "$D/demo1" 2>&1; r1=$?
[ $r0 -eq 0 ] && [ $r1 -ne 0 ] || { echo "$1: demo without=$r0 with=$r1"; tail -5 "$D/demo0" "$D/demo1"; exit 1; }
PYTHONPYCACHEPREFIX=$D/pyc /opt/venv/bin/python -m compileall -q src || { echo "$1: does not compile"; exit 1; }
if [ -z "$NOTEST" ]; then
PYTHONPATH="$D/repo/src" PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR=$D/numba /opt/venv/bin/python -m pytest -q -p no:cacheprovider -W ignore --timeout=300 --continue-on-collection-errors --basetemp="$D/pt" --ignore=tests/sorcha/test_demo_chunking.py --ignore=tests/sorcha/test_demo_command_line.py --ignore=tests/sorcha/test_demo_end2end.py --ignore=tests/sorcha/test_sorcha_copy_demo_files.py --ignore=tests/ephemeris/test_pixdict.py > "$D/t" 2>&1
grep -q "^2 failed, 261 passed\|261 passed" "$D/t" || { echo "$1: tests: $(tail -1 "$D/t")"; grep ^FAILED "$D/t"; exit 1; }
fi
echo "$1: ok; demo says: $(tail -1 "$D/demo1" | cut -c1-200)"
