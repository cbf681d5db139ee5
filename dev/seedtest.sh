#!/bin/bash
# seedtest.sh <seed id> [notest]: confirm a planted bug in a scratch copy: applies, stable tests pass, demo 0 before / nonzero after
id=$1; d=/verif/seeded/$id; w=/tmp/seedw_$id
rm -rf "$w"; cp -a /repo "$w"; cd "$w" || exit 9
export MPLBACKEND=Agg PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$w PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
timeout 300 bash "$d/demo.sh" >/tmp/demo_$id.log 2>&1; a=$?
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 8; }
timeout 300 bash "$d/demo.sh" >>/tmp/demo_$id.log 2>&1; b=$?
t=skip
if [ "$2" != notest ]; then
python -m pytest -q -p no:cacheprovider --timeout=300 --doctest-modules >/tmp/t_$id.log 2>&1
t=$(tail -1 /tmp/t_$id.log)
fi
echo "$id: demo before=$a after=$b tests: $t"
rm -rf "$w"
