#!/bin/bash
# tools/tryseed.sh [-t] ID...   try planted changes in scratch copies: demo without/with, the check, with -t the tests
T=0; [ "$1" = -t ] && { T=1; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
one() {
  id=$1; s=$V/seeded/$id; w=/tmp/seed-$id; prop=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" $s/meta.json)
  rm -rf "$w"; cp -a /repo "$w"; d=$(mktemp -d /tmp/seeddemo-XXXX); cp -r $s/. $d/; rm -f $d/*.diff $d/meta.json
  (cd $w; timeout 300 bash $d/demo.sh >/tmp/seed-$id.demo0 2>&1); a=$?
  (cd $w && git apply --check $s/patch.diff && git apply $s/patch.diff) || { echo "$id: patch does not apply"; rm -rf "$w" "$d"; return; }
  (cd $w; . /opt/vp/env.sh; export PYTHONPATH=$w; /opt/venv/bin/python setup.py -q build_ext --inplace --force --build-temp build/temp >/tmp/seed-$id.build 2>&1) || echo "$id: build fails"
  (cd $w; timeout 300 bash $d/demo.sh >/tmp/seed-$id.demo1 2>&1); b=$?
  t=-; if [ $T = 1 ]; then
    (cd $w; . /opt/vp/env.sh; export PYTHONPATH=$w:/opt/vp/plugins; /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_seed --timeout=300 --ignore=test/test_c.py test/ >/tmp/seed-$id.tests 2>&1); t=$(tail -1 /tmp/seed-$id.tests); fi
  EML_REPO=$w VERIF_SEED=1 timeout 900 $V/checks/run.sh $prop quick >/tmp/seed-$id.check 2>&1; c=$?
  echo "$id ($prop): demo $a/$b check rc=$c $(grep -c '^VIOLATION' /tmp/seed-$id.check) viol; tests: $t"; grep clause /tmp/seed-$id.check | cut -c1-200 | head -3
  rm -rf "$w" "$d"
}
export -f one; export T V
printf '%s\n' "$@" | xargs -P ${SEEDJ:-4} -I{} bash -c 'one {}'
