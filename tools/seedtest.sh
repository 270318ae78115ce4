#!/bin/bash
# tools/seedtest.sh [-t] [-c "C01 C02"] <id>...   validate planted bugs: demo clean/patched, build, tests (-t), checks (-c, default the property's own)
tests=0; checks=""
while getopts "tc:" o; do case $o in t) tests=1;; c) checks=$OPTARG;; esac; done; shift $((OPTIND-1))
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  s=/verif/seeded/$id
  bash $s/demo.sh >/tmp/seed.clean 2>&1; c=$?
  git apply --check $s/patch.diff || { echo "$id: patch does not apply"; continue; }
  git apply $s/patch.diff
  bash $s/demo.sh >/tmp/seed.bad 2>&1; b=$?
  msg="$id: demo clean=$c patched=$b"
  if [ $tests = 1 ]; then bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
    msg="$msg tests=$(python3 -c "
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/seed.json'))['passed']);print('ok' if s<=p else 'FAIL %s'%sorted(s-p)[:3])" 2>&1 | tail -1)"; fi
  for p in ${checks:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}; do
    ( cd /verif && timeout 900 python3 run.py $p >/tmp/seed.$p.log 2>&1 ); r=$?
    msg="$msg $p=$r"; [ $r = 1 ] && msg="$msg($(grep -m1 -a 'violation in' /tmp/seed.$p.log | cut -c1-100))"
  done
  echo "$msg"
  git checkout -q -- .
done
