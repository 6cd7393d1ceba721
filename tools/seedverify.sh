#!/bin/bash
# seedverify.sh ID...: confirm planted bugs in a scratch copy (demo passes
# before, fails after; stable tests pass after), then run the property's check.
. /opt/vp/env.sh
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
for id in "$@"; do
  s=/verif/seeded/$id; w=$(mktemp -d /tmp/sv.XXXXXX); cp -a /repo $w/repo
  mkdir $w/demo; cp $s/* $w/demo; rm -f $w/demo/*.diff $w/demo/meta.json
  cd $w/repo; git checkout -q -- .
  timeout 300 sh $w/demo/demo.sh >$w/o1 2>&1; a=$?
  git apply $s/patch.diff || { echo "$id: does not apply"; continue; }
  go vet . >/dev/null 2>$w/vet || true
  go build ./... || { echo "$id: does not build"; continue; }
  timeout 300 sh $w/demo/demo.sh >$w/o2 2>&1; b=$?
  pat=$(python3 -c "import json;print('^('+'|'.join(x.split('/')[-1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable'])+')$')")
  go test -count=1 -run "$pat" . >$w/o3 2>&1; t=$?
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  echo "$id ($prop): demo before=$a after=$b tests=$t"
  [ $a -ne 0 ] && tail -5 $w/o1; [ $b -eq 0 ] && tail -5 $w/o2; [ $t -ne 0 ] && grep -m5 -E "^---|FAIL|\.go:" $w/o3
  if [ -z "$NOCHECK" ]; then
    ( VERIF_OUT=$w/ev VERIF_REPO=$w/repo timeout 900 sh /verif/check.sh $prop --tier quick > $w/o4 2>&1; echo "   check exit $? $(grep -c ^VIOLATION $w/o4) violations: $(grep -B1 -m1 -A0 'confirmed' $w/o4 | head -1 | cut -c1-150)"; [ -n "$VERBOSE" ] && cat $w/o4 )
  fi
  cd /; /bin/rm -rf "$w"
done
