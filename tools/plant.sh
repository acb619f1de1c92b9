#!/bin/bash
# plant.sh <id>...  -- confirms seeded changes in a scratch copy of the
# repository, then runs the property's check (of a copy of the working tree
# here) against that copy.  A development tool; no check uses it.
#   BASE=<tests that pass>   PROP=<check to run instead>   SEED=<seed>
w=$(mktemp -d /tmp/plant-XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir $w/verif
(cd /verif && tar cf - --exclude=./build --exclude=./seeded --exclude=./.git --exclude=./replay --exclude=./evidence .) | tar xf - -C $w/verif
sed -i "s#\"/repo\"#\"$w/repo\"#" $w/verif/driver/Cargo.toml
for id in "$@"; do
  d=/verif/seeded/$id
  rm -rf "$w/repo"; cp -a /repo $w/repo
  cd $w/repo || exit 1
  git checkout -q -- .
  prop=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  d0=0 d1=1 npass=$BASE
  if [ -z "$SKIP" ]; then
    bash $d/demo.sh > $w/demo0 2>&1; d0=$?
    git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
    cargo test --workspace --no-fail-fast --offline --locked > $w/test 2>&1
    npass=$(grep -E '^test .* ok$' $w/test | wc -l)
    bash $d/demo.sh > $w/demo1 2>&1; d1=$?
  else
    git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  fi
  ok=good; [ $d0 = 0 ] && [ $d1 != 0 ] && [ $d1 -lt 97 -o $d1 -gt 99 ] && [ "$npass" = "$BASE" -o -z "$BASE" ] || ok=BAD
  s=$(date +%s)
  (cd $w/verif && VERIF_SEED=${SEED:-1} ./check $prop --tier quick) > $w/check 2>&1; rc=$?
  e=$(date +%s)
  v=$(grep -c "^VIOLATION property=$prop" $w/check)
  echo "$id $prop: demo $d0/$d1 tests $npass [$ok]; check rc=$rc violations=$v $((e-s))s $([ $rc = 1 ] && echo CAUGHT || echo MISSED)"
  if [ $ok = BAD ]; then for f in $w/demo0 $w/demo1; do tail -n 3 $f; done; fi
  cp $w/check /tmp/plant-$id.log
done
