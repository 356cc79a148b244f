#!/bin/bash
# tools/plant.sh ID...: confirm planted bugs in a scratch copy: patch applies, builds, tests pass,
# demo 0 on the clean tree and nonzero with the patch.
W=/tmp/plant.$$; mkdir -p $W
for id in "$@"; do
  S=/verif/seeded/$id
  cp -a /repo $W/repo; mkdir $W/d; cp $S/* $W/d/; rm -f $W/d/patch.diff $W/d/meta.json
  sed "s#/repo#$W/repo#g" /opt/vp/build.sh > $W/build.sh; sed "s#/repo#$W/repo#g" /opt/vp/test.sh > $W/test.sh
  rm -rf "$W/repo/_build"
  (cd $W/repo; timeout 300 bash $W/d/demo.sh) >$W/demo0.log 2>&1; a=$?
  git -C $W/repo apply $S/patch.diff || { echo "$id: patch does not apply"; rm -rf "$W/repo" "$W/d"; continue; }
  bash $W/build.sh >$W/build.log 2>&1; b=$?
  bash $W/test.sh $W/t.json >$W/test.log 2>&1
  f=$(python3 -c "import json;d=json.load(open('$W/t.json'));print(len(d['passed']),d['failed'])")
  (cd $W/repo; timeout 300 bash $W/d/demo.sh) >$W/demo1.log 2>&1; c=$?
  echo "$id: clean=$a build=$b tests=$f patched=$c"
  tail -2 $W/demo1.log
  rm -rf "$W/repo" "$W/d"
done
rm -rf "$W"
