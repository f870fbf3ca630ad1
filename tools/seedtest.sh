#!/bin/bash
# Development aid: seedtest.sh ID [check]   validates /verif/seeded/ID in a scratch copy mounted over /repo (private mount
# namespace): demo passes on the unchanged tree, the patch applies, builds, the stable tests pass, demo fails.
id=$1
s=/verif/seeded/$id
prop=$(python3 -c "import json,sys; print(json.load(open('$s/meta.json'))['property'])")
w=/tmp/seedtest-$id
rm -rf "$w"; mkdir -p "$w/demo"
cp -a /repo "$w/repo"
find "$s" -maxdepth 1 -type f ! -name '*.diff' ! -name meta.json -exec cp {} "$w/demo/" \;
(cd "$w/repo" && git apply --check "$s/patch.diff" && git apply "$s/patch.diff") || { echo "$id: PATCH FAILED"; exit 1; }
if [ "$3" != skipbase ]; then
  (cd /repo && timeout 300 bash "$w/demo/demo.sh") > "$w/base.log" 2>&1; b=$?
  [ $b = 0 ] || { echo "$id: demo fails on the unchanged tree ($b)"; tail -5 "$w/base.log"; }
fi
unshare -m bash -c "mount --bind $w/repo /repo; cd /repo; bash /opt/vp/test.sh $w/out.json > $w/test.log 2>&1; timeout 300 bash $w/demo/demo.sh > $w/mut.log 2>&1; echo \$? > $w/rc"
python3 /verif/tools/basecmp.py "$w/out.json" | tail -5
echo "$id: demo with the patch: exit $(cat $w/rc); $(tail -2 $w/mut.log | tr '\n' ' ')"
[ "$2" = check ] && python3 /verif/tools/mut.py $prop "$s/patch.diff"
rm -rf "$w"
