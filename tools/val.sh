#!/bin/bash
# val.sh ID [nocheck]: in a private mount namespace with copies of /repo and /verif
id=$1
w=$(mktemp -d /tmp/pl.XXXX)
export w id
unshare -Urm bash -c '
cp -a /repo $w/repo; mkdir $w/verif; cp -a /verif/. $w/verif/; rm -rf $w/verif/replays; 
mount --bind $w/repo /repo; mount --bind $w/verif /verif
S=/verif/seeded/$id
cp -r $S $w/sd; rm -f $w/sd/patch.diff $w/sd/meta.json
cd /repo
bash $w/sd/demo.sh > $w/d0 2>&1; r0=$?
git apply $S/patch.diff || { echo "$id NOAPPLY"; exit; }
bash /opt/vp/build.sh > $w/b 2>&1 || { echo "$id NOBUILD"; tail -5 $w/b; exit; }
bash /opt/vp/test.sh $w/t.json > $w/tl 2>&1
n=$(python3 -c "import json;print(len(json.load(open(\"$w/t.json\"))[\"passed\"]))")
bash $w/sd/demo.sh > $w/d1 2>&1; r1=$?
echo "$id tests=$n demo clean=$r0 patched=$r1"
[ $r0 != 0 ] && head -3 $w/d0
head -2 $w/d1
[ "$NOCHECK" ] && exit
for p in ${PROPS:-$(python3 -c "import json;print(json.load(open(\"$S/meta.json\"))[\"property\"])")}; do
cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p > $w/c 2>&1; rc=$?
echo "$id check $p rc=$rc: $(tail -3 $w/c | cut -c1-300)"
done
'
rm -rf $w
