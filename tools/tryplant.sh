#!/bin/bash
# tools/tryplant.sh ID [nocheck|nodemo]: confirm a planted bug (builds, tests pass, demo fails with it / passes without), then run its check.
# Runs in a private mount namespace on copies of /repo and /opt/vp, so the real ones are not touched.
if [ -z "$TRYPLANT_NS" ]; then
  C=$(mktemp -d /tmp/tryplant.XXXXXX); cp -a /repo $C/repo; cp -a /opt/vp $C/vp; cp -a /verif/evidence $C/evidence
  TRYPLANT_NS=$C unshare -m bash "$0" "$@"; r=$?
  rm -rf "$C"; exit $r
fi
mount --bind $TRYPLANT_NS/repo /repo && mount --bind $TRYPLANT_NS/vp /opt/vp && mount --bind $TRYPLANT_NS/evidence /verif/evidence || exit 2
C=$TRYPLANT_NS
d=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 2; }
if [ "$2" != nodemo ]; then
bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash $d/demo.sh >$C/demo.clean 2>&1; a=$?
git apply $d/patch.diff || { echo "patch does not apply"; exit 2; }
bash /opt/vp/test.sh $C/t.json >$C/t.log 2>&1; tst=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or []);t=json.load(open('$C/t.json'));p=set(t['passed']);print(len(p),len(t['failed']),'missing',len(b-p))")
timeout 300 bash $d/demo.sh >$C/demo.bad 2>&1; b=$?
echo "$1 ($P): demo clean=$a patched=$b tests: $tst"; [ $b = 0 -o $a != 0 ] && tail -5 $C/demo.clean $C/demo.bad
else git apply $d/patch.diff || exit 2; fi
if [ "$2" != nocheck ]; then VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt /verif/run_check.py $P > /tmp/plant.$1.out 2>&1; r=$?; echo "  check exit=$r $(grep -m1 VIOLATION /tmp/plant.$1.out)"; tail -1 /tmp/plant.$1.out; fi
exit 0
