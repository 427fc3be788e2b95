#!/bin/bash
# plant.sh ID [PROP...] : confirms a planted bug in a scratch copy of /repo (demo on both trees, stable tests) and runs checks on it.
# env NOTEST=1 skips the stable tests.
ID=$1; shift
R=$(cd "$(dirname "$0")/.." && pwd)
D=$R/seeded/$ID
W=/tmp/wt-$ID
rm -rf /tmp/wt-$ID; cp -a /repo $W || exit 9
cd $W || exit 9
git checkout -q -- .
if timeout 300 bash $D/demo.sh >/tmp/wt-$ID.demo0 2>&1; then echo "$ID demo clean: ok"; else echo "$ID demo clean: FAILS"; tail -5 /tmp/wt-$ID.demo0; fi
git apply $D/patch.diff || { echo "$ID patch does not apply"; rm -rf /tmp/wt-$ID; exit 8; }
if timeout 300 bash $D/demo.sh >/tmp/wt-$ID.demo1 2>&1; then echo "$ID demo patched: PASSES (bad)"; else echo "$ID demo patched: fails (ok): $(tail -1 /tmp/wt-$ID.demo1 | cut -c1-150)"; fi
if [ -z "$NOTEST" ]; then
sed "s#cd /repo#cd $W#" /opt/vp/test.sh > /tmp/wt-$ID.test.sh
sed "s#/repo#$W#g" /opt/vp/env.sh > /tmp/wt-$ID.env.sh
sed -i "s#/opt/vp/env.sh#/tmp/wt-$ID.env.sh#" /tmp/wt-$ID.test.sh
bash /tmp/wt-$ID.test.sh /tmp/wt-$ID.json >/tmp/wt-$ID.log 2>&1
python3 - $ID <<'P'
import json, sys
i = sys.argv[1]
t = json.load(open('/tmp/wt-%s.json' % i)); b = json.load(open('/opt/vp/BASELINE.json'))
p = set(t.get('passed', []))
print(i, 'stable tests missing', [x for x in b['stable'] if x not in p])
P
fi
cd $R
[ $# -gt 0 ] || set -- $(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
for P in "$@"; do
  VERIF_REPO=$W timeout 900 ./check.sh $P quick > /tmp/wt-$ID.$P.log 2>&1; echo "$ID check $P exit $? $(grep -c ^VIOLATION /tmp/wt-$ID.$P.log) violations, $(grep -m1 -B1 ^VIOLATION /tmp/wt-$ID.$P.log | head -1 | cut -c1-220)"
done
rm -rf /tmp/wt-$ID
