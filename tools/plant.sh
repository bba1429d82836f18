#!/bin/bash
# plant.sh ID [nocheck] : confirm a seeded change in a scratch copy (demo without/with, stable tests with), then run its check on /repo.
set -u
ID=$1; D=/verif/seeded/$ID; W=/tmp/plant-$ID
rm -rf "$W"; cp -a /repo "$W"; cp -a "$D" "$W.demo"
export PYTHONPATH=$W
( cd "$W" && timeout 300 bash "$W.demo/demo.sh" > "$W.log0" 2>&1 ); a=$?
( cd "$W" && git apply "$D/patch.diff" ) || echo "$ID: patch does not apply"
if grep -q "pyx" "$D/patch.diff"; then ( cd "$W" && /opt/venv/bin/python setup.py build_ext --inplace >/dev/null 2>&1 ); fi
( cd "$W" && timeout 300 bash "$W.demo/demo.sh" > "$W.log1" 2>&1 ); b=$?
echo "$ID: demo clean=$a patched=$b ($(tail -1 $W.log1 | cut -c1-150))"
if [ "${2:-}" != notest ]; then
( cd "$W" && NUMBA_CACHE_DIR=$W.nb PYTHONPATH=$W:/opt/vp/plugins timeout 900 /opt/venv/bin/python -m pytest -q -p vp_missing_data -n 4 --dist loadfile -p no:cacheprovider --timeout=300 -rfE --ignore=rsciio/tests/test_edax.py --ignore=rsciio/tests/test_usid.py --basetemp=$W.tmp rsciio/tests > "$W.log2" 2>&1 )
python3 - "$W.log2" "$ID" <<'P'
import json,sys,re
b=json.load(open('/opt/vp/BASELINE.json')); st=set(b.get('stable') or b.get('passed'))
t=open(sys.argv[1]).read()
bad=[l.split()[1].replace("/",".").replace(".py::","::") for l in t.splitlines() if l.startswith(('FAILED','ERROR '))]
def hit(x): return any(s==x or s.endswith(x) or x.endswith(s) for s in st)
print("%s: tests: %s; stable failures: %s" % (sys.argv[2], t.strip().splitlines()[-1][:90], [x for x in bad if hit(x)][:5]))
P
fi
rm -rf "$W" "$W.demo" "$W".log[01] "$W.tmp" "$W.nb"
