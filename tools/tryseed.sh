#!/bin/bash
# tryseed.sh ID — confirms a planted bug: demo passes without, fails with it; build and baseline tests pass with it. Then runs its check.
S=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
(cd /repo && bash $S/demo.sh >/tmp/seed.$1.base 2>&1) || { echo "$1: DEMO FAILS ON THE UNCHANGED TREE"; tail -5 /tmp/seed.$1.base; exit 1; }
git -C /repo apply $S/patch.diff || { echo "$1: DOES NOT APPLY"; exit 1; }
trap 'git -C /repo checkout -- .' EXIT
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >/tmp/seed.$1.build 2>&1 || { echo "$1: DOES NOT BUILD"; tail -5 /tmp/seed.$1.build; exit 1; }
bash /opt/vp/test.sh /tmp/seed.$1.json >/dev/null 2>&1
python3 - /tmp/seed.$1.json <<'E' || { echo "$1: TESTS FAIL"; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    for k in ('passed','stable','pass','tests'):
        if k in x: return set(x[k])
    raise SystemExit(str(x.keys()))
miss=names(b)-names(o)
if miss: print(sorted(miss)); sys.exit(1)
E
fi
if (cd /repo && bash $S/demo.sh >/tmp/seed.$1.out 2>&1); then echo "$1: DEMO PASSES WITH THE BUG"; exit 1; fi
echo "demo: $(grep -m1 -E 'FAIL|panic' /tmp/seed.$1.out)"
/verif/run.sh $P quick >/tmp/seed.$1.check 2>&1; rc=$?
if [ $rc = 1 ] && grep -q "^VIOLATION property=$P" /tmp/seed.$1.check; then echo "$1: CAUGHT by $P"; else echo "$1: MISSED by $P (rc $rc)"; fi
