#!/bin/bash
# Usage: seed_try.sh [-c] ID...   Tries planted changes one after another against /repo (which must be clean):
# stable tests, demonstration, this property's quick check. -c: only the check (may be used with REPO and VERIF
# naming copies), -t: only the tests and the demonstration. One line per change.
only=; case "$1" in -c|-t) only=$1; shift;; esac
R=${REPO:-/repo} V=${VERIF:-/verif}
log=${SEED_LOG:-/tmp/seedlog}; mkdir -p $log
[ -z "$(git -C $R status --porcelain)" ] || { echo "$R is not clean"; exit 2; }
trap 'git -C $R checkout -q -- .' EXIT
for id in "$@"; do
    d=/verif/seeded/$id
    prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)
    tests=- demo=-
    git -C $R apply $d/patch.diff || { echo "$id does-not-apply"; continue; }
    if [ "$only" != -c ]; then
        if bash /opt/vp/build.sh >$log/$id.build 2>&1; then
            bash /opt/vp/test.sh $log/$id.json >$log/$id.test 2>&1
            tests=$(python3 - $log/$id.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
bp=set(b['stable']); rp=set(r['passed'])
m=sorted(bp-rp)
print('ok' if not m else 'FAIL:'+','.join(m))
P
)
        else tests=nobuild; fi
        (cd /repo && timeout 300 bash $d/demo.sh >$log/$id.demo 2>&1); demo=$?
    fi
    if [ "$only" = -t ]; then git -C $R checkout -q -- .; echo "$id tests=$tests demo=$demo"; continue; fi
    s=$(date +%s)
    VERIF_SEED=1 VERIF_TIER=quick REPO=$R bash $V/bin/check.sh $prop quick >$log/$id.check 2>&1; rc=$?
    v=$(grep -m1 "^VIOLATION property=$prop " $log/$id.check)
    git -C $R checkout -q -- .
    echo "$id tests=$tests demo=$demo check=$rc $((($(date +%s)-s)))s ${v:+caught} $(grep -m1 -o 'oracle[= ][a-z_]*' $log/$id.check)"
done
