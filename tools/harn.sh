#!/bin/bash
# harn.sh Cxx [secs] [pkg]: run one replay harness alone (development aid)
P=$1; SECS=${2:-4}; PKG=${3:-mpd}; R=${VERIF_REPO:-/repo}
T=$(mktemp -d)
python3 - "$P" "$PKG" "$R" >$T/ov.json <<'PY'
import json,os,re,sys
prop,pkg,repo=sys.argv[1:]
d="/verif/replay/"+pkg
r={}
for n in sorted(os.listdir(d)):
    m=re.match(r"(c\d\d)_",n)
    if m and m.group(1).upper()!=prop: continue
    r[f"{repo}/{pkg}/zz_verif_"+n.replace(".go","_test.go")]=d+"/"+n
print(json.dumps({"Replace":r}))
PY
cd $R && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local VERIF_SEED=${VERIF_SEED:-1} VERIF_SECS=$SECS VERIF_HARNESS_OUT=$T/h go1.25 test -overlay $T/ov.json -vet=off -count=1 -run "^TestVerif$P(Table)?\$" ./$PKG 2>&1 | cut -c1-1500 | head -${LINES_MAX:-40}
python3 -c "
import json;r=json.load(open('$T/h.$PKG'));print(r['evaluations'],r['distinct'])"
rm -rf $T
