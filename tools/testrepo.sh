#!/bin/bash
# runs the repository's tests (in $1, default /repo) and compares with the baseline
t=$(mktemp -d); sed "s#cd /repo#cd ${1:-/repo}#" /opt/vp/env.sh > $t/env.sh
( . $t/env.sh; go build ./... || echo BUILDFAIL; go test -json -vet=off -count=1 -timeout 5m ./... > $t/log; python3 /opt/vp/results.py $t/t.json gojson:$t/log >/dev/null 2>&1 )
T=$t/t.json python3 - <<'P'
import json,os
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open(os.environ['T']))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: 
            v=x[k]; return set(v if isinstance(v,list) else [n for n,s in v.items() if s in ('pass','passed',True)])
    return None
bp,tp=names(b),names(t)
print(len(bp),len(tp),"missing:",sorted(bp-tp)[:10])
P
rm -rf "$t"
