#!/bin/bash
# try.sh PROP "variants" [extra args]: build, run, summarise (development aid)
cd /verif/mc; P=$1; V=$2; shift 2
if ! bash build.sh $V >/tmp/try.log 2>&1; then grep -A12 "^error" /tmp/try.log | sed -n "1,30p" | head -${E:-40}; exit 1; fi
rm -f /tmp/o-*.json
F=${F:-} ; for v in $V; do timeout 900 ../target/bin/mc-$v $P --out /tmp/o-$v.json --cur /tmp "$@" || { echo EXIT $?; continue; }; python3 - $v <<'Q'
import json,sys,os
v=sys.argv[1]
d=json.load(open(f'/tmp/o-{v}.json'));print(v,'states',d['states'],'trans',d['transitions'],'execs',d['execs'],'s',d['wall_s'],d['keys'],d['caps'][:3])
if os.environ.get('F'):
    for k,f in d['families'].items(): print('   ',k,f['cases'],f['distinct_outcomes'],list(f['outcomes'].items())[:4])
n={}
for x in d['violations']:
    n[x['key']]=n.get(x['key'],0)+1
    if n[x['key']]>int(os.environ.get('N','1')): continue
    print(' ',x['key'],x['case'],x['desc'][:160],'=>',x['detail'][:int(os.environ.get('W','220'))])
Q
done
