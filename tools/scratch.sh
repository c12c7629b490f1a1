#!/bin/bash
# scratch.sh PATCH PROP [variant] [args]: build the checker against a scratch copy of /repo with PATCH applied and run one check (development aid)
P=$1; PROP=$2; V=${3:-hm}; shift 3 2>/dev/null
/bin/rm -rf /tmp/x/repo /tmp/x/v/mc; mkdir -p /tmp/x/v
cp -a /repo /tmp/x/repo; /bin/rm -rf /tmp/x/repo/target
[ "$P" = - ] || git -C /tmp/x/repo apply "$P" || exit 1
cp -a /verif/mc /tmp/x/v/mc
(cd /tmp/x/v/mc && bash build.sh $V > /tmp/x/log 2>&1) || { grep -A8 ^error /tmp/x/log | head -30; exit 1; }
timeout 900 /tmp/x/v/target/bin/mc-$V $PROP --out /tmp/x/o.json --cur /tmp "$@" 2>&1 | tail -2
python3 - <<'Q'
import json
d=json.load(open('/tmp/x/o.json'));print('execs',d['execs'],d['keys'])
n=set()
for x in d['violations']:
    if x['key'] in n: continue
    n.add(x['key']);print(' ',x['key'],x['case'],x['desc'][:140],'=>',x['detail'][:200])
Q
