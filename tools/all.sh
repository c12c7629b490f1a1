#!/bin/bash
# development aid: every check's quick tier with the variants given (default hm n0), one summary line each
cd /verif/mc; V=${V:-hm n0}
bash build.sh $V > /tmp/all.build 2>&1 || { grep -A8 "^error" /tmp/all.build | head -20; exit 1; }
for p in ${P:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28}; do
  for v in $V; do
    timeout 600 ../target/bin/mc-$v $p --tier ${T:-quick} --out /tmp/all.json --cur /tmp >/dev/null 2>&1; rc=$?
    [ $rc -gt 1 ] && { echo "$p $v exit $rc"; continue; }
    python3 -c "
import json;d=json.load(open('/tmp/all.json'));print('$p $v',d['wall_s'],'s',d['execs'],'execs',d['keys'],d['caps'][:2])"
  done
done
