#!/usr/bin/env python3
# done.py ID "what is enumerated" "bounds": registers a check in manifest_table.py and regenerates the manifest
import sys,subprocess
i,t,b=sys.argv[1:4]
p='/verif/tools/manifest_table.py';s=open(p).read()
assert f'"{i}":' not in s
s=s.replace('\n "C24":',f'\n "{i}": (f"{{EXP}}: {t}",\n         "{b}"),\n "C24":')
open(p,'w').write(s)
subprocess.check_call(['python3','/verif/tools/gen_known.py']);subprocess.check_call(['python3','/verif/tools/gen_manifest.py'])
