#!/bin/bash
# chkseed.sh ID...: confirms a planted bug (applied to /repo and undone again): original lines, demo without/with, stable tests with
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
for i in "$@"; do
 d=/verif/seeded/$i
 python3 - $d/patch.diff <<'P' || { echo "$i: changes only lines of our own commits"; }
import sys,re,subprocess
f=None;ok=0;n=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)',l)
    if m: n=int(m[1]); continue
    if l.startswith('-') and not l.startswith('---'):
        b=subprocess.check_output(['git','blame','-s','-L',f'{n},{n}',f],text=True); ok|=b.startswith('562fa7d') or b.startswith('^'); n+=1
    elif l.startswith(' '): n+=1
sys.exit(0 if ok else 1)
P
 bash $d/demo.sh >/tmp/demo0.log 2>&1; r0=$?
 git apply $d/patch.diff || { echo "$i: does not apply"; continue; }
 bash $d/demo.sh >/tmp/demo1.log 2>&1; r1=$?
 bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1 || echo "$i: does not build"
 st=$(bash /verif/tools/stable.sh 2>&1 | tail -1)
 git checkout -q -- .
 echo "$i demo unchanged=$r0 patched=$r1 $st :: $(tail -1 /tmp/demo1.log | cut -c1-200)"
done
