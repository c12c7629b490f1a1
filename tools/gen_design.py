#!/usr/bin/env python3
# DESIGN.md = fixed text + what the manifest table says of each check + notes per property + findings + seeded bugs
import json, os, sys, glob
sys.path.insert(0, '/verif/tools'); sys.path.insert(0, '/verif')
import importlib
man = json.load(open('/verif/MANIFEST.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
chk = {c['property']: c for c in man['checks']}
find = json.load(open('/verif/known_findings.json'))['findings']
HEAD = open('/verif/tools/design_head.md').read()
N = {}
cur = None
for l in open('/verif/tools/design_notes.md'):
    if l.startswith('## '):
        cur = l[3:].strip(); N[cur] = ''
    elif cur:
        N[cur] += l
o = [HEAD.rstrip(), '', '## Properties', '']
for p in props:
    i = p['id']
    o.append(f"### {i} {p['title']}")
    o.append('')
    c = chk.get(i)
    if c:
        t = c['technique'].split(': ', 1)[-1]
        o.append(f"*Enumerated:* {t}.")
        o.append('')
        o.append(f"*Bounds:* {c['level_note']}")
        o.append('')
    o.append(N.get(i, '').strip())
    o.append('')
o += ['## Defects found and repaired', '', 'Each is one `fix:` commit in /repo; the check of the property reports it again if it returns.', '']
for f in find:
    o.append('* ' + f['what'])
openf = [f for f in find if f['status'] != 'fixed']
o += ['', f'Open findings: {len(openf)}.', '']
o += [N.get('LIMITS', '').strip(), '', '## Planted bugs', '', '| id | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(d))
    o.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'] + ' quick')} |")
o += ['', N.get('MUTATION', '').strip(), '']
open('/verif/DESIGN.md', 'w').write('\n'.join(o))
