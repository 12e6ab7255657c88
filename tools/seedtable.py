#!/usr/bin/env python3
"""Runs every planted bug's own check on a scratch copy of /repo with the bug
applied and rewrites the table at the end of DESIGN.md. Development only: no
registered command uses it.  usage: seedtable.py [ID...] (default: all)"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.path.join(V, 'tools', 'seedresults.json')
res = json.load(open(R)) if os.path.exists(R) else {}
ids = sorted(os.listdir(f'{V}/seeded'))
for i in sys.argv[1:] or ids:
    w, ev = f'/tmp/seedtable-{i}', f'/tmp/seedtable-ev-{i}'
    for d in (w, ev):
        shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    os.makedirs(ev)
    subprocess.run(['git', 'apply', f'{V}/seeded/{i}/patch.diff'], cwd=w, check=True)
    p = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
    o = subprocess.run(['bash', f'{V}/check.sh', p, 'quick'], capture_output=True, text=True,
                       env=dict(os.environ, VERIF_REPO=w, VERIF_EVDIR=ev, VERIF_SEED='1'))
    hit = o.returncode == 1 and f'VIOLATION property={p}' in o.stdout
    res[i] = {'property': p, 'caught': hit}
    print(i, p, 'caught' if hit else f'MISSED rc={o.returncode}', flush=True)
    for d in (w, ev):
        shutil.rmtree(d)
    json.dump(res, open(R, 'w'), indent=0, sort_keys=True)
res = {i: res[i] for i in ids if i in res}
json.dump(res, open(R, 'w'), indent=0, sort_keys=True)
t = '| bug | needs | property | its check |\n|-----|-------|----------|-----------|\n'
for i in ids:
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    c = res.get(i)
    t += f"| {i} | {m['needs']} | {m['property']} | {'-' if not c else 'caught' if c['caught'] else 'missed'} |\n"
s = open(f'{V}/DESIGN.md').read()
s = re.sub(r'<!-- seedtable -->.*', lambda _: '<!-- seedtable -->\n' + t, s, flags=re.S)
open(f'{V}/DESIGN.md', 'w').write(s)
