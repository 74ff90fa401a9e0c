#!/usr/bin/env python3
"""Regenerates DESIGN.md from tools/design.in.md, jobs.py, known_findings.json, properties.jsonl and seeded/*/meta.json."""
import json, os, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import jobs as J
t = open(os.path.join(HERE, 'tools', 'design.in.md')).read()
k = json.load(open(os.path.join(HERE, 'known_findings.json')))
fx = ['* ' + x.replace('fixed: property=', '') for x in k['fixed']]
sd = ['| bug | property | breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    sd.append('| %s | %s | %s | %s |' % (f.split('/')[-2], m['property'], m['what_it_breaks'], m['needs']))
P = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))}
jb = []
for pid in sorted(J.JOBS):
    jb.append('\n**%s %s** - %s\n' % (pid, P[pid]['title'], P[pid]['quantifier']['text']))
    seen = {}
    for j in J.JOBS[pid]:
        n = j.name[:-4] if j.name.endswith('-src') else j.name[:-5] if j.name.endswith('-dist') else j.name
        seen.setdefault(n, (j, []))[1].append(j.variant)
    for n, (j, vs) in seen.items():
        jb.append('* `%s` (%s%s): `%s` %s' % (n, j.harness, ', T' if j.thorough else '', j.defs.replace('-DPARAMS=', 'PARAMS=').replace('-D', '').replace('EMBEDDB_', '').replace(HERE, '.').replace('/repo', ''), '' if set(vs) == {'src', 'dist'} else '[%s]' % ','.join(vs)))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t.replace('@@FIXED@@', '\n' + '\n'.join(fx)).replace('@@SEEDS@@', '\n' + '\n'.join(sd)).replace('@@JOBS@@', '\n'.join(jb)))
