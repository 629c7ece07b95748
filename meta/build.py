#!/usr/bin/env python3
'Writes properties.jsonl and MANIFEST.json from meta/props.py.'
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'meta'))
from props import PROPS, NOT_APPLICABLE, NOTES

lines, checks, na = [], [], []
for p in PROPS:
    q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
    lines.append(json.dumps(q, sort_keys=True))
    if p['id'] in NOT_APPLICABLE:
        na.append({'property': p['id'], 'reason': NOT_APPLICABLE[p['id']]})
        continue
    if not os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')):
        sys.exit('no check for ' + p['id'])
    checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py ' + p['id'],
                   'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
                   'technique': p['technique'], 'level': 'exploration', 'level_note': p['level_note']})
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    f.write('\n'.join(lines) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': 'VERIF_HOOKS',
               'enable': 'none needed: the repository has no hooks. The checks import /repo/privcount unchanged and instrument it '
                         'from outside (replaced clock, reactor, random sources, transports)',
               'source_commits': []},
     'checks': checks, 'not_applicable': na, 'notes': NOTES}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in lines:
        jsonschema.validate(json.loads(l), s)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid,', len(checks), 'checks')
except ImportError:
    print(len(checks), 'checks (schemas not checked)')

# DESIGN.md
import glob, re
from design import PARTS
title = {p['id']: p for p in PROPS}
out = [open(os.path.join(V, 'meta', 'design_head.md')).read().rstrip(), '', '## The properties', '']
seen = set()
for part, items in PARTS:
    out += ['### ' + part, '']
    for i, text in items:
        if i not in title:
            sys.exit('design.py: unknown ' + i)
        seen.add(i)
        src = open(os.path.join(V, 'checks', i.lower() + '.py')).read()
        ns = {}
        for b in re.findall(r'^(?:RULE|QUICK|THOROUGH) = .*(?:\n[ ].*)*', src, re.M):
            exec(b, ns)
        q = ns['QUICK']
        out += ['**%s. %s.** *%s.* %s Workload: %s. Quick: %d cases, at most %d s; thorough: %d cases, at most %d s.' % (
            i, title[i]['title'], title[i]['technique'][0].upper() + title[i]['technique'][1:], text, ns['RULE'], q['cases'], q['seconds'],
            ns['THOROUGH']['cases'], ns['THOROUGH']['seconds'])]
        out += ['*Why not tests:* %s' % title[i]['why_tests_cant'], '']
if seen != set(title) - set(NOT_APPLICABLE):
    sys.exit('design.py lacks %s' % sorted(set(title) - seen))
tail = open(os.path.join(V, 'meta', 'design_tail.md')).read()
fixes = ['| property | commit | what failed |', '| --- | --- | --- |']
for l in open(os.path.join(V, 'KNOWN_FINDINGS.txt')):
    mm = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if mm:
        fixes.append('| %s | %s | %s |' % mm.groups())
seeds = ['| planted bug | property | needs | breaks | caught |', '| --- | --- | --- | --- | --- |']
caught = {}
for l in open(os.path.join(V, 'meta', 'caught.txt')):
    k, _, v = l.strip().partition(' ')
    caught[k] = v
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    mj = json.load(open(d)); k = os.path.basename(os.path.dirname(d))
    seeds.append('| %s | %s | %s | %s | %s |' % (k, mj['property'], mj['needs'], mj['what_it_breaks'], caught.get(k, 'not run')))
out.append(tail.replace('@FIXES@', '\n'.join(fixes)).replace('@SEEDS@', '\n'.join(seeds)).rstrip())
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out) + '\n')
