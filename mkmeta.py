#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the PROPERTY literals of props/*.py (and na.json)."""
import ast
import glob
import json
import os
here = os.path.dirname(os.path.abspath(__file__))
props, checks = [], []
for f in sorted(glob.glob(here + '/props/[A-Z][0-9][0-9].py')):
    m = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('PROPERTY', 'LEVEL'):
            m[n.targets[0].id] = ast.literal_eval(n.value)
    if 'PROPERTY' not in m:
        print('no PROPERTY in', f)
        continue
    p = m['PROPERTY']
    pid = os.path.basename(f)[:-3]
    rec = {'id': pid, 'title': p['title'], 'statement': p['statement'],
           'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
           'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
    assert len(p['title']) <= 80, pid
    props.append(rec)
    checks.append({'property': pid, 'quick_cmd': './check ' + pid, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + pid,
                   'technique': p.get('technique', 'contracts on the real Python code, verification conditions generated by symbolic execution of the imported functions, discharged by z3'),
                   'level': m.get('LEVEL', 'proof'), 'level_note': p['note']})
na = []
if os.path.exists(here + '/na.json'):
    for r in json.load(open(here + '/na.json')):
        props.append(r['property'])
        na.append({'property': r['property']['id'], 'reason': r['reason']})
with open(here + '/properties.jsonl', 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
man = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo. Contracts live in props/, the verifier in vc/. See DESIGN.md.'}
json.dump(man, open(here + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for p in props:
        jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
except ImportError:
    pass


def units(path):
    out = []
    for n in ast.parse(open(path).read()).body:
        if not isinstance(n, ast.FunctionDef):
            continue
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, 'id', '') in ('unit', 'search'):
                fns = [a.value for a in d.args if isinstance(a, ast.Constant)]
                kw = {k.arg: k.value.value for k in d.keywords if isinstance(k.value, ast.Constant)}
                out.append((n.name, d.func.id, fns, kw))
    return out


doc = ['## 2. Properties', '']
for f in sorted(glob.glob(here + '/props/[A-Z][0-9][0-9].py')):
    pid = os.path.basename(f)[:-3]
    p = [q for q in props if q['id'] == pid][0]
    c = [q for q in checks if q['property'] == pid][0]
    lits = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('TRUSTED', 'ASSUMPTIONS'):
            lits[n.targets[0].id] = ast.literal_eval(n.value)
    doc += ['### %s %s' % (pid, p['title']), '', p['statement'], '', '*Level* %s: %s.' % (c['level'], c['level_note']), '']
    for k in ('TRUSTED', 'ASSUMPTIONS'):
        for t in lits.get(k, []):
            doc.append('*%s* %s.' % ('By contract' if k == 'TRUSTED' else 'Assumed', t))
    if lits:
        doc.append('')
    us = units(f)
    pr = [u for u in us if u[1] == 'unit' and 'limit' not in u[3] and 'bound' not in u[3]]
    bd = [u for u in us if u[1] == 'unit' and ('limit' in u[3] or 'bound' in u[3])]
    se = [u for u in us if u[1] == 'search']
    if pr:
        doc.append('* proved: ' + '; '.join('`%s`%s' % (u[0], ' (' + ', '.join(u[2]) + ')' if u[2] else '') for u in pr))
    if bd:
        doc.append('* bounded (enumerated shapes, arbitrary values): ' + '; '.join('`%s`: %s' % (u[0], u[3].get('limit') or 'at most %s' % u[3].get('bound')) for u in bd))
    if se:
        doc.append('* bounded (concrete search): ' + ', '.join('`%s`' % u[0] for u in se))
    doc.append('')
doc += ['## 3. Planted changes and what catches them', '', 'Every one passes the stable tests; applied with `tools_seed.sh`.', '', '| change | check | needs |', '|---|---|---|']
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    doc.append('| %s | %s%s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], '' if not m.get('missed') else ' (missed)', m['needs']))
doc += ['', '## 4. Defects found', '', 'Repaired (one `fix:` commit each):', '']
known = []
for l in open(here + '/known_findings.jsonl'):
    k = json.loads(l)
    if k['status'] == 'fixed':
        doc.append('* %s %s: %s' % (k['property'], k.get('commit', '')[:7], k['what'].split(k.get('commit', '') or '\0')[-1].strip()))
    else:
        known.append('* %s (%s / %s): %s' % (k['property'], k['unit'], k['label'], k['what']))
doc += ['', 'Recorded as known findings:', ''] + known + ['']
s = open(here + '/DESIGN.md').read()
a, r = s.split('<!-- generated: properties -->')
b = r.split('<!-- end -->')[1]
open(here + '/DESIGN.md', 'w').write(a + '<!-- generated: properties -->\n' + '\n'.join(doc) + '<!-- end -->' + b)
print(len(props), 'properties,', len(checks), 'claimed')
