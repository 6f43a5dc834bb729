#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in props.py"""
import json, os
from props import PROPS, NOT_APPLICABLE
H = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p.get('over', ['inputs']), 'text': p['q']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': [{'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'],
                 'thorough_cmd': './check.sh %s thorough' % p['id'],
                 'technique': p['tech'], 'level': p.get('level', 'other'), 'level_note': p['note']}
                for p in PROPS if p.get('tech')],
     'not_applicable': [{'property': p['id'], 'reason': NOT_APPLICABLE[p['id']]} for p in PROPS if not p.get('tech')]}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)


# ---- DESIGN.md -------------------------------------------------------------------------------------------------------
import ast, glob, re


def doc(pid):
    p = os.path.join(H, 'amx/rules/%s.py' % pid.lower())
    return ' '.join((ast.get_docstring(ast.parse(open(p).read())) or '').split()) if os.path.exists(p) else ''


def part(n):
    return open(os.path.join(H, 'docs', n)).read()


seeds = {}
for d in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    x = json.load(open(d))
    seeds.setdefault(x['property'], []).append((os.path.basename(os.path.dirname(d)), x['needs'], x['what_it_breaks']))
fixed, known = {}, {}
for l in open(os.path.join(H, 'known-findings.txt')):
    g = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if g:
        fixed.setdefault(g.group(1), []).append((g.group(2), g.group(3)))
    g = re.match(r'known: property=(\w+) key=(.*?) :: (.*)', l)
    if g:
        known.setdefault(g.group(1), []).append(g.group(3))
out = [part('head.md'), '## The properties\n']
for p in PROPS:
    out.append('### %s %s\n' % (p['id'], p['title']))
    if not p.get('tech'):
        out.append('Not applicable: %s\n' % NOT_APPLICABLE[p['id']])
        continue
    out.append('*Specified:* %s\n' % p['statement'])
    out.append('*Over:* %s. *Tests:* %s\n' % (p['q'], p['why']))
    out.append('*Decided by:* %s\n' % doc(p['id']))
    note = re.sub(r'^Trusts rustc.*?out of scope\. ?', '', p['note'])
    if note:
        out.append('*Limits:* %s\n' % note)
    out.append('*Anchors:* %s\n' % '; '.join('%s (%s)' % (b, a) for a, b in p['mech']))
    for h, w in fixed.get(p['id'], []):
        out.append('* defect repaired in %s: %s' % (h, w))
    for w in known.get(p['id'], []):
        out.append('* known finding: %s' % w)
    for s, n, w in seeds.get(p['id'], []):
        out.append('* planted `%s`, caught: needs %s; %s' % (s, n, w))
    out.append('')
out += [part('limits.md'), part('log.md')]
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out))
