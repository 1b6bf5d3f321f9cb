"""DESIGN.md = tools/design-head.md + contracts per property + findings + planted changes"""
import json, os, sys, importlib
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, R)
o = [open(R + '/tools/design-head.md').read().rstrip(), '', '<!-- generated -->', '', '## Per property', '']
P = [json.loads(l) for l in open(R + '/properties.jsonl')]
notes = json.load(open(R + '/tools/design-notes.json'))
for p in P:
    f = R + '/specs/%s.py' % p['id']
    if not os.path.exists(f): continue
    m = importlib.import_module('specs.' + p['id'])
    o += ['### %s %s' % (p['id'], p['title']), '', notes.get(p['id'], ''), '',
          '%d contracts: ' % len(m.SPECS) + '; '.join(sorted(set(s.doc for s in m.SPECS))) + '.', '',
          'Bounded stand-in and replay: ' + getattr(m, 'BOUNDED', '') + '.', '']
    if getattr(m, 'ASSUME', None): o += ['Assumed: ' + '; '.join(m.ASSUME) + '.', '']
k = json.load(open(R + '/known-findings.json'))
o += ['## Defects found', '', 'All were shown on the real code by the checks and repaired; none is left as a known finding.' if not k['known'] else '', '']
o += ['* ' + x for x in k['known'] + k['fixed']] + ['']
c = json.load(open(R + '/tools/catch.json'))
o += ['## Planted changes', '', 'Result of `tools/runseeds.sh` (check of the property the change is written against).', '', '| change | what it needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(R + '/seeded/%s/meta.json' % d)); o.append('| %s | %s | %s |' % (d, m['needs'], c.get(d, 'not run')))
open(R + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
