#!/usr/bin/env python3
"""rebuild the 'fixed' part of known-findings.json from /repo's fix: commits; run by hand"""
import json, subprocess, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(H + '/tools/fixed-map.json'))      # substring of the commit message -> property
out = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True)
kf = json.load(open(H + '/known-findings.json')); kf['fixed'] = []
for l in out.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    p = [v for k, v in PROP.items() if k in s]
    if not p: print('unmapped:', l); continue
    kf['fixed'].append('fixed: property=%s %s %s' % (p[0], h, s[5:]))
json.dump(kf, open(H + '/known-findings.json', 'w'), indent=1)
