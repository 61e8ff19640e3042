#!/usr/bin/env python3
"""Development helper (never run by a check): record the violations a check
reports now as known findings.  usage: known.py PROP 'why' key-regex
and rebuild the list of repairs from /repo's history."""
import json, os, re, subprocess, sys
P = '/verif/known_findings.json'
d = json.load(open(P)) if os.path.exists(P) else {'known': [], 'fixed': []}
if len(sys.argv) > 3:
    prop, why, rx = sys.argv[1:4]
    d['known'] = [e for e in d['known'] if not (e['property'] == prop and re.search(rx, e['key']))]
    out = subprocess.run(['python3', '/verif/check.py', prop], capture_output=True, text=True)
    viol = json.load(open('/verif/evidence/replay/%s.json' % prop)) if out.returncode == 1 else []
    for v in viol:
        if re.search(rx, v['key']):
            d['known'].append({'property': prop, 'key': v['key'], 'fails': v['msg'], 'why': why})
            print('recorded', v['key'], v['msg'][:100])
# every repair commit carries its property in tools/fixed.txt: "<subject prefix>|<property>|<what failed>"
d['fixed'] = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h|%s'], capture_output=True, text=True).stdout.splitlines()
rows = [l.rstrip('\n').split('|') for l in open('/verif/tools/fixed.txt') if l.strip()]
for l in log:
    h, s = l.split('|', 1)
    if not s.startswith('fix:'):
        continue
    hit = [r for r in rows if s == 'fix: ' + r[0]]
    if not hit:
        print('MISSING in fixed.txt:', s)
        continue
    d['fixed'].append('fixed: property=%s %s %s' % (hit[0][1], h, hit[0][2]))
json.dump(d, open(P, 'w'), indent=1)
open(P, 'a').write('\n')
