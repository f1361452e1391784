#!/usr/bin/env python3
"""compact form of a replay: show2.py P07-1 [n]"""
import json, sys, re
r = json.load(open('/verif/evidence/replay/%s.json' % sys.argv[1]))
print(r['what'][:300])
r = r['replay']
n = int(sys.argv[2]) if len(sys.argv) > 2 else 5
for e in r.get('history', r.get('ops', []))[-n:]:
    print({k: v for k, v in e.items() if k != 'def'})
o = r['event'].get('o')
if o:
    for g in o['q']:
        print('OBS', g['id'], g['name'], g['prio'], g['status'], 'rem', g['remsz'], 'pa', g['psize'], 'rfc', g['rfc'], 'art', g['tot'], g['ok'], g['bad'], 'h', g['health'], g['crit'], [(f['id'], f['name'], f['sz'], f['rem'], 'P' if f['paused'] else '-') for f in g['files']])
    for h in o['h']:
        print('OBSH', h)
m = re.sub(r'\s+', ' ', r.get('model', ''))
for k in re.split(r' /\\ ', m):
    if k.startswith('q ='):
        for g in re.split(r'\[ id \|-> (?=\d+, name \|-> "[^"]*", cat)', k):
            print('  MOD', g[:1500])
    else:
        print('  MOD', k[:1200])
