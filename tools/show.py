#!/usr/bin/env python3
"""show a replay file: python3 tools/show.py P07-1"""
import json, sys
r = json.load(open(sys.argv[1] if '/' in sys.argv[1] else '/verif/evidence/replay/%s.json' % sys.argv[1]))
print(r['what'])
r = r['replay']
for e in r['history'][-int(sys.argv[2]) if len(sys.argv) > 2 else -12:]:
    print(e)
o = r['event'].get('o')
if o:
    for g in o['q']:
        print('Q', g['id'], g['name'], g['status'], 'fc', g['fc'], 'sz', g['size'], 'rem', g['remsz'], 'pa', g['psize'], 'rfc', g['rfc'], g['rpc'], 'art', g['tot'], g['ok'], g['bad'], 'h', g['health'], g['crit'])
        for f in g['files']:
            print('      ', f['id'], f['name'], f['sz'], f['rem'], f['paused'])
    for h in o['h']:
        print('H', h)
print(r['model'] if len(sys.argv) > 3 else '')
