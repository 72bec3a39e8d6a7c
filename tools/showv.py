#!/usr/bin/env python3
"""prints the recorded violations of a check: showv.py <property> [count] [substring]"""
import json, glob, sys
n = int(sys.argv[2]) if len(sys.argv) > 2 else 1
for f in sorted(glob.glob('/verif/build/%s/replay/v*/case.json' % sys.argv[1])):
    d = json.load(open(f))
    if len(sys.argv) > 3 and sys.argv[3] not in d['what']:
        continue
    print(f, '\n', d['what'])
    x = d['data']
    for q in x.get('files', []):
        print('  ', q['path'], repr(q['src']))
    print({k: v for k, v in x.items() if k not in ('files', 'runs')})
    if x.get('runs'):
        print({k: v for k, v in x['runs'][0].items()})
    n -= 1
    if not n:
        break
