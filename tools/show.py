#!/usr/bin/env python3
import json, sys
for p in sys.argv[1:]:
    d = json.load(open('/verif/evidence/%s.json' % p))
    for r in d['coverage']['harnesses']:
        print(r['harness'], r['status'], r['obligations'], 'paths', r['paths'], r['wall_s'], r['error'] or '', [c for c, ok in r['covers'].items() if not ok] or '')
    print(d['coverage']['backends'], 'assumptions', d['assumptions'])
