#!/usr/bin/env python3
"""record_covers.py OUT_DIR JOBS... : what each harness instance reached on the tree it was run on, into
covers.json, which check.py requires from then on. A maintenance tool, not part of a check."""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'covers.json')
rec = json.load(open(f)) if os.path.exists(f) else {}
if '--fresh' in sys.argv:
    rec = {}
for d in sys.argv[1:]:
    if not os.path.isdir(d):
        continue
    for x in os.listdir(d):
        j = json.load(open(os.path.join(d, x)))
        if not j['errors'] and j['paths_ok'] + j['paths_panic'] > 0:
            rec['%s|%s' % (j['entry'], ','.join(map(str, j['params'])))] = sorted(j['covers'])
with open(f, 'w') as o:
    o.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(rec[k])) for k in sorted(rec)) + '\n}\n')
