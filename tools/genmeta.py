#!/usr/bin/env python3
"""genmeta.py OUTDIR COUNT FORMAT [MODEL]: metadata files of a format (for demonstrations)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import random, db, gen_meta
out, n, fm = sys.argv[1], int(sys.argv[2]), sys.argv[3]
os.makedirs(out, exist_ok=True)
cams = [c for c in sorted(db.variants()) if fm in gen_meta.formats(c) and (len(sys.argv) < 5 or c[1] == sys.argv[4])]
for i in range(n):
    cam = cams[i * 7919 % len(cams)]
    r = gen_meta.make(fm, cam, 'demo%d' % i, 'arr%d' % i, {})
    f = r['bytes'] if isinstance(r, dict) else r[0]
    p = os.path.join(out, '%s%d.raw' % (fm, i))
    open(p, 'wb').write(f)
    print(p, cam, len(f))
