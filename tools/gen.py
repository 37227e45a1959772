#!/usr/bin/env python3
"""gen.py MODULE NAME SEED FROM COUNT OUTDIR: writes generated files (for demonstrations)"""
import importlib, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
m, n, s, fr, c, out = sys.argv[1:]
fn = importlib.import_module(m).GENS[n]
os.makedirs(out, exist_ok=True)
for i in range(int(fr), int(fr) + int(c)):
    f = fn(random.Random('demo/%s/%d/%s' % (n, i, s)), i)
    p = os.path.join(out, f['id'] + '.raw')
    open(p, 'wb').write(f['bytes'])
    print(p, f.get('what', ''), len(f['bytes']))
