#!/usr/bin/env python3
"""mkdng.py OUT W H [orient=N] [cfa=0,1,1,2] [crop=top,left,bottom,right (active area)] [cpp=N] [cm=...9 or 12 numbers/10000] [seed=N] [flat=v] [neutral=a,b,c]: a DNG"""
import os, random, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from raw import *
out, w, h = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
o = dict(a.split('=') for a in sys.argv[4:])
L = lambda k, d: [int(v) for v in o[k].split(',')] if k in o else d
rng = random.Random(o.get('seed', '1'))
cpp = int(o.get('cpp', 1))
t = Tiff('<')
t.rng = rng
r = t.ifd()
r.byte('DNGVersion', 1, 4, 0, 0).ascii('Make', 'Maker').ascii('Model', 'Demo')
r.long('ImageWidth', w).long('ImageLength', h).short('SamplesPerPixel', cpp).short('BitsPerSample', *[16] * cpp).short('Compression', 1)
r.short('PhotometricInt', 32803 if cpp == 1 else 34892).short('WhiteLevel', 65535)
if cpp == 1:
    r.byte('CFAPattern', *L('cfa', [0, 1, 1, 2]))
if 'orient' in o:
    r.short('Orientation', int(o['orient']))
if 'crop' in o:
    r.long('ActiveArea', *L('crop', None))
cm = L('cm', [10271, -747, -1166, -2568, 10346, 2478, -343, 1263, 5660])
r.srat('ColorMatrix1', *[(c, 10000) for c in cm])
if 'neutral' in o:
    r.rat('AsShotNeutral', *[(c, 1000) for c in L('neutral', None)])
data = b''.join(struct.pack('<H', int(o['flat']) if 'flat' in o else (x * 977 + y * 3371 + rng.randrange(9000)) % 65536) for y in range(h) for x in range(w * cpp))
r.long('StripOffsets', t.blob('s', data))
open(out, 'wb').write(t.serialise())
