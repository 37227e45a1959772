"""Orientation: a turned development is the unturned one, pixel by pixel moved."""
import random
import dev
from raw import *


def one(ck, rng, n, name):
    jobs, meta = [], []
    sizes = [(1, 1), (1, 5), (6, 1), (2, 2), (3, 2), (5, 7), (8, 3), (4, 4), (17, 9), (13, 30)]
    for i in range(n):
        w, h = sizes[i % len(sizes)] if i < 3 * len(sizes) else (rng.randint(1, 40), rng.randint(1, 40))
        if i >= n - 4:
            w, h = [(rng.randint(2, 5), rng.randint(130, 400)), (rng.randint(257, 400), rng.randint(2, 4)), (68, 131), (131, 67)][i - n + 4]
        kind = rng.choice(['cpp3', 'cpp3', 'mono', 'bayer']) if w > 1 and h > 1 else 'cpp3'
        crops = [rng.choice([0, 0, 1, 2, 3]) for _ in range(4)]
        fw, fh = w + crops[1] + crops[3], h + crops[0] + crops[2]
        cpp = 3 if kind == 'cpp3' else 1
        pat = {'cpp3': rng.choice(['', 'RGGB']), 'mono': '', 'bayer': rng.choice(dev.BAYER)}[kind]
        data = [rng.randrange(0, 65521) for _ in range(fw * fh * cpp)]
        lim = rng.choice([(0, 0), (0, 0), (100, 100), (rng.randint(1, w), rng.randint(1, h)), (rng.randint(1, 2 * w), rng.randint(1, 2 * h)),
                          (h, w), (0, 5)])
        out = rng.choice(['rgb', 'linear', 'srgb'])
        for o in list(range(1, 9)) + [0, 9, rng.choice([10, 255, 256 + 6, 65535])]:
            im = dev.img(fw, fh, cpp, pat, crops, data, orient=o)
            eff = o if 1 <= o <= 8 else 1
            ref = dev.img(fw, fh, cpp, pat, crops, data, orient=1)
            rl = (lim[1], lim[0]) if eff >= 5 else lim
            jobs.append(('%s%d.o%d' % (name, i, o), im, [(out, lim[0], lim[1])]))
            jobs.append(('%s%d.o%d.ref' % (name, i, o), ref, [(out, rl[0], rl[1])]))
            meta.append(('%s%d.o%d' % (name, i, o), im, lim, '%s %dx%d %s orientation %d limits %s' % (kind, w, h, out, o, lim)))
    r = dev.develop(jobs, ck)
    cases, info = [], {}
    for cid, im, lim, what in meta:
        a, b = r[cid][0], r[cid + '.ref'][0]
        if b['res'] != 'ok':
            a = dict(a, res='reference: ' + b['res'])
        cases.append(dev.case(cid, 'same', im, a, lim[0], lim[1], b={k: v for k, v in b.items() if k != 'res'}, tol=0))
        info[cid] = (what, {'image': im})
    ck.sample({'cases': len(cases), 'first': meta[0][3], 'last': meta[-1][3]})
    dev.check(ck, cases, info, name)


def recorded(ck, rng, n, name):
    """the orientation that a file of each format records"""
    import gen_meta, meta_run
    from c06 import cams_of, small
    by = cams_of()
    vals = [None] + [(3, v) for v in range(10)] + [(4, v) for v in (1, 6, 8, 0, 65536 + 6, 0x00060000, 1 << 20, 70003)] + \
           [(1, 3), (1, 8), (9, 5), (13, 7), (3, 256), (3, 0x0600), (3, 65535), (3, 14), (3, 16), (3, 24)]
    files = []
    off = rng.randrange(40)
    for fm in sorted(gen_meta.BUILD):
        if fm in ('NKD', 'A100', 'SRF'):
            continue
        for i in range(n):
            f = gen_meta.make(fm, rng.choice(small(by[fm])), '%s%d/%s%d' % (name, ck.seed, fm, i), rng.random(), {'orient': vals[(i + off) % len(vals)]}, plain=i % 3 == 0)
            f['id'] = '%s%s%d' % (name, fm, i)
            f['what'] += ' %s' % (vals[(i + off) % len(vals)],)
            files.append(f)
    ck.sample({'files': len(files), 'values': [str(v) for v in vals]})
    meta_run.run_meta(ck, files, ['orient'], name=name)


def run(ck):
    for r in range(8 if ck.thorough else 1):
        one(ck, random.Random('C15/%d/%d' % (ck.seed, r)), 160 if ck.thorough else 60, 'turn%d_' % r)
        recorded(ck, random.Random('C15f/%d/%d' % (ck.seed, r)), 60 if ck.thorough else 29, 'rec%d_' % r)
