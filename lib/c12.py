"""Black and white levels."""
import random
import meta_run
from c06 import BIG, cams_of
from gen_meta import VARIANTS, BUILD, make, masked
from c11 import reduced

ASPECTS = ['white', 'black']


def levels(ck, rnd, n):
    rng = random.Random('C12/%d/%d' % (ck.seed, rnd))
    by = cams_of()
    files = []

    def add(fm, cam, i, o, what=''):
        f = make(fm, cam, 'C12/%d/%d/%s/%d' % (ck.seed, rnd, fm, i), rng.random(), o, plain=i % 3 == 0)
        f['id'] = '%s%d_%d' % (fm, rnd, len(files))
        f['what'] += ' ' + what
        files.append(f)
    # masked borders: every camera that has one
    i = 0
    for fm in ('CR2', 'CRW'):
        for cam in by[fm]:
            if not masked(cam):
                continue
            i += 1
            if fm == 'CRW' and (i + rnd) % 4 and not ck.thorough:
                continue
            style = i % 5
            o = {}
            if fm == 'CR2':
                r2 = random.Random('v%d/%d' % (i, rnd))

                def vals(w, h, r2=r2, style=style):
                    if style == 0:
                        return [r2.randrange(1 << 14) for _ in range(w * h)]
                    if style == 1:        # very different in each position
                        a = [r2.randrange(1 << 14) for _ in range(4)]
                        return [a[(k // w % 2) * 2 + k % w % 2] for k in range(w * h)]
                    if style == 2:
                        return [16383] * (w * h)
                    if style == 3:        # one spot in the darkness
                        v = [r2.choice([0, 1, 127])] * (w * h)
                        for _ in range(3):
                            v[r2.randrange(w * h)] = 16383
                        return v
                    return [(7 * (k // w) + 3 * (k % w)) & 16383 for k in range(w * h)]
                o['vals'] = vals
            add(fm, cam, i, o, 'masked border, style %d' % style)
    # sums beyond 32 bits
    wide = [c for c in by['CR2'] if VARIANTS[c].get('blackareav', [0, 0])[1] >= 260]
    for i in range(2 if not ck.thorough else 6):
        v = rng.choice([16383, 16382, 16000])
        add('CR2', rng.choice(wide), 5000 + i, {'dims': (264, 4700), 'vals': lambda w, h, v=v: [v] * (w * h)}, 'bright masked border')
    nm = len(files)
    # recorded levels
    for i in range(4 * n):
        add('DNG', rng.choice(by['DNG']), i, {'bk': ('none', 'one', 'pattern', 'comp')[i % 4], 'linear': (i // 4) % 3 == 2}, 'recorded')
    for i in range(n):
        add('PEF', rng.choice(by['PEF']), i, {'black': i % 3 != 2}, 'recorded')
        add('IIQ', rng.choice(by['IIQ']), i, {} if i % 3 else {'black': None}, 'recorded')
    # the camera's own
    for fm in sorted(BUILD):
        if fm in ('DNG', 'PEF', 'IIQ', 'NKD'):
            continue
        for i in range(n // 3 if fm not in BIG else 2):
            cs = [c for c in by[fm] if fm not in ('CR2', 'CRW') or not masked(c)]
            add(fm, rng.choice(cs), i, {}, "camera's own")
    ck.sample({'masked': nm, 'files': len(files)})
    meta_run.run_meta(ck, files, ASPECTS, name='lv%d' % rnd)


def full_size(ck, rnd):
    """bare data of the real sensor size"""
    files = []
    for i, c in enumerate(sorted(c for c in VARIANTS if VARIANTS[c].get('filesize') and not c[2])):
        f = make('NKD', c, 'C12n/%d/%d/%d' % (ck.seed, rnd, i), i)
        f['id'] = 'nkd%d_%d' % (rnd, i)
        files.append(f)
    ck.sample({'full size files': len(files)})
    meta_run.run_meta(ck, files, ASPECTS, name='nkd%d' % rnd)


def run(ck):
    for r in range(12 if ck.thorough else 1):
        levels(ck, r, 60 if ck.thorough else 45)
    reduced(ck, 1, 60 if ck.thorough else 15)
    for r in range(4 if ck.thorough else 1):
        full_size(ck, r)
