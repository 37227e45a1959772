"""Every camera of the database, in every format its files come in."""
import random
import gen_meta
import meta_run
from gen_meta import VARIANTS, formats, make

ASPECTS = ['names', 'white', 'black', 'matrix', 'pattern', 'crops']


def pairs():
    return [(cam, fm) for cam in sorted(VARIANTS) for fm in formats(cam)]


def cameras(ck, rnd, naked=None):
    """each (camera, format) once"""
    files = []
    rng = random.Random('C05/%d/%d' % (ck.seed, rnd))
    for i, (cam, fm) in enumerate(pairs()):
        if fm == 'NKD' and naked is not None and (i + naked) % 4:
            continue
        o = {}
        if fm not in ('ARI', 'NKD', 'MRW', 'CRW'):
            o['blank'] = ['', '', ' ', '     ', '\n', '\t '][(i + rnd) % 6]
            o['zeros'] = [1, 1, 2, 9][(i // 6 + rnd) % 4]
        f = make(fm, cam, 'C05/%d/%d/%d' % (ck.seed, rnd, i), rng.random(), o, plain=(i + rnd) % 3 == 0)
        f['id'] = 'cam%d_%d' % (rnd, i)
        files.append(f)
    ck.sample({'camera files': len(files), 'cameras': len({p[0] for p in pairs()}), 'formats': len({p[1] for p in pairs()})})
    meta_run.run_meta(ck, files, ASPECTS, name='cam%d' % rnd)


def mutants(rng, name):
    """names that are near but not the same"""
    out = [name + 'x', name + ' II', name[:-1], name.lower(), name.upper(), ' ' + name, name.replace(' ', '  ', 1), 'Unknown ' + str(rng.randrange(1000)), name + '\0']
    return out


def strangers(ck, rnd, n):
    """cameras that are not in the database are refused by name"""
    rng = random.Random('C05s/%d/%d' % (ck.seed, rnd))
    ps = [(c, f) for c, f in pairs() if f not in ('NKD', 'ARI')]
    byf = {}
    for c, f in ps:
        byf.setdefault(f, []).append(c)
    known = {}
    for (mk, md, mode) in VARIANTS:
        known.setdefault((mk, md), set()).add(mode)
    files = []
    fl = sorted(byf)
    k = 0
    while len(files) < n:
        fm = fl[k % len(fl)]
        k += 1
        cam = rng.choice(byf[fm])
        ms = [m for m in mutants(rng, cam[1]) if m != cam[1]]
        model = ms[(k // len(fl)) % len(ms)]
        if model.endswith('\0'):
            # a name that ends early is the shorter name
            continue
        mk = cam[0]
        if rng.random() < .25:
            # the same model from a maker of the same format
            others = sorted({c[0] for c in byf[fm]} - {mk})
            if others:
                mk, model = rng.choice(others), cam[1]
        if (mk, model.strip()) in known or (mk, model) in known or not model.strip():
            continue
        try:
            VARIANTS_saved = gen_meta.attrs
            gen_meta.attrs = lambda c, a=VARIANTS[cam]: a
            f = make(fm, (mk, model, cam[2]), 'C05s/%d/%d/%d' % (ck.seed, rnd, k), rng.random(), {}, plain=rng.random() < .4)
        finally:
            gen_meta.attrs = VARIANTS_saved
        f.pop('areas', None)
        f.update(id='un%d_%d' % (rnd, k), expect='err', refusal=model.strip(), what='unknown camera %r %r in %s' % (mk, model, fm))
        files.append(f)
    ck.sample({'unknown cameras': len(files), 'examples': [f['what'] for f in files[:5]]})
    meta_run.run_meta(ck, files, ASPECTS, name='un%d' % rnd)


def dngs(ck, rnd, n):
    """a DNG has the camera's names but its own attributes; makers of which the database has nothing keep their own names"""
    rng = random.Random('C05d/%d/%d' % (ck.seed, rnd))
    files = []
    cams = sorted(VARIANTS)
    for i in range(n):
        cam = cams[rng.randrange(len(cams))] if i % 3 else rng.choice([('Foo', 'Bar', ''), ('LEICA', 'M8', ''), ('Canon', 'Canon EOS', ''), ('PENTAX', 'Canon EOS 5D', '')])
        f = make('DNG', (cam[0], cam[1], ''), 'C05d/%d/%d/%d' % (ck.seed, rnd, i), rng.random(), {'blank': ['', ' ', '   '][i % 3]}, plain=i % 4 == 0)
        f['id'] = 'dng%d_%d' % (rnd, i)
        files.append(f)
    meta_run.run_meta(ck, files, ASPECTS, name='dng%d' % rnd)


def run(ck):
    if not ck.thorough:
        cameras(ck, 0)
        strangers(ck, 0, 120)
        dngs(ck, 0, 60)
        return
    for r in range(8):
        cameras(ck, r, naked=None)
        strangers(ck, r, 400)
        dngs(ck, r, 200)
