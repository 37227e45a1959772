"""Size of developed pictures."""
import random
import dev


def pick(rng, big):
    m = rng.random()
    if m < .3:
        return rng.randint(1, 12), rng.randint(1, 12)
    if m < .6:
        return rng.randint(1, 120), rng.randint(1, 120)
    if m < .8:
        a, b = rng.randint(1, 4), rng.randint(50, 900)
        return (a, b) if rng.random() < .5 else (b, a)
    return rng.randint(1, big), rng.randint(1, big)


def limits(rng, w, h):
    m = rng.randrange(12)
    if m == 0:
        return 0, 0
    if m == 1:
        return rng.choice([(0, rng.randint(1, h)), (rng.randint(1, w), 0)])
    if m == 2:
        return w, h
    if m == 3:
        return max(1, w - 1), h
    if m == 4:
        return w, max(1, h - 1)
    if m == 5:
        return w + 1, max(1, h - 1)
    if m == 6:
        return rng.randint(1, 2 * w), rng.randint(1, 2 * h)
    if m == 7:
        return rng.randint(1, 5), rng.randint(1, 5)
    if m == 8:
        f = rng.randint(2, 6)
        return max(1, w // f), max(1, h // f)
    if m == 9:
        return 1, rng.choice([1, 5, h])
    if m == 10:
        return rng.choice([1920, 500, 10 ** 6]), rng.choice([1080, 500, 10 ** 6])
    return h, w


def one(ck, rng, n, big, name):
    jobs, meta = [], []
    for i in range(n):
        w, h = pick(rng, big)
        kind = ('cpp3', 'mono', 'bayer', 'xtrans', 'four', 'twelve')[i % 6]
        crops = [rng.choice([0, 0, 1, 2, 7]) for _ in range(4)]
        fw, fh = w + crops[1] + crops[3], h + crops[0] + crops[2]
        cpp = 3 if kind == 'cpp3' else 1
        pat = {'cpp3': rng.choice(['', 'RGGB']), 'mono': '', 'bayer': rng.choice(dev.BAYER), 'xtrans': dev.XTRANS[0], 'four': 'RGEB',
               'twelve': (dev.XTRANS[0] * 4)[:144]}[kind]
        o = rng.randrange(0, 10)
        uw, uh = (h, w) if 5 <= o <= 8 else (w, h)
        lim = limits(rng, uw, uh)
        im = dev.img(fw, fh, cpp, pat, crops, fill=rng.choice([0, 30000, 65520]), orient=o)
        out = rng.choice(['rgb', 'linear', 'srgb'])
        jobs.append(('%s%d' % (name, i), im, [(out, lim[0], lim[1])]))
        meta.append(('%s%d' % (name, i), im, lim, '%s %dx%d orientation %d limits %s %s' % (kind, w, h, o, lim, out)))
    finish(ck, jobs, meta, name)


def grid(ck, n, m, name):
    """every size up to n x n with all limits up to m"""
    jobs, meta = [], []
    k = 0
    for w in range(1, n + 1):
        for h in range(1, n + 1):
            for mw in range(m + 1):
                for mh in range(m + 1):
                    o = (1, 6, 3, 5, 0, 8, 2, 7, 4)[k % 9]
                    k += 1
                    pat, cpp = (('RGGB', 1), ('', 3), ('', 1))[k % 3]
                    im = dev.img(w, h, cpp, pat, fill=1000, orient=o)
                    cid = '%s%d' % (name, k)
                    jobs.append((cid, im, [('linear', mw, mh)]))
                    meta.append((cid, im, (mw, mh), '%dx%d orientation %d limits %d %d' % (w, h, o, mw, mh)))
    finish(ck, jobs, meta, name)


def finish(ck, jobs, meta, name):
    r = dev.develop(jobs, ck, data=False)
    cases, info = [], {}
    for cid, im, lim, what in meta:
        a = dict(r[cid][0], data=[])
        cases.append(dev.case(cid, 'size', im, a, *lim))
        info[cid] = (what, {'image': im})
    ck.sample({'cases': len(cases), 'first': [m[3] for m in meta[:4]]})
    dev.check(ck, cases, info, name)


def run(ck):
    grid(ck, 8 if ck.thorough else 6, 9 if ck.thorough else 7, 'grid')
    if ck.thorough:
        for r in range(10):
            one(ck, random.Random('C14/%d/%d' % (ck.seed, r)), 3000, 500, 'size%d_' % r)
        one(ck, random.Random('C14/%d/big' % ck.seed), 300, 4000, 'big')
    else:
        one(ck, random.Random('C14/%d' % ck.seed), 1500, 300, 'size')
        one(ck, random.Random('C14/%d/big' % ck.seed), 60, 3500, 'big')
