"""Levels, white balance, tone."""
import random
import dev
import c16


def levels(ck, rng, n, name):
    """any levels and white balance against the same image with both applied by the specification"""
    items = []
    for i in range(n):
        kind = ('cpp3', 'bayer', 'mono', 'fourE', 'cpp3', 'xtrans')[i % 6]
        pat = c16.pattern(rng, kind)
        crops = [rng.choice([0, 0, 1, 2]) for _ in range(4)]
        w, h = rng.randint(2, 9), rng.randint(2, 9)
        if i >= n - 12:
            w, h = (rng.randint(2, 4), rng.randint(130, 400)) if i < n - 6 else (rng.randint(130, 400), rng.randint(2, 4))
        C = c16.spec_case(rng, kind, w, h, crops, 1, pat)
        if kind == 'fourE':
            C['use'] = [3, 1, 2]
        if kind != 'mono' and rng.random() < .8:
            for c in (0, 2, 3):
                C['p'][c], C['q'][c] = rng.choice([(1, 1), (2, 1), (3, 2), (1, 2), (7, 4), (5, 3), (9, 4), (15, 8), (3, 4)])
        if kind == 'fourE' and (i // 6) % 3 == 0:
            C['p'][3] = C['q'][3] = 1           # nothing recorded for the fourth colour: like green
        same = rng.random() < .3
        for c in range(4):
            rg = 65535 // C['q'][c]
            b = 0 if kind == 'xtrans' else rng.choice([0, 1, 64, 127, 255, 512, 1024, 2047])
            wl = min(65535, b + rng.choice([rg, rng.randint(200, rg), 4095, 16383, 1000]) if rg > 16383 else b + rng.randint(200, rg))
            wl = min(wl, b + rg)
            C['black'][c], C['white'][c] = b, wl
        if kind == 'mono':
            same = True
        if same:
            C['black'] = [C['black'][1]] * 4
            C['white'] = [min(C['white'][1], C['black'][1] + 65535 // max(C['q']))] * 4
        lo = max(C['black'])
        step = 840 if C['cpp'] == 1 and pat else 1
        C['data'] = [max(d, (lo + step - 1) // step * step) if rng.random() < .7 else
                     step * ((rng.randint(lo, max(C['white']) + 500) + step - 1) // step) for d in C['data']]
        C['data'] = [min(d, 65520 // step * step) for d in C['data']]
        k = rng.choice([1., 1., 2., 1024., .37, 256., 1e-3])
        wb = tuple(k * C['p'][c] / C['q'][c] for c in range(4))
        if kind == 'mono':
            wb = rng.choice([(float('nan'),) * 4, (2., 1., 3., 1.), (1., 1., 1., 1.)])
        elif (i // 6) % 3 == 0 if kind == 'fourE' else rng.random() < .5:
            wb = wb[:3] + (float('nan'),)
        items.append(('%s%d' % (name, i), C, pat, wb, (0, 0), '%s black %s white %s wb %s' % (kind, C['black'], C['white'], [round(x, 4) for x in wb])))
    ck.sample({'level cases': len(items), 'examples': [x[5] for x in items[:4]]})
    c16.same_cases(ck, items, name, 10)


def missing_wb(ck, rng, n, name):
    """no white balance recorded = the neutral one of the camera"""
    import common
    jobs, imgs = [], []
    for i in range(n):
        m3 = rng.choice(dev.MATS) + [[0, 0, 0]]
        data = [rng.randrange(65521) for _ in range(27)]
        pat = rng.choice(['', 'RGGB'])
        im = dev.img(3, 3, 3, pat, data=data, xyz=m3, wb=(1., 1., 1., 1.))
        imgs.append(im)
        jobs.append(dict(id='n%d' % i, op='develop', img=im, develop=[], matrix=True))
    r = common.run_harness(jobs, ck.wd)
    jobs, meta = [], []
    for i, im in enumerate(imgs):
        nb = r['n%d' % i]['matrix']['neutralwb']
        cid = '%s%d' % (name, i)
        bad = [rng.choice([dev.NAN, 0, dev.f32(float('inf'))]) for _ in range(4)]
        for k in range(3):
            if rng.random() < .4 and any(not ok(b) for j, b in enumerate(bad[:3]) if j != k):
                bad[k] = dev.f32(1.5)
        a = dict(im, wb=bad)
        b = dict(im, wb=nb[:3] + [dev.NAN])
        jobs.append((cid, a, [('linear', 0, 0)]))
        jobs.append((cid + '.ref', b, [('linear', 0, 0)]))
        meta.append((cid, a, 'unusable white balance %s' % [dev.unf(x) for x in bad]))
    r = dev.develop(jobs, ck)
    cases, info = [], {}
    for cid, im, what in meta:
        a, b = r[cid][0], r[cid + '.ref'][0]
        cases.append(dev.case(cid, 'same', im, a, b={k: v for k, v in b.items() if k != 'res'}, tol=8))
        info[cid] = (what, {'image': im})
    dev.check(ck, cases, info, name)


def ok(b):
    x = dev.unf(b)
    return x == x and abs(x) != float('inf') and abs(x) > 1e-30


def tone(ck, rng, n, name):
    """grey ramps and random colours in all three forms"""
    jobs, meta = [], []
    for i in range(n):
        black = rng.choice([0, 0, 64, 512, 1023])
        white = rng.choice([65535, 4095, 16383, black + 300, rng.randint(black + 100, 65535)])
        m3 = rng.choice(dev.MATS) + [[0, 0, 0]]
        grey = i % 3 != 2
        rows = 4
        y = ((50 + 16) / 116.) ** 3     # lightness one half is the middle of the curve
        if i % 6 < 2 and white - black < 30000:
            white = 65535
        if grey:
            cols = sorted(set([black, white, max(0, black - 1), 0, 65535, min(65535, white + 1)] +
                              [black + (white - black) * k // 700 for k in range(701)] +
                              [rng.randint(black, white) for _ in range(80)] + [int(round(black + (white - black) * y))] + [black + (white - black) * k // 60000 for k in range(120)]))
            if i % 3 == 0:
                data = [v for _ in range(rows) for v in cols for _ in range(3)]
                im = dev.img(len(cols), rows, 3, '', data=data, black=(black,) * 4, white=(white,) * 4, xyz=m3)
            else:
                data = [v for _ in range(rows) for v in cols]
                im = dev.img(len(cols), rows, 1, '', data=data, black=(black,) * 4, white=(white,) * 4, xyz=m3,
                             wb=rng.choice([(1., 1., 1., 1.), (float('nan'),) * 4]))
        else:
            cols = list(range(60))
            data = [rng.choice([0, 65535, rng.randrange(65536), rng.randint(max(0, black - 50), white)]) for _ in range(60 * rows * 3)]
            im = dev.img(60, rows, 3, '', data=data, black=(black,) * 4, white=(white,) * 4, xyz=m3,
                         wb=rng.choice([(1., 1., 1., 1.), (2., 1., 1.5, float('nan')), (.5, 1., 8., 1.), (float('nan'),) * 4]))
        cid = '%s%d' % (name, i)
        jobs.append((cid, im, [('linear', 0, 0), ('rgb', 0, 0), ('srgb', 0, 0)]))
        mid = [x for x, v in enumerate(cols) if grey and abs((v - black) / float(white - black) - y) < 2e-5]
        meta.append((cid, im, dict(grey=grey, blackat=[x for x, v in enumerate(cols) if grey and v <= black],
                                   whiteat=[x for x, v in enumerate(cols) if grey and v >= white], midat=mid, mid=int(65536 * y)),
                     '%s black %d white %d' % ('grey ramp' if grey else 'random colours', black, white)))
    r = dev.develop(jobs, ck)
    cases, info = [], {}
    for cid, im, kw, what in meta:
        a, g, e = r[cid]
        strip = lambda p: {k: v for k, v in p.items() if k != 'res'}
        if g['res'] != 'ok' or e['res'] != 'ok':
            a = dict(a, res='%s %s' % (g['res'], e['res']))
        elif (g['w'], g['h'], e['w'], e['h'], g['len'], e['len']) != (a['w'], a['h']) * 2 + (a['len'],) * 2:
            a = dict(a, res='the three forms have different sizes')
        cases.append(dev.case(cid, 'tone', im, a, g=strip(g), e=strip(e), **kw))
        info[cid] = (what, {'image': im})
    ck.sample({'tone cases': len(cases), 'first': [m[3] for m in meta[:3]], 'middle points': sum(len(m[2]['midat']) for m in meta)})
    dev.check(ck, cases, info, name)


def run(ck):
    for r in range(10 if ck.thorough else 1):
        k = 3 if ck.thorough else 1
        levels(ck, random.Random('C17/l/%d/%d' % (ck.seed, r)), 180 * k, 'level%d_' % r)
        missing_wb(ck, random.Random('C17/n/%d/%d' % (ck.seed, r)), 30 * k, 'nowb%d_' % r)
        tone(ck, random.Random('C17/t/%d/%d' % (ck.seed, r)), 18 * k, 'tone%d_' % r)
