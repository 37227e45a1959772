"""Demosaic and reduction: the specification computes the colours of every pixel
(Reference in Develop.tla); developing the mosaic must give the same picture as
developing that reference."""
import random
import dev

KINDS = ['bayer', 'xtrans', 'four', 'fourE', 'wide', 'cpp3', 'mono', 'bayer', 'twelve', 'xtrans']


def pattern(rng, kind):
    if kind == 'bayer':
        return rng.choice(dev.BAYER)
    if kind == 'xtrans':
        p = rng.choice(dev.XTRANS)
        # any cyclic shift of it
        dy, dx = rng.randrange(6), rng.randrange(6)
        return ''.join(p[(y + dy) % 6 * 6 + (x + dx) % 6] for y in range(6) for x in range(6))
    if kind in ('four', 'fourE'):
        return rng.choice([p for p in dev.FOUR if kind == 'four' or all(c in p for c in 'GB') or 'M' in p])
    if kind == 'wide':
        return dev.WIDE
    if kind == 'twelve':
        return ''.join(rng.choice('RGBG') for _ in range(144))
    return rng.choice(['', 'RGGB']) if kind == 'cpp3' else ''


def spec_case(rng, kind, w, h, crops, f, pat, levels=False):
    fw, fh = w + crops[1] + crops[3], h + crops[0] + crops[2]
    cpp = 3 if kind == 'cpp3' else 1
    step = 840 if cpp == 1 and pat else (1 if f == 1 else f * f)
    top = 65520 // step
    style = rng.randrange(3)
    data = [step * (rng.randint(0, top) if style else rng.choice([0, top])) for _ in range(fw * fh * cpp)]
    C = dict(w=fw, h=fh, cpp=cpp, crops=list(crops), data=data, black=[0] * 4, white=[65520] * 4, p=[1] * 4, q=[1] * 4, f=f, use=[0, 1, 2])
    C.update(dev.patrec(pat if cpp == 1 else ''))
    return C


def images(C, pat, m3, wb=None):
    """the image under test and its reference, given the plan"""
    zero = [0, 0, 0]
    if C['use'][0] == 3:
        xyz = [zero, m3[1], m3[2], m3[0]]
    else:
        xyz = m3 + [zero]
    im = dev.img(C['w'], C['h'], C['cpp'], pat, C['crops'], C['data'], C['black'], C['white'], wb or (1., 1., 1., 1.), xyz)
    return im


def reference(P, m3):
    return dev.img(P['w'], P['h'], 3, '', (0, 0, 0, 0), P['data'], (0,) * 4, list(P['white']) + [1], (1., 1., 1., 1.), m3 + [[0, 0, 0]])


def same_cases(ck, items, name, tol):
    """items: (id, C, pat, wb, limits, what)"""
    plans = dev.plan(ck, [C for _, C, *_ in items])
    jobs, ims = [], {}
    for (cid, C, pat, wb, lim, what), P in zip(items, plans):
        m3 = dev.MATS[hash_id(cid) % len(dev.MATS)]
        im = images(C, pat, m3, wb)
        ims[cid] = im
        jobs.append((cid, im, [('linear', lim[0], lim[1])]))
        jobs.append((cid + '.ref', reference(P, m3), [('linear', 0, 0)]))
    r = dev.develop(jobs, ck)
    cases, info = [], {}
    for cid, C, pat, wb, lim, what in items:
        a, b = r[cid][0], r[cid + '.ref'][0]
        if b['res'] != 'ok':
            a = dict(a, res='reference: ' + b['res'])
        cases.append(dev.case(cid, 'same', ims[cid], a, lim[0], lim[1], b={k: v for k, v in b.items() if k != 'res'}, tol=tol))
        info[cid] = (what, {'image': ims[cid], 'limits': lim})
    dev.check(ck, cases, info, name)


def hash_id(s):
    h = 0
    for c in s:
        h = (h * 31 + ord(c)) % 1000003
    return h


def mosaic(ck, rng, n, name):
    items = []
    for i in range(n):
        kind = KINDS[i % len(KINDS)]
        f = (1, 1, 2, 1, 3, 4)[(i // len(KINDS)) % 6]
        pat = pattern(rng, kind)
        if kind == 'twelve':
            f = 1
        if kind in ('xtrans',) and f in (2, 4):
            f = 3 if f == 2 else 6
        if kind in ('four', 'fourE', 'wide') and f == 3:
            f = 2
        crops = [rng.choice([0, 0, 1, 2, 3, 5]) for _ in range(4)]
        lo = 2 if f == 1 else 1
        w, h = f * rng.randint(lo, 14 if f == 1 else 6), f * rng.randint(lo, 14 if f == 1 else 6)
        if f > 1 and kind == 'bayer' and f == 3:
            w, h = max(w, 6), max(h, 6)
        if i >= n - 2 * len(KINDS):
            # long pictures, tall and wide
            long = f * (rng.randint(130, 400) // f)
            w, h = (w, long) if i % 2 else (long, h)
            if i >= n - len(KINDS):
                w, h = h, w
        C = spec_case(rng, kind, w, h, crops, f, pat)
        if kind == 'fourE':
            C['use'] = [3, 1, 2]
        # limits that ask for exactly that factor
        lim = (0, 0) if f == 1 else rng.choice([(w // f, h // f), (w // f, h), (w, h // f)])
        items.append(('%s%d' % (name, i), C, pat, None, lim, '%s %dx%d crops %s factor %d %s' % (kind, w, h, crops, f, pat[:4])))
    ck.sample({'cases': len(items), 'examples': [x[5] for x in items[:len(KINDS)]]})
    same_cases(ck, items, name, 8)


def region(ck, rng, n, name):
    """reduced pictures of a flat field with a rectangle of another colour"""
    jobs, meta = [], []
    for i in range(n):
        kind = KINDS[i % len(KINDS)]
        if kind == 'twelve':
            kind = 'bayer'
        pat = pattern(rng, kind)
        crops = [rng.choice([0, 0, 1, 2, 3]) for _ in range(4)]
        shape = rng.randrange(4)
        if shape == 0:
            w, h = rng.randint(20, 90), rng.randint(20, 90)
        elif shape == 1:
            w, h = rng.randint(60, 200), rng.randint(6, 30)
        elif shape == 2:
            w, h = rng.randint(6, 30), rng.randint(60, 200)
        else:
            w, h = rng.randint(6, 40), rng.randint(6, 40)
        sc = (1.1, 1.5, 1.9, 2.0, 2.3, 3.1, 3.7, 5.5, 8.3, 11.9, 12.5, 17.3, 29.)[(i // len(KINDS)) % 13]
        lim = rng.choice([(max(1, int(w / sc)), max(1, int(h / sc))), (max(1, int(w / sc)), h), (w, max(1, int(h / sc)))])
        fw, fh = w + crops[1] + crops[3], h + crops[0] + crops[2]
        cpp = 3 if kind == 'cpp3' else 1
        outer, inner = rng.choice([(0, 32768), (32768, 4096), (1024, 16384), (16384, 512)])
        x0, y0 = rng.randint(0, w - 1), rng.randint(0, h - 1)
        x1, y1 = min(w - 1, x0 + rng.randint(w // 4, w)), min(h - 1, y0 + rng.randint(h // 4, h))
        data = []
        for y in range(fh):
            for x in range(fw):
                cx, cy = x - crops[3], y - crops[0]
                if 0 <= cx < w and 0 <= cy < h:
                    v = inner if x0 <= cx <= x1 and y0 <= cy <= y1 else outer
                else:
                    v = 65520           # outside the crop: must not show anywhere
                data += [v] * cpp
        im = dev.img(fw, fh, cpp, pat, crops, data)
        cid = '%s%d' % (name, i)
        jobs.append((cid, im, [('linear', lim[0], lim[1])]))
        p3 = '' if cpp == 3 else pat
        # colours absent from the pattern stay empty in the flat fields as well
        jobs.append((cid + '.in', dev.img(12, 12, cpp, pat, fill=inner), [('linear', 0, 0)]))
        jobs.append((cid + '.out', dev.img(12, 12, cpp, pat, fill=outer), [('linear', 0, 0)]))
        meta.append((cid, im, lim, [x0, y0, x1, y1], '%s %dx%d limits %s rectangle %s' % (kind, w, h, lim, (x0, y0, x1, y1)), kind))
    r = dev.develop(jobs, ck)
    cases, info = [], {}
    for cid, im, lim, rect, what, kind in meta:
        a, bi, bo = r[cid][0], r[cid + '.in'][0], r[cid + '.out'][0]
        if bi['res'] != 'ok' or bo['res'] != 'ok':
            a = dict(a, res='reference')
        mid = (6 * 12 + 6) * 3
        cases.append(dev.case(cid, 'region', im, a, lim[0], lim[1], rect=rect, inner=bi['data'][mid:mid + 3], outer=bo['data'][mid:mid + 3],
                              slack=2, tol=8, edge=kind == 'xtrans'))
        info[cid] = (what, {'image': im, 'limits': lim})
    ck.sample({'region cases': len(cases), 'first': [m[4] for m in meta[:3]]})
    dev.check(ck, cases, info, name)


def run(ck):
    for r in range(10 if ck.thorough else 1):
        mosaic(ck, random.Random('C16/m/%d/%d' % (ck.seed, r)), 360 if ck.thorough else 180, 'mosaic%d_' % r)
        region(ck, random.Random('C16/r/%d/%d' % (ck.seed, r)), 300 if ck.thorough else 120, 'region%d_' % r)
