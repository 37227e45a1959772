"""Camera colour: conversion matrix, neutral white balance, scene colours through the whole pipeline."""
import json, os, random
import numpy as np
import db, dev
from common import *
from codec_run import parse_reports

S = np.array([[.412453, .357580, .180423], [.212671, .715160, .072169], [.019334, .119193, .950227]])
YMID = ((50 + 16) / 116.) ** 3


def response(X):
    X = np.array(X, float)
    r = X @ S
    n = r.sum(axis=1, keepdims=True)
    return np.where(n == 0, 0, r / np.where(n == 0, 1, n)), n[:, 0]


def usable(X):
    """well enough conditioned for single precision, so that the tolerance is about the formula and not about rounding"""
    if np.linalg.matrix_rank(np.array(X, float)) < 3:
        return False
    R, n = response(X)
    k = [i for i in range(4) if any(X[i])]
    if any(n[i] == 0 for i in k) or 1 not in k:
        return False
    if np.abs(R).max() > 12 or any(abs(n[1] / n[i]) > 15 for i in k) or any(n[i] <= 0 for i in k):
        return False
    if any(n[i] < .15 * sum(map(abs, X[i])) for i in k):
        return False
    M = np.diag(1 / np.array([.95047, 1, 1.08883])) @ S @ np.linalg.pinv(R)
    return np.abs(M).max() < 12 and np.linalg.cond(R) < 40


def matrices(rng, n):
    out = []
    seen = set()
    for key, a in sorted(db.variants().items()):
        m = a.get('color_matrix')
        if not m or len(m) not in (9, 12):
            continue
        X = [list(m[3 * i:3 * i + 3]) if 3 * i < len(m) else [0, 0, 0] for i in range(4)]
        t = tuple(map(tuple, X))
        if t in seen:
            continue
        seen.add(t)
        out.append(('/'.join(key), X))
    rand = 0
    while rand < n:
        four = rand % 2
        kind = rand % 5
        if kind < 3:
            base = rng.choice([[9648, -2575, -1036, -3709, 11371, 2739, -1053, 2264, 7290], [10000, 0, 0, 0, 10000, 0, 0, 0, 10000], [6722, -635, -963, -4287, 12460, 2028, -908, 2162, 5668]])
            X = [[int(base[3 * i + j] * rng.uniform(.4, 1.6) + rng.randint(-1500, 1500)) for j in range(3)] for i in range(3)]
        else:
            X = [[rng.randint(-14000, 14000) for _ in range(3)] for _ in range(3)]
        X.append([rng.randint(-9000, 13000) for _ in range(3)] if four else [0, 0, 0])
        if usable(X):
            out.append(('random%d' % rand, X))
            rand += 1
    return out


def scenes(rng, X, n):
    R, num = response(X)
    k = [i for i in range(4) if any(X[i])]
    out, tries = [], 0
    while len(out) < n and tries < 2000:
        tries += 1
        t = rng.random()
        rgb = YMID * np.ones(3) * (1 - t) + t * np.array([rng.uniform(0, 1) for _ in range(3)])
        rgb *= YMID / (S[1] @ rgb)
        if rgb.min() < .002 or rgb.max() > .98:
            continue
        cam = R @ rgb
        # inside what the sensor can represent, away from the dark end where the lightness is a straight line
        xyz = (S @ rgb) / np.array([.95047, 1, 1.08883])
        if min(cam[i] for i in k) < .003 or max(cam[i] for i in k) > .98 or xyz.min() < .02:
            continue
        out.append((rgb, cam))
    return out


def run_once(ck, rng, n, name):
    mats = matrices(rng, n)
    jobs, meta = [], []
    for i, (what, X) in enumerate(mats):
        four = any(X[3])
        sc = scenes(rng, X, 6)
        wb = [rng.choice([1., 1.5, 2.25]) for _ in range(4)]
        wb[1] = 1.
        white = 65535
        R, num = response(X)
        k = [j for j in range(4) if any(X[j])]
        neutral = [num[j] / max(num[q] for q in k) if j in k else 0 for j in range(4)]
        imgs = []
        if four:
            # two by two tiles: each pixel sees every colour once in a 2x2 crop
            for rgb, cam in sc:
                d = [min(65535, max(0, round(cam[j] * white / wb[j]))) for j in (0, 1, 2, 3)]
                imgs.append(dev.img(2, 2, 1, 'RGBE', data=d, white=(white,) * 4, xyz=X, wb=wb))
            d = [round(60000 * neutral[j]) for j in (0, 1, 2, 3)]
            imgs.append(dev.img(2, 2, 1, 'RGBE', data=d, white=(white,) * 4, xyz=X, wb=(float('nan'),) * 4))
        else:
            for rgb, cam in sc:
                d = [min(65535, max(0, round(cam[j] * white / wb[j]))) for j in (0, 1, 2)] * 2
                imgs.append(dev.img(2, 1, 3, '', data=d, white=(white,) * 4, xyz=X, wb=wb[:3] + [float('nan')]))
            d = [round(60000 * neutral[j]) for j in (0, 1, 2)] * 2
            imgs.append(dev.img(2, 1, 3, '', data=d, white=(white,) * 4, xyz=X, wb=(float('nan'),) * 4))
        for q, im in enumerate(imgs):
            jobs.append(dict(id='%d.%d' % (i, q), op='develop', img=im, develop=[dict(kind='linear', mw=0, mh=0, inline=True)], matrix=q == 0))
        meta.append((what, X, sc, wb, imgs))
    r = run_harness(jobs, ck.wd)
    cases, info = [], {}

    def fx(b, cap=1 << 18):
        v = dev.unf(b)
        return cap if v != v else int(max(-cap, min(cap, round(v * 16384)))) if abs(v) != float('inf') else cap
    for i, (what, X, sc, wb, imgs) in enumerate(meta):
        rs = [r['%d.%d' % (i, q)] for q in range(len(imgs))]
        bad = [x['res'] for x in rs if x['res'] != 'ok'] + [d['res'] for x in rs if 'dev' in x for d in x['dev'] if d['res'] != 'ok']
        cid = '%s%d' % (name, i)
        info[cid] = (what, {'matrix': X, 'images': imgs})
        if bad:
            cases.append(dict(id=cid, res=str(bad[0])))
            continue
        m = rs[0]['matrix']
        scene = []
        for (rgb, cam), x in zip(sc, rs):
            d = x['dev'][0]['data']
            M = np.linalg.inv(S) @ np.diag([.95047, 1, 1.08883])
            scene.append(dict(rgb=[round(v * 16384) for v in rgb], cam=[round(max(0, v) * 16384) for v in cam], out=[fx(v) for v in d[:3]], tol=16))
        grey = [[fx(v) for v in rs[-1]['dev'][0]['data'][:3]]]
        mx = max(abs(v) for row in X for v in row)
        XS = X if mx < 30000 else [[round(v * 24000 / mx) for v in row] for row in X]
        cases.append(dict(id=cid, res='ok', X=XS, M=[[fx(v) for v in row] for row in m['cam_to_xyz']], n=[fx(v) for v in m['neutralwb']],
                          tol=8, scene=scene, grey=grey))
    p = os.path.join(ck.wd, name + '.json')
    with open(p, 'w') as f:
        json.dump(cases, f)
    t = run_tlc('ColorTrace', 'SPECIFICATION Spec\nINVARIANT Conforms\nALIAS Report\nCHECK_DEADLOCK FALSE\n', ck.wd, {'CASES': p}, cont=True)
    ck.add_tlc(t, name)
    ck.cov['traces_validated_against_impl'] += len(cases)
    ck.cov['values_compared'] += sum(21 + 3 * len(c.get('scene', [])) for c in cases)
    ck.sample({'matrices': len(cases), 'of the database': sum(1 for m in meta if '/' in m[0]), 'four colours': sum(1 for m in meta if any(m[1][3])),
               'scene colours': sum(len(m[2]) for m in meta)})
    bad = parse_reports(t['out'])
    if t['violation'] and not bad:
        raise ToolError('violation could not be read:\n' + t['out'][-3000:])
    if not t['violation'] and t['distinct'] != sum(1 + len(c['scene']) for c in cases):
        raise ToolError('specification did not run to completion')
    for cid, what in sorted(bad.items()):
        w, payload = info[cid]
        ck.violation(cid, '%s (%s): %s' % (cid, w, what), [], payload)


def run(ck):
    for r in range(6 if ck.thorough else 1):
        run_once(ck, random.Random('C18/%d/%d' % (ck.seed, r)), 1500 if ck.thorough else 300, 'col%d_' % r)
