"""Developing images with the real library and checking them against Develop*.tla."""
import json, math, os, random, struct
from common import *
from codec_run import parse_reports

NAN = 0x7fc00000
PATS = {4: (2, 2), 16: (2, 8), 36: (6, 6), 144: (12, 12), 0: (0, 0)}
COL = {'R': 0, 'G': 1, 'B': 2, 'E': 3, 'M': 1, 'Y': 3}
BAYER = ['RGGB', 'BGGR', 'GRBG', 'GBRG']
XTRANS = ['GBGGRGRGRBGBGBGGRGGRGGBGBGBRGRGRGGBG', 'GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG']
FOUR = ['ERBG', 'RGEB', 'GMYB', 'RGBE', 'BEGR']
WIDE = 'RGBERGBEGRBEGREB'


def f32(x):
    return struct.unpack('<I', struct.pack('<f', x))[0] if x == x else NAN


def unf(b):
    return struct.unpack('<f', struct.pack('<I', b))[0]


def q16(b):
    x = unf(b)
    if x != x or abs(x) > 16000:
        return 999999999
    return int(math.floor(x * 65536 + .5))


def mat(rows):
    return [[f32(float(v)) for v in r] for r in rows]


# camera matrices with well conditioned, realistic values
MATS = [[[1.0, 0.2, -.1], [.1, .9, .05], [-.05, .1, .8]],
        [[.6722, -.0635, -.0963], [-.4287, 1.2460, .2028], [-.0908, .2162, .5668]],
        [[9648, -2575, -1036], [-3709, 11371, 2739], [-1053, 2264, 7290]],
        [[2.0, 0, 0], [0, 1, 0], [0, 0, 1.5]]]


def img(w, h, cpp=1, pat='RGGB', crops=(0, 0, 0, 0), data=None, black=(0,) * 4, white=(65520,) * 4, wb=(1., 1., 1., float('nan')),
        xyz=None, orient=1, fill=None):
    m = xyz or (MATS[0] + [[0, 0, 0]])
    d = dict(width=w, height=h, cpp=cpp, wb=[f32(x) for x in wb], white=list(white), black=list(black), xyz=mat(m),
             cfa=pat, crops=list(crops), orientation=orient)
    if fill is not None:
        d['fill'] = fill
    else:
        d['data'] = data
    return d


def patrec(pat):
    w, h = PATS[len(pat)]
    return dict(pat=[COL[ch] for ch in pat], pw=w, ph=h)


def develop(jobs, ck, profile='dev', data=True):
    """jobs: [(id, img, [(kind, mw, mh)...])] -> {id: [pictures]}"""
    js = [dict(id=i, op='develop', img=im, develop=[dict(kind=k, mw=mw, mh=mh, inline=data) for k, mw, mh in ds]) for i, im, ds in jobs]
    r = run_harness(js, ck.wd, profile=profile)
    out = {}
    for i, im, ds in jobs:
        x = r[i]
        pics = []
        for n, (k, mw, mh) in enumerate(ds):
            p = x['dev'][n] if 'dev' in x else {'res': x['res']}
            if p['res'] != 'ok':
                pics.append({'res': p['res'], 'w': -1, 'h': -1, 'len': -1, 'data': []})
            else:
                d = [] if not data else p['data'] if k == 'srgb' else [q16(v) for v in p['data']]
                pics.append({'res': 'ok', 'w': p['width'], 'h': p['height'], 'len': p['len'], 'data': d})
        out[i] = pics
    return out


def size_of(im):
    c = im['crops']
    return im['width'] - c[1] - c[3], im['height'] - c[0] - c[2]


def case(cid, kind, im, a, mw=0, mh=0, orient=None, **kw):
    cw, ch = size_of(im)
    o = im['orientation'] if orient is None else orient
    d = dict(id=cid, kind=kind, res=a['res'], a={k: v for k, v in a.items() if k != 'res'}, cw=cw, ch=ch, mw=mw, mh=mh,
             orient=o if 1 <= o <= 8 else 1)
    d.update(kw)
    return d


def bt709(x):
    return 4.5 * x if x <= .018 else 1.099 * x ** .45 - .099


def check(ck, cases, info, name):
    """info: {case id: (what, payload)}"""
    p = os.path.join(ck.wd, name + '.json')
    cv = os.path.join(ck.wd, 'curve.json')
    with open(p, 'w') as f:
        json.dump(cases, f)
    with open(cv, 'w') as f:
        json.dump([int(round(65536 * bt709(k * 64 / 65536))) for k in range(1025)], f)
    r = run_tlc('DevelopTrace', 'SPECIFICATION Spec\nINVARIANT Conforms\nALIAS Report\nCHECK_DEADLOCK FALSE\n', ck.wd,
                {'CASES': p, 'CURVE': cv}, cont=True)
    ck.add_tlc(r, name)
    ck.cov['traces_validated_against_impl'] += len(cases)
    ck.cov['values_compared'] += sum(len(c['a']['data']) for c in cases if c['kind'] != 'size') + sum(1 for c in cases if c['kind'] == 'size')
    bad = parse_reports(r['out'])
    if r['violation'] and not bad:
        raise ToolError('violation could not be read:\n' + r['out'][-3000:])
    if not r['violation']:
        want = sum(1 + (c['a']['h'] if c['kind'] != 'size' else 0) for c in cases)
        if r['distinct'] != want:
            raise ToolError('specification did not run to completion: %d of %d' % (r['distinct'], want))
    for cid, what in sorted(bad.items()):
        w, payload = info[cid]
        ck.violation('%s' % cid, '%s (%s): %s' % (cid, w, what), [], payload)
    os.remove(p)


def plan(ck, specs):
    """reference pictures computed by the specification, in order"""
    p = os.path.join(ck.wd, 'plan.json')
    od = fresh_dir(os.path.join(ck.wd, 'plan'))
    with open(p, 'w') as f:
        json.dump(specs, f)
    r = run_tlc('DevelopPlan', 'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', ck.wd, {'CASES': p, 'OUTDIR': od})
    ck.add_tlc(r, 'plan')
    out = []
    for i in range(len(specs)):
        with open(os.path.join(od, '%d.json' % (i + 1))) as f:
            out.append(json.load(f))
    shutil.rmtree(od)
    os.remove(p)
    return out
