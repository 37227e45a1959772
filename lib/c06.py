"""The same content in many arrangements."""
import random
import meta_run
from gen_meta import VARIANTS, BUILD, formats, make

TIFFS = [f for f in sorted(BUILD) if f not in ('ARI', 'NKD')]


BIG = ('A100', 'SRF')      # large files


def cams_of():
    by = {'DNG': [('Foo', 'Bar', ''), ('Canon', 'Canon EOS 5D', ''), ('NIKON CORPORATION', 'NIKON D3', '')]}
    for cam in sorted(VARIANTS):
        for fm in formats(cam):
            by.setdefault(fm, []).append(cam)
    return by


KINDS = {'ARW': ['RGGB', 'GRBG'], 'CR2': ['color', 'ps', 'old', 'none'], 'CRW': ['wb', 'info2', 'info2g', 'info2e', 'info1', 'info768', 'info770', 'none'],
         'NEF': ['wb0', '0100', '0103', '0204', '0205'], 'NRW': ['wb0', 'nrw100', 'nrw', 'old'], 'ORF': ['mul', 'proc2', 'proc3', 'proc4', 'procinl', 'onered', 'oneblue'],
         'RW2': ['rb', 'rgb'], 'RAF': ['new', 'old'], 'KDC': ['kdc', 'kodak', 'kodak1502'], 'MOS': ['neut', 'none', 'three', 'short', 'edge', 'real']}


def small(cams):
    """cameras without masked borders, whose pictures can be tiny: the arrangement is what matters here"""
    return [c for c in cams if not (VARIANTS.get(c, {}).get('blackareah') or VARIANTS.get(c, {}).get('blackareav'))] or cams


def rearranged(ck, rnd, contents, k):
    rng = random.Random('C06/%d/%d' % (ck.seed, rnd))
    by = cams_of()
    files = []
    for fm in TIFFS:
        ks = KINDS.get(fm, [None])
        off = rng.randrange(60)
        for i in range(max(contents, len(ks)) if fm not in BIG else 1):
            cam = rng.choice(small(by[fm]))
            o = {'kind': ks[(i + off) % len(ks)]} if ks[0] else {}
            if fm == 'DNG':
                o['bk'] = ('none', 'one', 'pattern', 'comp')[(i + off) % 4]
            cseed = 'C06/%d/%d/%s/%d' % (ck.seed, rnd, fm, i)
            for j in range(k if fm not in BIG else 4):
                oo = dict(o, e='<>'[j % 2]) if fm not in ('IIQ', 'RW2') else o
                if j == 3 and i == 1 and fm in ('DNG', 'NEF', 'CR2', 'ARW', 'PEF', 'RW2', 'MRW', 'SRW'):
                    oo = dict(oo, unknown=rng.choice([600, 1500, 3000]))
                if j == 5 and i in (2, 3) and fm not in BIG:
                    oo = dict(oo, pad=rng.choice([66000, 70000, 131000]))
                f = make(fm, cam, cseed, '%s/%d' % (rng.random(), j), oo, plain=j == 0)
                f.update(id='%s%d_%d_%d' % (fm, rnd, i, j), group='%s%d_%d' % (fm, rnd, i))
                files.append(f)
    ck.sample({'contents': len({f['group'] for f in files}), 'files': len(files), 'formats': TIFFS})
    meta_run.run_meta(ck, files, name='arr%d' % rnd)


def graph(ck, n, k):
    """every arrangement of n directories with up to k pointers each"""
    import graphs
    g = graphs.plan(ck, n, k, True)
    graphs.replay(ck, g, 'graph%d%d_' % (n, k))
    ck.sample({'directory graphs': len(g), 'directories': n, 'pointers': k})


def run(ck):
    graph(ck, 2, 2)
    graph(ck, 3, 1)
    import graphs
    graphs.replay(ck, graphs.larger(random.Random('C06g/%d' % ck.seed), 3000 if ck.thorough else 300), 'larger')
    if not ck.thorough:
        rearranged(ck, 0, 8, 9)
        return
    graph(ck, 2, 4)
    graph(ck, 3, 2)
    for r in range(12):
        rearranged(ck, r, 8, 16)
