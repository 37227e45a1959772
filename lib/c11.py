"""White balance, in every place and form."""
import random
import meta_run
from c06 import KINDS, BIG, cams_of
from gen_meta import VARIANTS, BUILD, make


def strata(fm, cams):
    """cameras of a format by what matters for the place of the white balance"""
    out = {}
    for c in cams:
        a = VARIANTS.get(c, {})
        key = (c[0], a.get('wb_offset', 0), tuple(h for h in a.get('hints', []) if h in ('nowb', 'swapped_wb', 'coolpixsplit', 'msb32')))
        out.setdefault(key, []).append(c)
    return [out[k] for k in sorted(out)]


def balances(ck, rnd, n):
    rng = random.Random('C11/%d/%d' % (ck.seed, rnd))
    by = cams_of()
    files = []
    for fm in sorted(BUILD):
        if fm == 'NKD':
            continue
        st = strata(fm, by[fm])
        ks = KINDS.get(fm, [None])
        m = max(n * len(ks), len(st) * len(ks))
        for i in range(m if fm not in BIG else 4):
            kind = ks[i % len(ks)]
            cam = rng.choice(st[(i // len(ks)) % len(st)])
            o = {'kind': kind} if kind else {}
            if fm == 'DNG':
                o['neutral'] = i % 4 != 3
            if fm == 'DCR':
                o['n'] = (72, 46, 45, 1000, 10, 734)[i % 6]
            if fm == 'MRW':
                o['same'] = i % 3
            if fm == 'RAF':
                o['style'] = 'old' if i % 5 == 4 else 'new'
            f = make(fm, cam, 'C11/%d/%d/%s/%d' % (ck.seed, rnd, fm, i), rng.random(), o, plain=i % 3 == 0)
            f['id'] = '%s%d_%d' % (fm, rnd, i)
            f['what'] += ' %s' % (kind or '')
            files.append(f)
    ck.sample({'files': len(files), 'storage variants': sum(len(KINDS.get(fm, [0])) for fm in BUILD)})
    meta_run.run_meta(ck, files, ['wb'], name='wb%d' % rnd)


def reduced(ck, rnd, n):
    """the reduced formats, which are three components"""
    import gen_lj, gen_v2
    files = []
    for name, g in (('sraw', gen_lj.gen_sraw), ('snef', gen_v2.gen_snef)):
        for i in range(n):
            f = g(random.Random('C11r/%d/%d/%s/%d' % (ck.seed, rnd, name, i)), i)
            files.append(dict(id='%s%d_%d' % (name, rnd, i), bytes=f['bytes'], what=f.get('what', name)))
    meta_run.run_meta(ck, files, ['wb', 'white', 'black', 'size', 'crops', 'pattern'], name='red%d' % rnd)


def naked(ck, rnd):
    """bare sensor data records no white balance"""
    files = []
    for i, c in enumerate(sorted(c for c in VARIANTS if VARIANTS[c].get('filesize') and not c[2])):
        f = make('NKD', c, 'C11n/%d/%d/%d' % (ck.seed, rnd, i), i)
        f['id'] = 'nkd%d_%d' % (rnd, i)
        files.append(f)
    meta_run.run_meta(ck, files, ['wb'], name='nkd%d' % rnd)


def scrambled(ck, rnd):
    """Nikon's white balance is scrambled by the serial number and a key: every value each of the two can come to"""
    rng = random.Random('C11k/%d/%d' % (ck.seed, rnd))
    cams = cams_of()['NEF']
    files, m, off = [], rng.randrange(1, 256, 2), rng.randrange(256)
    for i in range(256):
        k = [rng.randrange(256) for _ in range(3)]
        k.append((i * m + off) % 256 ^ k[0] ^ k[1] ^ k[2])
        rng.shuffle(k)
        n = i + 256 * rng.choice([0, 1, rng.randrange(1 << 20)])
        f = make('NEF', cams[(i * 5) % len(cams)], 'C11k/%d/%d/%d' % (ck.seed, rnd, i), rng.random(),
                 {'kind': ('0204', '0205')[(i + i // 2) % 2], 'serial': b'%d' % n, 'key': bytes(k)}, plain=True)
        f['id'] = 'key%d_%d' % (rnd, i)
        files.append(f)
    meta_run.run_meta(ck, files, ['wb'], name='key%d' % rnd)


def run(ck):
    for r in range(4 if ck.thorough else 1):
        scrambled(ck, r)
    for r in range(12 if ck.thorough else 1):
        balances(ck, r, 40 if ck.thorough else 30)
    reduced(ck, 0, 60 if ck.thorough else 15)
    naked(ck, 0)
