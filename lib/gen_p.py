"""Generators: every container with uncompressed samples, and the layout it means."""
import random, struct
from raw import *
from containers import *
import gen_v2, db

BITS = {'12be': 12, '12le': 12, '12be_msb16': 12, '12be_msb32': 12, '10be': 10, '10be_lsb16': 10}


def need(layout, w, h):
    if layout in ('12be_interlaced', '12be_interlaced_un'):
        half = (h + 1) // 2
        f2 = ((half * w * 3 // 2 >> 11) + 1) << 11 if layout == '12be_interlaced' else half * w * 3 // 2
        return f2 + (h // 2) * w * 3 // 2 if h > 1 else max(half * w * 3 // 2, f2)
    if layout.endswith('wcontrol'):
        return h * (w * 12 // 8 + (w + 2) // 10) + 1
    if layout == '16le_skip':
        return w * h * 4
    if layout == '8bit':
        return w * h + 4
    if layout in BITS:
        return (w * h * BITS[layout] + 7) // 8
    return w * h * 2


def case(layout, off, w, h, **kw):
    c = dict(layout=layout, off=off, w=w, h=h, rot=False, shift=[], optional=False)
    c.update(kw)
    return c


def done(i, name, f, C, want=None, what=''):
    want = want or [C['w'], C['h'], 1]
    r = dict(id='%s_%s' % (name, i), bytes=f, want=want, case=C, what='%s %s %dx%d %s' % (name, C['layout'], want[0], want[1], what))
    if isinstance(i, str):      # a large image: first, last, middle and some other rows
        rng = random.Random(i)
        h = want[1]
        r['rows'] = sorted({0, 1, h - 1, h - 2, h // 2, h // 2 + 1} & set(range(h)) | {rng.randrange(h) for _ in range(6)})
    return r


def big(rng):
    """is this one of the large images?  'big', 'wide' or 'tall'"""
    return getattr(rng, 'big', None)


def bigdims(rng, wmul=2, hmul=1):
    if big(rng) == 'wide':
        return wmul * (65536 // wmul + rng.randint(1, 40)), hmul * rng.randint(1, 3)
    if big(rng) == 'tall':
        return wmul * rng.randint(1, 2), hmul * ((50000 - rng.randint(0, 40)) // hmul)    # 50000 is the library's own limit
    return wmul * (rng.randint(600, 700) // wmul), hmul * (rng.randint(420, 480) // hmul)


def dims(rng, wmul=2, hmul=1, wmax=40, hmax=12, wmin=1):
    if big(rng):
        return bigdims(rng, wmul, hmul)
    return wmul * rng.randint(wmin, max(wmin, wmax // wmul)), hmul * rng.randint(1, hmax // hmul)


def g_dng(rng, i):
    bps = getattr(rng, 'bps', 0) or rng.choice([16, 16, 12, 10, 8])
    cpp = rng.choice([1, 1, 3])
    if getattr(rng, 'big', None) == 'wide':
        cpp = 1         # rows of more than 150000 samples are refused
    w, h = dims(rng, {16: 1, 12: 2, 10: 4, 8: 1}[bps])
    t, root, raw = dng_base(rng, w, h, cpp, bps, 1)
    lay = {16: '16le' if t.e == '<' else '16be', 12: '12be', 10: '10be', 8: '8bit'}[bps]
    data = rbytes(rng, need(lay, w * cpp, h))
    kw, cut = {}, []
    if isinstance(i, int) and h > 1 and i % 3:
        # several strips, one after the other or scattered over the file
        rps = rng.randint(1, h - 1)
        rb = w * cpp * bps // 8
        cut = [(y, min(h, y + rps)) for y in range(0, h, rps)]
        raw.add(0x0116, 4, [rps]).long('StripByteCounts', *[(b - a) * rb for a, b in cut])
    if cut and i % 3 == 2:
        refs = [t.blob('s%d' % a, data[a * rb:b * rb] + (b'\0' * 4 if bps == 8 else b'')) for a, b in cut]
        raw.long('StripOffsets', *refs)
    else:
        s = t.blob('s', data)
        raw.long('StripOffsets', *([Ref('s', a * rb) for a, b in cut] if cut else [s]))
    if bps == 8:
        kw['table'] = sorted(rng.randrange(65536) for _ in range(256))
        if rng.random() < .4:
            kw['table'] = [0] * 100 + [30000, 32768, 50000] + [65535] * 153
        if rng.random() < .3:
            dv = rng.choice([1, 4, 16])
            kw['table'] = [k * 257 // dv for k in range(256)]
        rng.choice([root, raw]).short('Linearization', *kw['table'])
    f = t.serialise(unknown=2, pad=5)
    off = t.pos['s0' if cut and i % 3 == 2 else 's']
    if cut and i % 3 == 2:
        kw['shift'] = [t.pos['s%d' % a] - (off + a * rb) for a, b in cut for _ in range(a, b)]
        kw['optional'] = True
    return done(i, 'dng', f, case(lay, off, w * cpp, h, **kw), [w, h, cpp], 'cpp %d %d strips' % (cpp, max(1, len(cut))))


def g_nef(rng, i):
    bps = getattr(rng, 'bps', 0) or rng.choice([12, 14])
    e = rng.choice('<>')
    cam = nikon_cam(rng, bps)
    w, h = dims(rng, 2)
    lay = ('12' + ('le' if e == '<' else 'be')) if bps == 12 else ('14%s_unp' % ('le' if e == '<' else 'be'))
    data = rbytes(rng, need(lay, w, h))

    def fill(mn, me):
        mn.rat('NefWB0', (3, 2), (7, 4), (1, 1), (1, 1))
    # either declared uncompressed, or recognisable by its size
    if rng.random() < .5:
        f, off = nef_wrap(rng, cam, w, h, bps, 1, data, fill, e=e, size=rng.choice([len(data), 0, 12345]))
    else:
        f, off = nef_wrap(rng, cam, w, h, bps, 34713, data, fill, e=e, size=w * h * bps // 8)
    return done(i, 'nef', f, case(lay, off, w, h), what=cam[1])


def g_d100(rng, i):
    h = rng.randint(150, 170) if big(rng) else rng.randint(1, 3)
    w = 3040
    lay = '12be_wcontrol'
    data = rbytes(rng, need(lay, w, h))

    def fill(mn, me):
        mn.rat('NefWB0', (3, 2), (7, 4), (1, 1), (1, 1))
    f, off = nef_wrap(rng, ('NIKON CORPORATION', 'NIKON D100'), 3034, h, 12, rng.choice([1, 34713]), data, fill)
    return done(i, 'd100', f, case(lay, off, w, h))


def g_nrw(rng, i):
    cam = pick(rng, 'NIKON', lambda k, a: not k[2])
    hints = db.variants()[cam].get('hints', [])
    lay = '12be_interlaced_un' if 'coolpixsplit' in hints else '12be_msb32' if 'msb32' in hints else '12be'
    w, h = 8 * rng.randint(126, 130), rng.randint(300, 320) if big(rng) else rng.randint(1, 5)
    data = rbytes(rng, need(lay, w, h))
    f, off = nrw(rng, cam, w, h, data)
    return done(i, 'nrw', f, case(lay, off, w, h), what=cam[1])


def g_orf(rng, i):
    cam = pick(rng, rng.choice(gen_v2.OLY), lambda k, a: not k[2])
    kind = getattr(rng, 'kind', 0) or ('left', 'int', 'ctl', 'msb32', 'int')[i % 5 if isinstance(i, int) else rng.randrange(5)]
    e = rng.choice('<>')
    w, h = dims(rng, 2)
    if kind == 'left':
        lay = '12le_left' if e == '<' else '12be_left'
        size = w * h * 2 + rng.choice([0, 1, 77])
    elif kind == 'ctl':
        w, h = bigdims(rng, 10) if big(rng) else (10 * rng.randint(1, 4), rng.randint(2, 9))
        lay = '12le_wcontrol'
        lo, hi = w * h // 10 * 16, w * h * 2 - 1
        size = rng.choice([lo, hi, rng.randint(lo, hi)])
    else:
        w, h = (2 * rng.randint(5, 20), rng.randint(1, 9)) if kind == 'int' else (3504 + 8 * rng.randint(0, 3), 1)
        if big(rng):
            w, h = (w, 100) if kind == 'msb32' else bigdims(rng, 2)
        elif kind == 'int' and rng.random() < .15:
            w = 3498
            h = rng.randint(1, 3)
        elif kind == 'msb32' and rng.random() < .5:
            w, h = 3500, 2 * rng.randint(1, 2)
        lay = '12be_interlaced' if kind == 'int' else '12be_msb32'
        lo, hi = w * h * 12 // 8, w * h // 10 * 16 - 1
        if lo > hi:
            return g_orf(rng, i)
        size = rng.choice([lo, hi, rng.randint(lo, hi)])
    data = rbytes(rng, need(lay, w, h))
    f, off, t = orf_file(rng, cam, w, h, data, size=size, e=e, chunks=rng.choice([1, 1, 2, 3]))
    return done(i, 'orf', f, case(lay, off, w, h), what=cam[1])


def g_rw2(rng, i):
    kind = getattr(rng, 'kind', 0) or rng.choice(['left', 'ctl'])
    w, h = (2 * rng.randint(5, 20), rng.randint(4, 16)) if kind == 'left' else (10 * rng.randint(2, 5), rng.randint(6, 20))
    if big(rng):
        w, h = bigdims(rng, 2 if kind == 'left' else 10)
    mode = gen_v2.pana_mode(w, h)
    cam = rng.choice([k for k in sorted(db.variants()) if k[0] in ('Panasonic', 'LEICA') and k[2] == mode])
    lay = '12le_left' if kind == 'left' else '12le_wcontrol'
    n = need(lay, w, h)
    # the layout follows from how much of the file is left behind the offset
    # (16 spare bytes included): the data has to be the last thing in the file
    t, root = base_tiff(rng, cam)
    root.short('PanaWidth', w).short('PanaLength', h)
    root.short('PanaWBsR', 300).short('PanaWBsB', 400)
    root.long('StripOffsets', 0)
    f = t.serialise(unknown=2, pad=5)
    # patch the offset: find the entry
    off = len(f)
    f = bytearray(f)
    ip = t.pos[root]
    num = struct.unpack_from(t.e + 'H', f, ip)[0]
    for k in range(num):
        if struct.unpack_from(t.e + 'H', f, ip + 2 + 12 * k)[0] == TAG['StripOffsets']:
            struct.pack_into(t.e + 'I', f, ip + 2 + 12 * k + 8, off)
    data = rbytes(rng, n)
    if kind == 'ctl' and n + 16 >= w * h * 2:
        return g_rw2(rng, i)
    return done(i, 'rw2', bytes(f) + data, case(lay, off, w, h), what=cam[1])


def fuji(rng, pred):
    return pick(rng, 'FUJIFILM', lambda k, a: not k[2] and pred(a.get('hints', [])))


def g_raf(rng, i):
    cam = fuji(rng, lambda hs: 'jpeg32' in hs) if rng.random() < .2 or getattr(rng, 'kind', 0) else fuji(rng, lambda hs: not hs)
    e = rng.choice('<>')
    if 'jpeg32' in db.variants()[cam].get('hints', []):
        w, h = bigdims(rng, 8) if big(rng) else (8 * rng.randint(1, 5), rng.randint(1, 8))
        lay, bps, style = '12be_msb32', rng.choice([None, 12, 14]), rng.choice(['new', 'old'])
    else:
        bps = rng.choice([12, 14, 16, None])
        w, h = dims(rng, 2)
        lay = {12: '12le', 14: '14le_unp', 16: '16le' if e == '<' else '16be'}[bps or 16]
        style = 'new' if bps else rng.choice(['new', 'old'])
    data = rbytes(rng, need(lay, w, h))
    if style == 'old' and data[:2] in (b'II', b'MM'):
        return g_raf(rng, i)
    f, off = raf(rng, cam, w, h, data, bps, style, wb=('old' if style == 'old' or rng.random() < .3 else 'new', 300, 500, 400), e=e)
    return done(i, 'raf', f, case(lay, off, w, h), what='%s %s' % (cam[1], style))


def g_rafrot(rng, i):
    cam = fuji(rng, lambda hs: 'fuji_rotation' in hs or 'fuji_rotation_alt' in hs) if not getattr(rng, 'kind', 0) else fuji(rng, lambda hs: rng.kind in hs)
    a = db.variants()[cam]
    hs, cr = a['hints'], a.get('crops', [0, 0, 0, 0])
    alt = 'fuji_rotation_alt' in hs
    # even crop sizes: the rotated frame has no room for the last odd line
    cw, ch = (2 * rng.randint(130, 150), 2 * rng.randint(130, 150)) if big(rng) else (2 * rng.randint(1, 12), 2 * rng.randint(1, 12))
    cw, ch = cw + getattr(rng, 'odd', 0) % 2, ch + getattr(rng, 'odd', 0) // 2
    w, h = cw + cr[1] + cr[3], ch + cr[0] + cr[2]
    e = rng.choice('<>')
    lay = '16le_skip' if 'double_width' in hs else '16le' if e == '<' else '16be'
    data = rbytes(rng, need(lay, w, h))
    f, off = raf(rng, cam, w, h, data, None, 'new', e=e)
    rw = ch + cw // 2 if alt else cw + ch // 2
    return done(i, 'rafrot', f, case(lay, off, w, h, rot=True, alt=alt, cw=cw, ch=ch, cx=cr[3], cy=cr[0], rw=rw), [rw, rw - 1, 1], what=cam[1])


def minolta(rng):
    mk = rng.choice(['Minolta Co., Ltd.', 'KONICA MINOLTA', 'Konica Minolta Camera, Inc.'])
    return pick(rng, mk, lambda k, a: not k[2])


def g_mrw(rng, i):
    packed = rng.random() < .5 if not getattr(rng, 'kind', 0) else rng.kind == 'packed'
    w, h = dims(rng, 2)
    lay = '12be' if packed else '12be_unp'
    f, off = mrw(rng, minolta(rng), w, h, rbytes(rng, need(lay, w, h)), packed)
    return done(i, 'mrw', f, case(lay, off, w, h))


def g_arw(rng, i):
    kind = getattr(rng, 'kind', 0) or rng.choice(['r1', '16', '12'])
    w, h = dims(rng, 2)
    if kind == 'r1':
        cam, lay = ('SONY', 'DSC-R1', ''), '14be_unp'
        f, off = arw_plain(rng, cam, w, h, rbytes(rng, w * h * 2), 1, 14)
    elif kind == '16':
        cam, lay = pick(rng, 'SONY', lambda k, a: not k[2] and k[1] != 'DSC-R1'), '16le'
        f, off = arw_plain(rng, cam, w, h, rbytes(rng, w * h * 2), 1, 16)
    else:
        lay = '12le'
        bps = rng.choice([0, 12])
        cams = [k for k, a in sorted(db.by_make('SONY').items()) if not k[2] and a.get('bps', 0) in (0, 12)]
        cam = rng.choice(cams)
        f, off = arw_plain(rng, cam, w, h, rbytes(rng, w * h * 3 // 2), 32767, 12, count=w * h * 3 // 2)
    return done(i, 'arw', f, case(lay, off, w, h), what=cam[1])


def g_pef(rng, i):
    from gen_v import pentax_cam
    w, h = dims(rng, 2)
    lay, comp = rng.choice([('16be', 1), ('12be', 32773)])

    def fill(mn, e):
        mn.short('PefWB', 1000, 1024, 1024, 1500)
    f, off, t = pef_file(rng, pentax_cam(rng), w, h, comp, rbytes(rng, need(lay, w, h)), fill)
    return done(i, 'pef', f, case(lay, off, w, h))


def g_srw(rng, i):
    w, h = dims(rng, 2)
    le = rng.random() < .5
    cam = pick(rng, 'SAMSUNG', lambda k, a: not k[2] and ('little_endian' in a.get('hints', [])) == le)
    comp, bits, lay = rng.choice([(32769, 12, '12le_unp'), (32769, 14, '14le_unp'), (32770, 12, '12le' if le else '12be'),
                                  (32770, 12, '12le' if le else '12be'), (32770, 14, '14le_unp')])
    f, off = srw_file(rng, cam, w, h, comp, bits, rbytes(rng, need(lay, w, h)))
    return done(i, 'srw', f, case(lay, off, w, h), what=cam[1])


def g_mos(rng, i):
    cam = pick(rng, rng.choice(['Leaf', 'Creo/Leaf']), lambda k, a: not k[2])
    w, h = dims(rng, 1)
    e = rng.choice('<>')
    f, off = mos16(rng, cam, w, h, rbytes(rng, w * h * 2), e)
    return done(i, 'mos', f, case('16le' if e == '<' else '16be', off, w, h), what=cam[1])


def g_mef(rng, i):
    w, h = dims(rng, 2)
    f, off = mef(rng, pick(rng, 'Mamiya-OP Co.,Ltd.'), w, h, rbytes(rng, w * h * 3 // 2))
    return done(i, 'mef', f, case('12be', off, w, h))


def g_erf(rng, i):
    w, h = dims(rng, 2)
    f, off = erf(rng, pick(rng, 'SEIKO EPSON CORP.'), w, h, rbytes(rng, need('12be_wcontrol', w, h)))
    return done(i, 'erf', f, case('12be_wcontrol', off, w, h))


def g_kdc(rng, i):
    cam = pick(rng, 'EASTMAN KODAK COMPANY')
    hacks = sorted(c for c, a in db.variants().items() if c[0] == cam[0] and 'easyshare_offset_hack' in a.get('hints', []))
    n = i if isinstance(i, int) else rng.randrange(8)
    if n < 4:
        cam = rng.choice(hacks)
    hack = cam in hacks
    w, h = bigdims(rng) if big(rng) else (80 + 2 * rng.randint(0, 8), 70 + rng.randint(0, 8))
    f, off = kdc(rng, cam, w, h, rbytes(rng, w * h * 3 // 2), hack=hack, near=n % 2 == 0, edge=n % 4 > 1)
    return done(i, 'kdc', f, case('12be', off, w, h), what=cam[1])


def g_dcs(rng, i):
    w, h = rng.randint(1001, 1010), 260 if big(rng) else rng.randint(1, 2)
    table = sorted(rng.randrange(65536) for _ in range(256))
    if rng.random() < .5:
        table[128:] = [65535] * 128
    f, off = dcs(rng, pick(rng, 'KODAK'), w, h, rbytes(rng, w * h + 4), table)
    return done(i, 'dcs', f, case('8bit', off, w, h, table=table))


def g_ari(rng, i):
    w, h = bigdims(rng, 8) if big(rng) else (8 * rng.randint(1, 5), rng.randint(1, 8))
    f, off = ari(rng, pick(rng, 'ARRI'), w, h, rbytes(rng, w * h * 3 // 2))
    return done(i, 'ari', f, case('12be_msb32', off, w, h))


def g_naked(rng, i):
    """fixed-size files: sampled rows only"""
    cams = [(k, a) for k, a in sorted(db.variants().items()) if a.get('filesize')]
    k, a = cams[i % len(cams)] if i < len(cams) else rng.choice(cams)
    w, h, size = a['raw_width'], a['raw_height'], a['filesize']
    bits = size * 8 // w // h
    lay = '12be_al16' if '12le_16bitaligned' in a.get('hints', []) else {10: '10be_lsb16', 12: '12be_msb16'}[bits]
    f = rbytes(rng, size)
    while f[0:2] in (b'II', b'MM') or f[0:4] == b'\0MRM':
        f = rbytes(rng, size)
    rows = sorted({0, 1, h - 1, h - 2} | {rng.randrange(h) for _ in range(4)})
    return dict(done(i, 'naked', f, case(lay, 0, w, h), what=k[1]), rows=rows)


def g_pro70(rng, i):
    w, h = 1552, 1024
    lead = b'\0' * 26 + rbytes(rng, w * h * 10 // 8)
    f = crw_file(rng, 'Canon', 'Canon PowerShot Pro70', 0, 0, 0, b'', b'', lead=lead, sensor=False)
    rows = sorted({0, h - 1} | {rng.randrange(h) for _ in range(4)})
    return dict(done(i, 'pro70', f, case('10be_lsb16', 26, w, h)), rows=rows)


GENS = {'dng': g_dng, 'nef': g_nef, 'd100': g_d100, 'nrw': g_nrw, 'orf': g_orf, 'rw2': g_rw2, 'raf': g_raf, 'rafrot': g_rafrot,
        'mrw': g_mrw, 'arw': g_arw, 'pef': g_pef, 'srw': g_srw, 'mos': g_mos, 'mef': g_mef, 'erf': g_erf, 'kdc': g_kdc,
        'dcs': g_dcs, 'ari': g_ari, 'naked': g_naked, 'pro70': g_pro70}
QUICK = {'dng': 48, 'nef': 20, 'd100': 3, 'nrw': 14, 'orf': 40, 'rw2': 16, 'raf': 24, 'rafrot': 16, 'mrw': 12, 'arw': 16, 'pef': 10,
         'srw': 20, 'mos': 10, 'mef': 5, 'erf': 8, 'kdc': 8, 'dcs': 4, 'ari': 6, 'naked': 14, 'pro70': 1}

# large images: (generator, size class, forced choices)
BIG = [(g, 'big', {}) for g in ('d100', 'nrw', 'pef', 'srw', 'srw', 'srw', 'mos', 'mef', 'erf', 'kdc', 'kdc', 'dcs', 'ari', 'raf', 'raf')] + \
      [('dng', z, {'bps': n}) for z in ('big', 'wide', 'tall') for n in (16, 12, 10, 8) if (z, n) != ('wide', 8)] + \
      [('nef', 'big', {'bps': n}) for n in (12, 14)] + [('mos', 'tall', {}), ('mos', 'wide', {})] + \
      [('orf', 'big', {'kind': n}) for n in ('left', 'ctl', 'int', 'msb32')] + [('rw2', 'big', {'kind': n}) for n in ('left', 'ctl')] + \
      [('raf', 'big', {'kind': 'jpeg32'})] + [('rafrot', 'big', {'kind': n}) for n in ('fuji_rotation', 'fuji_rotation_alt', 'double_width')] + \
      [('mrw', 'big', {'kind': n}) for n in ('packed', 'plain')] + [('arw', 'big', {'kind': n}) for n in ('r1', '16', '12')]


def g_big(seed):
    r = []
    for n, (g, z, kw) in enumerate(BIG):
        rng = random.Random('C07/big/%d/%d' % (n, seed))
        rng.big = z
        for k, v in kw.items():
            setattr(rng, k, v)
        r.append(GENS[g](rng, '%s%d' % (z, n)))
    return r
