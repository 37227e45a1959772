"""Generators: Nikon, Pentax, Samsung and Sony codecs."""
import random, struct
from raw import *
from gen_lj import rand_diff
import db

M32 = 0xffffffff


def sony_pad(key):
    pad = []
    for _ in range(4):
        key = (key * 48828125 + 1) & M32
        pad.append(key)
    pad[3] = (pad[3] << 1 | (pad[0] ^ pad[2]) >> 31) & M32
    for p in range(4, 127):
        pad.append(((pad[p - 4] ^ pad[p - 2]) << 1 | (pad[p - 3] ^ pad[p - 1]) >> 31) & M32)
    pad = [struct.unpack('<I', struct.pack('>I', x))[0] for x in pad] + [0]
    return pad


def sony_crypt(data, key):
    """the stream is its own inverse"""
    pad = sony_pad(key)
    n = len(data)
    data = data + b'\0' * ((-n) % 4)
    out = bytearray()
    for i in range(len(data) // 4):
        p = i + 127
        pad[p & 127] = pad[(p + 1) & 127] ^ pad[(p + 65) & 127]
        out += struct.pack('<I', struct.unpack_from('<I', data, i * 4)[0] ^ pad[p & 127])
    return bytes(out)


def pick(rng, make, pred=lambda k, a: True):
    return rng.choice([k for k, a in sorted(db.by_make(make).items()) if pred(k, a)])


def base_tiff(rng, cam, e=None, orient=True):
    t = Tiff(e or rng.choice('<>'))
    t.rng = rng
    root = t.ifd()
    root.ascii('Make', cam[0]).ascii('Model', cam[1])
    if orient:
        root.short('Orientation', rng.randint(1, 8))
    return t, root


# ------------------------------------------------------------------ Sony
def sony_private(t, root, rng, levels=(2000, 1024, 1024, 1700), kind='RGGB', key=None):
    """DNGPrivateArea -> directory -> encrypted directory holding the levels.
    Must be called before serialise; finishes with sony_finish."""
    key = rng.getrandbits(32) if key is None else key
    root.add('DNGPrivateArea', rng.choice([T_LONG, T_UNDEF]) if False else T_LONG, [Ref('sonypriv')])
    plen = 2 + 3 * 12 + 4
    t.blob('sonypriv', b'\0' * plen)
    n = 2 + 12 + 4 + 8 + 16
    t.blob('sonyenc', b'\0' * n)
    t.sony = dict(key=key, levels=list(levels), kind=kind, n=n)
    return t


def sony_finish(t, f):
    """patch the private directory (always little endian) and the encrypted part"""
    s = t.sony
    f = bytearray(f)
    p, q = t.pos['sonypriv'], t.pos['sonyenc']
    ents = [(TAG['SonyOffset'], 4, 1, struct.pack('<I', q)), (TAG['SonyLength'], 4, 1, struct.pack('<I', s['n'] - 4)),
            (TAG['SonyKey'], 4, 1, struct.pack('<I', s['key']))]
    b = struct.pack('<H', 3)
    for tag, typ, c, v in ents:
        b += struct.pack('<HHI', tag, typ, c) + v
    b += b'\0\0\0\0'
    f[p:p + len(b)] = b
    lv = s['levels']
    if s['kind'] == 'GRBG':
        tag = TAG['SonyGRBG']
        vals = [lv[1], lv[0], lv[3], lv[2]]
    else:
        tag = TAG['SonyRGGB']
        vals = [lv[0], lv[1], lv[2], lv[3]]
    inner = struct.pack('<HHHII', 1, tag, 3, 4, q + 18) + b'\0\0\0\0' + struct.pack('<4H', *vals)
    inner += b'\0' * (s['n'] - len(inner))
    f[q:q + s['n']] = sony_crypt(inner, s['key'])[:s['n']]
    return bytes(f)


def arw_cam(rng, bps=None):
    def ok(k, a):
        if k[1] in ('DSLR-A100', 'DSC-R1', 'DSC-F828', 'DSC-V3') or k[2]:
            return False
        return a.get('bps', 0) in ((0,) if bps is None else (0, bps))
    return pick(rng, 'SONY', ok)


def arw1_code(rng, b, ln=None):
    """a difference of any length, 17 bits at most"""
    if ln is None:
        ln = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 11, 12, 15, 16, 17]) if rng.random() < .6 else rng.randint(0, 5)
    if ln == 0:
        b.put(0b011, 3)
    elif ln == 1:
        b.put(0b11, 2)
    elif ln == 2:
        b.put(0b10, 2)
    elif ln == 3:
        b.put(0b010, 3)
    else:
        b.put(0, 2)
        b.put(0 if ln == 17 else 1, min(ln - 3, 13))
    if ln:
        b.put(rng.getrandbits(ln), ln)


def a100(seed, n):
    """the transitional camera: a frame of a fixed size, of which the rightmost columns, which come first, are checked"""
    import gen_meta
    rng = random.Random(seed)
    cam = [c for c in sorted(db.variants()) if c[1] == 'DSLR-A100'][0]
    f = bytearray(gen_meta.make('A100', cam, rng.random(), rng.random())['bytes'])
    w, h = 3881, 2608
    b = BitW()
    for k in range(n * h):
        # the data lies where a directory may be looked for, so it must not start like one
        arw1_code(rng, b, 0 if k < 8 else None)
    while True:
        arw1_code(rng, b, 0)
        if b.total % 8 == 0:
            break
    data = b.done()
    data += b'\x6d\xb6\xdb' * (((w - n) * h) // 8 + 16)
    out = bytes(f[:30000]) + data
    C = dict(codec='arw1', off=0, w=n, h=h, units=n * h, nout=n * h, cols=n)
    return dict(id='a100', bytes=out, want=[w, h, 1], cases=[C], what='A100', job={'lastcols': n}, spec_bytes=data[:len(data) - 3 * (((w - n) * h) // 8)])


def gen_arw1(rng, i):
    cam = arw_cam(rng)
    w, h = sized(rng, rng.randint(1, 14), 8 + 2 * rng.randint(1, 8), 1, 2)
    e = rng.choice('<>')
    t, root = base_tiff(rng, cam, e)
    b = BitW()
    for k in range(w * h):
        arw1_code(rng, b, 17 if k % 41 == 40 else None)
    data = b.done() + b'\0' * 8
    while len(data) * 8 == w * (h - 8) * 12:
        data += b'\0'
    root.short('ImageWidth', w).short('ImageLength', h - 8).short('Compression', 32767).short('BitsPerSample', 12)
    root.add('StripOffsets', 4, [t.blob('s', data)]).long('StripByteCounts', len(data))
    sony_private(t, root, rng)
    f = sony_finish(t, t.serialise(unknown=2, pad=5, tail=b'\0' * 4))
    C = dict(codec='arw1', off=t.pos['s'], w=w, h=h, units=w * h, nout=w * h)
    return dict(id='arw1_%d' % i, bytes=f, want=[w, h, 1], cases=[C], what='ARW1 ' + cam[1])


def srf_file(rng, cam, w, h, orient=True, build=None):
    """the encrypted files of the first Sony cameras: fixed places for key, header and data"""
    t, root = build or base_tiff(rng, cam, orient=orient)
    if not build:
        root.long('ImageWidth', w).long('ImageLength', h)
    data = rng.getrandbits(8 * (w * h * 2 + 4)).to_bytes(w * h * 2 + 4, 'little')
    # the directories come first, well before the key
    f = t.serialise(unknown=2, pad=5)
    assert len(f) < 160000
    kb = bytearray(rng.getrandbits(8 * 1028).to_bytes(1028, 'little'))
    kb[0] = rng.choice([0, 1, 255, rng.randrange(256), rng.randrange(256)])
    head = rng.getrandbits(8 * 44).to_bytes(44, 'little')
    out = bytearray(862144)
    out[:len(f)] = f
    out[164600:164644] = head
    out[200896:200896 + 1028] = kb
    return bytes(out) + data, bytes(kb) + head + data


def gen_srf(rng, i):
    cam = pick(rng, 'SONY', lambda k, a: k[1] in ('DSC-F828', 'DSC-V3'))
    w, h = rng.randint(1, 20), rng.randint(1, 14)
    if i % 3 == 0:
        w, h = rng.randint(20, 30), rng.randint(14, 20)      # the pad comes around several times
    w, h = sized(rng, w, h)
    f, sb = srf_file(rng, cam, w, h)
    C = dict(codec='srf', keyoff=0, headoff=1028, off=1072, w=w, h=h, units=(w * h + 1) // 2, nout=w * h)
    return dict(id='srf_%d' % i, bytes=f, spec_bytes=sb, want=[w, h, 1], cases=[C], what='SRF ' + cam[1])


def gen_arw2(rng, i):
    cam = arw_cam(rng, 8)
    w, h = sized(rng, 32 * rng.randint(1, 3), rng.randint(1, 5), 32)
    t, root = base_tiff(rng, cam)
    rows = b''
    for y in range(h):
        acc, n = 0, 0

        def put(v, k):
            nonlocal acc, n
            acc |= v << n
            n += k
        for g in range(w // 16):
            a, b = rng.choice([(0, 2047), (rng.randrange(2048), rng.randrange(2048)), (1000, 1000 + rng.choice([0, 1, 126, 127, 128, 129, 255, 256, 511, 512, 1023, 1024]))])
            mx, mn = max(a, b), min(a, b)
            mx = min(mx, 2047)
            put(mx, 11)
            put(mn, 11)
            im, il = rng.randrange(16), rng.randrange(16)
            put(im, 4)
            put(il, 4)
            own = 1 if im == il else 2
            for _ in range(16 - own):
                put(rng.choice([0, 127, rng.randrange(128)]), 7)
            if own == 1:
                # the 16th value makes this group longer than 128 bits: real files never do it
                pass
        rows += (acc & ((1 << (w * 8)) - 1)).to_bytes(w, 'little')
    knots = sorted(rng.sample(range(0, 4096), 4)) if rng.random() < .7 else [2000, 2600, 3125, 3600]
    root.short('ImageWidth', w).short('ImageLength', h).short('Compression', 32767).short('BitsPerSample', 8)
    root.add('StripOffsets', 4, [t.blob('s', rows + b'\0' * 8)]).long('StripByteCounts', w * h)
    root.short('SonyCurve', *[k << 2 | rng.randrange(4) for k in knots])
    sony_private(t, root, rng)
    f = sony_finish(t, t.serialise(unknown=2, pad=5, tail=b'\0' * 4))
    C = dict(codec='arw2', off=t.pos['s'], w=w, h=h, knots=knots, units=w // 16 * h, nout=w * h)
    return dict(id='arw2_%d' % i, bytes=f, want=[w, h, 1], cases=[C], what='ARW2 ' + cam[1])


# ------------------------------------------------------------------ Nikon
NEF_TREES = [
    [0,1,5,1,1,1,1,1,1,2,0,0,0,0,0,0,5,4,3,6,2,7,1,0,8,9,11,10,12,0,0,0],
    [0,1,5,1,1,1,1,1,1,2,0,0,0,0,0,0,0x39,0x5a,0x38,0x27,0x16,5,4,3,2,1,0,11,12,12,0,0],
    [0,1,4,2,3,1,2,0,0,0,0,0,0,0,0,0,5,4,6,3,7,2,8,1,9,0,10,11,12,0,0,0],
    [0,1,4,3,1,1,1,1,1,2,0,0,0,0,0,0,5,6,4,7,8,3,9,2,1,0,10,11,12,13,14,0],
    [0,1,5,1,1,1,1,1,1,1,2,0,0,0,0,0,8,0x5c,0x4b,0x3a,0x29,7,6,5,4,3,2,1,0,13,14,0],
    [0,1,4,2,2,3,1,2,0,0,0,0,0,0,0,0,7,6,8,5,9,4,10,3,11,12,2,0,1,13,14,0]]


def nef_huff(n):
    t = NEF_TREES[n]
    c = sum(t[:16])
    return Huff(t[:16], t[16:16 + c])


def nikon_cam(rng, bps):
    return pick(rng, 'NIKON CORPORATION', lambda k, a: k[2] == '%dbit' % bps and k[1] != 'NIKON D100')


def nikon_mn(rng, e):
    """Nikon type-3 makernote: its own TIFF header"""
    return Tiff(e)


def nef_wrap(rng, cam, w, h, bps, compression, data, mn_fill, e=None, cfa=True, size=None):
    """mn_fill(mn_ifd): adds the maker note entries (their own little TIFF)"""
    t, root = base_tiff(rng, cam, e)
    exif = Ifd()
    root.sub('ExifIFDPointer', exif)
    me = rng.choice('<>')
    mt = Tiff(me)
    mt.rng = rng
    mt.root_first = True
    mn = mt.ifd()
    mn_fill(mn, me)
    note = b'Nikon\0\x02\x10\0\0' + mt.serialise(unknown=2, pad=3)
    exif.undef('Makernote', note)
    raw = Ifd()
    root.sub('SubIFDs', raw)
    raw.byte('CFAPattern', 0, 1, 1, 2).long('ImageWidth', w).long('ImageLength', h).short('BitsPerSample', bps)
    raw.short('Compression', compression).add('StripOffsets', 4, [t.blob('s', data)])
    raw.long('StripByteCounts', size if size is not None else len(data))
    f = t.serialise(unknown=2, pad=5, tail=b'\0' * 4)
    return f, t.pos['s']


def steep(rng, n, full, tall=False):
    """a rising curve; tall ones jump to 65535 at the end, where dithering must not wrap around"""
    k = sorted(rng.randrange(65536 if tall else full) for _ in range(n))
    if tall:
        for j in range(1, min(n, rng.randint(3, 1 + max(2, n // 2)))):
            k[-j] = 65535
    return k


def gen_nef(rng, i, kind=None):
    bps = 12 + 2 * (i % 2)
    cam = nikon_cam(rng, bps)
    w, h = sized(rng, 2 * rng.randint(1, 10), rng.randint(1, 10), 2)
    kind = kind or ('lossless', 'table', 'interp', 'split', 'split')[i // 2 % 5]
    least = rng.choice([0, 0, -3, -300])     # below zero: comes out as zero
    tall = i // 10 % 2 == 1                  # curves up to the largest value, steep at the end
    split = 0
    full = 1 << bps
    if kind == 'lossless':
        v0, v1, tree, knots, kk, top = 70, 48, 2, [], 'identity', full - 1
    elif kind == 'table':
        n = {12: 16385, 13: 16385, 23: 16384}.get(i) or rng.randint(600, 4000)
        v0, v1 = [(68, 64), (73, 88), (68, 16), (73, 64), (68, 88)][(i // 10 + i) % 5]
        knots, kk, tree, top = steep(rng, n, full, tall), 'table', 0, n - 1
    else:
        v0, v1, tree, kk = 68, 32, 0, 'interp'
        csize = rng.choice([257, 129, 33, 17, 5, 2])
        knots = steep(rng, csize, full, tall)
        # a usable table ends at the top: interpolation continues from the last knot
        top = full - 1
        if kind == 'split':
            split = rng.randint(1, h)
    tno = tree + (3 if bps == 14 else 0)
    h1 = nef_huff(tno)
    h2 = nef_huff(tno + 1) if split else None
    me_box = {}
    up = [[rng.randrange(top + 1) for _ in range(2)] for _ in range(2)]
    b = BitW()
    p_up = [list(up[0]), list(up[1])]     # [component][parity]
    maxcat = 14 if bps == 14 else 12
    for y in range(h):
        left = [0, 0]
        for x in range(0, w, 2):
            for c in range(2):
                pr = p_up[c][y & 1] if x == 0 else left[c]
                if split and y >= split:
                    # choose a symbol of the second tree and bits that stay inside the curve
                    while True:
                        sym = rng.choice(h2.vals)
                        ln, sh = sym & 15, sym >> 4
                        rawb = rng.getrandbits(ln - sh) if ln > sh else 0
                        d = ((rawb << 1) + 1) << sh >> 1
                        if ln == 0:
                            d = 0
                        elif not d & (1 << (ln - 1)):
                            d -= (1 << ln) - (1 if sh == 0 else 0)
                        if least <= pr + d <= top:
                            break
                    h2.put(b, sym)
                    b.put(rawb, ln - sh)
                    v = pr + d
                else:
                    while True:
                        d = rand_diff(rng, list(range(0, maxcat + 1)))
                        if least <= pr + d <= top and abs(d).bit_length() in h1.code:
                            break
                    h1.put_diff(b, d)
                    v = pr + d
                left[c] = v
                if x == 0:
                    p_up[c][y & 1] = v
    data = b.done() + b'\0' * 4
    while len(data) in (w * h * bps // 8, w * h * 3):
        data += b'\0'

    def fill(mn, me):
        meta = bytes([v0, v1])
        if v0 == 73 or v1 == 88:
            meta += bytes(rng.randrange(256) for _ in range(2110))
        meta += struct.pack(me + '4H', up[0][0], up[0][1], up[1][0], up[1][1])
        if kk == 'identity':
            meta += struct.pack(me + 'H', rng.choice([0, 100]))
        else:
            meta += struct.pack(me + 'H%dH' % len(knots), len(knots), *knots)
        meta += b'\0' * 600
        if kk == 'interp':
            m = bytearray(meta)
            struct.pack_into(me + 'H', m, 562, split)
            if 562 < 12 + 2 * len(knots):
                # the split row lies inside the table: what the table then holds is what counts
                knots[:] = list(struct.unpack_from(me + '%dH' % len(knots), m, 12))
            meta = bytes(m)
        if rng.random() < .5:
            mn.undef('NefMeta2', meta).undef('NefMeta1', bytes(rng.randrange(256) for _ in range(30)))
        else:
            mn.undef('NefMeta1', meta)
        mn.rat('NefWB0', (3, 2), (7, 4), (1, 1), (1, 1))
    if kk == 'interp' and len(knots) == 257 + 100:
        pass
    f, off = nef_wrap(rng, cam, w, h, bps, 34713, data, fill)
    if kk == 'interp' and sorted(knots) != knots:
        return gen_nef(rng, i, kind)
    C = dict(codec='nef', off=off, w=w, h=h, bps=bps, tree=tno + 1, split=split, curvekind=kk, knots=knots,
             up1=up[0], up2=up[1], units=w // 2 * h, nout=w * h)
    return dict(id='nef%d' % i, bytes=f, want=[w, h, 1], cases=[C], what='NEF %s %d bit %s' % (kind, bps, cam[1]))


# ------------------------------------------------------------------ Pentax
def pef_note(rng, e, fill):
    style = rng.choice(['AOC', 'PENTAX', 'AOCE'])
    if style == 'PENTAX':
        # self-contained: offsets relative to the note, directory at 10
        mt = Tiff(e)
        mn = mt.ifd()
        fill(mn, e)
        # lay out by hand: build with header_len 10 and then overwrite the header
        mt.header_len = 10
        b = bytearray(mt.serialise())
        # the directory has to sit at offset 10
        assert mt.pos[mn] == 10
        b[0:10] = b'PENTAX \0' + (b'II' if e == '<' else b'MM')
        return ('blob', bytes(b))
    mn = Ifd(prefix=b'AOC\0' + ((b'II' if e == '<' else b'MM') if style == 'AOCE' else b''))
    fill(mn, e)
    return ('ifd', mn)


def pentax_cam(rng):
    mk = rng.choice(['PENTAX Corporation', 'PENTAX', 'RICOH IMAGING COMPANY, LTD.'])
    return pick(rng, mk, lambda k, a: not k[2])


def pef_file(rng, cam, w, h, compression, data, notefill, bps=12):
    t, root = base_tiff(rng, cam)
    exif = Ifd()
    root.sub('ExifIFDPointer', exif)
    kind, mn = pef_note(rng, t.e, notefill)
    if kind == 'blob':
        exif.undef('Makernote', mn)
    else:
        exif.makernote(mn)
    root.short('ImageWidth', w).short('ImageLength', h).short('Compression', compression).short('BitsPerSample', bps)
    root.add('StripOffsets', 4, [t.blob('s', data)]).long('StripByteCounts', len(data))
    f = t.serialise(unknown=2, pad=5, tail=b'\0' * 4)
    return f, t.pos['s'], t


def gen_pef(rng, i):
    cam = pentax_cam(rng)
    w, h = sized(rng, 2 * rng.randint(1, 10), rng.randint(1, 10), 2)
    custom = rng.random() < .7
    codes, lens = [], []
    if custom:
        depth = rng.randint(3, 15)
        # symbols 0..depth-1, code lengths <= 12
        hf = random_huff(rng, range(depth), maxlen=12)
        codes = [hf.code[s][0] << (12 - hf.code[s][1]) for s in range(depth)]
        lens = [hf.code[s][1] for s in range(depth)]
        syms = list(range(depth))
    else:
        hf = Huff([0, 2, 3, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0], [3, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12])
        syms = list(range(13))
    b = BitW()
    for _ in range(w * h):
        hf.put_diff(b, rand_diff(rng, syms))
    data = b.done() + b'\0' * 4

    def fill(mn, e):
        mn.short('PefWB', 1000, 1024, 1024, 1500)
        if custom:
            d = struct.pack(e + 'H', (depth - 12) & 0xffff if rng.random() < .5 else (depth + 4) & 15) + bytes(rng.randrange(256) for _ in range(12))
            d += struct.pack(e + '%dH' % depth, *codes) + bytes(lens) + b'\0' * 6
            mn.undef('PefHuffman', d)
    f, off, t = pef_file(rng, cam, w, h, 65535, data, fill)
    C = dict(codec='pef', off=off, w=w, h=h, custom=custom, codes=codes, lens=lens, units=w // 2 * h, nout=w * h)
    return dict(id='pef%d' % i, bytes=f, want=[w, h, 1], cases=[C], what='PEF %s' % cam[1])


# ------------------------------------------------------------------ Samsung
def srw_file(rng, cam, w, h, compression, bits, data, areas=None, levels=(2000, 1000, 1000, 1500), blacks=(10, 20, 30, 40), e=None):
    t, root = base_tiff(rng, cam, e)
    exif = Ifd()
    root.sub('ExifIFDPointer', exif)
    mn = Ifd()
    exif.makernote(mn)
    mn.suffix = b'\xaa' * rng.randrange(5)
    a = len(mn.suffix)
    mn.suffix += struct.pack(t.e + '4I', *levels) + b'\xbb' * rng.randrange(5)
    b = len(mn.suffix)
    mn.suffix += struct.pack(t.e + '4I', *blacks)
    mn.add('SrwRGGBLevels', 4, ('suf', a, 4))
    mn.add('SrwRGGBBlacks', 4, ('suf', b, 4))
    raw = Ifd()
    root.sub('SubIFDs', raw)
    raw.long('ImageWidth', w).long('ImageLength', h).short('Compression', compression).short('BitsPerSample', bits)
    raw.add('StripOffsets', 4, [t.blob('s', data)])
    if areas is not None:
        raw.add('SrwSensorAreas', 4, [t.blob('areas', areas)])
    f = t.serialise(unknown=2, pad=5, tail=b'\0' * 20)
    return f, t.pos['s']


def srw_cam(rng, le=None):
    return pick(rng, 'SAMSUNG', lambda k, a: not k[2] and (le is None or ('little_endian' in a.get('hints', [])) == le))


def gen_srw1(rng, i):
    cam = srw_cam(rng)
    w, h = sized(rng, 2 * rng.randint(1, 3 if i % 4 == 1 else 25), 2 * rng.randint(1, 5), 2, 2)
    data, offs = b'', []
    order = list(range(h))
    if rng.random() < .4:
        rng.shuffle(order)
    offs = [0] * h
    for y in order:
        offs[y] = len(data)
        b = BitW()
        ln = [7 if y < 2 else 4] * 4
        for x in range(0, w, 16):
            b.put(rng.randrange(2), 1)
            ops = []
            for j in range(4):
                c = [0, 3]
                if ln[j] > 0:
                    c.append(2)
                if ln[j] < 16:
                    c.append(1)
                ops.append(rng.choice(c))
            for o in ops:
                b.put(o, 2)
            for j, o in enumerate(ops):
                if o == 3:
                    ln[j] = rng.randrange(16)
                    b.put(ln[j], 4)
                elif o == 2:
                    ln[j] -= 1
                elif o == 1:
                    ln[j] += 1
            for j in range(16):
                k = ln[j // 4]
                if k:
                    b.put(rng.getrandbits(k), k)
        data += swap32(b.done())
        if rng.random() < .3:
            data += b'\x55' * 4
    data += b'\0' * 8
    areas = struct.pack('<%dI' % h, *offs)
    f, off = srw_file(rng, cam, w, h, 32770, 12, data, areas)
    nb = (w + 15) // 16
    C = dict(codec='srw1', off=off, w=w, h=h, rowoff=[off + o for o in offs], units=nb * h, nout=w * h)
    return dict(id='srw1_%d' % i, bytes=f, want=[w, h, 1], cases=[C], what='SRW1')


SRW2 = [(3, 4), (3, 7), (2, 6), (2, 5), (4, 3), (6, 0), (7, 9), (8, 10), (9, 11), (10, 12), (10, 13), (5, 1), (4, 8), (4, 2)]


def gen_srw2(rng, i):
    cam = srw_cam(rng)
    w, h = sized(rng, rng.randint(1, 20), rng.randint(1, 10))
    code, c = {}, 0
    for ln, cat in SRW2:
        code[cat] = (c >> (10 - ln), ln)
        c += 1 << (10 - ln)
    b = BitW()
    for _ in range(w * h):
        cat = rng.randrange(14)
        b.put(*code[cat])
        if cat:
            b.put(rng.getrandbits(cat), cat)
    f, off = srw_file(rng, cam, w, h, 32772, 12, b.done() + b'\0' * 4)
    C = dict(codec='srw2', off=off, w=w, h=h, units=w * h, nout=w * h)
    return dict(id='srw2_%d' % i, bytes=f, want=[w, h, 1], cases=[C], what='SRW2')


def gen_srw3(rng, i):
    cam = srw_cam(rng)
    w, h = sized(rng, 16 * (rng.randint(1, 6) if i % 3 else 1), rng.randint(1, 9), 16)
    opt = rng.randrange(8)
    depth = rng.choice([12, 14, 14, 10])
    init = rng.randrange(1 << min(depth, 14))
    hd = BitW()
    for v, n in ((rng.getrandbits(16), 16), (rng.randrange(16), 4), (depth - 1, 4), (rng.randrange(16), 4), (rng.randrange(16), 4),
                 (w, 16), (h, 16), (w, 16), (0, 4), (opt, 4), (rng.randrange(256), 8), (0, 8), (rng.randrange(256), 8), (0, 2), (init, 14)):
        hd.put(v, n)
    assert hd.total == 128
    data = swap32(hd.done())
    for y in range(h):
        data += b'\0' * ((-len(data)) % 16)
        b = BitW()
        motion = 7
        mode = [[7 if y < 2 else 4] * 2 for _ in range(3)]
        for x in range(0, w, 16):
            if not opt & 4 and x % 64 == 0:
                # the scale carries over to later blocks in some decoders and not in
                # others: keep to the cases where that cannot matter
                if w == 16:
                    k = rng.choice([0, 2, 3])
                    b.put(k, 2)
                    if k == 3:
                        b.put(rng.choice([0, 1, 3, 40, 2047, 2048, 4095]), 12)
                else:
                    b.put(0, 2)
            okm = [7]
            if y >= 2:
                okm += [3]
                # interpolating with the next pixel of the colour needs that pixel
                if x + 16 < w:
                    okm += [4, 5, 6]
                if x > 0:
                    okm += [0, 1]
                if x > 0 and x + 16 < w:
                    okm += [2]
            if opt & 2:
                m = rng.choice([k for k in okm if k in (3, 7)])
                b.put(1 if m == 3 else 0, 1)
                motion = m
            else:
                m = rng.choice(okm)
                if m == motion and rng.random() < .7:
                    b.put(1, 1)
                else:
                    b.put(0, 1)
                    b.put(m, 3)
                motion = m
            coded = True
            if not opt & 1:
                coded = rng.random() < .8
                b.put(0 if coded else 1, 1)
            db_ = [0] * 4
            if coded:
                flags, m2 = [], [list(z) for z in mode]
                vals = []
                for j in range(4):
                    cn = (j >> 1) if y % 2 else ((j >> 1) + 2) % 3
                    c = [0, 3]
                    if m2[cn][0] > depth + 1:
                        c = [3]
                    if m2[cn][0] < depth + 1:
                        c.append(1)
                    if 0 < m2[cn][0]:
                        c.append(2)
                    fl = rng.choice(c)
                    v = {0: m2[cn][0], 1: m2[cn][0] + 1, 2: m2[cn][0] - 1, 3: rng.randrange(0, min(15, depth + 1) + 1)}[fl]
                    m2[cn] = [m2[cn][1], v]
                    flags.append(fl)
                    vals.append(v)
                for fl in flags:
                    b.put(fl, 2)
                for fl, v in zip(flags, vals):
                    if fl == 3:
                        b.put(v, 4)
                mode, db_ = m2, vals
            for j in range(16):
                k = db_[j // 4]
                if k:
                    b.put(rng.getrandbits(k), k)
        data += b.done()[:0] + swap32pos(b.done())
    f, off = srw_file(rng, cam, w, h, 32773, 12, data + b'\0' * 32)
    C = dict(codec='srw3', off=off, w=w, h=h, opt=opt, init=init, depth=depth, units=w // 16 * h, nout=w * h)
    return dict(id='srw3_%d' % i, bytes=f, want=[w, h, 1], cases=[C], what='SRW3 opt=%d' % opt)


def swap32pos(b):
    return swap32(b)


GENS = {'nef': gen_nef, 'pef': gen_pef, 'srw1': gen_srw1, 'srw2': gen_srw2, 'srw3': gen_srw3, 'arw1': gen_arw1, 'arw2': gen_arw2, 'srf': gen_srf}
