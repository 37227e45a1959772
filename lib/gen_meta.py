"""Files built for what they say about themselves: every format, every place a
value can be recorded in, every camera.  The content (rc) and the arrangement
(A) are drawn from separate generators, so that the same content can be laid
out in many ways."""
import random, struct
from raw import *
from containers import rbytes
from gen_v import sony_crypt
from gen_v2 import Ciff, iiq_row, pana_mode
from gen_lj import jpeg_head
import db

# tags that the format reads by their declared type
FLEX = {TAG[n] for n in (
    'ImageWidth ImageLength BitsPerSample Compression StripOffsets StripByteCounts CFAPattern Orientation PhotometricInt SamplesPerPixel '
    'WhiteLevel BlackLevels PanaWidth PanaLength PanaWBsR PanaWBsB PanaWBs2R PanaWBs2G PanaWBs2B OlympusRedMul OlympusBlueMul RafWBGRB '
    'RafImageWidth RafImageLength RafOffsets RafBitsPerSample KdcWidth KdcLength KdcOffset NewSubFileType TileOffsets TileWidth TileLength '
    'ActiveArea SubIFDs ExifIFDPointer KodakIFD KdcIFD RafRawSubIFD PanaOffsets Cr2OldOffset PefWB PefBlackLevels SonyOffset SonyLength').split()}
# numbers that may as well be fractions
FRAC = {TAG[n] for n in 'BlackLevels PefWB PefBlackLevels RafWBGRB'.split()}


VARIANTS = db.variants()


class Arr:
    """an arrangement"""

    def __init__(self, rng, e=None, plain=False, tail=True):
        self.rng = rng
        self.plain = plain
        self.e = e or rng.choice('<>')
        self.me = rng.choice('<>')
        self.unknown = 0 if plain else rng.choice([0, 2, 4])
        self.pad = 0 if plain else rng.choice([0, 3, 9])
        self.shuffle = not plain and rng.random() < .9
        self.widths = not plain and rng.random() < .6
        self.nest = not plain and rng.random() < .5
        self.sub = None if plain else rng.choice(['root', 'sub', 'chain', 'deep'])
        self.decoy = None if plain else rng.choice([None, None, 'later', 'inner', 'both'])
        self.note = rng.randrange(6)
        self.more = 0 if plain else rng.choice([0, 0, 1, 2])
        self.front = 0 if plain else rng.choice([0, 0, 1, 3])      # directories before the first that says something
        self.exif = 0 if plain else rng.choice([0, 0, 1, 3])       # directories around the Exif one
        self.tail = rng.choice([0, 0, 1, 7, 33]) if tail and not plain else 0
        if plain:
            self.e, self.me, self.note = '<', '<', 0


def widen(t, A):
    if not A.widths:
        return
    r = A.rng
    for i in t._all_ifds():
        for en in i.e:
            tag, typ, vals = en
            if tag not in FLEX or not isinstance(vals, list) or typ not in (1, 3, 4):
                continue
            if any(isinstance(v, Ref) for v in vals):
                if typ == 4:
                    en[1] = r.choice([4, 13, 9])
                continue
            top = max(vals)
            c = [4, 9, 13]
            if top < 65536:
                c += [3, 3]
            if top < 32768:
                c += [8]
            if top < 256:
                c += [1]
            if tag in FRAC and r.random() < .4:
                k = r.choice([1, 1, 10])
                if top * k < 1 << 31:
                    en[1] = r.choice([5, 10])
                    en[2] = [(v * k, k) for v in vals]
                    continue
            en[1] = r.choice(c)


def front(t, A):
    for _ in range(A.front if not getattr(t, 'root_first', False) else 0):
        d = Ifd()
        d.add(A.rng.choice(UNKNOWN), 4, [A.rng.randrange(1 << 31)])
        t.chain.insert(0, d)


def decoys(t, A, extra=()):
    """the same tags again with other values, where they must not count"""
    r = A.rng
    other = dict(Make='Nobody', Model='Nothing', Software='None')

    def fill(d, src):
        for tag, typ, vals in src:
            if tag in (TAG['SubIFDs'], TAG['ExifIFDPointer'], TAG['Makernote'], TAG['KodakIFD'], TAG['KdcIFD'], TAG['RafRawSubIFD'],
                       TAG['DNGVersion'], TAG['DNGPrivateArea']):
                continue
            if isinstance(vals, tuple) or tag not in KNOWN:
                continue
            if isinstance(vals, (bytes, bytearray)):
                d.add(tag, typ, bytes((b + 1) % 127 or 1 for b in vals[:40]) or b'x')
            elif typ in (5, 10):
                d.add(tag, typ, [(v[0] + 1, v[1]) for v in vals[:16]])
            else:
                d.add(tag, typ, [r.randrange(21, 200) for _ in vals[:16]])
    chain = list(t.chain)
    root = chain[0]
    if A.decoy in ('inner', 'both') and root.e:
        d = Ifd()
        fill(d, root.e)
        if d.e:
            root.sub(r.choice(['ExifIFDPointer', 'SubIFDs']), d) if not any(x[0] in (TAG['ExifIFDPointer'],) for x in root.e) else root.sub(TAG['KodakIFD'], d) if not any(x[0] == TAG['KodakIFD'] for x in root.e) else None
    if A.decoy in ('later', 'both'):
        d = Ifd()
        for i in t._all_ifds():
            fill(d, [x for x in i.e if x[0] not in {y[0] for y in d.e}])
        t.ifd(d)


class Doc:
    def __init__(self, A, cam=None, o=None, names=True):
        self.A = A
        self.t = Tiff(A.e)
        self.t.rng = A.rng if A.shuffle else None
        self.root = self.t.ifd()
        self.o = o or {}
        self.inner = None
        if names:
            d = self.nested() if A.nest else self.root
            d.ascii('Make', cam[0] + self.o.get('blank', ''), pad=self.o.get('zeros', 1)).ascii('Model', cam[1] + self.o.get('blank', ''), pad=self.o.get('zeros', 1))
        ori = self.o.get('orient')
        if ori:
            (self.nested() if A.nest and A.rng.random() < .5 else self.root).add('Orientation', ori[0], [ori[1]])

    def nested(self):
        if self.inner is None:
            self.inner = Ifd()
            d = self.inner
            if self.A.sub == 'deep':
                mid = Ifd()
                mid.sub(TAG['KodakIFD'], d)
                d = mid
            self.root.sub(TAG['KdcIFD'] if self.A.rng.random() < .5 else TAG['RafRawSubIFD'], d)
        return self.inner

    def exif(self, ex):
        for _ in range(self.A.exif):
            d = Ifd()
            d.sub(self.A.rng.choice(['SubIFDs', 'ExifIFDPointer', 'KodakIFD', 'KdcIFD', 'RafRawSubIFD']), ex)
            ex = d
        self.root.sub('ExifIFDPointer', ex)

    def raw(self, where=None):
        """the directory of the raw data"""
        w = where or self.A.sub or 'root'
        if w == 'root':
            return self.root
        if w == 'chain':
            return self.t.ifd()
        d = Ifd()
        p = self.root
        if w == 'deep':
            m = Ifd()
            p.sub('SubIFDs', m)
            p = m
        p.sub('SubIFDs', d)
        return d

    def finish(self, tail=b'', decoy=True):
        A = self.A
        if decoy and A.decoy:
            decoys(self.t, A)
        for _ in range(A.more):
            d = Ifd()
            d.add(A.rng.choice(UNKNOWN), 3, [A.rng.randrange(65536)])
            self.t.ifd(d)
        widen(self.t, A)
        front(self.t, A)
        return self.t.serialise(unknown=A.unknown, pad=A.pad, tail=tail + b'\0' * 8 + rbytes(A.rng, A.tail))


def lj_image(vals, w, h, prec=14):
    """two component lossless JPEG of the given samples"""
    hf = Huff([0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0] if False else [1, 0, 0, 0, 14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], list(range(15)))
    code = [format(hf.code[s][0], '0%db' % hf.code[s][1]) for s in range(15)]
    out = []
    base = [1 << (prec - 1)] * 2
    for y in range(h):
        row = vals[y * w:(y + 1) * w]
        p = list(base)
        for x in range(0, w, 2):
            for c in (0, 1):
                d = row[x + c] - p[c]
                p[c] = row[x + c]
                if d == 0:
                    out.append('0')
                else:
                    s = abs(d).bit_length()
                    out.append(code[s] + format(d if d > 0 else d + (1 << s) - 1, '0%db' % s))
        base = row[0:2]
    bits = ''.join(out)
    bits += '0' * (-len(bits) % 8)
    body = int('1' + bits, 2).to_bytes(len(bits) // 8 + 1, 'big')[1:]
    sof = struct.pack('>BHHB', prec, h, w // 2, 2) + bytes([0, 0x11, 0, 1, 0x11, 0])
    seg = lambda m, b: b'\xff' + bytes([m]) + struct.pack('>H', len(b) + 2) + b
    return b'\xff\xd8' + seg(0xc4, hf.dht(0)) + seg(0xc3, sof) + seg(0xda, bytes([2, 0, 0, 1, 0, 1, 0, 0])) + stuff(body) + b'\xff\xd9'


def attrs(cam):
    return VARIANTS.get(cam, {})


def dims(rc, o, wm=2, w=(2, 16), h=(1, 9)):
    return o.get('dims') or (wm * rc.randint(max(1, w[0] // wm), w[1] // wm), rc.randint(*h))


def tags_strip(raw, t, w, h, data, comp=None, bps=None, cfa=True, name='s'):
    raw.long('ImageWidth', w).long('ImageLength', h).long('StripOffsets', t.blob(name, data)).long('StripByteCounts', len(data))
    if comp is not None:
        raw.short('Compression', comp)
    if bps is not None:
        raw.short('BitsPerSample', bps)
    if cfa:
        raw.byte('CFAPattern', 0, 1, 1, 2)


# ------------------------------------------------------------- one per format
def b_mef(cam, rc, A, o):
    w, h = dims(rc, o)
    data = rbytes(rc, w * h * 3 // 2)
    D = Doc(A, cam, o)
    tags_strip(D.raw(), D.t, w, h, data)
    return D.finish()


def makernote(D, mn, prefix=None):
    """hang a maker note without its own base below Exif"""
    ex = Ifd()
    D.exif(ex)
    if prefix is not None:
        mn.prefix = prefix
    ex.makernote(mn)


def b_erf(cam, rc, A, o):
    w, h = dims(rc, o)
    data = rbytes(rc, h * (w * 12 // 8 + (w + 2) // 10) + 1)
    lv = bytearray(rbytes(rc, 256))
    struct.pack_into('>2H', lv, 48, *[v & 0xffff for v in o.get('wb', (rc.randrange(65536), rc.randrange(65536)))[:2]])
    D = Doc(A, cam, o)
    tags_strip(D.raw(), D.t, w, h, data)
    mn = Ifd()
    mn.undef('EpsonWB', bytes(lv))
    makernote(D, mn, b'EPSON\0\x01\0')
    return D.finish()


def b_kdc(cam, rc, A, o):
    hack = 'easyshare_offset_hack' in attrs(cam).get('hints', [])
    w, h = o.get('dims') or (80 + 2 * rc.randint(0, 6), 70 + rc.randint(0, 6))
    data = rbytes(rc, w * h * 3 // 2)
    kind = o.get('kind', rc.choice(['kdc', 'kodak', 'kodak1502']))
    rats = [(rc.randrange(1, 1 << rc.randint(1, 29)), rc.randrange(1, 1 << rc.randint(1, 29))) for _ in range(3)]
    lv = bytearray(rbytes(rc, 1502 if kind == 'kodak1502' else 734))
    vals = [rc.getrandbits(16) for _ in range(13)]
    near = rc.random() < .5
    tot = rc.choice([rc.randrange(0x15000), 0x14fff]) if near else rc.choice([rc.randrange(0x15000, 0x20000), 0x15000])
    D = Doc(A, cam, o)
    t = D.t
    if A.sub in ('root', None):
        k = D.root
    else:
        k = Ifd()
        D.root.sub(A.rng.choice(['KdcIFD', 'KodakIFD', 'SubIFDs']) if D.inner is None else 'SubIFDs', k)
    k.long('KdcWidth', w - 80).long('KdcLength', h - 70)
    if hack:
        t.blob('s', data, at=0x15000 if near else 0x17000)
        vals[4] = rc.randrange(tot + 1)
        vals[12] = tot - vals[4]
    else:
        t.blob('s', data)
        vals[4], vals[12] = Ref('s', -3), 3
    k.add('KdcOffset', 4, vals)
    if kind == 'kdc':
        k.rat('KdcWB', *rats)
    else:
        k.undef('KodakWB', bytes(lv))
    return D.finish(decoy=False)


def b_dcs(cam, rc, A, o):
    w, h = o.get('dims') or (1001 + rc.randint(0, 5), 1)
    table = sorted(rc.randrange(65536) for _ in range(256))
    D = Doc(A, cam, o)
    D.root.short('GrayResponse', *table)
    raw = D.raw()
    raw.long('ImageWidth', w).long('ImageLength', h).long('StripOffsets', D.t.blob('s', rbytes(rc, w * h + 4)))
    return D.finish()


def b_dcr(cam, rc, A, o):
    w, h = o.get('dims') or (4 * rc.randint(1, 4), rc.randint(1, 3))
    from gen_v2 import dcr_segment
    curve = sorted(rc.randrange(65536) for _ in range(256))
    data = b''.join(dcr_segment(rc, w, 255) for _ in range(h))
    n = o.get('n', rc.choice([72, 46, 45, 1000, 10, 734]))
    lv = bytearray(rbytes(rc, n))
    D = Doc(A, cam, o)
    raw = D.raw()
    tags_strip(raw, D.t, w, h, data)
    k = Ifd()
    D.root.sub('ExifIFDPointer', k)
    k.add('DcrLinearization', 3, curve)
    k.undef('DcrWB', bytes(lv))
    return D.finish()


def b_orf(cam, rc, A, o):
    w, h = dims(rc, o, 2, (10, 30), (2, 6))
    data = rbytes(rc, 4096 + w * h * 2)
    kind = o.get('kind', rc.choice(['mul', 'proc2', 'proc3', 'proc4', 'procinl', 'onered', 'oneblue']))
    r, b = o.get('wb', (rc.randrange(1, 1 << rc.randint(1, 16)), rc.randrange(1, 1 << rc.randint(1, 16))))[:2]
    more = [rc.getrandbits(16), rc.getrandbits(16)]
    D = Doc(A, cam, o)
    raw = D.raw('root' if A.sub in (None, 'root', 'deep') else A.sub)
    size = w * h * 3 // 2
    while size >= w * h // 10 * 16:
        w += 2
        size = w * h * 3 // 2
    raw.long('ImageWidth', w).long('ImageLength', h).long('StripOffsets', D.t.blob('s', data)).long('StripByteCounts', size)
    mn = Ifd()
    pre = [b'OLYMP\0\x01\0', b'OLYMPUS\0' + (b'II' if A.e == '<' else b'MM') + b'\x03\0'][0 if kind == 'mul' and A.note % 2 else 1]
    makernote(D, mn, pre)
    if kind == 'mul':
        mn.short('OlympusRedMul', r, more[0]).short('OlympusBlueMul', b, more[1])
        return D.finish()
    # positions relative to the note: the image processing directory and its values are placed by hand
    mn.suffix = bytes(200)
    mn.long('OlympusImgProc', 0)
    if kind in ('onered', 'oneblue'):
        # one of the two factors alone says nothing
        mn.short('OlympusRedMul' if kind == 'onered' else 'OlympusBlueMul', more[0], more[1])
        kind = ('procinl', 'proc2', 'proc4')[more[1] % 3]
    f = bytearray(D.finish())
    pos = D.t.pos
    e = A.e
    note = pos[mn]
    ip = note + len(mn.prefix) + 2 + 12 * struct.unpack_from(e + 'H', f, note + len(mn.prefix))[0] + 4 + A.rng.randrange(8)
    vals = [r, b] if kind != 'proc4' else [r, b] + more
    if kind == 'procinl':
        ent = struct.pack(e + 'HHI2H', 0x100, 3, 2, r, b)
    elif kind in ('proc2', 'proc3'):
        # two long values outside: absolute position
        n = int(kind[4])
        ent = struct.pack(e + 'HHII', 0x100, 4, n, ip + 100)
        struct.pack_into(e + '%dI' % n, f, ip + 100, *[r, b, more[0]][:n])
    else:
        typ = 4 if more[0] % 2 else 3
        ent = struct.pack(e + 'HHII', 0x100, typ, 4, ip + 100 - note)
        struct.pack_into(e + ('4I' if typ == 4 else '4H'), f, ip + 100, *vals)
    f[ip:ip + 18] = struct.pack(e + 'H', 1) + ent + b'\0' * 4
    # patch the pointer in the note
    p = note + len(mn.prefix)
    n = struct.unpack_from(e + 'H', f, p)[0]
    done = False
    for k in range(n):
        q = p + 2 + 12 * k
        if struct.unpack_from(e + 'H', f, q)[0] == TAG['OlympusImgProc']:
            struct.pack_into(e + 'HII', f, q + 2, 13 if A.widths else 4, 1, ip - note)
            done = True
    assert done
    return bytes(f)


def b_srw(cam, rc, A, o):
    w, h = dims(rc, o)
    le = 'little_endian' in attrs(cam).get('hints', [])
    data = rbytes(rc, w * h * 2)
    bl = [rc.randrange(500) for _ in range(4)]
    lv = [b + rc.randrange(1 << rc.randint(1, 20)) for b in bl]
    D = Doc(A, cam, o)
    raw = D.raw()
    tags_strip(raw, D.t, w, h, data, rc.choice([32769, 32770]), 12, cfa=False)
    mn = Ifd()
    makernote(D, mn)
    mn.suffix = b'\xaa' * A.rng.randrange(5)
    offs = []
    for v in ([lv, bl] if A.note % 2 else [bl, lv]):
        offs.append(len(mn.suffix))
        mn.suffix += struct.pack(A.e + '4I', *v) + b'\xbb' * A.rng.randrange(3)
    if not A.note % 2:
        offs.reverse()
    mn.add('SrwRGGBLevels', 4, ('suf', offs[0], 4))
    mn.add('SrwRGGBBlacks', 4, ('suf', offs[1], 4))
    return D.finish()


def b_pef(cam, rc, A, o):
    w, h = dims(rc, o)
    comp = rc.choice([1, 32773])
    data = rbytes(rc, w * h * 2)
    top = 65535
    wb = [rc.randrange(1, 1 << rc.randint(1, 16)) for _ in range(4)]
    bl = [rc.randrange(1 << rc.randint(1, 13)) for _ in range(4)] if o.get('black', rc.random() < .6) else None
    D = Doc(A, cam, o)
    raw = D.raw()
    tags_strip(raw, D.t, w, h, data, comp, 12, cfa=False)

    def fill(mn):
        mn.short('PefWB', *wb)
        if bl:
            mn.short('PefBlackLevels', *bl)
    ex = Ifd()
    D.exif(ex)
    style = A.note % 3
    if style == 2:
        mt = Tiff(A.me)
        mn = mt.ifd()
        fill(mn)
        widen(mt, A)
        mt.header_len = 10
        b = bytearray(mt.serialise())
        assert mt.pos[mn] == 10
        b[0:10] = b'PENTAX \0' + (b'II' if A.me == '<' else b'MM')
        ex.undef('Makernote', bytes(b))
    else:
        mn = Ifd(prefix=b'AOC\0' + (b'' if style == 0 else b'II' if A.me == '<' else b'MM'))
        if style:
            mn.own_endian = A.me
        fill(mn)
        ex.makernote(mn)
    return D.finish()


def b_tfr(cam, rc, A, o):
    w, h = dims(rc, o, 2, (2, 12), (1, 6))
    rats = [(rc.randrange(1, 1 << rc.randint(1, 29)), rc.randrange(1, 1 << rc.randint(1, 29))) for _ in range(3)]
    jpeg = lj_image([rc.randrange(1 << 13) for _ in range(w * h)], w, h)
    D = Doc(A, cam, o)
    raw = D.raw()
    tags_strip(raw, D.t, w, h, jpeg, 7)
    raw.short('WhiteLevel', rc.randrange(65536))
    (D.root if A.note % 2 else raw).rat('AsShotNeutral', *rats)
    return D.finish()


def nikon_note(A, fill):
    mt = Tiff(A.me)
    mt.rng = A.rng if A.shuffle else None
    mt.root_first = True
    mn = mt.ifd()
    fill(mn, A.me)
    return b'Nikon\0\x02\x10\0\0' + mt.serialise(unknown=A.unknown, pad=A.pad and 3)


NEFKEYS = None


def nef_crypt(plain, serial, key):
    """the stream is its own inverse; tables from the specification module"""
    global NEFKEYS
    if NEFKEYS is None:
        import os, re
        from common import SPEC
        s = open(os.path.join(SPEC, 'NikonKeys.tla')).read()
        g = lambda n: [int(x) for x in re.findall(r'\d+', re.search(n + r' ==\s*<<(.*?)>>', s, re.S).group(1))]
        NEFKEYS = g('SerialMap'), g('KeyMap')
    no = 0
    for c in serial:
        if c == 0:
            break
        no = no * 10 + (c - 48 if 48 <= c <= 57 else c % 10)
    ci = NEFKEYS[0][no & 255]
    cj = NEFKEYS[1][key[0] ^ key[1] ^ key[2] ^ key[3]]
    ck, out = 0x60, bytearray()
    for b in plain:
        cj += ci * ck
        ck += 1
        out.append(b ^ (cj & 255))
    return bytes(out)


def b_nef(cam, rc, A, o):
    bps = int(cam[2][:-3])
    w, h = dims(rc, o)
    if cam[1] == 'NIKON D100':
        w, h = 3034, 1
    kind = o.get('kind', rc.choice(['wb0', '0100', '0103', '0204', '0205']))
    rats = [(rc.randrange(1, 1 << rc.randint(1, 29)), rc.randrange(1, 1 << rc.randint(1, 29))) for _ in range(4)]
    body = bytearray(rbytes(rc, 700))
    w16 = [rc.randrange(65536) for _ in range(60)]
    serial = rc.choice([b'%d' % rc.randrange(10 ** rc.randint(1, 9)), b'NO= %08x' % rc.getrandbits(32), b'0', bytes(rc.randrange(32, 127) for _ in range(rc.randint(1, 12)))])
    key = rbytes(rc, 4)
    serial, key = o.get('serial', serial), o.get('key', key)
    # one byte order independent row layout: samples as 16 bit words in the order of the file
    samples = [rc.randrange(1 << bps) for _ in range(w * h)]
    plain = rc.random() < .5
    if cam[1] == 'NIKON D100':
        data = rbytes(rc, 5000)
    elif bps == 14:
        data = struct.pack(A.e + '%dH' % (w * h), *samples)
    else:
        b = bytearray()
        for k in range(0, w * h, 2):
            p, q = samples[k], samples[k + 1]
            if A.e == '<':
                b += bytes([p & 255, (p >> 8) | (q & 15) << 4, q >> 4])
            else:
                b += bytes([p >> 4, (p & 15) << 4 | q >> 8, q & 255])
        data = bytes(b)
    D = Doc(A, cam, o)
    raw = D.raw('sub' if A.sub in (None, 'root') else A.sub)
    tags_strip(raw, D.t, w, h, data, 1, bps)

    def fill(mn, e):
        if kind == 'wb0':
            mn.rat('NefWB0', *rats)
            if A.note == 1:
                mn.undef('NefWB1', b'0999' + bytes(200))
        elif kind in ('0100', '0103'):
            # 16 bit values in the byte order of the note
            mn.undef('NefWB1', kind.encode() + struct.pack(e + '58H', *w16[:58]))
        else:
            off = 284 if kind == '0204' else 4
            enc = bytes(body[:off - 4]) + nef_crypt(bytes(body[300:580]), serial, key)
            mn.undef('NefWB1', kind.encode() + enc + bytes(8))
        if kind in ('0204', '0205'):
            mn.ascii('NefSerial', serial.decode('latin1'), pad=rc.choice([1, 3]))
            mn.undef('NefKey', key)
    ex = Ifd()
    D.exif(ex)
    ex.undef('Makernote', nikon_note(A, fill))
    return D.finish()


def b_nrw(cam, rc, A, o):
    hints = attrs(cam).get('hints', [])
    w, h = o.get('dims') or (8 * rc.randint(126, 128), 1)
    data = rbytes(rc, 4096 + w * h * 2)
    kind = o.get('kind', rc.choice(['wb0', 'nrw100', 'nrw', 'old']))
    rats = [(rc.randrange(1, 1 << rc.randint(1, 29)), rc.randrange(1, 1 << rc.randint(1, 29))) for _ in range(4)]
    lv = bytearray(rbytes(rc, 2600))
    for k in (1556, 56):
        struct.pack_into('<4I', lv, k, *[rc.randrange(1 << rc.randint(1, 27)) for _ in range(4)])
    lv[0:8] = {'nrw100': b'NRW 0100', 'nrw': b'NRW ' + rc.choice([b'0201', b'0101', b'0110', b'0200', b'1100', b'0000', b'0102'])}.get(kind, b'ZZZ 0100')
    D = Doc(A, cam, o)
    raw = D.raw('sub' if A.sub in (None, 'root') else A.sub)
    tags_strip(raw, D.t, w, h, data)

    def fill(mn, e):
        if kind == 'wb0':
            mn.rat('NefWB0', *rats)
        else:
            mn.undef('NrwWB', bytes(lv))
    ex = Ifd()
    D.exif(ex)
    ex.undef('Makernote', nikon_note(A, fill))
    return D.finish()


def rw2_dims(rc, mode):
    while True:
        w, h = 2 * rc.randint(2, 30), rc.randint(3, 40)
        if pana_mode(w, h) == mode:
            return w, h


def b_rw2(cam, rc, A, o):
    w, h = o.get('dims') or rw2_dims(rc, cam[2])
    kind = o.get('kind', rc.choice(['rb', 'rgb']))
    v = [rc.randrange(1 << rc.randint(1, 16)) for _ in range(3)]
    data = rbytes(rc, w * h * 2)
    D = Doc(A, cam, o)
    raw = D.raw('root' if A.sub in (None, 'deep') else A.sub)
    raw.short('PanaWidth', w).short('PanaLength', h)
    d = D.root if A.note % 2 else raw
    if kind == 'rb':
        d.short('PanaWBsR', v[0]).short('PanaWBsB', v[2])
    else:
        d.short('PanaWBs2R', v[0]).short('PanaWBs2G', v[1]).short('PanaWBs2B', v[2])
        if A.note == 3:
            d.short('PanaWBsR', v[0])        # alone it says nothing
    # how much of the file is left behind the offset decides the layout: data is last
    raw.long('StripOffsets', D.t.blob('end', b''))
    t = D.t
    A.decoy = None
    widen(t, A)
    f = bytearray(t.serialise(unknown=A.unknown, pad=A.pad))
    p = t.pos[raw] if raw is not D.root else t.pos[D.root]
    n = struct.unpack_from(A.e + 'H', f, p)[0]
    for k in range(n):
        q = p + 2 + 12 * k
        if struct.unpack_from(A.e + 'H', f, q)[0] == TAG['StripOffsets']:
            struct.pack_into(A.e + 'I', f, q + 8, len(f))
    return bytes(f) + data


def b_arw(cam, rc, A, o):
    w, h = dims(rc, o)
    key = rc.getrandbits(32)
    kind = o.get('kind', rc.choice(['RGGB', 'GRBG']))
    typ = rc.choice([3, 4])
    lv = [rc.randrange(1 << (16 if typ == 3 else rc.randint(1, 24))) for _ in range(4)]
    data = rbytes(rc, w * h * 2)
    D = Doc(A, cam, o)
    raw = D.raw()
    tags_strip(raw, D.t, w, h, data, 1, 16, cfa=False)
    t = D.t
    D.root.long('DNGPrivateArea', Ref('priv'))
    extra = A.rng.randrange(3) if not A.plain else 0
    t.blob('priv', bytes(2 + 12 * (3 + extra) + 4))
    n = 2 + 12 * (1 + extra) + 4 + 16 + 4 * A.rng.randrange(4)
    t.blob('enc', bytes(n + 4))
    f = bytearray(D.finish())
    p, q = t.pos['priv'], t.pos['enc']

    def directory(ents):
        ents = ents + [(A.rng.choice(UNKNOWN), 4, 1, A.rng.getrandbits(32)) for _ in range(extra)]
        if A.shuffle:
            A.rng.shuffle(ents)
        return struct.pack('<H', len(ents)) + b''.join(struct.pack('<HHII', *x) for x in ents) + b'\0' * 4
    lt = 4 if not A.widths else 13
    d = directory([(TAG['SonyOffset'], lt, 1, q), (TAG['SonyLength'], lt, 1, n), (TAG['SonyKey'], 4, 1, key)])
    f[p:p + len(d)] = d
    tag = TAG['SonyGRBG' if kind == 'GRBG' else 'SonyRGGB']
    in_ = directory([(tag, typ, 4, q + 2 + 12 * (1 + extra) + 4)])
    in_ += struct.pack('<4H' if typ == 3 else '<4I', *lv)
    in_ += bytes(n + 4 - len(in_))
    f[q:q + len(in_)] = sony_crypt(in_, key)[:len(in_)]
    return bytes(f)


def b_a100(cam, rc, A, o):
    """the transitional format: fixed size, column-wise data where a sub directory is expected, Minolta style blocks"""
    A.tail = 0
    D = Doc(A, cam, o)
    t = D.t
    P = 30000
    t.blob('d', b'\x6d\xb6\xdb\x6d', at=P)
    D.root.add('SubIFDs', 4, [Ref('d')])
    lv = [rc.randrange(65536) for _ in range(5)]
    blocks = []
    for _ in range(A.rng.choice([0, 1, 3]) if not A.plain else 1):
        n = A.rng.randrange(40)
        blocks.append(b'\0' + A.rng.choice([b'PRD', b'TTW', b'RIF', b'PAD']) + struct.pack('<I', n) + rbytes(A.rng, n))
    blocks.append(b'\0WBG' + struct.pack('<I', 12) + struct.pack('<6H', rc.randrange(65536), rc.randrange(65536), *lv[:4]))
    t.blob('priv', rbytes(A.rng, 8) + b''.join(blocks) + bytes(40))
    D.root.long('DNGPrivateArea', Ref('priv'))
    f = D.finish(decoy=False)
    assert t.pos['d'] == P and max(t.pos.values()) == P and len(f) < P + 4096
    first = b'\x6d\xb6\xdb' + struct.pack('>HH', 0, rc.randrange(65536))          # no differences, which is no directory either; then a long one
    return f[:P] + first + b'\x6d\xb6\xdb' * (3881 * 2608 // 8 + 8)


def b_srf(cam, rc, A, o):
    w, h = dims(rc, o, 1, (1, 16), (1, 9))
    D = Doc(A, cam, o)
    raw = D.raw()
    raw.long('ImageWidth', w).long('ImageLength', h)
    head = D.finish()
    out = bytearray(862144 + w * h * 2 + 4)
    out[:len(head)] = head
    out[164600:164644] = rbytes(rc, 44)
    out[200896:200896 + 1028] = rbytes(rc, 1028)
    out[862144:] = rbytes(rc, w * h * 2 + 4)
    return bytes(out)


def b_cr2(cam, rc, A, o):
    a = attrs(cam)
    hints = a.get('hints', [])
    ah, av = a.get('blackareah', [0, 0]), a.get('blackareav', [0, 0])
    w, h = o.get('dims') or (max(sum(av), 2) + 2 * rc.randint(0, 4), max(sum(ah), 1) + rc.randint(0, 3))
    w += w % 2
    dbl = 'double_line' in hints
    if dbl:
        h += h % 2
    lin = 'linearization' in hints
    bits = 12 if lin else 14
    base = rc.randrange(1 << (bits - 3))
    amp = rc.choice([0, 1, 5, 40, 1 << (bits - 3)])
    hi = [rc.randrange(1 << (bits - 2)) for _ in range(2)]
    if w * h < 60000:
        vals = [base + rc.randint(0, amp) + hi[(k % w) & 1] for k in range(w * h)]
    else:
        rows = [[base + rc.randint(0, amp) + hi[k & 1] for k in range(w)] for _ in range(6)]
        vals = [v for y in range(h) for v in rows[y % 6]]
    if o.get('vals'):
        vals = o['vals'](w, h)
    jpeg = lj_image(vals, w * 2 if dbl else w, h // 2 if dbl else h, bits)
    kind = o.get('kind', rc.choice(['color', 'color', 'ps', 'old', 'none']))
    woff = a.get('wb_offset', 0) or 63
    cd = [rc.randrange(65536) for _ in range(woff + 12)]
    ps = [rc.randrange(1 << rc.randint(1, 29)) for _ in range(8)]
    rats = [(rc.randrange(1, 1 << rc.randint(1, 29)), rc.randrange(1, 1 << rc.randint(1, 29))) for _ in range(3)]
    mode = o.get('mode', rc.choice(['id', 'cfa', 'old']))
    D = Doc(A, cam, o)
    mn = Ifd()
    ex = Ifd()
    D.exif(ex)
    ex.makernote(mn)
    if kind == 'color':
        mn.short('Cr2ColorData', *cd)
    elif kind == 'ps':
        mn.long('Cr2PowerShotWB', *ps)
    elif kind == 'old':
        mn.rat('Cr2OldWB', *rats)
    else:
        mn.short(0x0007, 1)
    if lin:
        D.root.short('GrayResponse', *[min(65535, 3 * k) for k in range(4096)])
    if mode == 'old':
        D.root.long('Cr2OldOffset', D.t.blob('j', jpeg))
    else:
        raw = D.raw('chain' if A.sub in (None, 'root') else A.sub)
        raw.long('StripOffsets', D.t.blob('j', jpeg))
        if mode == 'id':
            raw.long('Cr2Id', 1)
        else:
            raw.byte('CFAPattern', 0, 1, 1, 2)
    return D.finish(decoy=mode != 'old')


def b_dng(cam, rc, A, o):
    linear = o.get('linear', rc.random() < .25)
    cpp = 3 if linear else 1
    w, h = dims(rc, o, 2, (4, 20), (3, 12))
    pat = o.get('pat') or rc.choice([[0, 1, 1, 2], [2, 1, 1, 0], [1, 0, 2, 1], [1, 2, 0, 1], [0, 1, 2, 1], [1, 1, 1, 1]])
    if o.get('pat') is None and rc.random() < .2:
        pat = [rc.randrange(3) for _ in range(36)]
    comp = rc.choice([1, 7]) if not linear else 1
    data = rbytes(rc, w * h * cpp * 3 // 2) if comp == 1 else lj_image([rc.randrange(1 << 13) for _ in range(w * h)], w, h)
    big = lambda: (rc.randrange(1, 1 << rc.randint(1, 29)), rc.randrange(1, 1 << rc.randint(1, 29)))
    neutral = [big() for _ in range(3)] if o.get('neutral', rc.random() < .8) else None
    mats = o.get('mats', rc.choice([(), (1,), (2,), (1, 2)]))
    mvals = {m: [(rc.choice([-1, 1]) * rc.randrange(1 << rc.randint(1, 29)), rc.randrange(1, 1 << rc.randint(1, 20))) for _ in range(rc.choice([9, 9, 12]))] for m in mats}
    bk = o.get('bk', rc.choice(['none', 'one', 'pattern', 'comp']))
    nb = {'none': 0, 'one': 1, 'pattern': len(pat), 'comp': cpp}[bk]
    frac = rc.random() < .4
    bl = []
    for _ in range(nb):
        d = rc.choice([1, 2, 7, 256])
        v = rc.randrange(1 << rc.randint(1, 15))
        bl.append((v * d + rc.randrange(d), d) if frac else v)
    wl = o.get('white') or [rc.randrange(1, 65536) for _ in range(rc.choice([1, 1, 3]))]
    aa = None
    if o.get('aa', rc.random() < .6):
        top, left = rc.randrange(h), rc.randrange(w)
        aa = [top, left, rc.randint(top + 1, h), rc.randint(left + 1, w)]
    D = Doc(A, cam, o)
    D.root.byte('DNGVersion', 1, rc.randrange(5), 0, 0)
    raw = D.raw()
    if raw is not D.root and A.note % 2:
        D.root.long('NewSubFileType', rc.choice([1, 1, 5, 9, 65537])).short('Compression', rc.choice([1, 7])).short('ImageWidth', 17).short('ImageLength', 11)
    if raw is not D.root or A.note > 2:
        raw.long('NewSubFileType', 0)
    raw.long('ImageWidth', w).long('ImageLength', h).short('SamplesPerPixel', cpp).short('BitsPerSample', *[12 if comp == 1 else 14] * cpp)
    raw.short('Compression', comp).short('PhotometricInt', 34892 if linear else 32803)
    raw.long('WhiteLevel', *wl)
    if not linear and not o.get('nopat'):
        raw.byte('CFAPattern', *pat)
    raw.long('StripOffsets' if comp == 1 or True else '', D.t.blob('s', data)) if comp == 1 else raw.long('StripOffsets', D.t.blob('s', data))
    if bl:
        raw.rat('BlackLevels', *bl) if frac else raw.short('BlackLevels', *bl)
    if aa:
        raw.long('ActiveArea', *aa)
    if neutral:
        D.root.rat('AsShotNeutral', *neutral)
    for m in mats:
        D.root.srat('ColorMatrix%d' % m, *mvals[m])
    return D.finish()


def b_mos(cam, rc, A, o):
    w, h = dims(rc, o, 1)
    samples = [rc.randrange(65536) for _ in range(w * h)]
    kind = o.get('kind', rc.choice(['neut', 'neut', 'none', 'three', 'short', 'edge', 'real']))
    xmp = '<x:xmpmeta><rdf><tiff:Make>%s</tiff:Make><tiff:Model>%s%s</tiff:Model></rdf>' % (cam[0], cam[1], rc.choice(['', '(LI%d)' % rc.randrange(9999)]))
    meta = b'PKTS' + bytes(rc.randrange(1, 255) for _ in range(rc.randrange(30)))
    ns = [str(rc.randrange(1, 5000)) for _ in range(4)]
    if kind == 'real':
        ns = ['%d.%d' % (rc.randrange(1, 30), rc.randrange(1000)) for _ in range(4)]
    if kind == 'three':
        ns = ns[:3]
    sep = '\n'
    if kind != 'none':
        meta += b'NeutObj_neutrals' + bytes(rc.randrange(1, 255) for _ in range(28)) + sep.join(ns).encode() + rc.choice([b'', b'\n']) + b'\0'
    at = meta.find(b'NeutObj')
    meta += b'.' * (3 if kind == 'short' else at + 71 + rc.choice([0, 0, 1, 5, 20]) - len(meta) if kind == 'edge' else 90)
    D = Doc(A, cam, o, names=False)
    D.root.ascii('Software', 'Camera Library' + o.get('blank', '')).add('Xmp', 7, xmp.encode() + b'\0').undef('LeafMetadata', meta)
    raw = D.raw()
    raw.long('ImageWidth', w).long('ImageLength', h).short('Compression', 1)
    raw.long('TileOffsets', D.t.blob('s', struct.pack(A.e + '%dH' % (w * h), *samples)))
    return D.finish()


def b_iiq(cam, rc, A, o):
    w, h = dims(rc, o, 2)
    rows = [iiq_row(rc, w) for _ in range(h)]
    wb = struct.pack('<3f', *[rc.choice([rc.random() * 4, rc.uniform(.1, 3), 2.0 ** rc.randint(-20, 20), 0.0, 1.0]) for _ in range(3)])
    black = o.get('black', rc.choice([None, rc.randrange(1 << rc.randint(1, 18)), rc.randrange(1 << 16)]))
    A.e = '<'
    D = Doc(A, cam, o)
    t = D.t
    t.header_len = 20
    ents = [(0x107, 'wb'), (0x108, w), (0x109, h), (0x10f, 'data'), (0x21c, 'strips')]
    if black is not None:
        ents.append((0x21d, black))
    for _ in range(A.unknown):
        ents.append((A.rng.choice([0x100, 0x106, 0x10a, 0x110, 0x210, 0x222]), A.rng.getrandbits(30)))
    order = list(range(h))
    if A.shuffle:
        A.rng.shuffle(ents)
        A.rng.shuffle(order)
    data, offs = bytearray(), [0] * h
    for y in order:
        data += bytes(min(A.pad, 70))
        offs[y] = len(data)
        data += rows[y]
    t.blob('data', bytes(data) + b'\0' * 8)
    t.blob('strips', struct.pack('<%dI' % h, *offs))
    t.blob('wb', wb)
    t.blob('dir', bytes(8 + 16 * len(ents)))
    f = bytearray(D.finish(tail=b'\0' * 16))
    d = t.pos['dir']
    struct.pack_into('<I', f, 16, d - 8)
    struct.pack_into('<I', f, d, len(ents))
    for n, (tag, v) in enumerate(ents):
        val = t.pos[v] - 8 if isinstance(v, str) else v
        struct.pack_into('<4I', f, d + 8 + 16 * n, tag, A.rng.randrange(5), A.rng.randrange(9), val)
    return bytes(f)


def b_raf(cam, rc, A, o):
    a = attrs(cam)
    hints, cr = a.get('hints', []), a.get('crops', [0, 0, 0, 0])
    w, h = dims(rc, o)
    style = 'new'
    bps = 12
    if 'fuji_rotation' in hints or 'fuji_rotation_alt' in hints:
        w, h = cr[1] + cr[3] + 2 * rc.randint(1, 5), cr[0] + cr[2] + 2 * rc.randint(1, 5)
        bps = None
    elif 'jpeg32' in hints:
        w, h = 8 * rc.randint(1, 2), rc.randint(1, 4)
        bps = None
    elif o.get('style', rc.choice(['new', 'new', 'old'])) == 'old':
        style, bps = 'old', None
    kind = 'old' if style == 'old' else o.get('kind', rc.choice(['new', 'old']))
    wb = [rc.randrange(1, 65536) for _ in range(4)]
    samples = [rc.randrange(16384) for _ in range(2 * w * h)]
    dbl = 'double_width' in hints
    D = Doc(A, cam, o)
    # the byte order of the preview's TIFF is that of 16 bit samples
    data = rbytes(rc, w * h * 3 // 2) if bps == 12 or 'jpeg32' in hints else struct.pack(('<' if dbl else A.e) + '%dH' % len(samples), *samples)
    if o.get('style') == 'plain':
        # no header of Fuji's own: a TIFF that says FUJIFILM
        sub = Ifd()
        D.root.sub('RafRawSubIFD', sub)
        sub.long('RafImageWidth', w).long('RafImageLength', h).long('RafOffsets', D.t.blob('s', data)).long('RafWBGRB', *wb[:3])
        if bps is not None:
            sub.long('RafBitsPerSample', bps)
        return D.finish() + b'\0' * 16
    exif = D.finish()
    f = bytearray(rbytes(A.rng, 120))
    f[0:8] = b'FUJIFILM'
    pos = len(f) + A.rng.randrange(30)
    f += rbytes(A.rng, pos - len(f)) + b'\xff\xd8\xff\xe1' + rbytes(A.rng, 8) + exif
    struct.pack_into('>I', f, 84, pos)
    ents = []
    if style == 'old':
        ents.append((0x100, struct.pack('>2H', h, w)))
    if kind == 'old':
        ents.append((TAG['RafOldWB'], struct.pack('>4H', *wb)))
    for _ in range(A.unknown):
        ents.append((A.rng.choice([0x110, 0x111, 0x130, 0xc000]), rbytes(A.rng, A.rng.randrange(1, 20))))
    if A.shuffle:
        A.rng.shuffle(ents)
    struct.pack_into('>I', f, 92, len(f))
    f += struct.pack('>I', len(ents)) + b''.join(struct.pack('>2H', t_, len(b)) + b for t_, b in ents) + b'\0' * 8
    f += rbytes(A.rng, A.rng.randrange(9))
    struct.pack_into('>I', f, 100, len(f))
    if style == 'old':
        return bytes(f) + (b'\0\0' + data[2:]) + b'\0' * 16
    rt = Tiff(A.me)
    rt.rng = A.rng if A.shuffle else None
    rr = rt.ifd()
    sub = Ifd()
    rr.sub('RafRawSubIFD', sub)
    sub.long('RafImageWidth', w).long('RafImageLength', h).long('RafOffsets', rt.blob('s', data))
    if bps is not None:
        sub.long('RafBitsPerSample', bps)
    if kind == 'new':
        sub.long('RafWBGRB', *wb[:3])
    widen(rt, A)
    front(rt, A)
    return bytes(f) + rt.serialise(unknown=A.unknown, pad=A.pad) + b'\0' * 16


def b_mrw(cam, rc, A, o):
    w, h = dims(rc, o)
    packed = rc.random() < .5
    data = rbytes(rc, w * h * 2)
    wb = [rc.randrange(65536) for _ in range(4)]
    if o.get('same', rc.randrange(3)) == 0:
        wb[3] = wb[0]
    prd = bytearray(rbytes(rc, 24))
    struct.pack_into('>2H', prd, 8, h, w)
    prd[16] = 12 if packed else 16
    A.e = '>'
    D = Doc(A, cam, o)
    D.t.root_first = True
    ttw = D.finish()
    blocks = [(b'\0PRD', bytes(prd)), (b'\0WBG', rbytes(A.rng, 4) + struct.pack('>4H', *wb)), (b'\0TTW', ttw)]
    for _ in range(A.more):
        blocks.append((b'\0RIF', rbytes(A.rng, A.rng.randrange(30))))
    if A.shuffle:
        A.rng.shuffle(blocks)
    body = b''.join(t_ + struct.pack('>I', len(b)) + b for t_, b in blocks) + b'\0PAD' + struct.pack('>I', 24) + b'\0' * 24
    return b'\0MRM' + struct.pack('>I', len(body)) + body + data + b'\0' * 8


def b_crw(cam, rc, A, o):
    a = attrs(cam)
    hints = a.get('hints', [])
    kind = o.get('kind', rc.choice(['wb', 'info2', 'info2g', 'info2e', 'info1', 'info768', 'info770', 'none']))
    w, h = o.get('dims') or rc.choice([(8, 8), (16, 8), (8, 16), (32, 4)])
    m = masked(cam)
    if m:
        w, h = (max(1, m[1][0] + m[1][1]) + 63) // 64 * 64, max(1, m[0][0] + m[0][1]) + rc.randint(0, 2)
    nolow = 'nolowbits' in hints
    low = b'' if nolow else rbytes(rc, w * h // 4)
    stream = stuff(rbytes(rc, w * h // 64 * (210 if w * h < 2000 else 40) + 64))
    root = Ciff()
    lv = [rc.randrange(65536) for _ in range(400)]
    items = [(0x080a, cam[0].encode() + b'\0' + cam[1].encode() + b'\0'), (0x1031, struct.pack('<17H', 34, w, h, *lv[:14]))]
    if kind == 'wb':
        items.append((0x10a9, struct.pack('<160H', *lv[:160])))
    elif kind in ('info2', 'info2g', 'info2e'):
        lv[0] = {'info2g': rc.randrange(513, 65536), 'info2': rc.randrange(513), 'info2e': rc.choice([512, 512, 513])}[kind]
        items.append((0x102c, struct.pack('<120H', *lv[:120])))
    elif kind == 'info1':
        items.append((0x0032, struct.pack('<200H', *lv[:200])))
    elif kind in ('info768', 'info770'):
        n = 384 if kind == 'info768' else rc.choice([383, 385, 400])
        items.append((0x0032, struct.pack('<%dH' % n, *[max(1, v) for v in lv[:n]])))
    dirs = [root]
    if A.sub in ('sub', 'chain', 'deep'):
        dirs.append(root.sub(0x300a))
        if A.sub == 'deep':
            dirs.append(dirs[-1].sub(A.rng.choice([0x300b, 0x2807])))
    for tag, d in items:
        A.rng.choice(dirs).add(tag, d)
    A.rng.choice(dirs).add(0x1835, struct.pack('<4I', 0, 0, 514, 0), inline=A.note % 2 == 0)
    for _ in range(A.unknown):
        A.rng.choice(dirs).add(A.rng.choice([0x0805, 0x180e, 0x1028, 0x100a]), rbytes(A.rng, A.rng.randint(1, 20)))
    if A.decoy and len(dirs) > 1:
        for tag, d in items:
            # an inner one where an outer exists
            if any(x[0] == tag for x in root.e):
                dirs[-1].add(tag, bytes((b ^ 1) for b in d))
    return crw_wrap(A, root, low, stream)


def crw_wrap(A, root, low, stream):
    lead = bytes(26) + low + rbytes(A.rng, 514) + stream + b'\0' * 16
    start = 26
    head = bytearray(b'II' + struct.pack('<I', start) + b'HEAPCCDR' + bytes(12))
    body = bytearray(root.serialise(A.rng, lead=len(lead) - start))
    f = bytearray(lead[:start]) + body
    f[start:len(lead)] = lead[start:]
    f[0:26] = head[0:26]
    return bytes(f)


def b_ari(cam, rc, A, o):
    w, h = 8 * rc.randint(1, 3), rc.randint(1, 4)
    wb = [rc.choice([rc.random() * 4, rc.uniform(.1, 3), 2.0 ** rc.randint(-20, 20), 0.0]) for _ in range(3)]
    data = rbytes(rc, w * h * 3 // 2)
    off = 700 + len(cam[1]) + A.rng.randrange(40)
    f = bytearray(rbytes(A.rng, off))
    f[0:8] = b'ARRI\x12\x34\x56\x78'
    struct.pack_into('<I', f, 8, off)
    struct.pack_into('<2I', f, 20, w, h)
    struct.pack_into('<3f', f, 100, *wb)
    f[668:668 + len(cam[1]) + 1] = cam[1].encode() + b'\0'
    return bytes(f) + data


def b_naked(cam, rc, A, o):
    a = attrs(cam)
    f = rbytes(rc, a['filesize'])
    return b'\x01\x02' + f[2:]


BUILD = {'ARW': b_arw, 'MEF': b_mef, 'ORF': b_orf, 'SRW': b_srw, 'ERF': b_erf, 'KDC': b_kdc, 'DCS': b_dcs, 'DCR': b_dcr, 'RW2': b_rw2, 'RAF': b_raf,
         'PEF': b_pef, 'IIQ': b_iiq, 'TFR': b_tfr, 'NEF': b_nef, 'NRW': b_nrw, 'CR2': b_cr2, 'DNG': b_dng, 'MOS': b_mos, 'MRW': b_mrw, 'CRW': b_crw,
         'ARI': b_ari, 'NKD': b_naked, 'A100': b_a100, 'SRF': b_srf}


def masked(cam):
    a = attrs(cam)
    ah, av = a.get('blackareah', [0, 0]), a.get('blackareav', [0, 0])
    return [ah, av] if ah[1] or av[1] else None


def formats(cam):
    """the formats a camera's files can come in (besides DNG)"""
    from meta_run import MAKERS
    make, model, mode = cam
    a = attrs(cam)
    out = []
    if a.get('filesize') and not mode:
        out.append('NKD')
    if make == 'ARRI':
        return ['ARI']
    if make in ('Creo/Leaf',):
        return ['MOS']
    if 'inolta' in make or 'MINOLTA' in make:
        return ['MRW']
    if make == 'Leaf':
        return ['MOS', 'IIQ']
    if make == 'Canon':
        return out + ['CR2'] + ([] if model == 'Canon PowerShot Pro70' else ['CRW'])
    if model == 'DCS560C':
        return ['CR2']
    if make not in MAKERS:
        return out
    fm = MAKERS[make]
    if model == 'DSLR-A100':
        return ['A100', 'ARW']
    if model in ('DSC-F828', 'DSC-V3'):
        return ['SRF', 'ARW']
    if fm == 'NEF' and not mode or fm == 'RW2' and not mode or fm not in ('NEF', 'RW2') and mode:
        return out
    return out + [fm]


def make(fmt, cam, cseed, aseed, o=None, plain=False):
    rc, ra = random.Random('c%s' % cseed), random.Random('a%s' % aseed)
    o = o or {}
    A = Arr(ra, plain=plain, e=o.get('e'), tail=fmt not in ('CRW', 'RW2', 'NKD'))
    if 'unknown' in o and not plain:
        A.unknown = o['unknown']
    if 'pad' in o and not plain:
        A.pad = o['pad']
    if 'orient' not in o:
        v = rc.choice([None, 0, 1, 2, 3, 4, 5, 6, 7, 8])
        o = dict(o, orient=None if v is None else (3, v))
    b = BUILD[fmt](cam, rc, A, o)
    f = dict(bytes=b, what='%s %s %s' % (fmt, cam[1], cam[2]))
    m = masked(cam)
    if m and fmt != 'DNG':
        f['areas'] = m
    h = {'NKD': 64, 'A100': 30064, 'SRF': 12000}.get(fmt)
    if h:
        f['head'] = h
    return f
