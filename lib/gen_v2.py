"""Generators: Olympus, Panasonic, Canon CRW, Kodak DCR, Phase One, Nikon sNEF."""
import os, re, struct
from raw import *
from gen_v import base_tiff, pick, nikon_cam, nef_wrap
import db


# ------------------------------------------------------------------ Olympus
def orf_encode(rng, w, h):
    """an encoder for the adaptive code (only used to obtain streams whose values stay in range)"""
    b = BitW()
    img = [[0] * w for _ in range(h)]
    left, nw = [0, 0], [0, 0]
    style = rng.choice(['smooth', 'wild', 'mixed', 'steps'])
    top = rng.choice([255, 4095, 4095, 16383])
    for y in range(h):
        ac = [[0, 0, 0], [0, 0, 0]]
        for x in range(w):
            s = x & 1
            i = 2 if ac[s][2] < 3 else 0
            nb = 2 + i
            while (ac[s][0] >> (nb + i)) & 0xffff > 0:
                nb += 1
            nb = min(nb, 16)
            if y < 2 and x < 2:
                pred = 0
            elif y < 2:
                pred = left[s]
            elif x < 2:
                nw[s] = img[y - 2][x]
                pred = nw[s]
            else:
                up = img[y - 2][x]
                ln, un = left[s] - nw[s], up - nw[s]
                if ln * un < 0:
                    pred = left[s] + un if abs(ln) > 32 or abs(un) > 32 else (left[s] + up) >> 1
                else:
                    pred = left[s] if abs(ln) > abs(un) else up
            for _ in range(100):
                if style == 'smooth' or (style == 'mixed' and rng.random() < .7):
                    v = pred + rng.randint(-40, 40)
                elif style == 'steps':
                    v = pred + rng.choice([0, 0, 1, -1, 33, -33, 200, -200, 1000, -1000])
                else:
                    v = rng.randint(0, top)
                v = max(0, min(top, v))
                d = v - pred
                low, diff = d & 3, d >> 2
                a = diff - ac[s][1]
                sign = 1 if a < 0 else 0
                a0 = ~a if sign else a
                high = a0 >> nb
                if high < 12 or high < (1 << max(0, 15 - nb)):
                    break
                top = 4095
                style = 'smooth'
            b.put(sign, 1)
            b.put(low, 2)
            esc = high >= 12 or (rng.random() < .05 and high < (1 << max(0, 15 - nb)))
            if esc:
                b.put(0, 12)
                b.put(high * 2 + rng.randint(0, 1), 16 - nb)
            else:
                b.put(1, high + 1)
            b.put(a0 & ((1 << nb) - 1), nb)
            ac[s][0] = a0
            diff = (a0 ^ (-sign)) + ac[s][1]
            ac[s][1] = (diff * 3 + ac[s][1]) >> 5
            ac[s][2] = 0 if a0 > 16 else ac[s][2] + 1
            left[s] = v
            if y >= 2 and x >= 2:
                nw[s] = img[y - 2][x]
            img[y][x] = v
    return b.done()


OLY = ['OLYMPUS IMAGING CORP.', 'OLYMPUS CORPORATION', 'OLYMPUS OPTICAL CO.,LTD']


def orf_file(rng, cam, w, h, data, size=None, wb=None, e=None, chunks=1):
    """plain ORF; white balance in maker note entries (or wb(root, t))"""
    t, root = base_tiff(rng, cam, e)
    root.long('ImageWidth', w).long('ImageLength', h)
    size = len(data) if size is None else size
    parts = []
    rest = size
    for k in range(chunks - 1):
        c = rng.randint(0, rest)
        parts.append(c)
        rest -= c
    parts.append(rest)
    ref = t.blob('s', data)
    root.add('StripOffsets', 4, [ref] + [rng.getrandbits(20) for _ in range(chunks - 1)])
    root.long('StripByteCounts', *parts)
    if wb:
        wb(root, t)
    else:
        root.short('OlympusRedMul', rng.randint(200, 900)).short('OlympusBlueMul', rng.randint(200, 900))
    f = t.serialise(unknown=2, pad=5, tail=b'\0' * 40)
    return f, t.pos['s'], t


def gen_orf(rng, i):
    cam = pick(rng, rng.choice(OLY), lambda k, a: not k[2])
    w, h = sized(rng, 2 * rng.randint(1, 14), rng.randint(1, 14), 2)
    body = orf_encode(rng, w, h)
    cap = min(w * h * 12 // 8, w * h // 10 * 16, w * h * 2) - 1
    data = bytes(rng.randrange(256) for _ in range(7)) + body + b'\0' * 8
    # the directory's byte count decides the layout; the data may be anything
    size = rng.randint(0, max(0, cap))
    if cap < 0:
        return gen_orf(rng, i)
    f, off, t = orf_file(rng, cam, w, h, data, size=size, chunks=rng.choice([1, 1, 2, 3]))
    C = dict(codec='orf', off=off + 7, w=w, h=h, units=w * h, nout=w * h)
    return dict(id='orf%d' % i, bytes=f, want=[w, h, 1], cases=[C], what='ORF compressed %s %dx%d' % (cam[1], w, h))


# ------------------------------------------------------------------ Panasonic
def pana_mode(w, h):
    r = w * 100 // h
    return '1:1' if r < 125 else '4:3' if r < 145 else '3:2' if r < 165 else '16:9'


def rw2_file(rng, cam, w, h, split, data, tail=b'', wb=None, e=None):
    t, root = base_tiff(rng, cam, e)
    root.short('PanaWidth', w).short('PanaLength', h)
    if split:
        root.long('PanaOffsets', t.blob('s', data))
        if rng.random() < .5:
            root.long('StripOffsets', rng.choice([0xffffffff, 17]))
    else:
        root.long('StripOffsets', t.blob('s', data))
    if wb:
        wb(root, t)
    else:
        root.short('PanaWBsR', rng.randint(256, 900)).short('PanaWBsB', rng.randint(256, 900))
    t.last = 's'
    f = t.serialise(unknown=2, pad=5, tail=tail)
    return f, t.pos['s'], t


def gen_pana(rng, i, big=False):
    for _ in range(100):
        if big:
            # one block of 16 KB or several
            w, h = (14 * rng.randint(80, 110), rng.randint(17, 23)) if i % 4 < 2 else (14 * rng.randint(60, 62), rng.randint(15, 16))
            h += (5 - h % 5) % 5 if rng.random() < .5 and i % 4 < 2 else 0
        else:
            w, h = sized(rng, 14 * rng.randint(1, 3), rng.randint(1, 24), 14)
        if big and i % 2 and (w // 14 * h * 16 + 16383) // 16384 * 16384 + 200 >= w * h * 3 // 2:
            continue
        mode = pana_mode(w, h)
        cams = [k for k in sorted(db.variants()) if k[0] in ('Panasonic', 'LEICA') and k[2] == mode]
        # models that exist in a mode but not in the needed one are rejected
        cam = rng.choice(cams)
        break
    split = i % 2 == 0 if big else True
    nblk = (w // 14 * h * 16 + 16383) // 16384
    # groups of 14 samples are 16 bytes: some hold many zero samples
    data = b''.join(bytes(rng.getrandbits(8) if rng.random() < p else 0 for _ in range(16))
                    for p in (rng.choice([.85, .85, .5, .1, .03, 0]) for _ in range(nblk * 1024)))
    if not split:
        # the strip's length decides the layout: what follows must stay below 12 bits per pixel
        assert nblk * 16384 + 16 < w * h * 3 // 2, (w, h)
    f, off, t = rw2_file(rng, cam, w, h, split, data)
    if not split and len(f) + 16 - off >= w * h * 3 // 2:
        return gen_pana(rng, i, big)
    C = dict(codec='pana', off=off, w=w, h=h, split=split, units=w // 14 * h, nout=w * h)
    return dict(id='pana%d' % i, bytes=f, want=[w, h, 1], cases=[C],
                what='RW2 %s %s %dx%d %s' % ('split' if split else 'straight', cam[1], w, h, mode))


def gen_panabig(rng, i):
    d = gen_pana(rng, i, True)
    d['id'] = 'panabig%d' % i
    return d


# ------------------------------------------------------------------ CIFF / CRW
class Ciff:
    """one CIFF heap: list of (tag incl. type bits, data) or (tag, Ciff)"""

    def __init__(self):
        self.e = []

    def add(self, tag, data, inline=False):
        self.e.append((tag, data, inline))
        return self

    def sub(self, tag=0x300a):
        c = Ciff()
        self.e.append((tag, c, False))
        return c

    def serialise(self, rng, lead=0):
        """heap content with `lead' bytes of foreign data in front"""
        order = list(self.e)
        rng.shuffle(order)
        body = bytearray(lead)
        places = {}
        for n in rng.sample(range(len(order)), len(order)):
            tag, d, inline = order[n]
            if inline:
                continue
            b = d.serialise(rng) if isinstance(d, Ciff) else d
            body += bytes(rng.randrange(256) for _ in range(rng.randrange(4)))
            places[n] = (len(body), len(b))
            body += b
        vsize = len(body)
        body += struct.pack('<H', len(order))
        for n, (tag, d, inline) in enumerate(order):
            if inline:
                body += struct.pack('<H', tag | 0x4000) + (d + b'\0' * 8)[:8]
            else:
                body += struct.pack('<HII', tag, places[n][1], places[n][0])
        body += struct.pack('<I', vsize)
        return bytes(body)


CRW_TYPES = dict(ColorInfo1=0x0032, MakeModel=0x080a, ColorInfo2=0x102c, WhiteBalance=0x10a9, SensorInfo=0x1031,
                 DecoderTable=0x1835)


def crw_file(rng, make, model, w, h, table, low, stream, wbfill=None, lowbits=True, start=26, sensor=True, lead=None):
    root = Ciff()
    where = [root]
    if rng.random() < .7:
        where.append(root.sub(0x300a))
        if rng.random() < .6:
            where.append(where[-1].sub(rng.choice([0x300b, 0x2807])))
    rng.choice(where).add(0x080a, make.encode() + b'\0' + model.encode() + b'\0')
    if sensor:
        rng.choice(where).add(0x1031, struct.pack('<17H', 34, w, h, *[rng.getrandbits(12) for _ in range(14)]))
        rng.choice(where).add(0x1835, struct.pack('<4I', table, 0, 514, 0), inline=rng.random() < .3)
    for _ in range(rng.randrange(3)):
        rng.choice(where).add(rng.choice([0x0805, 0x180e, 0x1028, 0x100a]), bytes(rng.randrange(256) for _ in range(rng.randint(1, 20))))
    if wbfill:
        wbfill(rng.choice(where))
    elif rng.random() < .8:
        rng.choice(where).add(0x10a9, struct.pack('<160H', *[rng.randint(300, 2000) for _ in range(160)]))
    # raw data lies at fixed file positions
    if lead is None:
        lead = bytearray(540 + (w * h // 4 if lowbits else 0))
        for k in range(26, 540):
            lead[k] = rng.randrange(256)
        lead[26:26 + len(low)] = low
        lead = bytes(lead) + stream + b'\0' * 8
    head = bytearray(b'II' + struct.pack('<I', start) + b'HEAPCCDR' + bytes(12))
    body = bytearray(root.serialise(rng, lead=len(lead) - start))
    f = bytearray(lead[:start]) + body
    f[start:len(lead)] = lead[start:]
    f[0:26 if start >= 26 else start] = head[0:26 if start >= 26 else start]
    return bytes(f)


def crw_cams():
    """Canon cameras whose database entry has no masked area: any small image will do"""
    return {k: a for k, a in sorted(db.by_make('Canon').items())
            if not k[2] and not a.get('blackareah') and not a.get('blackareav')}


def crw_tables():
    """the tables as the specification has them"""
    txt = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'Tables.tla')).read()
    one, two = ([crw_codes([int(v) for v in re.findall(r'\d+', a + b)])
                 for a, b in re.findall(r'bits \|-> <<([^>]*>>),\s*vals \|-> <<([^>]*)>>', part)]
                for part in txt.split('CrwFirstSrc ==')[1].split('CrwFirst ==')[0].split('CrwSecondSrc =='))
    return list(zip(one, two))


def crw_codes(t):
    r, code, k = {}, 0, 16
    for ln in range(1, 17):
        for _ in range(t[ln - 1]):
            r.setdefault(t[k], (ln, code))
            code += 1
            k += 1
        code <<= 1
    return r


def gen_crw_all(rng, i, table, cam):
    """every entry of a table is used at least once, where its effect shows"""
    first, second = crw_tables()[table]
    todo1, todo = [sorted(x) for x in (first, second)]
    rng.shuffle(todo1), rng.shuffle(todo)
    out, blocks = [], 0

    def put(c):
        out.append('{:0{}b}'.format(c[1], c[0]))

    def diff(leaf):
        if leaf & 15:
            out.append('{:0{}b}'.format(rng.getrandbits(leaf & 15), leaf & 15))

    while todo or todo1 or blocks % 2:
        leaf = todo1.pop() if todo1 else rng.choice(sorted(first))
        put(first[leaf])
        if leaf != 255:
            diff(leaf)
        k = 1
        while k < 64:
            fits = [v for v in todo if v == 255 or v == 0 or k + (v >> 4) < 64]
            if not fits:
                put(second[0])
                break
            v = rng.choice([x for x in fits if x] or fits)
            todo.remove(v)
            put(second[v])
            if v == 0:
                break
            if v == 255:
                k += 1
                continue
            diff(v)
            k += (v >> 4) + 1
        blocks += 1
    s = ''.join(out)
    s += '0' * (-len(s) % 8)
    stream = stuff(bytes(int(s[k:k + 8], 2) for k in range(0, len(s), 8)) + b'\0' * 8)
    w, h = 32, blocks * 2
    lowb = bytes(rng.randrange(256) for _ in range(w * h // 4))
    f = crw_file(rng, 'Canon', cam[1], w, h, table, lowb, stream, lowbits=True)
    C = dict(codec='crw', w=w, h=h, tree=table, lowbits=True, units=w * h // 64, nout=w * h)
    return dict(id='crw%d' % i, bytes=f, want=[w, h, 1], cases=[C], what='CRW table %d whole %s %dx%d' % (table, cam[1], w, h))


def gen_crw(rng, i):
    cams = crw_cams()
    nolow = {k for k, a in db.by_make('Canon').items() if 'nolowbits' in a.get('hints', [])}
    cam = rng.choice(sorted(nolow)) if i % 6 == 3 else rng.choice(
        [k for k in sorted(cams) if k not in nolow and k[1] != 'Canon PowerShot Pro70'])
    low = cam not in nolow
    sizes = [(32, 6), (64, 4), (16, 12), (128, 3), (96, 4), (48, 8), (8, 24), (24, 8), (40, 16), (64, 1), (4, 32), (160, 4), (192, 2)]
    w, h = sizes[i % len(sizes)]
    if getattr(rng, 'big', None):
        w, h = {'wide': (640, 3), 'tall': (4, 320), 'big': (256, 272)}[rng.big]
    elif i % 16 == 5:
        w, h = 2672, 4       # the one width with an adjustment of dark values
    if not low:
        # these cameras have a masked area far to the right
        a = db.by_make('Canon')[cam]
        w, h = (max([sum(a.get('blackareav', [0, 0])), sum(a.get('blackareah', [0, 0]))]) + 63) // 64 * 64, 2
    table = rng.randrange(3)
    if i % 13 in (2, 7, 11) and not getattr(rng, 'big', None):
        return gen_crw_all(rng, i, (2, 7, 11).index(i % 13), rng.choice([k for k in sorted(cams) if k not in nolow and k[1] != 'Canon PowerShot Pro70']))
    n = w * h // 64 * rng.choice([24, 40, 90]) + 64
    mode = rng.choice([1., .6, .3])
    bits = bytes(rng.getrandbits(8) if rng.random() < mode else rng.choice([0, 0x11, 0x44]) for _ in range(n))
    stream = stuff(bits)
    lowb = bytes(rng.randrange(256) for _ in range(w * h // 4)) if low else b''
    if low and w == 2672:
        lowb = bytes(rng.choice([255, 255, 0, v]) for v in lowb)
    f = crw_file(rng, 'Canon', cam[1], w, h, table, lowb, stream, lowbits=low)
    C = dict(codec='crw', w=w, h=h, tree=table, lowbits=low, units=w * h // 64, nout=w * h)
    return dict(id='crw%d' % i, bytes=f, want=[w, h, 1], cases=[C], what='CRW table %d %s %dx%d' % (table, cam[1], w, h))


# ------------------------------------------------------------------ Kodak DCR
def dcr_segment(rng, size, top):
    """one segment: lengths, bits; values in 0..top"""
    pred = [0, 0]
    lens, bits = [], []
    zero = rng.random() < .1
    for i in range(size):
        e = i & 1
        while True:
            if zero:
                ln = 0
            else:
                ln = rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])
            raw = rng.getrandbits(ln) if ln else 0
            d = raw - ((1 << ln) - 1) if ln and not raw >> (ln - 1) & 1 else raw
            if 0 <= pred[e] + d <= top:
                break
        pred[e] += d
        lens.append(ln)
        bits += [raw >> k & 1 for k in range(ln)]
    lb = bytes(lens[k] | (lens[k + 1] if k + 1 < size else rng.randrange(16)) << 4 for k in range(0, size, 2))
    words = [sum(b << k for k, b in enumerate(bits[j:j + 16])) for j in range(0, len(bits), 16)]
    # first an optional 16-bit word, then pairs
    head = 1 if size & 7 == 4 else 0
    if len(words) < head:
        words += [rng.getrandbits(16)]
    if (len(words) - head) % 2:
        words.append(rng.getrandbits(16) if False else 0)
    return lb + b''.join(struct.pack('>H', x) for x in words)


def dcr_file(rng, cam, w, h, data, curve, wb=None):
    t, root = base_tiff(rng, cam, e=rng.choice('<>'))
    k = Ifd()
    root.sub(rng.choice(['KodakIFD', 'ExifIFDPointer']), k)
    k.add('DcrLinearization', 3, curve)
    levels = bytearray(rng.randrange(1, 256) for _ in range(wb[0] if wb else 72))
    if wb:
        struct.pack_into('>3H', levels, 40, *wb[1])
    k.undef('DcrWB', bytes(levels))
    raw = Ifd()
    root.sub('SubIFDs', raw)
    raw.long('ImageWidth', w).long('ImageLength', h).byte('CFAPattern', 0, 1, 1, 2)
    raw.long('StripOffsets', t.blob('s', data)).long('StripByteCounts', len(data))
    f = t.serialise(unknown=2, pad=5, tail=b'\0' * 16)
    return f, t.pos['s']


KODAK_DCR = 'Kodak'


def gen_dcr(rng, i):
    cam = pick(rng, KODAK_DCR, lambda k, a: k[1] != 'DCS560C')
    w = rng.choice([8, 12, 4, 20, 2, 6, 10, 16, 30, 256, 260, 264, 300]) if i % 5 else (260, 132, 252, 516, 388, 256)[i // 5 % 6]
    h = rng.randint(1, 6) if w < 100 else rng.randint(1, 2)
    w, h = sized(rng, w, h, 2)
    n = rng.choice([256, 1024, 4096])
    curve = sorted(rng.randrange(65536) for _ in range(n))
    if i % 3 == 1:      # steep at the end, where dithering must not wrap around
        curve = [v * 100000 // n for v in range(n // 2)] + [65535] * (n - n // 2)
    data = b''.join(dcr_segment(rng, min(256, w - x), n - 1) for y in range(h) for x in range(0, w, 256))
    f, off = dcr_file(rng, cam, w, h, data, curve)
    C = dict(codec='dcr', off=off, w=w, h=h, curve=curve, units=w * h, nout=w * h)
    return dict(id='dcr%d' % i, bytes=f, want=[w, h, 1], cases=[C], what='DCR %s %dx%d curve %d' % (cam[1], w, h, n))


# ------------------------------------------------------------------ Phase One
IIQ_LENS = [8, 7, 6, 9, 11, 10, 5, 12, 14, 13]


def iiq_row(rng, w):
    b = BitW()
    pred, ln = [0, 0], [0, 0]
    for x in range(w):
        e = x & 1
        if x >= w // 8 * 8:
            ln = [14, 14]
        elif x % 8 == 0:
            for k in range(2):
                if x and rng.random() < .4:
                    b.put(1, 1)
                    continue
                j = rng.randint(1, 5)
                s = rng.randint(0, 1)
                b.put(0, j)
                if j < 5:
                    b.put(1, 1)
                b.put(s, 1)
                ln[k] = IIQ_LENS[(j - 1) * 2 + s]
                if x == 0 and ln[k] != 14 and rng.random() < .5:
                    pass
        n = ln[e]
        if n == 14:
            v = rng.randint(0, 65535)
            b.put(v, 16)
        else:
            # pred + bits + 1 - 2^(n-1) has to stay in 0..65535
            half = 1 << (n - 1)
            lo = max(0, half - 1 - pred[e])
            hi = min((1 << n) - 1, 65535 + half - 1 - pred[e])
            raw = rng.randint(lo, hi)
            v = pred[e] + raw + 1 - half
            b.put(raw, n)
        pred[e] = v
    return swap32(b.done())


def iiq_file(rng, cam, w, h, rows, wb=(1.9, 1.0, 1.4), black=None):
    """Phase One: TIFF whose bytes 16.. lead to a second directory"""
    t, root = base_tiff(rng, cam, e='<')
    t.header_len = 20
    ents = [(0x107, 'wb'), (0x108, w), (0x109, h), (0x10f, 'data'), (0x21c, 'strips')]
    if black is not None:
        ents.append((0x21d, black))
    for _ in range(rng.randrange(4)):
        ents.append((rng.choice([0x100, 0x106, 0x10a, 0x110, 0x210, 0x222]), rng.getrandbits(30)))
    rng.shuffle(ents)
    order = list(range(h))
    rng.shuffle(order)
    data = bytearray()
    offs = [0] * h
    for y in order:
        data += bytes(rng.randrange(256) for _ in range(rng.randrange(5)))
        offs[y] = len(data)
        data += rows[y]
    data += b'\0' * 8
    t.blob('data', bytes(data))
    t.blob('strips', struct.pack('<%dI' % h, *offs))
    t.blob('wb', struct.pack('<3f', *wb))
    t.blob('dir', bytes(8 + 16 * len(ents)))
    f = bytearray(t.serialise(unknown=2, pad=5, tail=b'\0' * 16))
    d = t.pos['dir']
    struct.pack_into('<I', f, 16, d - 8)
    struct.pack_into('<I', f, d, len(ents))
    for n, (tag, v) in enumerate(ents):
        val = t.pos[v] - 8 if isinstance(v, str) else v
        struct.pack_into('<4I', f, d + 8 + 16 * n, tag, rng.randrange(5), rng.randrange(9), val)
    return bytes(f), t.pos['data'], offs


def gen_iiq(rng, i):
    cam = pick(rng, 'Phase One A/S')
    w, h = rng.choice([8, 16, 24, 9, 11, 14, 5, 30, 40]), rng.randint(1, 8)
    w, h = sized(rng, w, h)
    rows = [iiq_row(rng, w) for _ in range(h)]
    f, base, offs = iiq_file(rng, cam, w, h, rows)
    C = dict(codec='iiq', w=w, h=h, rowoff=[base + o for o in offs], units=w * h, nout=w * h)
    return dict(id='iiq%d' % i, bytes=f, want=[w, h, 1], cases=[C], what='IIQ %s %dx%d' % (cam[1], w, h))


# ------------------------------------------------------------------ Nikon sNEF
def srgb_to_linear4(i):
    v = i / 4095.0
    r = v / 12.92 if v <= 0.04045 else ((v + 0.055) / 1.055) ** 2.4
    return min(65535, int(r * 65535.0 * 4.0))


def gen_snef(rng, i):
    bps = rng.choice([12, 14])
    cam = nikon_cam(rng, bps)
    w, h = sized(rng, 2 * rng.randint(1, 12), rng.randint(1, 8), 2)
    kind = rng.choice(['random', 'gray', 'extreme'])
    data = bytearray()
    for _ in range(w * h // 2):
        if kind == 'gray':
            y1, y2, cb, cr = rng.randrange(4096), rng.randrange(4096), 2048 + rng.randint(-50, 50), 2048 + rng.randint(-50, 50)
        elif kind == 'extreme':
            y1, y2, cb, cr = [rng.choice([0, 1, 2047, 2048, 2049, 4094, 4095]) for _ in range(4)]
        else:
            y1, y2, cb, cr = [rng.randrange(4096) for _ in range(4)]
        data += bytes([y1 & 255, y1 >> 8 | (y2 & 15) << 4, y2 >> 4, cb & 255, cb >> 8 | (cr & 15) << 4, cr >> 4])
    # white balance as rationals with exact halves etc.: red = a/256, blue = b/256
    a, b = rng.choice([(512, 384), (256, 256), (rng.randint(100, 1200), rng.randint(100, 1200))])

    def fill(mn, e):
        mn.rat('NefWB0', (a, 256), (b, 256), (256, 256), (256, 256))
    f, off = nef_wrap(rng, cam, w, h, bps, 34713, bytes(data), fill, size=w * h * 3)
    if w * h * 3 == w * h * bps // 8:
        return gen_snef(rng, i)
    C = dict(codec='snef', off=off, w=w, h=h, invr=1024 * 256 // a, invb=1024 * 256 // b, curve=[srgb_to_linear4(v) for v in range(4096)],
             units=w * h // 2, nout=w * h * 3)
    return dict(id='snef%d' % i, bytes=f, want=[w, h, 3], cases=[C], what='sNEF %s %dx%d %s' % (cam[1], w, h, kind))


GENS = {'orf': gen_orf, 'pana': gen_pana, 'panabig': gen_panabig, 'crw': gen_crw, 'dcr': gen_dcr, 'iiq': gen_iiq, 'snef': gen_snef}
