"""Generators for files whose pixels are lossless-JPEG streams."""
import struct
from raw import *
import db

CATS = list(range(0, 17))


def rand_diff(rng, syms):
    s = rng.choice(syms)
    if s == 0:
        return 0
    if s == 16:
        return -32768
    lo, hi = 1 << (s - 1), (1 << s) - 1
    edge = rng.random()
    m = lo if edge < .15 else hi if edge < .3 else rng.randint(lo, hi)
    return m if rng.random() < .5 else -m


def tables(rng, prec, n, maxsym=None):
    """n random tables as [(Huff, symbols)]"""
    out = []
    for _ in range(n):
        k = rng.randint(2, 17)
        syms = sorted(rng.sample(CATS, k))
        if rng.random() < .3:
            syms = CATS[:]
        if maxsym is not None:
            syms = [s for s in syms if s <= maxsym] or [0, 1, 2]
            if len(syms) == 1:
                syms = [0, 1, 2]
        # the precision of the samples doesn't limit the length of the codes
        h = random_huff(rng, syms, unused=rng.choice([0, 0, 0, 1, 2, 5]))
        out.append((h, syms))
    return out


def app_segment(rng, seg):
    """an application segment or a comment: whatever it says, it's skipped"""
    m = rng.choice([0xfe] + [0xe0 + i for i in range(16)])
    body = bytes(rng.randrange(0, 256) for _ in range(rng.randrange(0, 20)))
    if rng.random() < .5:    # a thumbnail, say
        body += b'\xff\xd8' + rng.choice([b'\xff\xc4\x00\x03\x00', b'\xff\xdb\x00\x43\x00', b'\xff\xda\x00\x08',
                                          b'\xff\xc3\x00\x0b\x08\x00\x10\x00\x10\x01\x00\x11\x00', b'\xff\xd9'])
    return seg(m, body)


BAD = ['start', 'precision', 'components', 'frame length', 'class', 'number', 'table length', 'end', 'quantisation',
       'frame missing', 'scan components', 'selector', 'scan table', 'predictor', 'single', 'restart', 'table missing', 'segment']


def jpeg_head(rng, prec, h, w, comps, tabs, tsel, pred=1, pt=0, ids=None, sosids=None, bad=None):
    """SOI .. SOS.  comps: list of sampling bytes; tabs: {id: Huff}.  With bad, something is wrong with it."""
    def seg(m, body, n=0):
        fill = b'\xff' * (rng.choice([0, 0, 0, 1, 3]))
        return fill + b'\xff' + bytes([m]) + struct.pack('>H', len(body) + 2 + n) + body
    ids = ids or list(range(1, len(comps) + 1))
    if bad == 'precision':
        prec = rng.choice([0, 8, 11, 17, 32])
    ncomp = len(comps)
    if bad == 'components':
        ids, comps = rng.choice([([], []), ([7, 8, 9, 10, 11], [0x11] * 5)])
    if bad == 'single':
        ids, comps, sosids, tsel = ids[:1], comps[:1], None, tsel[:1]
    sof = struct.pack('>BHHB', prec, h, w, len(comps))
    for i, c in zip(ids, comps):
        sof += bytes([i, c, rng.randrange(256)])
    if bad == 'frame length':
        sof += bytes(rng.choice([1, 3]))
    sof = seg(0xc3, sof)
    dhts = list(tabs.items())
    if bad == 'table missing':
        dhts = [x for x in dhts if x[0] != tsel[-1]]
    rng.shuffle(dhts)
    if dhts and rng.random() < .3:      # defined twice: the last one is the one
        dhts.insert(0, (dhts[-1][0], random_huff(rng, rng.sample(CATS, rng.randint(2, 17)))))
    body = [t.dht(i) for i, t in dhts]
    if bad == 'class':
        body.insert(rng.randrange(len(body) + 1), bytes([0x10 | rng.randrange(4)]) + tabs[tsel[0]].dht(0)[1:])
    if bad == 'number':
        body.insert(rng.randrange(len(body) + 1), bytes([rng.randrange(4, 16)]) + tabs[tsel[0]].dht(0)[1:])
    short = -1 if bad == 'table length' else 0
    if rng.random() < .5:
        dht = seg(0xc4, b''.join(body), short)
    else:
        dht = b''.join(seg(0xc4, t, short) for t in body)
    parts = [sof, dht]
    if bad == 'frame missing':
        parts = [dht]
    if bad == 'quantisation':
        parts.append(seg(0xdb, bytes(65)))
    if bad == 'end':
        parts.append(b'\xff\xd9')
    if bad == 'segment':
        parts.append(b'\xff\xe0\0' + bytes([rng.randrange(2)]))
    if bad == 'restart':
        parts.append(seg(0xdd, struct.pack('>H', rng.randint(1, w * h - 1))))
    elif rng.random() < .2:             # no restarts, or not within this image
        area = w * h // (comps[0] >> 4) // (comps[0] & 15) if comps else 0
        parts.append(seg(0xdd, struct.pack('>H', 0 if area > 65535 else rng.choice([0, area, rng.randint(area, 65535), 65535]))))
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        parts.append(app_segment(rng, seg))
    rng.shuffle(parts)
    if bad == 'table length':           # it has to be noticed there
        parts.remove(dht)
        parts.append(dht)
    b = (b'\xff\xd8' if bad != 'start' else rng.choice([b'\xff\xd9', b'\xfe\xd8', b'\0\xff\xd8'])) + b''.join(parts)
    sel = list(zip(sosids or ids, tsel))
    if sosids is None and rng.random() < .3:
        rng.shuffle(sel)
    if bad == 'scan components':
        sel = sel[:-1] if rng.random() < .5 else sel + sel[:1]
    if bad == 'selector':
        sel[rng.randrange(len(sel))] = (200, 0)
    if bad == 'scan table':
        k = rng.randrange(len(sel))
        sel[k] = (sel[k][0], rng.randrange(4, 16))
    if bad == 'predictor':
        pred = rng.choice([0, 2, 3, 4, 5, 6, 7, 9, 255])
    sos = bytes([len(sel)])
    for i, t in sel:
        sos += bytes([i, t << 4])
    sos += bytes([pred, 0, pt])
    b += seg(0xda, sos)
    return b


def lj_stream(rng, prec, sofw, sofh, ncomp, bad=None):
    pt = rng.choice([0, 0, 0, 0, 1, 2])
    nt = rng.randint(1, min(4, ncomp))
    ids = rng.sample(range(4), nt)
    tb = dict(zip(ids, tables(rng, prec, nt)))
    tsel = [rng.choice(ids) for _ in range(ncomp)]
    used = {i: tb[i][0] for i in ids}
    w = BitW()
    for _ in range(sofw * sofh):
        for c in range(ncomp):
            h, syms = tb[tsel[c]]
            h.put_diff(w, rand_diff(rng, syms))
    body = stuff(w.done(fill=rng.randrange(2)))
    cid = rng.sample(range(0, 255), ncomp)
    head = jpeg_head(rng, prec, sofh, sofw, [0x11] * ncomp, used, tsel, pt=pt, ids=cid, bad=bad)
    return head + body + b'\xff\xd9', dict(extra16=False)


def dng_base(rng, w, h, cpp, bps, compression, e=None):
    t = Tiff(e or rng.choice('<>'))
    t.rng = rng
    root = t.ifd()
    root.byte('DNGVersion', 1, 4, 0, 0).ascii('Make', 'Maker%d' % rng.randrange(100)).ascii('Model', 'M%d' % rng.randrange(1000))
    raw = root
    if rng.random() < .5:
        raw = Ifd()
        root.sub('SubIFDs', raw)
        if rng.random() < .5:   # a preview in the root
            root.long('NewSubFileType', rng.choice([1, 1, 5, 9, 65537])).short('Compression', rng.choice([1, 7])).short('ImageWidth', 17).short('ImageLength', 11)
        raw.long('NewSubFileType', 0)
    raw.long('ImageWidth', w).long('ImageLength', h).short('SamplesPerPixel', cpp)
    raw.short('BitsPerSample', *[bps] * cpp).short('Compression', compression)
    raw.short('PhotometricInt', 32803 if cpp == 1 else 34892)
    raw.short('WhiteLevel', (1 << bps) - 1)
    if cpp == 1:
        raw.byte('CFAPattern', *rng.choice([[0, 1, 1, 2], [2, 1, 1, 0], [1, 0, 2, 1], [1, 2, 0, 1]]))
    return t, root, raw


def gen_dng_lj(rng, i):
    ncomp = rng.choice([2, 2, 2, 3, 4])
    prec = rng.randint(12, 16)
    cpp = 3 if ncomp == 3 else (rng.choice([1, 2]) if ncomp == 2 else rng.choice([1, 4]))
    if cpp != 1 and cpp != 3:
        cpp = 1
    tiled = rng.random() < .6
    # widths in samples must be a multiple of ncomp (per strip/tile)
    unit = ncomp // (1 if cpp == 1 else cpp) if cpp != 3 else 1
    unit = max(1, unit)
    if not tiled:
        pw = unit * rng.randint(1, 12)
        h = rng.randint(1, 14)
        pw, h = sized(rng, pw, h, unit)
        W = pw * cpp
        extra_w, extra_h = rng.choice([0, 0, 1, 3]), rng.choice([0, 0, 1, 2])
        sofw = W // ncomp + extra_w
        data, C = lj_stream(rng, prec, sofw, h + extra_h, ncomp)
        t, root, raw = dng_base(rng, pw, h, cpp, 16, 7)
        raw.add('StripOffsets', 4, [t.blob('s', data)])
        f = t.serialise(unknown=3, pad=9, tail=bytes(rng.randrange(256) for _ in range(rng.randrange(20))))
        off = t.pos['s']
        C.update(codec='lj', jpeg=off, w=W, h=h, x0=0, stride=W, units=sofw * h, nout=W * h)
        return dict(id='dnglj%d' % i, bytes=f, want=[pw, h, cpp], cases=[C], what='DNG strip %d comp prec %d' % (ncomp, prec))
    tw = unit * rng.randint(1, 5)       # tile width in pixels
    th = rng.randint(1, 6)
    pw = unit * rng.randint(1, 14)
    h = rng.randint(1, 15)
    if getattr(rng, 'big', None):
        pw, h = sized(rng, pw, h, unit)
        tw, th = (rng.choice([unit * (pw // unit // 2 + 1), tw]), h) if rng.big == 'wide' else (pw, rng.choice([h // 2 + 1, 257]))
    W, TW = pw * cpp, tw * cpp
    ct, rt = (W - 1) // TW + 1, (h - 1) // th + 1
    t, root, raw = dng_base(rng, pw, h, cpp, 16, 7)
    refs, cases = [], []
    for r in range(rt):
        for c in range(ct):
            # edge tiles may be stored padded (the DNG rule) or cropped
            bw = min(W, (c + 1) * TW) - c * TW
            bh = min(h, (r + 1) * th) - r * th
            sw = TW if rng.random() < .7 else bw
            sh = th if rng.random() < .7 else bh
            data, C = lj_stream(rng, prec, sw // ncomp, sh, ncomp)
            nm = 't%d_%d' % (r, c)
            refs.append(t.blob(nm, data))
            C.update(codec='lj', w=bw, h=bh, x0=r * th * W + c * TW, stride=W, units=(sw // ncomp) * bh, nout=bw * bh, _off=nm)
            cases.append(C)
    raw.long('TileWidth', tw).long('TileLength', th).add('TileOffsets', 4, refs)
    f = t.serialise(unknown=3, pad=5, tail=b'\0' * 4)
    for C in cases:
        nm = C.pop('_off')
        C['jpeg'] = t.pos[nm]
    return dict(id='dngtile%d' % i, bytes=f, want=[pw, h, cpp], cases=cases,
                what='DNG %dx%d tiles %d comp prec %d' % (ct, rt, ncomp, prec))


def canon(rng, hint):
    """a CR2-capable Canon camera with (or, for None, without) the hint"""
    out = []
    for k, a in sorted(db.by_make('Canon').items()):
        hs = a.get('hints', [])
        if 'filesize' in a or k[2]:
            continue
        if hint != '40d_yuv' and (a.get('blackareah') or a.get('blackareav')):
            continue
        if (hint is None and not hs) or (hint and hs == [hint]):
            out.append(k)
    return rng.choice(out)


def cr2_file(rng, cam, jpeg, rawtags, wbvals, extra_root=(), withid=None):
    t = Tiff('<' if rng.random() < .7 else '>')
    t.rng = rng
    root = t.ifd()
    root.ascii('Make', cam[0]).ascii('Model', cam[1]).short('Orientation', rng.randint(1, 8))
    exif, mn = Ifd(), Ifd()
    root.sub('ExifIFDPointer', exif)
    exif.makernote(mn)
    a = db.variants()[cam]
    woff = a.get('wb_offset', 0) or 63
    cd = [rng.randrange(65536) for _ in range(woff + 12)]
    cd[woff], cd[woff + 1], cd[woff + 2], cd[woff + 3] = wbvals[0], wbvals[1], rng.randrange(65536), wbvals[2]
    mn.short('Cr2ColorData', *cd)
    for f in extra_root:
        f(root)
    mode = withid or rng.choice(['id', 'cfa', 'old'])
    if mode == 'old':
        raw = None
        root.add('Cr2OldOffset', 4, [t.blob('j', jpeg)])
        for tag, vals in rawtags.items():
            root.short(tag, *vals)
    else:
        t.ifd().short('Compression', 6)
        raw = t.ifd()
        raw.add('StripOffsets', 4, [t.blob('j', jpeg)])
        if mode == 'id':
            raw.long('Cr2Id', 1)
        else:
            raw.byte('CFAPattern', 0, 1, 1, 2)
        for tag, vals in rawtags.items():
            raw.short(tag, *vals)
    f = t.serialise(unknown=3, pad=5, tail=b'\0' * 8)
    return f, t.pos['j']


def gen_cr2(rng, i):
    kind = ('plain', 'slice', 'double', 'slice', 'lin', 'slice')[i % 6]
    ncomp = rng.choice([2, 2, 4])
    prec = rng.choice([12, 14, 14, 16])
    wbv = [rng.randrange(500, 5000) for _ in range(3)]
    slices, tags, lintab, extra = [], {}, [], []
    if kind == 'lin':
        cam = canon(rng, 'linearization')
        lin = sorted(rng.randrange(65536) for _ in range(4096))
        if i // 6 % 2:
            lin = [min(65535, v * v // 60) for v in range(4096)]
            lin[3000:] = [65535] * 1096
            lin[2999] = 40000
        lintab = lin
        extra = [lambda root: root.short('GrayResponse', *lin)]
        # the samples index the table: keep the values inside it
        sofw, h, ncomp = rng.randint(1, 12), rng.randint(1, 10), 2
        sofw, h = sized(rng, sofw, h)
        prec, pt = 12, 0
        (hf, syms), = tables(rng, prec, 1, maxsym=12)
        hf = random_huff(rng, range(0, 13), maxlen=12)
        w = BitW()
        prev, start = [2048, 2048], [2048, 2048]
        for y in range(h):
            for x in range(sofw):
                for c in range(2):
                    p = start[c] if x == 0 else prev[c]
                    v = min(4095, max(0, rng.choice([0, 4095, rng.randrange(4096), p, p + rng.randint(-9, 9)])))
                    hf.put_diff(w, v - p)
                    prev[c] = v
                    if x == 0:
                        start[c] = v
        head = jpeg_head(rng, prec, h, sofw, [0x11] * 2, {0: hf}, [0, 0])
        data = head + stuff(w.done()) + b'\xff\xd9'
        C = dict(extra16=False)
        outw, outh = sofw * 2, h
    else:
        cam = canon(rng, 'double_line' if kind == 'double' else None)
        sofw, h = sized(rng, rng.randint(2, 12), rng.randint(1, 10))
        data, C = lj_stream(rng, prec, sofw, h, ncomp)
        outw, outh = sofw * ncomp, h
        if kind == 'double':
            outw, outh = outw // 2, outh * 2
        if kind == 'slice' or (kind == 'double' and rng.random() < .5):
            n = min(1 + i // 6 % 4, outw - 1)
            top = (outw - 1) // n
            w1 = (top, rng.randint(1, top), rng.randint((top + 1) // 2, top), 1)[i // 2 % 4]    # the last one is narrow, any, wide
            w2 = outw - n * w1
            slices = [w1] * n + [w2]
            tags['Cr2StripeWidths'] = [n, w1, w2]
        elif rng.random() < .3:
            tags['Cr2StripeWidths'] = [0, 0, 0]
    f, off = cr2_file(rng, cam, data, tags, wbv, extra)
    C.update(codec='cr2', jpeg=off, w=sofw * ncomp, h=h, x0=0, stride=sofw * ncomp,
             units=sofw * h, nout=sofw * ncomp * h, slices=slices, outh=outh, outw=outw,
             lin=1 if lintab else 0, lintab=lintab)
    return dict(id='cr2_%d' % i, bytes=f, want=[outw, outh, 1], cases=[C], what='CR2 %s %s' % (kind, cam[1]))


def gen_sraw(rng, i):
    how, sv = i % 4, 1 + i // 4 % 2     # sliced, size declared, not declared, not declared and upright
    cam = canon(rng, '40d_yuv' if i // 8 % 2 else None)
    yoff = 512 if 'Canon EOS 40D' == cam[1] else 0
    prec = rng.choice([14, 15, 15, 16])
    wbv = [rng.randrange(512, 4000), rng.randrange(512, 4000), rng.randrange(512, 4000)]
    lo = 10 if yoff else 1         # that camera has masked columns, the image must contain them
    mw, mh = rng.randint(max(1, lo // 2), lo + 6), rng.randint(1, 5)
    if getattr(rng, 'big', None):
        mw, mh = {'wide': (280, 1), 'tall': (lo, 270), 'big': (150, 140)}[rng.big]
    sofw, sofh = 2 * mw, sv * mh
    if how == 3:
        sofw = 2 * rng.randint(1, 3)
        sofh = max(lo + lo % 2, sv * (sofw // sv + rng.randint(1, 6) * (1 if rng.random() < .7 else sofw)))
    elif how == 2 and sofw < sofh:
        sofw, sofh = sofh + sofh % 2, sofw
    fields, tags = [], {}
    outpw, outh = sofw, sofh
    sliced = how == 0
    if sliced:
        n = rng.randint(1, 3)
        if sv == 1:
            fw = [rng.randint(1, 3)] * n + [lo + rng.randint(0, 4)]
            tags['Cr2StripeWidths'] = [n, fw[0] * 2, fw[-1] * 2]
        else:
            fw = [(lo + 1) // 2 + rng.randint(0, 3)] * (n + 1)
            tags['Cr2StripeWidths'] = [n, fw[0] * 3, fw[0] * 3]
        outpw = sum(fw)
        fields = fw
        # the frame holds the same number of pixels; its width must be even
        mult = rng.randint(1, 3)
        outh = sv * 2 * mult
        tot = outpw * outh
        cands = [x for x in range(2, tot + 1, 2) if tot % x == 0 and (tot // x) % sv == 0]
        sofw = rng.choice(cands)
        sofh = tot // sofw
        tags['ImageWidth'], tags['ImageLength'] = [outpw], [outh]
    elif how == 1:
        tags['ImageWidth'], tags['ImageLength'] = [outpw], [outh]
    elif sofw < sofh:
        outpw, outh = sofh, sofw       # no declared size: landscape is assumed
    nt = rng.randint(1, 3)
    ids = rng.sample(range(4), nt)
    tb = dict(zip(ids, tables(rng, prec, nt)))
    tsel = [rng.choice(ids) for _ in range(3)]
    w = BitW()
    smooth = rng.random() < .7
    for _ in range((sofw // 2) * (sofh // sv)):
        for c, n in ((0, 2 * sv), (1, 1), (2, 1)):
            hf, syms = tb[tsel[c]]
            ss = [s for s in syms if s <= 12] if smooth else syms
            for _ in range(n):
                hf.put_diff(w, rand_diff(rng, ss or syms))
    head = jpeg_head(rng, prec, sofh, sofw, [0x20 | sv, 0x11, 0x11], {k: v[0] for k, v in tb.items()}, tsel)
    data = head + stuff(w.done()) + b'\xff\xd9'
    f, off = cr2_file(rng, cam, data, tags, wbv, withid='id')
    C = dict(codec='sraw', jpeg=off, fields=fields, outh=outh, outpw=outpw,
             wr=wbv[0], wg=wbv[1], wb=wbv[2], yoff=yoff,
             units=(sofw // 2) * (sofh // sv), nout=sofw * sofh * 3)
    return dict(id='sraw%d' % i, bytes=f, want=[outpw, outh, 3], cases=[C], what='sRAW sv=%d %s' % (sv, 'sliced' if sliced else ''))


def gen_hass(rng, i):
    cam = rng.choice(sorted(k for k in db.by_make('Hasselblad')))
    w, h = sized(rng, 2 * rng.randint(1, 12), rng.randint(1, 10), 2)
    prec = 16
    syms = sorted(rng.sample(CATS, rng.randint(2, 17)))
    hf = random_huff(rng, syms, unused=rng.choice([0, 0, 1, 3]))
    tid = rng.randrange(4)
    bw = BitW()
    for _ in range(w // 2 * h):
        d = [rand_diff(rng, syms), rand_diff(rng, syms)]
        cat = [16 if x == -32768 else abs(x).bit_length() for x in d]
        for c in cat:
            hf.put(bw, c)
        for x, c in zip(d, cat):
            if c == 16:
                bw.put(rng.getrandbits(16), 16)
            elif c:
                bw.put(x if x > 0 else x + (1 << c) - 1, c)
    body = swap32(bw.done())
    head = jpeg_head(rng, prec, h, w, [0x11], {tid: hf}, [tid], pred=8)
    t = Tiff(rng.choice('<>'))
    t.rng = rng
    root = t.ifd()
    root.ascii('Make', cam[0]).ascii('Model', cam[1]).rat('AsShotNeutral', (1, 2), (1, 1), (3, 4))
    raw = Ifd()
    root.sub('SubIFDs', raw)
    raw.short('WhiteLevel', 65535).long('ImageWidth', w).long('ImageLength', h)
    raw.add('StripOffsets', 4, [t.blob('j', head + body + b'\0' * 8)])
    f = t.serialise(unknown=3, pad=5)
    C = dict(codec='hass', jpeg=t.pos['j'], w=w, h=h,
             units=w // 2 * h, nout=w * h)
    return dict(id='hass%d' % i, bytes=f, want=[w, h, 1], cases=[C], what='Hasselblad')


def mos_tiff(rng, cam, w, h, compression, e, neutrals=None):
    t = Tiff(e)
    t.rng = rng
    root = t.ifd()
    xmp = '<x:xmpmeta><rdf><tiff:Make>%s</tiff:Make><tiff:Model>%s(LI%d)</tiff:Model></rdf>' % (cam[0], cam[1], rng.randrange(9999))
    root.ascii('Software', 'Camera Library').add('Xmp', 7, xmp.encode() + b'\0')
    meta = b'PKTS....' + bytes(rng.randrange(1, 255) for _ in range(rng.randrange(30)))
    if neutrals:
        meta += b'NeutObj_neutrals' + b'.' * 28 + '\n'.join(str(x) for x in neutrals).encode() + b'\0' + b'.' * 80
    else:
        meta += b'.' * 100
    root.undef('LeafMetadata', meta)
    raw = t.ifd()
    raw.long('ImageWidth', w).long('ImageLength', h).short('Compression', compression)
    return t, root, raw


def leaf_cam(rng, interlaced):
    out = [k for k, a in sorted(db.variants().items()) if k[0] in ('Leaf', 'Creo/Leaf')
           and ('interlaced' in a.get('hints', [])) == interlaced]
    return rng.choice(out)


def gen_leaf(rng, i):
    inter = rng.random() < .5
    cam = leaf_cam(rng, inter)
    w, h = sized(rng, 2 * rng.randint(1, 9), rng.randint(1, 26), 2)
    prec = rng.choice([14, 16, 16])
    nt = rng.randint(1, 2)
    ids = rng.sample(range(4), nt)
    tb = dict(zip(ids, tables(rng, prec, nt)))
    tsel = [rng.choice(ids) for _ in range(2)]
    head = jpeg_head(rng, prec, h, w // 2, [0x11] * 2, {k: v[0] for k, v in tb.items()}, tsel, ids=[0, 1],
                     sosids=[rng.randrange(256) for _ in range(2)])
    body = b''
    nstrips = (h - 1) // 8 + 1
    for s in range(nstrips):
        rows = min(8, h - 8 * s)
        bw = BitW()
        for _ in range(rows * w // 2):
            for c in range(2):
                hf, syms = tb[tsel[c]]
                d = rand_diff(rng, syms)
                cat = 16 if d == -32768 else abs(d).bit_length()
                hf.put(bw, cat)
                if cat == 16:
                    bw.put(rng.getrandbits(16), 16)
                elif cat:
                    bw.put(d if d > 0 else d + (1 << cat) - 1, cat)
        body += stuff(bw.done())
        if body.endswith(b'\xff'):
            body += b'\0'
        body += b'\xff' + (bytes([0xd0 + s % 8]) if s < nstrips - 1 else b'\xd9')
    t, root, raw = mos_tiff(rng, cam, w, h, rng.choice([7, 99]), rng.choice('<>'))
    raw.add('TileOffsets', 4, [t.blob('j', head + body)])
    f = t.serialise(unknown=3, pad=5)
    C = dict(codec='leaf', jpeg=t.pos['j'], w=w, h=h, interlaced=inter,
             units=w // 2 * h, nout=w * h)
    return dict(id='leaf%d' % i, bytes=f, want=[w, h, 1], cases=[C], what='Leaf %s' % ('interlaced' if inter else ''))


def gen_bad(rng, i):
    """a DNG strip, a tile of a DNG or a CR2 whose stream has something wrong with its header"""
    bad = BAD[i % len(BAD)]
    ncomp, prec = 2 + i % 3 % 2, rng.randint(12, 16)
    kind = (i // len(BAD) + i) % 3
    w, h = 2 * 3 * rng.randint(1, 3), rng.randint(2, 6)
    data, C = lj_stream(rng, prec, w // ncomp, h, ncomp, bad)
    if kind == 2:
        f, off = cr2_file(rng, canon(rng, None), data, {}, [rng.randrange(500, 5000) for _ in range(3)])
    else:
        t, root, raw = dng_base(rng, w, h, 1, 16, 7)
        if kind:
            raw.long('TileWidth', w).long('TileLength', h).add('TileOffsets', 4, [t.blob('j', data)])
        else:
            raw.add('StripOffsets', 4, [t.blob('j', data)])
        f = t.serialise(unknown=3, pad=9, tail=bytes(20))
        off = t.pos['j']
    C.update(codec='lj', jpeg=off, w=w, h=h, x0=0, stride=w, units=0, nout=0)
    return dict(id='bad%d' % i, bytes=f, want=[w, h, 1], cases=[C], what='%s with a wrong %s' % (('DNG strip', 'DNG tile', 'CR2')[kind], bad))


GENS = {'dng': gen_dng_lj, 'cr2': gen_cr2, 'sraw': gen_sraw, 'hass': gen_hass, 'leaf': gen_leaf, 'bad': gen_bad}
