"""Which format a file is."""
import itertools, random, struct
import containers, meta_run
from containers import rbytes
from raw import *
from gen_meta import VARIANTS, Arr, Doc, lj_image, make, formats, BUILD
from c06 import cams_of

LEAF = ('Leaf', 'Leaf Aptus-II 5(LI301)', '')
OTHER = {'Mamiya-OP Co.,Ltd.': None, 'Canon': None, 'Kodak': None, 'KODAK': None, 'SEIKO EPSON CORP.': None, 'Hasselblad': None}


def models():
    by = {}
    for (mk, md, mode) in sorted(VARIANTS):
        a = VARIANTS[(mk, md, mode)]
        if not mode and not a.get('blackareah') and not a.get('blackareav') and not a.get('filesize') and md != 'DCS560C':
            by.setdefault(mk, []).append(md)
    return by


def everything(rc, A, make_, model, software, dng, leafcam, size=None):
    """a file that several decoders can read, each in its own way"""
    w, h = 1002 + 2 * rc.randrange(3), rc.randint(1, 2)
    jpeg = lj_image([rc.randrange(1 << 11) for _ in range(w * h)], w, h, 12)
    data = jpeg + rbytes(rc, max(0, w * h * 2 - len(jpeg)) + 16)
    D = Doc(A, None, {}, names=False)
    r = D.root
    if make_ is not None:
        r.ascii('Make', make_)
    if model is not None:
        r.ascii('Model', model)
    if software is not None:
        r.ascii('Software', software)
    if dng:
        r.byte('DNGVersion', 1, 4, 0, 0)
    r.short('Orientation', rc.randint(1, 8))
    r.add('Xmp', 7, ('<tiff:Make>%s</tiff:Make><tiff:Model>%s</tiff:Model>' % leafcam[:2]).encode() + b'\0')
    r.undef('LeafMetadata', b'x' * 90)
    r.short('GrayResponse', *sorted(rc.randrange(65536) for _ in range(4096)))
    r.rat('AsShotNeutral', *[(rc.randrange(1, 5000), rc.randrange(1, 5000)) for _ in range(3)])
    s = D.t.blob('s', data)
    r.long('ImageWidth', w).long('ImageLength', h).long('StripOffsets', s).long('TileOffsets', s).long('StripByteCounts', len(data))
    r.byte('CFAPattern', 0, 1, 1, 2).short('Compression', 7).short('BitsPerSample', 12).short('SamplesPerPixel', 1).short('PhotometricInt', 32803)
    r.short('WhiteLevel', rc.randrange(1, 65536)).long('TileWidth', w).long('TileLength', h)
    lv = bytearray(rbytes(rc, 256))
    mn = Ifd(prefix=b'EPSON\0\x01\0')
    mn.undef('EpsonWB', bytes(lv))
    ex = Ifd()
    r.sub('ExifIFDPointer', ex)
    ex.makernote(mn)
    f = D.finish(decoy=False)
    head = len(f)
    if size:
        assert len(f) < size
        f = f + bytes(size - len(f))
    return f, head


def precedence(ck, rnd, n, padded):
    rng = random.Random('C04/%d/%d' % (ck.seed, rnd))
    by = models()
    leafs = sorted(c for c in VARIANTS if 'MOS' in formats(c))
    naked = sorted(a['filesize'] for k, a in VARIANTS.items() if a.get('filesize') and not k[2])[:4]
    combos = [(mk, k, sw, dng) for mk in [None, '', 'unknown'] + sorted(OTHER) for k in ('own', 'dcs', 'none')
              for sw in (None, 'Camera Library', 'other') for dng in (False, True)]
    files = []
    for r in range(n):
        for i, (mk, k, sw, dng) in enumerate(combos):
            # two out of three in each round
            if n == 1 and (i + i // 7 + ck.seed) % 3 == 0 and not (dng or mk is None):
                continue
            real = {'unknown': rng.choice(['Nobody', 'canon', 'Canon Inc.', 'Leica', 'PENTAX CORPORATION', 'sony', 'Nikon', 'FUJI'])}.get(mk, mk)
            model = None if k == 'none' else 'DCS560C' if k == 'dcs' else rng.choice(by[real]) if real in by else 'Some Model'
            soft = {'other': rng.choice(['Camera', 'camera library', 'Camera Library 2', 'x'])}.get(sw, sw)
            if dng and (real is None or model is None):
                continue            # not well formed
            if real is not None and model is None and real in OTHER:
                continue
            size = rng.choice(naked) if padded and i % padded == 0 else None
            if dng:
                want = 'ok'
            elif model == 'DCS560C':
                if real is None:
                    continue
                want = 'ok' if real == 'Kodak' else 'err'
            elif real is not None:
                if real == 'Kodak':
                    continue        # needs Kodak's own compression
                want = 'ok' if real in OTHER else 'err'
            elif soft == 'Camera Library':
                want = 'ok'
            else:
                want = 'ok' if size else 'err'
            A = Arr(random.Random(rng.random()), plain=rng.random() < .3)
            A.decoy = None
            f, head = everything(rng, A, real, model, soft, dng, rng.choice(leafs), size)
            files.append(dict(id='prec%d_%d_%d' % (rnd, r, i), bytes=f, head=head + 64, expect=want,
                              aspects=[a for a in meta_run.ALL if a != 'black' or not size],
                              what='Make %r Model %r Software %r DNG %s size %s' % (real, model, soft, dng, size)))
    ck.sample({'precedence files': len(files), 'examples': [f['what'] for f in files[:4]]})
    meta_run.run_meta(ck, files, name='prec%d' % rnd)


def sizes(ck, rnd):
    """bare data is recognised by its exact size"""
    rng = random.Random('C04s/%d/%d' % (ck.seed, rnd))
    files = []
    cams = sorted(c for c in VARIANTS if VARIANTS[c].get('filesize') and not c[2])
    all_sizes = {VARIANTS[c]['filesize'] for c in cams}
    for i, c in enumerate(cams):
        n = VARIANTS[c]['filesize']
        for d in ([0, -1, 1] + ([rng.choice([-16, 16, -2, 2, 512])] if ck.thorough or i % 5 == 0 else [])):
            if d and n + d in all_sizes:
                continue
            head = bytes([rng.choice([1, 0x12, 0x49, 0x4d, 0xff]), rng.choice([0, 2, 0x2a])]) + rbytes(rng, 62)
            if head[:4] in (b'\0MRM', b'ARRI', b'FOVb'):
                head = bytes(64)
            files.append(dict(id='size%d_%d_%d' % (rnd, i, d), bytes=head + bytes(n + d - 64), head=64, expect='ok' if d == 0 else 'err',
                              what='%d bytes, %s %+d' % (n + d, c[1], d), aspects=['names', 'size', 'wb', 'white', 'matrix', 'pattern', 'crops', 'orient']))
    # a signature or a maker comes before the size
    by = cams_of()
    n0 = min(all_sizes)
    for i, fm in enumerate(['MRW', 'ARI', 'RAF', 'DNG', 'ORF', 'X3F']):
        c = rng.choice([c for c in by.get(fm, cams) if not VARIANTS.get(c, {}).get('blackareav')] or cams)
        f = dict(bytes=containers.x3f(rng, c, 3, 3)) if fm == 'X3F' else make(fm, c, 'C04s/%d/%d/%s' % (ck.seed, rnd, fm), rng.random(), {}, plain=True)
        b = f['bytes']
        b = b + bytes(n0 - len(b)) if fm != 'X3F' else b[:-4] + bytes(n0 - len(b)) + b[-4:]
        files.append(dict(f, id='signed%d_%s' % (rnd, fm), bytes=b, head=len(f['bytes']) + 64, what='%s at the size of bare data' % fm, expect='err' if fm == 'X3F' else 'ok'))
    ck.sample({'sizes': len(files)})
    meta_run.run_meta(ck, files, name='size%d' % rnd)


def strangers(ck, rnd, n):
    """files of no format"""
    rng = random.Random('C04x/%d/%d' % (ck.seed, rnd))
    files = []

    def add(b, what):
        files.append(dict(id='no%d_%d' % (rnd, len(files)), bytes=b, expect='err', what=what))
    for k in (0, 1, 2, 3, 4, 7, 8, 16, 100):
        add(bytes(k), '%d zero bytes' % k)
    add(b'FOVb' + rbytes(rng, 200), 'X3F')
    add(b'FOVb' + struct.pack('<I', 0x20003) + rbytes(rng, 4000), 'X3F')
    known = sorted(c for c in VARIANTS if not c[2] and not VARIANTS[c].get('blackareav') and not VARIANTS[c].get('blackareah'))
    for i in range(n // 4):
        add(containers.x3f(rng, rng.choice(known), rng.randint(1, 6), rng.randint(1, 6), [35, 35, 30, 11, 6][i % 5], version=[0x20003, 0x10000, 0x40000][i % 3]), 'complete X3F')
    add(b'\xff\xd8\xff\xe0\0\x10JFIF\0' + rbytes(rng, 300), 'JPEG')
    add(b'P6\n3 3\n255\n' + rbytes(rng, 27), 'PPM')
    for b in (b'FUJIFILN', b'HEAPCCDR', b'\0MRN', b'ARRI\x12\x34\x56\x79', b'FOVB', b'MRM\0'):
        add(b + rbytes(rng, 300), 'nearly a signature')
    for i in range(n):
        b = bytearray(rbytes(rng, rng.randint(1, 600)))
        if b[:2] in (b'II', b'MM'):
            b[0] = 1
        add(bytes(b), 'random')
    # TIFF files without maker, and with makers nobody knows
    for i in range(n):
        A = Arr(random.Random(rng.random()))
        A.decoy = None
        D = Doc(A, None, {}, names=False)
        if i % 3:
            D.root.ascii('Make', rng.choice(['Nobody', '', ' ', 'SONYX', 'Sony', 'CANON']))
        if i % 2:
            D.root.ascii('Model', rng.choice(['Canon EOS 5D', 'DCS560', 'dcs560c', 'D3']))
        if i % 5 == 1:
            D.root.ascii('Software', rng.choice(['Camera Librarian', 'Camera', 'Adobe']))
        D.root.long('ImageWidth', 8).long('ImageLength', 8)
        add(D.finish(decoy=False), 'TIFF of no known maker')
    meta_run.run_meta(ck, files, name='no%d' % rnd)


SIGNS = {'MRW': (0, b'\0MRM'), 'CRW': (6, b'HEAPCCDR'), 'ARI': (0, b'ARRI'), 'RAF': (0, b'FUJIFILM')}


def near(ck, rnd):
    """good files with one byte of the signature changed, and makers without the signature they usually have"""
    rng = random.Random('C04n/%d/%d' % (ck.seed, rnd))
    by = cams_of()
    files = []
    for fm, (at, sign) in sorted(SIGNS.items()):
        cams = [c for c in by[fm] if not VARIANTS.get(c, {}).get('blackareav')] or by[fm]
        for p in range(len(sign)):
            for q, x in enumerate((1 << rng.randrange(8), 0x20, 0xff)):
                f = make(fm, rng.choice(cams), 'C04n/%d/%d/%s%d' % (ck.seed, rnd, fm, p), rng.random(), {}, plain=True)
                b = bytearray(f['bytes'])
                if bytes(b[at:at + len(sign)]) != sign:
                    raise RuntimeError(fm)
                b[at + p] ^= x
                files.append(dict(id='near%d_%s_%d_%d' % (rnd, fm, p, q), bytes=bytes(b), expect='err',
                                  what='%s with byte %d of the signature changed by %d' % (fm, p, x)))
    for i in range(8):
        cam = rng.choice([c for c in by['RAF'] if not VARIANTS.get(c, {}).get('blackareav')] or by['RAF'])
        f = make('RAF', cam, 'C04n/%d/%d/plain%d' % (ck.seed, rnd, i), rng.random(), {'style': 'plain'}, plain=i % 2 == 0)
        files.append(dict(f, id='plain%d_%d' % (rnd, i), what='TIFF of ' + cam[1]))
    ck.sample({'nearly signatures': len(files)})
    meta_run.run_meta(ck, files, name='near%d' % rnd)


EXTS = ['', '.nef', '.CR2', '.dng', '.jpg', '.raf', '.arw', '.MRW', '.crw', '.txt', '.x3f', '.ari', '.raw', '.DNG']


def renamed(ck, rnd, k):
    """the name of the file does not matter"""
    rng = random.Random('C04r/%d/%d' % (ck.seed, rnd))
    by = cams_of()
    files = []
    off = rng.randrange(50)
    for fi, fm in enumerate(sorted(BUILD)):
        if fm in ('NKD', 'A100', 'SRF'):
            continue
        cam = rng.choice([c for c in by[fm] if not VARIANTS.get(c, {}).get('blackareav')] or by[fm])
        f = make(fm, cam, 'C04r/%d/%d/%s' % (ck.seed, rnd, fm), rng.random(), {}, plain=True)
        for j in range(k):
            files.append(dict(f, id='name%d_%s_%d' % (rnd, fm, j), ext=EXTS[(off + fi + 5 * j) % len(EXTS)], group='%s%d' % (fm, rnd)))
    meta_run.run_meta(ck, files, name='name%d' % rnd)


def run(ck):
    for r in range(6 if ck.thorough else 1):
        precedence(ck, r, 4 if ck.thorough else 2, 4)
        strangers(ck, r, 200 if ck.thorough else 40)
        renamed(ck, r, 8 if ck.thorough else 4)
        sizes(ck, r)
        near(ck, r)
