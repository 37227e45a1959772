"""Container builders shared by the packed-layout, metadata and identification
checks.  Each builder: (rng, cam, w, h, data, ...) -> (file bytes, position of data)."""
import struct
from raw import *
from gen_v import base_tiff, pick, nikon_cam, nef_wrap, pef_file, srw_file, sony_private, sony_finish, sony_crypt
from gen_v2 import orf_file, rw2_file, crw_file, Ciff, dcr_file, iiq_file, iiq_row, dcr_segment
from gen_lj import dng_base, mos_tiff
import db


def rbytes(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, 'little') if n else b''


def simple(rng, cam, w, h, data, fill=None, e=None, sub=None, tail=b'', orient=True, at=None, extra=()):
    """CFAPattern / StripOffsets in the root or a sub directory"""
    t, root = base_tiff(rng, cam, e, orient)
    raw = root
    if sub if sub is not None else rng.random() < .5:
        raw = Ifd()
        root.sub('SubIFDs', raw)
    raw.long('ImageWidth', w).long('ImageLength', h).byte('CFAPattern', 0, 1, 1, 2)
    raw.long('StripOffsets', t.blob('s', data)).long('StripByteCounts', len(data))
    if fill:
        fill(root, raw, t)
    f = t.serialise(unknown=2, pad=5, tail=tail)
    return f, t.pos['s']


def mef(rng, cam, w, h, data, e=None):
    return simple(rng, cam, w, h, data, e=e)


def erf(rng, cam, w, h, data, rb=(300, 400), e=None):
    def fill(root, raw, t):
        lv = bytearray(rbytes(rng, 256))
        struct.pack_into('>2H', lv, 48, *rb)
        ex = Ifd()
        root.sub('ExifIFDPointer', ex)
        mn = Ifd(prefix=b'EPSON\0\x01\0')
        mn.undef('EpsonWB', bytes(lv))
        ex.makernote(mn)
    return simple(rng, cam, w, h, data, fill, e=e)


def kdc(rng, cam, w, h, data, wb=('kdc', (2, 1), (1, 1), (3, 2)), hack=False, near=True, e=None, edge=False):
    """hack: the two hard-wired data positions"""
    t, root = base_tiff(rng, cam, e)
    k = Ifd()
    root.sub(rng.choice(['KdcIFD', 'KodakIFD', 'SubIFDs']), k)
    k.long('KdcWidth', w - 80).long('KdcLength', h - 70)
    vals = [rng.getrandbits(16) for _ in range(rng.choice([13, 14, 20]))]
    if hack:
        pos = 0x15000 if near else 0x17000
        ref = t.blob('s', data, at=pos)
        tot = rng.randrange(0x15000) if near else rng.randrange(0x15000, 0x20000)
        if edge:
            tot = 0x14fff if near else 0x15000
        vals[4] = rng.randrange(tot + 1)
        vals[12] = tot - vals[4]
    else:
        a = rng.randrange(9)
        ref = t.blob('s', data)
        vals[4], vals[12] = Ref('s', -a), a
        if rng.random() < .5:
            vals[4], vals[12] = vals[12], vals[4]
    k.add('KdcOffset', 4, vals)
    if wb[0] == 'kdc':
        k.rat('KdcWB', *wb[1:])
    else:
        n = wb[0]
        lv = bytearray(rbytes(rng, n))
        struct.pack_into('>2H', lv, 148, *wb[1:])
        k.undef('KodakWB', bytes(lv))
    f = t.serialise(unknown=2, pad=5)
    return f, t.pos['s']


def dcs(rng, cam, w, h, data, table, e=None):
    def fill(root, raw, t):
        root.short('GrayResponse', *table)
        th = Ifd()      # a thumbnail directory comes first
        th.long('ImageWidth', rng.randint(1, 1000)).long('ImageLength', 5).long('StripOffsets', 0)
        root.sub('SubIFDs', th)
    t, root = base_tiff(rng, cam, e)
    root.short('GrayResponse', *table)
    if rng.random() < .6:
        root.long('ImageWidth', rng.randint(1, 1000)).long('ImageLength', 5).long('StripOffsets', 9)
    raw = Ifd()
    root.sub('SubIFDs', raw)
    raw.long('ImageWidth', w).long('ImageLength', h).long('StripOffsets', t.blob('s', data))
    f = t.serialise(unknown=2, pad=5)
    return f, t.pos['s']


def ari(rng, cam, w, h, data, wb=(1.5, 1.0, 1.25)):
    off = 700 + len(cam[1]) + rng.randrange(40)
    f = bytearray(rbytes(rng, off))
    f[0:8] = b'ARRI\x12\x34\x56\x78'
    struct.pack_into('<I', f, 8, off)
    struct.pack_into('<2I', f, 20, w, h)
    struct.pack_into('<3f', f, 100, *wb)
    f[668:668 + len(cam[1]) + 1] = cam[1].encode() + b'\0'
    return bytes(f) + data, off


def mrw(rng, cam, w, h, data, packed, wb=(500, 256, 256, 400), orient=True):
    t = Tiff('>')
    t.rng = rng
    t.root_first = True
    root = t.ifd()
    root.ascii('Make', cam[0]).ascii('Model', cam[1])
    if orient:
        root.short('Orientation', rng.randint(1, 8))
    ttw = t.serialise(unknown=2, pad=4)
    blocks = []
    prd = bytearray(rbytes(rng, 24))
    struct.pack_into('>2H', prd, 8, h, w)
    prd[16] = 12 if packed else rng.choice([16, 0, 14])
    blocks.append((b'\0PRD', bytes(prd)))
    blocks.append((b'\0WBG', rbytes(rng, 4) + struct.pack('>4H', *wb)))
    blocks.append((b'\0TTW', ttw))
    if rng.random() < .5:
        blocks.append((b'\0RIF', rbytes(rng, rng.randrange(30))))
    rng.shuffle(blocks)
    body = b''.join(t_ + struct.pack('>I', len(b)) + b for t_, b in blocks)
    body += b'\0PAD' + struct.pack('>I', 24) + b'\0' * 24
    f = b'\0MRM' + struct.pack('>I', len(body)) + body
    return f + data, len(f)


def raf(rng, cam, w, h, data, bps=None, style='new', wb=('new', 300, 500, 400), re=None, orient=True, e=None):
    """style new: a TIFF at BE32(100); old: plain data there, sizes in the Fuji directory"""
    e = e or rng.choice('<>')
    t, root = base_tiff(rng, cam, e, orient)
    exif = t.serialise(unknown=2, pad=4)
    head = bytearray(rbytes(rng, 120))
    head[0:8] = b'FUJIFILM'
    f = head
    pos = len(f) + rng.randrange(30)
    f += rbytes(rng, pos - len(f)) + b'\xff\xd8\xff\xe1' + rbytes(rng, 8) + exif
    struct.pack_into('>I', f, 84, pos)
    # Fuji directory
    ents = []
    if style == 'old':
        ents.append((0x100, struct.pack('>2H', h, w)))
    if wb[0] == 'old':
        ents.append((TAG['RafOldWB'], struct.pack('>4H', wb[2], wb[1], rng.getrandbits(15), wb[3])))
    for _ in range(rng.randrange(3)):
        ents.append((rng.choice([0x110, 0x111, 0x130, 0xc000]), rbytes(rng, rng.randrange(1, 20))))
    rng.shuffle(ents)
    p92 = len(f)
    f += struct.pack('>I', len(ents)) + b''.join(struct.pack('>2H', t_, len(b)) + b for t_, b in ents) + b'\0' * 8
    struct.pack_into('>I', f, 92, p92)
    f += rbytes(rng, rng.randrange(9))
    if style == 'old':
        # must not look like a TIFF
        p = len(f)
        struct.pack_into('>I', f, 100, p)
        return bytes(f) + data, p
    rt = Tiff(re or rng.choice('<>'))
    rt.rng = rng
    rr = rt.ifd()
    sub = Ifd()
    rr.sub('RafRawSubIFD', sub)
    sub.long('RafImageWidth', w).long('RafImageLength', h).long('RafOffsets', rt.blob('s', data))
    if bps is not None:
        sub.long('RafBitsPerSample', bps)
    if wb[0] == 'new':
        sub.long('RafWBGRB', wb[2], wb[1], wb[3])
    b = rt.serialise(unknown=2, pad=4)
    p = len(f)
    struct.pack_into('>I', f, 100, p)
    return bytes(f) + b, p + rt.pos['s']


def arw_plain(rng, cam, w, h, data, compression, bps, count=None, e=None, levels=(2000, 1024, 1024, 1700), kind='RGGB', key=None):
    t, root = base_tiff(rng, cam, e)
    root.short('ImageWidth', w).short('ImageLength', h).short('Compression', compression).short('BitsPerSample', bps)
    root.long('StripOffsets', t.blob('s', data)).long('StripByteCounts', len(data) if count is None else count)
    sony_private(t, root, rng, levels, kind, key)
    f = sony_finish(t, t.serialise(unknown=2, pad=5))
    return f, t.pos['s']


def nrw(rng, cam, w, h, data, wbfill=None, e=None):
    t, root = base_tiff(rng, cam, e)
    if rng.random() < .5:
        root.long('ImageWidth', rng.randint(1, 1000)).long('ImageLength', 3).byte('CFAPattern', 0, 1, 1, 2)
    raw = Ifd()
    root.sub('SubIFDs', raw)
    raw.long('ImageWidth', w).long('ImageLength', h).byte('CFAPattern', 0, 1, 1, 2)
    raw.long('StripOffsets', t.blob('s', data)).long('StripByteCounts', len(data))
    if wbfill:
        wbfill(root)
    else:
        root.rat('NefWB0', (3, 2), (7, 4), (1, 1), (1, 1))
    f = t.serialise(unknown=2, pad=5)
    return f, t.pos['s']


def mos16(rng, cam, w, h, data, e, neutrals=None):
    t, root, raw = mos_tiff(rng, cam, w, h, 1, e, neutrals)
    raw.long('TileOffsets', t.blob('s', data))
    f = t.serialise(unknown=2, pad=5)
    return f, t.pos['s']


def x3f(rng, cam, w, h, fmt=35, typ=None, version=0x20003):
    """a complete Sigma file: recognised, with a known camera, but its compression is not supported"""
    out = bytearray(b'FOVb' + struct.pack('<I', version) + rbytes(rng, rng.choice([32, 64, 256])))
    t, root = base_tiff(rng, cam, '<' if rng.random() < .5 else '>')
    exif = t.serialise(unknown=1, pad=3)
    dirs = []

    def image(typ, fm, w, h, body):
        dirs.append((len(out), 28 + len(body), b'IMA2'))
        out.extend(b'SECi' + struct.pack('<I6I', 0x20000, typ, fm, w, h, 0, 0)[:24] + body)
    order = ['thumb', 'info', 'raw']
    rng.shuffle(order)
    for o in order:
        if o == 'thumb':
            image(2, 11, 4, 4, rbytes(rng, 48))
        elif o == 'info':
            image(2, 0x12, 4, 4, b'\xff\xd8\xff\xe1' + struct.pack('>H', len(exif) + 8) + b'Exif\0\0' + exif)
        else:
            image(typ or rng.choice([1, 3]), fmt, w, h, rbytes(rng, w * h * 6))
    if rng.random() < .5:
        dirs.insert(rng.randrange(3), (len(out), 20, b'PROP'))
        out.extend(rbytes(rng, 20))
    d = len(out)
    out.extend(b'SECd' + struct.pack('<II', 0x20000, len(dirs)))
    for o, n, i in dirs:
        out.extend(struct.pack('<II', o, n) + i)
    return bytes(out) + struct.pack('<I', d)
