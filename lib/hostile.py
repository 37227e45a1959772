"""Files made to keep a reader busy, and everything that is not a raw file."""
import random, struct
from raw import TAG
from graphs import POINT

MAGIC = [b'II*\0', b'MM\0*', b'II\0\0', b'IIRO', b'IIRS', b'IIU\0', b'IIIITaw', b'FUJIFILM', b'FUJIFILMCCD-RAW 0201FF', b'\0MRM', b'FOVb', b'ARRI\x12\x34\x56\x78',
         b'ARRI', b'II\x1a\0\0\0HEAPCCDR', b'IIIICCDRHEAPCCDR', b'\xff\xd8\xff\xe0', b'\x89PNG', b'', b'\0' * 8, b'\xff' * 8, b'RIFF', b'%PDF', b'P6 2 2 255\n']


def tiff(ents, e='<', nxt=0, at=8, extra=b'', head=None, size=None):
    b = bytearray(head or struct.pack(e + '2sHI', b'II' if e == '<' else b'MM', 42, at))
    b += bytes(at - len(b))
    b += struct.pack(e + 'H', len(ents))
    for t, typ, cnt, v in ents:
        b += struct.pack(e + 'HHI', TAG[t] if isinstance(t, str) else t, typ, cnt)
        b += v.ljust(4, b'\0') if isinstance(v, bytes) else struct.pack(e + 'I', v)
    b += struct.pack(e + 'I', nxt) + extra
    if size:
        b += bytes(max(0, size - len(b)))
    return bytes(b)


def loops(rng, big):
    """directories that contain themselves, many times over"""
    out = []
    for t in POINT:
        for n in [1, 2, 3, 7, 30, 250] + ([3000, 100000] if big else [3000]):
            for nxt in (0, 8):
                arr = 8 + 2 + 12 * 2 + 4
                make = ('Make', 2, 4, b'X\0\0\0')
                e = rng.choice('<>')
                f = tiff([(t, 4, n, 8 if n == 1 else arr), make], e, nxt, extra=struct.pack(e + 'I', 8) * n)
                out.append(('%d pointers %s to itself, next %d' % (n, t, nxt), f))
    # many entries, each pointing back
    for n in (2, 10, 100, 3999):
        out.append(('%d entries to itself' % n, tiff([('SubIFDs', 4, 1, 8)] * n, nxt=8)))
        out.append(('%d entries of many kinds to itself' % n, tiff([(POINT[i % 5], 4, 1, 8) for i in range(n)])))
        # maker notes that are the directory they lie in: the data of the entry is the directory
        out.append(('%d maker notes to itself' % n, tiff([('Makernote', 7, 20000, 8)] * n, extra=bytes(20100))))
    # pointers to what is no directory
    k = 60000 if big else 12000
    out.append(('pointers to nothing', tiff([('SubIFDs', 4, k, 8 + 2 + 12 * 40 + 4)] * 40, extra=struct.pack('<I', 8 + 2 + 12 * 40 + 4 + 2) * k)))
    out.append(('pointers to an empty directory', tiff([('SubIFDs', 4, k, 8 + 2 + 12 * 40 + 4)] * 40,
               extra=struct.pack('<I', 8 + 2 + 12 * 40 + 4 + 4 * k) * k + bytes(8))))
    # two directories in each other
    for n in (1, 2, 5, 40):
        arr1 = 8 + 2 + 12 + 4
        d2 = arr1 + 4 * n
        arr2 = d2 + 2 + 12 + 4
        f = tiff([('SubIFDs', 4, n, d2 if n == 1 else arr1)], nxt=d2, extra=struct.pack('<I', d2) * n)
        f += struct.pack('<HHHII', 1, TAG['ExifIFDPointer'], 4, n, 8 if n == 1 else arr2) + struct.pack('<I', 8) + struct.pack('<I', 8) * n
        out.append(('two directories %d times in each other' % n, f))
    # a long chain and a chain to itself
    f = bytearray(struct.pack('<2sHI', b'II', 42, 8))
    for i in range(1000):
        f += struct.pack('<HHHIII', 1, TAG['Orientation'], 3, 1, 1, 8 + 18 * (i + 1))
    out.append(('chain of 1000 directories', bytes(f) + bytes(20)))
    # the same loops inside other containers
    loop = struct.pack('>2sHI', b'MM', 42, 8) + struct.pack('>HHHII', 1, TAG['SubIFDs'], 4, 50, 26) + struct.pack('>I', 0) + struct.pack('>I', 8) * 50
    raf = bytearray(b'FUJIFILM'.ljust(160, b'\0'))
    struct.pack_into('>I', raf, 84, 148)
    struct.pack_into('>I', raf, 92, 100)
    struct.pack_into('>I', raf, 100, 160)
    out.append(('RAF with a loop', bytes(raf) + loop))
    body = b'\0TTW' + struct.pack('>I', len(loop)) + loop
    out.append(('MRW with a loop', b'\0MRM' + struct.pack('>I', len(body) + 40) + body + bytes(100)))
    # CIFF heaps that contain themselves
    for n in (1, 2, 5, 50, 2000):
        heap = 26
        ents = struct.pack('<HII', 0x300a, 0, 0) * n
        total = heap + 2 + 10 * n + 4
        ents = struct.pack('<HII', 0x300a, total - heap, 0) * n
        f = b'II' + struct.pack('<I', heap) + b'HEAPCCDR' + bytes(12) + struct.pack('<H', n) + ents + struct.pack('<I', 0)
        out.append(('CIFF heap %d times in itself' % n, f))
    # MRW blocks whose lengths wrap around or go nowhere
    for ln in (0, 1, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffff7, 0xfffffff8, 0xfffffff9, 0xffffffff):
        for do in (100, 5000, 0x7fffffff, 0xfffffff8, 0xffffffff):
            out.append(('MRW block length %x data at %x' % (ln, do), b'\0MRM' + struct.pack('>I', do) + (b'\0PAD' + struct.pack('>I', ln)) * 3 + bytes(6000)))
    # old Fuji directories
    for n in (1, 4000, 4001, 0xffffffff):
        for ln in (0, 0xfffb, 0xfffc, 0xffff):
            raf = bytearray(b'FUJIFILM'.ljust(300, b'\0'))
            struct.pack_into('>I', raf, 84, 188)
            struct.pack_into('>I', raf, 92, 250)
            struct.pack_into('>I', raf, 100, 160)
            struct.pack_into('>IHH', raf, 250, n, 0x2ff0, ln)
            raf[200:208] = struct.pack('>2sHI', b'MM', 42, 8)
            out.append(('RAF with %d entries of length %x' % (n, ln), bytes(raf)))
    # X3F directories
    for n in (0, 1, 1000, 0x7fffffff, 0xffffffff):
        for off in (0, 4, 40, 60, 0xffffffff):
            f = bytearray(b'FOVb'.ljust(200, b'\0'))
            struct.pack_into('<II', f, 40, 0x64434553, 0)
            struct.pack_into('<I', f, 48, n)
            struct.pack_into('<I', f, len(f) - 4, off)
            out.append(('X3F with %d entries at %x' % (n, off), bytes(f)))
    return out


def dng(w, h, comp, bps=16, cpp=1, tiles=None, data=b'', extra=()):
    es = [('Compression', 3, 1, comp), ('ImageWidth', 4, 1, w), ('ImageLength', 4, 1, h), ('SamplesPerPixel', 3, 1, cpp), ('PhotometricInt', 3, 1, 34892 if cpp > 1 else 32803),
          ('BitsPerSample', 3, 1, bps), ('DNGVersion', 1, 4, b'\1\1\0\0'), ('WhiteLevel', 3, 1, 4095), ('CFAPattern', 1, 4, b'\0\1\1\2'),
          ('Make', 2, 2, b'A\0'), ('Model', 2, 2, b'B\0')] + list(extra)
    pos = 8 + 2 + 12 * (len(es) + 3) + 4
    if tiles:
        tw, th, n = tiles
        es += [('TileWidth', 4, 1, tw), ('TileLength', 4, 1, th), ('TileOffsets', 4, n, pos + len(data) if n > 1 else pos)]
        return tiff(es, extra=data + struct.pack('<I', pos) * n)
    es += [('StripOffsets', 4, 1, pos), ('StripByteCounts', 4, 1, len(data)), ('Orientation', 3, 1, 1)]
    return tiff(es, extra=data)


def jpeg(w, h, prec=8, comps=2, pred=1, dht=None, sof=0xc3, tail=b'', restart=None):
    d = dht if dht is not None else b'\0' + bytes([0, 1] + [0] * 14) + b'\0'
    b = b'\xff\xd8' + b'\xff\xc4' + struct.pack('>H', 2 + len(d)) + d
    c = b''.join(bytes([i, 0x11, 0]) for i in range(comps))
    b += bytes([0xff, sof]) + struct.pack('>HBHHB', 8 + 3 * comps, prec, h & 65535, w & 65535, comps) + c
    if restart is not None:
        b += b'\xff\xdd' + struct.pack('>HH', 4, restart)
    b += b'\xff\xda' + struct.pack('>HB', 6 + 2 * comps, comps) + b''.join(bytes([i, 0]) for i in range(comps)) + bytes([pred, 0, 0])
    return b + tail


def sizes(rng, big):
    out = []
    j = jpeg(8, 4, tail=bytes(40) + b'\xff\xd9')
    for w, h in [(0, 0), (0, 5), (5, 0), (1, 1), (2, 1), (65535, 1), (1, 65535), (4000, 4000), (65535, 65535), (0x7fffffff, 2), (2, 0x7fffffff), (0xffffffff, 0xffffffff), (1 << 31, 2), (1 << 16, 1 << 16),
                 (3 << 30, 3)] + ([(40000, 30000)] if big else []):
        for cpp in (1, 3, 0, 2, 4, 65535):
            out.append(('DNG %dx%dx%d uncompressed' % (w, h, cpp), dng(w, h, 1, cpp=cpp, data=bytes(64))))
            out.append(('DNG %dx%dx%d compressed' % (w, h, cpp), dng(w, h, 7, cpp=cpp, data=j)))
        for tw, th in [(1, 1), (0, 1), (1, 0), (16, 16), (0xffffffff, 0xffffffff), (w, h)]:
            n = rng.choice([1, 4, 1000])
            out.append(('DNG %dx%d in %d tiles %dx%d' % (w, h, n, tw, th), dng(w, h, 7, tiles=(tw, th, n), data=j)))
    for bps in (0, 1, 7, 8, 10, 12, 14, 15, 17, 32, 65535):
        out.append(('DNG of %d bits' % bps, dng(4, 4, 1, bps=bps, data=bytes(64))))
    for w, h in [(0, 0), (0, 1), (1, 0), (1, 1), (65535, 65535), (65535, 1), (3, 3)]:
        for prec in (0, 1, 2, 8, 15, 16, 17, 255):
            for comps in (0, 1, 2, 3, 4, 5, 255):
                out.append(('JPEG %dx%d of %d bits with %d components' % (w, h, prec, comps), dng(w or 4, h or 4, 7, data=jpeg(w, h, prec, comps, tail=bytes(50)))))
    for dht in [b'', b'\0', b'\0' + bytes(16), b'\0' + bytes([255] * 16) + bytes(255), b'\0' + bytes([0] * 15 + [255]) + bytes(range(255)), b'\0' + bytes([2] + [0] * 15) + b'\0\1',
                b'\0' + bytes([3] + [0] * 15) + b'\0\1\2', b'\xff' + bytes([1] + [0] * 15) + b'\0', b'\0' + bytes([0, 1] + [0] * 14) + b'\xff', b'\0' + bytes([1] + [0] * 15) + b'\x10',
                b'\0' + bytes([0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1]) + b'\x05']:
        for pred in (0, 1, 2, 7, 8, 255):
            for tail in (b'', bytes(60), b'\xff' * 60, b'\xff\xd9', b'\xff\0' * 30):
                out.append(('JPEG table %s predictor %d' % (dht[:20].hex(), pred), dng(8, 4, 7, data=jpeg(4, 4, 8, 2, pred, dht, tail=tail))))
    for sof in range(0xc0, 0xd0):
        out.append(('JPEG frame %x' % sof, dng(8, 4, 7, data=jpeg(4, 4, sof=sof, tail=bytes(30)))))
    for m in (b'\xff\xd8', b'\xff\xd8' + b'\xff' * 500, b'\xff\xd8\xff\xc4\0\0' * 20, b'\xff\xd8\xff\xc4\0\1' * 20, b'\xff\xd8' + b'\xff\xe0\0\2' * 100, b'\xff\xd8' + b'\xff\xc3\0\2' * 10):
        out.append(('JPEG markers %s' % m[:12].hex(), dng(8, 4, 7, data=m)))
    return out


def stubs(rng, every):
    """the first bytes of every kind of file, at every small length"""
    out = []
    for m in MAGIC:
        for n in list(range(0, 40, 1 if every else 3)) + [64, 100, 104, 108, 120, 200, 1000]:
            for fill in (0, 255, None):
                pad = bytes([fill]) * n if fill is not None else bytes(rng.randrange(256) for _ in range(n))
                out.append(('%s and %d bytes' % (m[:12], n), m + pad))
                if m:
                    out.append(('%s cut or padded to %d' % (m[:12], n), (m + pad)[:n]))
    return out
