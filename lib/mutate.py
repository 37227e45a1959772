"""Damaged and hostile files, made from the well formed ones of every format."""
import random, struct
import containers, gen_meta, gen_lj, gen_v, gen_v2, gen_p
from c06 import cams_of, small
from raw import TAG

W16 = [0, 1, 2, 3, 7, 8, 255, 256, 4000, 4001, 0x7fff, 0x8000, 0xfffe, 0xffff]
W32 = [0, 1, 2, 3, 5, 7, 8, 9, 12, 255, 4096, 65535, 65536, 100000, 0x7ffffff, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffff8, 0xffffffff]
POINTERS = {TAG[x] for x in ('SubIFDs', 'ExifIFDPointer', 'Makernote', 'KodakIFD', 'KdcIFD', 'RafRawSubIFD')}


def corpus(seed, per=1, codecs=1):
    """[(name, bytes)] of well formed files of every format and compression"""
    out = []
    by = cams_of()
    for fm in sorted(gen_meta.BUILD):
        if fm in ('NKD', 'A100', 'SRF'):
            continue
        for i in range(per):
            rng = random.Random('%s/%s/%d' % (seed, fm, i))
            f = gen_meta.make(fm, rng.choice(small(by[fm])), '%s/%d' % (seed, i), rng.random(), {}, plain=i % 2 == 0)
            out.append((fm, f['bytes']))
    for mod in (gen_lj, gen_v, gen_v2):
        for name, g in sorted(mod.GENS.items()):
            if name in ('srf', 'panabig'):
                continue
            for i in range(codecs):
                f = g(random.Random('%s/%s/%d' % (seed, name, i)), i)
                if len(f['bytes']) < 200000:
                    out.append((name, f['bytes']))
    for name, g in sorted(gen_p.GENS.items()):
        if name in ('naked', 'pro70'):
            continue
        for i in range(codecs):
            f = g(random.Random('%s/%s/%d' % (seed, name, i)), i)
            if len(f['bytes']) < 200000:
                out.append((name, f['bytes']))
    for i in range(codecs):
        rng = random.Random('%s/x3f/%d' % (seed, i))
        out.append(('x3f', containers.x3f(rng, rng.choice(small(by['ORF'])), rng.randint(1, 6), rng.randint(1, 6))))
    # turned sensors of odd sizes, which may be refused but not misdescribed
    for k in range(1, 4):
        for i in range(codecs):
            rng = random.Random('%s/odd%d/%d' % (seed, k, i))
            rng.odd = k
            rng.kind = ['fuji_rotation', 'fuji_rotation_alt'][i % 2]
            f = gen_p.GENS['rafrot'](rng, i)
            if len(f['bytes']) < 200000:
                out.append(('rafrot odd', f['bytes']))
    return out


def entries(b):
    """positions of the directory entries of a TIFF file: [(pos, endian, tag, type, count)]"""
    out, seen = [], set()

    def walk(off, base, e, depth):
        if (off, e) in seen or depth > 6 or off < 0 or off + 2 > len(b):
            return
        seen.add((off, e))
        n = struct.unpack_from(e + 'H', b, off)[0]
        if n > 300 or off + 2 + 12 * n > len(b):
            return
        for i in range(n):
            p = off + 2 + 12 * i
            tag, typ, cnt = struct.unpack_from(e + 'HHI', b, p)
            out.append((p, e, tag, typ, cnt))
            v = struct.unpack_from(e + 'I', b, p + 8)[0]
            if tag in POINTERS and tag != TAG['Makernote']:
                if cnt == 1:
                    walk(base + v, base, e, depth + 1)
                elif cnt < 10 and base + v + 4 * cnt <= len(b):
                    for k in range(cnt):
                        walk(base + struct.unpack_from(e + 'I', b, base + v + 4 * k)[0], base, e, depth + 1)
            elif tag == TAG['Makernote']:
                q = base + v
                for pre, skip in ((b'OLYMPUS', 12), (b'OLYMP', 8), (b'EPSON', 8), (b'AOC\0', 4), (b'', 0)):
                    if b[q:q + len(pre)] == pre:
                        if b[q + skip:q + skip + 2] in (b'II', b'MM'):
                            walk(q + skip + 2, base, '<' if b[q + skip:q + skip + 1] == b'I' else '>', depth + 1)
                        walk(q + skip, base, e, depth + 1)
                        break
                if b[q:q + 6] == b'PENTAX':
                    walk(q + 10, q, '<' if b[q + 8:q + 10] == b'II' else '>', depth + 1)
                if b[q:q + 7] == b'Nikon\0\x02':
                    walk(q + 18, q + 10, '<' if b[q + 10:q + 12] == b'II' else '>', depth + 1)
        if off + 2 + 12 * n + 4 <= len(b):
            nx = struct.unpack_from(e + 'I', b, off + 2 + 12 * n)[0]
            out.append((off + 2 + 12 * n, e, -1, 0, 0))
            if nx:
                walk(base + nx, base, e, depth)
    for base in (0, 12):
        if b[base:base + 2] in (b'II', b'MM'):
            e = '<' if b[base:base + 1] == b'I' else '>'
            if base + 8 <= len(b):
                walk(base + struct.unpack_from(e + 'I', b, base + 4)[0], base, e, 0)
    if b[:8] == b'FUJIFILM' and len(b) > 120:
        for q in (struct.unpack_from('>I', b, 84)[0] + 12, struct.unpack_from('>I', b, 100)[0]):
            if q + 8 < len(b) and b[q:q + 2] in (b'II', b'MM'):
                e = '<' if b[q:q + 1] == b'I' else '>'
                walk(q + struct.unpack_from(e + 'I', b, q + 4)[0], q, e, 0)
    if b[:4] == b'\0MRM' and len(b) > 40:
        p = 8
        while p + 16 < len(b) and p < 4000:
            ln = struct.unpack_from('>I', b, p + 4)[0]
            if b[p:p + 4] == b'\0TTW':
                walk(p + 16, p + 8, '>', 0)
            p += 8 + ln
    return out


SIZES = {TAG[x] for x in ('ImageWidth', 'ImageLength', 'TileWidth', 'TileLength', 'PanaWidth', 'PanaLength', 'KdcWidth', 'KdcLength', 'RafImageWidth', 'RafImageLength')}


def patch(b, p, fmt, v):
    b = bytearray(b)
    if p + struct.calcsize(fmt) <= len(b):
        struct.pack_into(fmt, b, p, v & ((1 << (8 * struct.calcsize(fmt))) - 1))
    return bytes(b)


def setval(b, en, v, k=0):
    """the (k-th) value of an entry, inline values only"""
    p, e, tag, typ, cnt = en
    f = {1: 'B', 3: 'H', 4: 'I', 9: 'I', 13: 'I', 6: 'B', 8: 'H', 7: 'B', 2: 'B'}.get(typ)
    if f is None or struct.calcsize(f) * cnt > 4 or cnt == 0:
        return patch(b, p + 8, e + 'I', v)
    return patch(b, p + 8 + k * struct.calcsize(f), e + f, v)


WIDTHS = {TAG[x] for x in ('ImageWidth', 'TileWidth', 'PanaWidth', 'KdcWidth', 'RafImageWidth')}
EXTREME = [0, 1, 3, 0xffff, 1 << 16, 1 << 30, 1 << 31, (1 << 31) + 1, 0xffffffff]


def extremes(name, b, k=0):
    """every pair of extreme sizes (None: as it was), in the last or in all directories"""
    sz = [q for q in entries(b) if q[2] in SIZES]
    out = []
    if not sz:
        return out
    last = {}
    for q in sz:
        last[q[2]] = q
    for where, qs in (('all', sz), ('last', list(last.values()))):
        if where == 'last' and len(qs) == len(sz):
            continue
        for i, v in enumerate([None] + EXTREME):
            for j, u in enumerate([None] + EXTREME):
                if (v is None and u is None) or (where == 'last' and (i + j + k) % 3):
                    continue
                c = b
                for q in qs:
                    x = v if q[2] in WIDTHS else u
                    if x is not None:
                        c = patch(c, q[0] + 2, q[1] + 'H', 4)
                        c = patch(c, q[0] + 4, q[1] + 'I', 1)
                        c = patch(c, q[0] + 8, q[1] + 'I', x)
                out.append(('%s: width %s height %s in %s directories' % (name, v, u, where), c))
    return out


OPS = ['trunc', 'trunc', 'size', 'size2', 'field', 'field', 'field', 'value', 'value', 'word', 'word', 'bytes', 'bytes', 'tail', 'zero', 'dup', 'retype']


def mutations(name, b, rng, n, ops=OPS):
    """n damaged versions of a file: [(what, bytes)]"""
    en = entries(b)
    out = []
    off = rng.randrange(len(ops))
    for i in range(n):
        op = ops[(i + off) % len(ops)]
        x = None
        if op == 'trunc':
            k = rng.choice([rng.randrange(len(b)), rng.randrange(len(b)), rng.randrange(min(len(b), 64)), len(b) - 1, len(b) - rng.randint(1, min(len(b), 100))])
            x = ('cut to %d' % k, b[:k])
        elif op in ('size', 'size2') and en:
            sz = [q for q in en if q[2] in SIZES]
            if sz:
                k = rng.sample(sz, min(len(sz), 1 if op == 'size' else 2))
                c = b
                vs = []
                for q in k:
                    # small deviations and absurd ones
                    old = struct.unpack_from(q[1] + ('H' if q[3] == 3 else 'I'), b, q[0] + 8)[0]
                    v = rng.choice([old + 1, old - 1, old * 2, old // 2, old + rng.randint(-20, 20), 0, 1] + W32)
                    vs.append((q[2], v))
                    if rng.random() < .4:
                        c = patch(c, q[0] + 2, q[1] + 'H', 4)
                        c = patch(c, q[0] + 8, q[1] + 'I', v)
                    else:
                        c = setval(c, q, v)
                x = ('sizes %s' % vs, c)
        elif op == 'field' and en:
            q = rng.choice(en)
            w = rng.choice(['tag', 'type', 'count', 'value'])
            if q[2] == -1:
                v = rng.choice([struct.unpack_from(q[1] + 'I', b, 4)[0], rng.randrange(len(b) + 10), 8] + W32)
                x = ('next directory %d' % v, patch(b, q[0], q[1] + 'I', v))
            elif w == 'tag':
                v = rng.choice([rng.choice(list(TAG.values())), rng.choice(list(TAG.values())), rng.choice(W16)])
                x = ('tag %d becomes %d' % (q[2], v), patch(b, q[0], q[1] + 'H', v))
            elif w == 'type':
                v = rng.choice(list(range(0, 15)) + W16)
                x = ('type of %d becomes %d' % (q[2], v), patch(b, q[0] + 2, q[1] + 'H', v))
            elif w == 'count':
                v = rng.choice([q[4] - 1, q[4] + 1, q[4] * 2] + W32)
                x = ('count of %d becomes %d' % (q[2], v), patch(b, q[0] + 4, q[1] + 'I', v))
            else:
                v = rng.choice([len(b) - 1, len(b), len(b) + 1, rng.randrange(len(b) + 10)] + W32)
                x = ('value of %d becomes %d' % (q[2], v), patch(b, q[0] + 8, q[1] + 'I', v))
        elif op == 'value' and en:
            q = rng.choice(en)
            if q[2] != -1:
                v = rng.choice(W32 + list(range(20)) + [34892, 34713, 32767, 32769, 32770, 32772, 65000, 99])
                x = ('value of %d becomes %d' % (q[2], v), setval(b, q, v))
        elif op == 'retype' and en:
            q = rng.choice(en)
            c = patch(b, q[0] + 2, q[1] + 'H', rng.choice([1, 2, 3, 4, 5, 7, 10, 11, 12]))
            x = ('type and value of %d' % q[2], patch(c, q[0] + 8, q[1] + 'I', rng.choice(W32)))
        elif op == 'word':
            p = rng.randrange(min(len(b), rng.choice([16, 120, 1200, len(b)])))
            f = rng.choice(['<H', '>H', '<I', '>I'])
            v = rng.choice(W16 if f[1] == 'H' else W32)
            x = ('%s at %d becomes %d' % (f, p, v), patch(b, p, f, v))
        elif op == 'bytes':
            c = bytearray(b)
            for _ in range(rng.choice([1, 2, 8, 30])):
                c[rng.randrange(len(c))] = rng.choice([0, 255, rng.randrange(256)])
            x = ('random bytes', bytes(c))
        elif op == 'zero':
            p = rng.randrange(len(b))
            k = rng.choice([1, 2, 4, 16, 64, len(b)])
            c = bytearray(b)
            fill = rng.choice([0, 255, 0x80])
            for q in range(p, min(len(b), p + k)):
                c[q] = fill
            x = ('%d bytes of %d at %d' % (k, fill, p), bytes(c))
        elif op == 'tail':
            x = ('doubled', b + b) if rng.random() < .3 else ('random tail', b[:rng.randrange(len(b))] + bytes(rng.randrange(256) for _ in range(rng.choice([1, 50, 500]))))
        elif op == 'dup' and len(b) > 40:
            p, q = rng.randrange(len(b) - 20), rng.randrange(len(b) - 20)
            k = rng.choice([2, 4, 12, 20])
            c = bytearray(b)
            c[p:p + k] = b[q:q + k]
            x = ('%d bytes from %d to %d' % (k, q, p), bytes(c))
        if x is None:
            c = bytearray(b)
            p = rng.randrange(min(len(b), 600))
            c[p] ^= 1 << rng.randrange(8)
            x = ('bit flip at %d' % p, bytes(c))
        out.append(('%s: %s' % (name, x[0]), x[1]))
    return out
