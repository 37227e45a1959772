"""Builders for raw files: TIFF containers, bit streams, Huffman tables."""
import random, struct

T_BYTE, T_ASCII, T_SHORT, T_LONG, T_RATIONAL, T_UNDEF, T_SSHORT, T_SLONG, T_SRATIONAL = 1, 2, 3, 4, 5, 7, 8, 9, 10

TAG = dict(
    PanaWidth=0x0002, PanaLength=0x0003, NefWB0=0x000C, PanaWBsR=0x0011, PanaWBsB=0x0012, NrwWB=0x0014,
    NefSerial=0x001d, PanaWBs2R=0x0024, PanaWBs2G=0x0025, PanaWBs2B=0x0026, Cr2PowerShotWB=0x0029,
    NewSubFileType=0x00FE, Cr2OldOffset=0x0081, NefMeta1=0x008c, NefMeta2=0x0096, NefWB1=0x0097,
    Cr2OldWB=0x00A4, NefKey=0x00a7, ImageWidth=0x0100, ImageLength=0x0101, BitsPerSample=0x0102,
    Compression=0x0103, PhotometricInt=0x0106, Make=0x010F, Model=0x0110, StripOffsets=0x0111,
    Orientation=0x0112, SamplesPerPixel=0x0115, StripByteCounts=0x0117, PanaOffsets=0x0118,
    GrayResponse=0x0123, Software=0x0131, TileWidth=0x0142, TileLength=0x0143, TileOffsets=0x0144,
    SubIFDs=0x014A, PefBlackLevels=0x0200, PefWB=0x0201, PefHuffman=0x0220, Xmp=0x02BC, DcrWB=0x03FD,
    DcrLinearization=0x090D, EpsonWB=0x0E80, KodakWB=0x0F00, OlympusRedMul=0x1017, OlympusBlueMul=0x1018,
    OlympusImgProc=0x2040, RafOldWB=0x2ff0, Cr2ColorData=0x4001, SonyCurve=0x7010, SonyOffset=0x7200,
    SonyLength=0x7201, SonyKey=0x7221, SonyGRBG=0x7303, SonyRGGB=0x7313, CFAPattern=0x828E,
    KodakIFD=0x8290, LeafMetadata=0x8606, ExifIFDPointer=0x8769, Makernote=0x927C, SrwSensorAreas=0xA010,
    SrwRGGBLevels=0xA021, SrwRGGBBlacks=0xA028, Cr2Id=0xc5d8, DNGVersion=0xC612, Linearization=0xC618,
    BlackLevels=0xC61A, WhiteLevel=0xC61D, ColorMatrix1=0xC621, ColorMatrix2=0xC622, AsShotNeutral=0xC628,
    DNGPrivateArea=0xC634, Cr2StripeWidths=0xC640, ActiveArea=0xC68D, RafRawSubIFD=0xF000,
    RafImageWidth=0xF001, RafImageLength=0xF002, RafBitsPerSample=0xF003, RafOffsets=0xF007,
    RafWBGRB=0xF00E, KdcWB=0xFA2A, KdcWidth=0xFD00, KdcLength=0xFD01, KdcOffset=0xFD04, KdcIFD=0xFE00)
KNOWN = set(TAG.values())
UNKNOWN = [t for t in range(0x0001, 0xFFFF) if t not in KNOWN and t != 0x0116]
SIZE = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 6: 1, 7: 1, 8: 2, 9: 4, 10: 8, 11: 4, 12: 8, 13: 4}


def tagno(t):
    return TAG[t] if isinstance(t, str) else t


class Ref:
    """A LONG whose value is the position of a chunk (plus add)."""
    def __init__(self, name, add=0):
        self.name, self.add = name, add


class Ifd:
    def __init__(self, prefix=b''):
        self.e = []          # (tag, typ, values) ; values: list of ints/Refs/bytes
        self.subs = []       # child Ifd objects reachable by Ref
        self.prefix = prefix
        self.suffix = b''
        self.own_endian = None

    def add(self, tag, typ, vals):
        self.e.append([tagno(tag), typ, vals])
        return self

    def short(self, tag, *v):
        return self.add(tag, T_SHORT, list(v))

    def long(self, tag, *v):
        return self.add(tag, T_LONG, list(v))

    def byte(self, tag, *v):
        return self.add(tag, T_BYTE, list(v))

    def ascii(self, tag, s, pad=1):
        return self.add(tag, T_ASCII, s.encode() + b'\0' * pad)

    def undef(self, tag, b):
        return self.add(tag, T_UNDEF, bytes(b))

    def rat(self, tag, *pairs):
        return self.add(tag, T_RATIONAL, list(pairs))

    def srat(self, tag, *pairs):
        return self.add(tag, T_SRATIONAL, list(pairs))

    def sub(self, tag, *ifds):
        self.subs += ifds
        return self.add(tag, T_LONG, [Ref(i) for i in ifds])

    def makernote(self, ifd, count=None):
        self.subs.append(ifd)
        return self.add('Makernote', T_UNDEF, ('mn', ifd, count))


def enc_vals(typ, vals, e, pos):
    if isinstance(vals, (bytes, bytearray)):
        return bytes(vals)
    out = b''
    f = {1: 'B', 3: 'H', 4: 'I', 8: 'h', 9: 'i', 13: 'I'}
    for v in vals:
        if isinstance(v, Ref):
            v = pos(v)
        if typ == 5:
            out += struct.pack(e + 'II', *v)
        elif typ == 10:
            out += struct.pack(e + 'ii', *v)
        elif typ == 11:
            out += struct.pack(e + 'I', v)
        else:
            out += struct.pack(e + f[typ], v)
    return out


def count_of(typ, vals):
    if isinstance(vals, (bytes, bytearray)):
        return len(vals) // SIZE.get(typ, 1)
    return len(vals)


class Tiff:
    """A TIFF container.  chunks: blobs placed in the file; ifds: the chain."""
    def __init__(self, e='<', magic=None, header_len=8):
        self.e = e
        self.magic = magic
        self.header_len = header_len
        self.chain = []
        self.blobs = {}        # name -> (bytes, align)
        self.order = []
        self.rng = None        # set for layout randomisation
        self.pos = {}
        self.pinned = {}       # name -> absolute position (relative to base)

    def ifd(self, ifd=None):
        ifd = ifd or Ifd()
        self.chain.append(ifd)
        return ifd

    def blob(self, name, data, align=1, at=None):
        self.blobs[name] = (bytes(data), align)
        self.order.append(name)
        if at is not None:
            self.pinned[name] = at
        return Ref(name)

    def _all_ifds(self):
        out = []

        def rec(i):
            if any(i is o for o in out):
                return
            out.append(i)
            for s in i.subs:
                rec(s)
        for i in self.chain:
            rec(i)
        return out

    def serialise(self, tail=b'', base=0, unknown=0, pad=0):
        """base: position of this TIFF inside the file, used by nobody else but
        recorded in self.pos as TIFF-relative positions."""
        rng = self.rng
        e = self.e
        ifds = self._all_ifds()
        if unknown and rng:
            if unknown > 100:       # one directory full of them
                for tg in rng.sample(UNKNOWN, unknown):
                    rng.choice(ifds[:1]).e.append([tg, rng.choice([1, 3, 4, 7, 8, 9, 13]), rng.getrandbits(32).to_bytes(4, 'little')])
                unknown = 2
            for i in ifds:
                for _ in range(rng.randrange(unknown + 1)):
                    typ = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 0, 99])
                    n = rng.randrange(1, 9)
                    i.e.append([rng.choice(UNKNOWN), typ, bytes(rng.randrange(256) for _ in range(n * SIZE.get(typ, 1)))])
        if rng:
            for i in ifds:
                rng.shuffle(i.e)
        # chunks to be laid out
        chunks = []   # (key, size, align)
        for i in ifds:
            chunks.append((i, len(i.prefix) + 2 + 12 * len(i.e) + 4 + len(i.suffix), 1))
            for ent in i.e:
                tag, typ, vals = ent
                if isinstance(vals, tuple):
                    continue
                sz = count_of(typ, vals) * SIZE.get(typ, 1)
                if sz > 4:
                    chunks.append((id(ent), sz, 1))
        for name in self.order:
            if name not in self.pinned:
                chunks.append((name, len(self.blobs[name][0]), self.blobs[name][1]))
        if rng:
            rng.shuffle(chunks)
        if getattr(self, 'root_first', False):
            # directory right behind the header (maker notes have no pointer to it)
            chunks.sort(key=lambda c: c[0] is not ifds[0])
        cur = self.header_len
        pos = {}
        fixed = sorted((p, len(self.blobs[n][0]), n) for n, p in self.pinned.items())
        for p, ln, n in fixed:
            pos[n] = p
        hole = None
        if pad > 1000 and rng:      # one large hole somewhere, what follows lies beyond the reach of 16 bits
            hole, pad = (rng.randrange(1 if getattr(self, 'root_first', False) else 0, len(chunks)), pad), 5
        for nth, (key, size, align) in enumerate(chunks):
            if hole and nth == hole[0]:
                cur += hole[1]
            if pad and rng and not (getattr(self, 'root_first', False) and key is ifds[0]):
                cur += rng.randrange(pad + 1)
            cur += (-cur) % align
            moved = True
            while moved:
                moved = False
                for p, ln, n in fixed:
                    if cur < p + ln and p < cur + size:
                        cur = p + ln
                        cur += (-cur) % align
                        moved = True
            pos[key] = cur
            cur += size
        end = max([cur] + [p + ln for p, ln, n in fixed])
        out = bytearray(end)
        if pad and rng:
            for i in range(self.header_len, end):
                out[i] = rng.randrange(256)

        def P(ref):
            return pos[ref.name] + ref.add
        out[0:2] = b'II' if e == '<' else b'MM'
        struct.pack_into(e + 'H', out, 2, 42 if self.magic is None else self.magic)
        struct.pack_into(e + 'I', out, 4, pos[self.chain[0]] if self.chain else 0)
        for i in ifds:
            ie = i.own_endian or e
            p = pos[i]
            out[p:p + len(i.prefix)] = i.prefix
            p += len(i.prefix)
            struct.pack_into(ie + 'H', out, p, len(i.e))
            p += 2
            for ent in i.e:
                tag, typ, vals = ent
                if isinstance(vals, tuple) and vals[0] == 'mn':
                    n = vals[2] or (len(vals[1].prefix) + 2 + 12 * len(vals[1].e) + 4)
                    struct.pack_into(ie + 'HHII', out, p, tag, typ, n, pos[vals[1]])
                elif isinstance(vals, tuple) and vals[0] == 'suf':   # offset relative to the directory
                    struct.pack_into(ie + 'HHII', out, p, tag, typ, vals[2], 2 + 12 * len(i.e) + 4 + vals[1])
                else:
                    data = enc_vals(typ, vals, ie, P)
                    struct.pack_into(ie + 'HHI', out, p, tag, typ, count_of(typ, vals))
                    if len(data) <= 4:
                        out[p + 8:p + 12] = data + b'\0' * (4 - len(data))
                    else:
                        struct.pack_into(ie + 'I', out, p + 8, pos[id(ent)])
                        out[pos[id(ent)]:pos[id(ent)] + len(data)] = data
                p += 12
            nxt = 0
            for a, b in zip(self.chain, self.chain[1:]):
                if a is i:
                    nxt = pos[b]
            struct.pack_into(ie + 'I', out, p, nxt)
            out[p + 4:p + 4 + len(i.suffix)] = i.suffix
        for name in self.order:
            d = self.blobs[name][0]
            out[pos[name]:pos[name] + len(d)] = d
        self.pos = pos
        return bytes(out) + tail


# ---------------------------------------------------------------- bit streams
class BitW:
    """MSB-first bit writer."""
    def __init__(self):
        self.acc, self.n, self.out = 0, 0, bytearray()
        self.total = 0

    def put(self, v, n):
        assert n >= 0 and 0 <= v < (1 << n) if n else v == 0, (v, n)
        self.acc = (self.acc << n) | v
        self.n += n
        self.total += n
        while self.n >= 8:
            self.out.append((self.acc >> (self.n - 8)) & 255)
            self.n -= 8
        self.acc &= (1 << self.n) - 1

    def done(self, fill=0):
        if self.n:
            pad = 8 - self.n
            self.put(((1 << pad) - 1) if fill else 0, pad)
        return bytes(self.out)


def swap32(b):
    b = bytes(b) + b'\0' * ((-len(b)) % 4)
    return b''.join(b[i:i + 4][::-1] for i in range(0, len(b), 4))


def stuff(b):
    return bytes(b).replace(b'\xff', b'\xff\x00')


class Huff:
    def __init__(self, bits, vals):
        self.bits, self.vals = list(bits), list(vals)
        self.code, self.all = {}, {}
        c, k = 0, 0
        for l in range(1, 17):
            for _ in range(self.bits[l - 1]):
                if self.vals[k] not in self.code:
                    self.code[self.vals[k]] = (c, l)
                self.all.setdefault(self.vals[k], []).append((c, l))
                c += 1
                k += 1
            c <<= 1

    def dht(self, tid):
        return bytes([tid]) + bytes(self.bits) + bytes(self.vals)

    def put(self, w, sym):
        if len(self.all[sym]) > 1:      # a symbol may have several codes: use them in turn
            self.all[sym].append(self.all[sym].pop(0))
        c, l = self.all[sym][0]
        w.put(c, l)

    def put_diff(self, w, d, extra16=False):
        """d in -32768..32767 in JPEG magnitude coding"""
        s = abs(d).bit_length()
        if d == -32768:
            s = 16
        self.put(w, s)
        if s == 16:
            if extra16:
                w.put(random.getrandbits(16), 16)
        elif s:
            w.put(d if d > 0 else d + (1 << s) - 1, s)

    def tla(self):
        return {'bits': self.bits, 'vals': self.vals}


def random_huff(rng, syms, maxlen=16, complete=False, style=None, unused=0):
    """A random canonical code for the given symbols (in random order), lengths <= maxlen.
    JPEG forbids the all-ones code; when complete, it is used all the same.  As many more codes as
    unused says stay without a symbol."""
    syms = list(syms)
    rng.shuffle(syms)
    n = len(syms)
    while True:
        style_ = style or rng.choice(['deep', 'flat', 'mixed', 'mixed'])
        leaves = [0]
        need = n + unused + (0 if complete else 1)
        while len(leaves) < need:
            if style_ == 'deep':
                c = [l for l in leaves if l < maxlen]
                i = leaves.index(max(c))
            elif style_ == 'flat':
                i = leaves.index(min(leaves))
            else:
                c = [k for k, l in enumerate(leaves) if l < maxlen]
                i = rng.choice(c)
            l = leaves.pop(i)
            if l + 1 > maxlen:
                break
            leaves += [l + 1, l + 1]
        leaves.sort()
        if len(leaves) == need and (need > 1 or complete) and leaves[0] > 0:
            break
        if n == 1 and complete:
            leaves = [1]
            break
    if not complete:
        leaves = leaves[:-1]
    for _ in range(unused):
        leaves.pop(rng.randrange(len(leaves)))
    bits = [0] * 16
    for l in leaves:
        bits[l - 1] += 1
    return Huff(bits, syms)


def full_huff(rng, syms):
    return random_huff(rng, syms, complete=True)


def sized(rng, w, h, u=1, v=1):
    """the size of an image, or of a large one where the caller asks for it (multiples of u and v)"""
    big = getattr(rng, 'big', None)
    if big == 'wide':
        return u * ((560 + w) // u), h
    if big == 'tall':
        return u * (max(u, min(w, 8)) // u), v * ((270 + h) // v)
    if big == 'big':
        return u * ((270 + w) // u), v * ((256 + h) // v)
    return w, h
