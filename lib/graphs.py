"""TIFF files whose directories form a given graph (Walk.tla), and what the library finds in them."""
import json, os, random, struct
from common import *
from codec_run import parse_reports
from raw import TAG

POINT = ['SubIFDs', 'ExifIFDPointer', 'KodakIFD', 'KdcIFD', 'RafRawSubIFD']


def plan(ck, dirs, pointers, acyclic):
    out = os.path.join(ck.wd, 'graphs.json')
    r = run_tlc('WalkPlan', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', ck.wd,
                {'DIRS': str(dirs), 'POINTERS': str(pointers), 'ACYCLIC': '1' if acyclic else '0', 'OUT': out})
    ck.add_tlc(r, 'graphs of %d directories with up to %d pointers' % (dirs, pointers))
    with open(out) as f:
        g = json.load(f)
    os.remove(out)
    return g


def build_file(g, rng):
    """a DNG: the raw directory, then the graph"""
    e = rng.choice('<>')
    n = len(g)
    blobs = []          # directory blocks, laid out in any order after the raw directory
    order = list(range(n))
    rng.shuffle(order)
    pix = bytes(rng.randrange(256) for _ in range(4))

    def entries_of(d):
        x = g[d]
        ents = []
        subs = list(x['subs'])
        if subs:
            mode = 'single' if len(subs) == 1 else 'list' if len(subs) > len(POINT) else rng.choice(['list', 'single'])
            if mode == 'list':
                ents.append((rng.choice(POINT), 4, len(subs), [('dir', s - 1) for s in subs]))
            else:
                tags = rng.sample(POINT, len(subs))
                for t, s in zip(tags, subs):
                    ents.append((t, rng.choice([4, 4, 13, 9]), 1, [('dir', s - 1)]))
        if x['make']:
            for t, v in (('Make', 'D%d' % (d + 1)), ('Model', 'M%d' % (d + 1))):
                ents.insert(rng.randint(0, len(ents)), (t, 2, len(v) + 1, v.encode() + b'\0'))
        for _ in range(rng.randrange(2)):
            ents.insert(rng.randint(0, len(ents)), (rng.choice([0x8298, 0x9003, 0xa001]), 4, 1, [rng.randrange(1 << 32)]))
        return ents
    es = {d: entries_of(d) for d in range(n)}
    rawents = [('Compression', 3, 1, [1]), ('ImageWidth', 4, 1, [2]), ('ImageLength', 4, 1, [1]), ('SamplesPerPixel', 3, 1, [1]),
               ('PhotometricInt', 3, 1, [32803]), ('BitsPerSample', 3, 1, [16]), ('DNGVersion', 1, 4, b'\1\1\0\0'), ('StripOffsets', 4, 1, [('pix', 0)]),
               ('WhiteLevel', 3, 1, [4095]), ('CFAPattern', 1, 4, b'\0\1\1\2')]
    rng.shuffle(rawents)
    # layout
    at, pos = {}, 8
    size = lambda ents: 2 + 12 * len(ents) + 4 + sum(4 * len(v) for _, _, c, v in ents if not isinstance(v, bytes) and len(v) > 1)
    at['raw'] = pos
    pos += size(rawents) + rng.choice([0, 2, 7])
    for d in order:
        at[d] = pos
        pos += size(es[d]) + rng.choice([0, 0, 1, 6])
    at['pix'] = pos
    pos += 4
    buf = bytearray(rng.randrange(256) for _ in range(pos))
    buf[0:8] = struct.pack(e + '2sHI', b'II' if e == '<' else b'MM', 42, at['raw'])
    buf[at['pix']:at['pix'] + 4] = pix

    def put(where, ents, nxt):
        struct.pack_into(e + 'H', buf, where, len(ents))
        p = where + 2
        extra = where + 2 + 12 * len(ents) + 4
        for t, typ, cnt, v in ents:
            struct.pack_into(e + 'HHI', buf, p, TAG[t] if isinstance(t, str) else t, typ, cnt)
            if isinstance(v, bytes):
                buf[p + 8:p + 12] = v.ljust(4, b'\0')
            else:
                vals = [at['pix'] if w == ('pix', 0) else at[w[1]] if isinstance(w, tuple) else w for w in v]
                if len(vals) == 1:
                    if typ == 3:
                        struct.pack_into(e + 'HH', buf, p + 8, vals[0], 0)
                    else:
                        struct.pack_into(e + 'I', buf, p + 8, vals[0])
                else:
                    struct.pack_into(e + 'I', buf, p + 8, extra)
                    for w in vals:
                        struct.pack_into(e + 'I', buf, extra, w)
                        extra += 4
            p += 12
        struct.pack_into(e + 'I', buf, p, nxt)
    put(at['raw'], rawents, at[0])
    for d in range(n):
        put(at[d], es[d], at[g[d]['next'] - 1] if g[d]['next'] else 0)
    return bytes(buf)


def larger(rng, n):
    """deep, long, wide and shared arrangements without cycles"""
    out = []

    def g(makes, subs, nxt):
        return [{'make': m, 'subs': s, 'next': x} for m, s, x in zip(makes, subs, nxt)]
    for depth in range(1, 10):          # one below the other, the Make in the innermost and perhaps half way
        for half in (False, True):
            k = depth + 1
            out.append(g([i == k - 1 or (half and i == k // 2) for i in range(k)], [[i + 2] if i < k - 1 else [] for i in range(k)], [0] * k))
    for length in (2, 3, 5, 9, 20, 60):      # a long chain
        for at in {length - 1, length // 2}:
            out.append(g([i == at for i in range(length)], [[] for i in range(length)], [i + 2 if i < length - 1 else 0 for i in range(length)]))
    for width in (2, 3, 5, 8, 30):       # many in one directory
        for at in {1, width // 2 + 1, width}:
            out.append(g([i == at for i in range(width + 1)], [list(range(2, width + 2))] + [[] for _ in range(width)], [0] * (width + 1)))
    while len(out) < n:
        k = rng.randint(4, 9)
        chain = rng.randint(1, 3)
        subs = [sorted(rng.sample(range(max(chain, i + 1) + 1, k + 1), min(k - max(chain, i + 1), rng.choice([0, 1, 1, 2, 3])))) for i in range(k)]
        for q in subs:
            rng.shuffle(q)
        out.append(g([rng.random() < .3 for _ in range(k)], subs, [i + 2 if i + 1 < chain else 0 for i in range(k)]))
    return out


def replay(ck, gs, name, profile='dev', returns_only=False):
    """builds a file for every graph, decodes it, and validates what was found"""
    wd = fresh_dir(os.path.join(ck.wd, name))
    jobs = []
    for i, g in enumerate(gs):
        p = os.path.join(wd, '%s%d.dng' % (name, i))
        with open(p, 'wb') as f:
            f.write(build_file(g, random.Random('%s/%d/%d' % (name, ck.seed, i))))
        jobs.append({'id': i, 'op': 'decode', 'path': p})
    res = run_harness(jobs, wd, profile=profile, job_timeout=20)
    cases = []
    for i, g in enumerate(gs):
        r = res[i]
        if r['res'] not in ('ok', 'err'):
            ck.violation('%s%d' % (name, i), 'decoding a file with directories %s did not return: %s' % (g, r['res']), [jobs[i]['path']], r)
            continue
        m = 0
        if r['res'] == 'ok':
            m = int(r['make'][1:]) if r['make'][:1] == 'D' and r['make'][1:].isdigit() and r['model'] == 'M' + r['make'][1:] else 99
        cases.append({'id': '%s%d' % (name, i), 'g': g, 'make': m})
    p = os.path.join(ck.wd, name + '.json')
    with open(p, 'w') as f:
        json.dump(cases, f)
    t = run_tlc('WalkTrace', 'SPECIFICATION Spec\nINVARIANT Conforms\nALIAS Report\nCHECK_DEADLOCK FALSE\n', ck.wd, {'CASES': p}, cont=True)
    ck.add_tlc(t, name)
    ck.cov['traces_validated_against_impl'] += len(cases)
    ck.cov['values_compared'] += len(cases)
    bad = parse_reports(t['out'])
    if t['violation'] and not bad:
        raise ToolError('violation could not be read:\n' + t['out'][-3000:])
    if not t['violation'] and t['distinct'] != len(cases):
        raise ToolError('specification did not run to completion')
    for cid, what in sorted(bad.items()):
        ck.violation(cid, 'directory graph %s: %s' % (cid, what), [os.path.join(wd, cid + '.dng')])
    shutil.rmtree(wd)


def design(ck, confs):
    for n, k, d, c, b in confs:
        r = run_tlc('WalkDesign', 'SPECIFICATION Spec\nCONSTANTS N=%d K=%d DEPTH=%d CHAIN=%d BUDGET=%d\nINVARIANTS Bounded Right\nPROPERTIES Ends\n'
                    % (n, k, d, c, b), ck.wd)
        ck.add_tlc(r, 'walk design %d directories %d pointers' % (n, k))
        if r['violation']:
            raise ToolError('the walk design is wrong:\n' + r['out'][-3000:])
