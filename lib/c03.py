"""The answer to a content is the same whatever the threads, the history, the other calls, the place and the build."""
import os, random, shutil
import gen_meta, gen_p, gen_v2, life, mutate
from c06 import cams_of, small
from common import *

PROFILES = ('dev', 'release')


def siblings(seed, per):
    """files of the same camera with other contents, for every format: what a cache would mix up"""
    out = []
    by = cams_of()
    for fm in sorted(gen_meta.BUILD):
        if fm in ('NKD', 'A100', 'SRF'):
            continue
        rng = random.Random('%s/%s' % (seed, fm))
        cam = rng.choice(small(by[fm]))
        for i in range(per):
            out.append((fm, '%s %s number %d' % (fm, cam[1], i), gen_meta.make(fm, cam, '%s/%d' % (seed, i), rng.random(), {}, plain=i % 2 == 0)['bytes']))
    for name, b in mutate.corpus('%s/codecs' % seed, 0, per):
        out.append((name, name, b))
    return out


def tall(seed, n):
    """images with many rows, so that there is work for many threads"""
    old = gen_p.dims

    def dims(rng, wmul=2, hmul=1, wmax=40, hmax=12, wmin=1):
        return wmul * rng.randint(max(1, wmin), max(wmin, 60 // wmul)), hmul * (rng.randint(60, 260) // hmul)
    gen_p.dims = dims
    out = []
    try:
        for name, g in sorted(gen_p.GENS.items()):
            if name in ('naked', 'pro70'):
                continue
            for i in range(n):
                f = g(random.Random('%s/tall/%s/%d' % (seed, name, i)), i)
                out.append((name, 'tall ' + f['what'], f['bytes']))
    finally:
        gen_p.dims = old
    return out


def workers(ck):
    cfg = 'SPECIFICATION Spec\nCONSTANTS ROWS=%d COLS=%d CHUNK=%d WORKERS=%d SHARED=%s\nINVARIANTS %s\n%s'
    for rows, cols, chunk, n in [(4, 2, 1, 3), (5, 2, 2, 2)] + ([(5, 2, 1, 3), (6, 2, 2, 3), (4, 3, 1, 4)] if ck.thorough else []):
        r = run_tlc('Workers', cfg % (rows, cols, chunk, n, 'FALSE', 'Apart Same', 'PROPERTIES Ends\n' if rows < 5 else ''), ck.wd)
        ck.add_tlc(r, 'workers %dx%d by %d, %d workers' % (rows, cols, chunk, n))
        if r['violation']:
            raise ToolError('worker design is wrong:\n' + r['out'][-2000:])
    r = run_tlc('Workers', cfg % (3, 2, 1, 2, 'TRUE', 'Same', ''), ck.wd)
    if not r['violation']:
        raise ToolError('the worker model does not tell shared state apart')
    cfg = 'SPECIFICATION Spec\nCONSTANTS Paths={p%s} Contents={a, b} Broken={b} Threads={t1, t2} Calls=%d\nINVARIANTS Answered Once\nPROPERTIES Returns\n'
    r = run_tlc('Life', cfg % ((', q', 2) if ck.thorough else ('', 2)), ck.wd)
    ck.add_tlc(r, 'life design')
    if r['violation']:
        raise ToolError('life design is wrong:\n' + r['out'][-2000:])


def replay_histories(ck, L, fams, bad, n, every):
    """all histories of Life of a length, each on the contents of some family: two good ones and a damaged one"""
    hs = life.histories(ck, n)
    rng = random.Random('%s/h' % ck.seed)
    rng.shuffle(hs)
    hs = hs[::every]
    names = sorted(fams)
    per = max(1, len(hs) // (4 * NCPU) + 1)
    jobs, evs = [], []
    for s in range(0, len(hs), per):
        steps, ev = [], []
        for k, h in enumerate(hs[s:s + per]):
            fm = names[(s + k) % len(names)]
            cs = fams[fm][:2] + [bad[(s + k) % len(bad)]]
            if len(cs) < 3:
                continue
            d = os.path.join(L.wd, 's%d-' % s)
            for p in (1, 2):
                steps.append(['x', d + str(p)])
                ev.append(['x', p])
            for o in h:
                p = d + str(o[1])
                if o[0] == 'w':
                    steps.append(['w', p, L.paths[cs[o[2] - 1]]])
                    ev.append(['w', o[1], cs[o[2] - 1] + 1])
                else:
                    steps.append([o[0], p])
                    ev.append([o[0], o[1]])
        jobs.append({'id': 0, 'op': 'history', 'developed': False, 'steps': steps})
        evs.append(ev)
    for k, r in enumerate(life.sessions(ck, jobs, 'hist', threads=3)):
        if r['res'] != 'ok':
            L.case('hist%d' % k, 'replaying histories', [['m', 1, L.intern('process ' + r['res'])]])
            continue
        it = iter(r['seen'])
        L.case('hist%d' % k, 'replaying histories', [e + [L.intern(next(it))] if e[0] == 'd' else e for e in evs[k]])


def run(ck):
    workers(ck)
    big = ck.thorough
    for rnd in range(4 if big else 1):
        seed = '%s/%d' % (ck.seed, rnd)
        sib, tl = siblings(seed, 3), tall(seed, 3 if big else 1)
        files = sib + tl
        pb = []
        for k, (fm, w, b) in enumerate(sib[::5]):
            pb += mutate.mutations(fm, b, random.Random('%s/b%d' % (seed, k)), 2)
        contents = [(w, b) for fm, w, b in files] + pb
        bad = list(range(len(files), len(contents)))
        # pictures are developed from all but the damaged ones of any size
        L = life.Life(ck, contents, 'life%d' % rnd, developed=True)
        fams = {}
        for i, (fm, w, b) in enumerate(sib):
            fams.setdefault(fm, []).append(i)
        good = list(range(len(files)))
        allc = list(range(len(contents)))
        rng = random.Random(seed)

        def session(cid, what, order, **kw):
            r = life.sessions(ck, [L.job([L.paths[c] for c in o]) for o in order], cid, **kw)
            for k, (o, x) in enumerate(zip(order, r)):
                L.seen('%s-%d-%d' % (cid, rnd, k), what, o, x)
        for n in (2, 3, 5, 8, 16):
            session('threads%d' % n, 'with %d threads' % n, [rng.sample(allc, len(allc)) for _ in range(6 if big else 3)], threads=n, procs=3)
        for n in (1, 4):
            session('release%d' % n, 'release build with %d threads' % n, [rng.sample(good, len(good)) for _ in range(2 if big else 1)], threads=n, profile='release')
        # every content after every other one (of a sample), in processes that also did much else
        pool = good if big else [fams[f][0] for f in sorted(fams)] + [fams[f][1] for f in sorted(fams)][::2]
        tours = []
        for k in range(NCPU * 2):
            t = []
            for i in pool[k::NCPU * 2]:
                for j in pool:
                    t += [i, j]
            tours.append(t)
        rs = life.sessions(ck, [dict(L.job([L.paths[c] for c in t]), developed=False) for t in tours], 'tour', threads=2)
        plain = {}
        # answers without developing: what is before the first blank after the digest
        for i in range(len(L.answers)):
            tx = L.texts()[L.answers[i]]
            plain[i] = ' '.join(tx.split(' ')[:2]) if tx.startswith('ok ') else tx
        L2answers = [L.intern('plain ' + plain[i]) for i in range(len(L.answers))]
        # a second set of contents stands for the answers without pictures
        base = len(L.answers)
        L.answers += L2answers
        L.what += L.what[:base]
        L.paths += L.paths[:base]
        for k, (t, r) in enumerate(zip(tours, rs)):
            if r['res'] == 'ok':
                r['seen'] = ['plain ' + s for s in r['seen']]
            L.seen('tour-%d-%d' % (rnd, k), 'after another file', [base + c for c in t], r)
        mi = L.missing
        L.missing = L.intern('plain ' + L.texts()[mi])
        hist_bad = [base + c for c in bad]
        L3 = {f: [base + c for c in v] for f, v in fams.items()}
        keep = L.intern
        L.intern = lambda s: keep('plain ' + s)
        replay_histories(ck, L, L3, hist_bad, 5, 1 if big else 3)
        L.intern = keep
        # at the same time
        jobs, cs = [], []
        for k in range(12 if big else 6):
            c = rng.sample(good, min(len(good), 60)) + bad[:10]
            jobs.append({'id': 0, 'op': 'concurrent', 'paths': [L.paths[x] for x in c], 'threads': (2, 8, 12)[k % 3], 'rounds': 6 if big else 3, 'developed': True})
            cs.append(c)
        for k, r in enumerate(life.sessions(ck, jobs, 'conc', procs=1, timeout=300)):
            if r['res'] != 'ok' or r['dead']:
                L.case('conc-%d-%d' % (rnd, k), 'concurrent calls', [['m', 1, L.intern('process %s' % r)]])
            else:
                L.case('conc-%d-%d' % (rnd, k), 'concurrent calls', [['m', c + 1, L.intern(a)] for c, obs in zip(cs[k], r['observed']) for a in obs])
        # elsewhere
        d = os.path.join(L.wd, 'else where \u00e9')
        os.makedirs(d)
        ps, c = [], rng.sample(good, min(len(good), 90))
        for k, x in enumerate(c):
            nm = ['IMG_0001.CR2', 'x.dng', 'noext', '.hidden', 'a.jpg', 'UPPER.NEF', 'x.tar.gz', 'with space.raw', '\u4e2d\u6587.ORF', 'a.MRW', 'b.x3f', 'c.ari'][k % 12]
            q = os.path.join(d, str(k))
            os.makedirs(q)
            q = os.path.join(q, nm)
            if k % 5 == 3:
                os.symlink(L.paths[x], q)
            elif k % 5 == 4:
                os.link(L.paths[x], q)
            else:
                shutil.copy(L.paths[x], q)
                if k % 5 == 2:
                    os.chmod(q, 0o444)
            ps.append(q)
        r = life.sessions(ck, [L.job(ps)], 'else', threads=4)[0]
        L.seen('elsewhere-%d' % rnd, 'under another name', c, r)
        L.check()
    ck.sample({'contents': len(contents), 'tall': len(tl)})
