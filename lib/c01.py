"""Every decode call returns, with an image or an error, and leaves nothing behind."""
import os, random
import gen_lj, graphs, hostile, life, mutate
from common import NCPU

PROFILES = ('dev', 'release')


def paths(ck):
    d = os.path.join(ck.wd, 'odd')
    os.makedirs(os.path.join(d, 'dir'))
    open(os.path.join(d, 'empty'), 'wb').close()
    with open(os.path.join(d, 'file'), 'wb') as f:
        f.write(b'II*\0')
    os.symlink(os.path.join(d, 'nothing'), os.path.join(d, 'dangling'))
    os.symlink(os.path.join(d, 'loop'), os.path.join(d, 'loop'))
    return [os.path.join(d, x) for x in ('missing', 'dir', 'empty', 'file/x', 'dangling', 'loop', 'x' * 300, 'a/b/c', 'dir/', 'nul\0byte', '\u00e9\u4e2d')] + ['', '/', '/dev/null', 'x' * 9000]


def aftermath(ck, rnd, per, n):
    """good files give their answers after any number of bad ones"""
    good = mutate.corpus('%s/after%d' % (ck.seed, rnd), 1, 1)
    bad = life.damaged(ck, ck.seed, 1, 1, n, 'after%d' % rnd)
    bad = bad[::max(1, len(bad) // 3000)] + hostile.loops(random.Random(ck.seed), False)[::7]
    L = life.Life(ck, good, 'after%d' % rnd, developed=False)
    bp = []
    for i, (w, b) in enumerate(bad):
        p = os.path.join(L.wd, 'b%d' % i)
        with open(p, 'wb') as f:
            f.write(b)
        bp.append(p)
    rng = random.Random('%s/%d' % (ck.seed, rnd))
    jobs, cont = [], []
    for k in range(per):
        steps, cs = [], []
        for i in range(len(good)):
            c = (i * 7 + k) % len(good)
            for p in rng.sample(bp, rng.choice([1, 1, 2, 5])):
                steps.append((None, p))
            steps.append((c, L.paths[c]))
        jobs.append({'id': 0, 'op': 'history', 'steps': [['d', p] for c, p in steps]})
        cont.append([c for c, p in steps])
    for prof in PROFILES:
        if prof == 'release':
            # the answers to well formed files are those of the other build
            pass
        rs = life.sessions(ck, jobs, 'after', profile=prof, procs=NCPU)
        for k, r in enumerate(rs):
            if r['res'] == 'ok':
                keep = [(c, s) for c, s in zip(cont[k], r['seen']) if c is not None]
                L.seen('after%d-%s%d' % (rnd, prof, k), 'after damaged files, %s build' % prof, [c for c, s in keep], {'res': 'ok', 'seen': [s for c, s in keep]})
            else:
                L.seen('after%d-%s%d' % (rnd, prof, k), 'after damaged files, %s build' % prof, [0], r)
    L.check()


def run(ck):
    rng = random.Random(ck.seed)
    big = ck.thorough
    graphs.design(ck, [(2, 2, 3, 3, 9)] + ([(2, 2, 10, 4, 40), (3, 1, 3, 4, 12)] if big else []))
    g = graphs.plan(ck, 2, 2, False)
    odd = paths(ck)
    for prof in PROFILES:
        graphs.replay(ck, g, 'g' + prof, profile=prof)
        s = prof[0]
        life.answers(ck, hostile.loops(rng, big) + hostile.sizes(rng, big) + hostile.stubs(rng, big), 'hostile' + s, ['returns'], prof, paths=odd)
    ext = []
    for k, (nm, b) in enumerate(mutate.corpus('%s/extreme' % ck.seed, 2 if big else 1, 4 if big else 1)):
        ext += mutate.extremes(nm, b, k)
    # the size of these comes from tags that have no other use
    for i in range(64 if big else 16):
        ext += mutate.extremes('sraw', gen_lj.GENS['sraw'](random.Random('%s/extreme/sraw%d' % (ck.seed, i)), i)['bytes'])
    for prof in PROFILES:
        life.answers(ck, ext, 'extreme' + prof[0], ['returns'], prof)
    for r in range(12 if big else 1):
        files = life.damaged(ck, ck.seed, 3 if big else 2, 4 if big else 2, 500 if big else 200, 'damaged%d' % r)
        for prof in PROFILES:
            life.answers(ck, files, 'd%d%s' % (r, prof[0]), ['returns'], prof)
        aftermath(ck, r, 24 if big else 8, 60)
    ck.sample({'graphs': len(g), 'damaged files': len(files), 'example': [w for w, b in files[::len(files) // 8]]})
