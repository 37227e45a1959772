"""The shape of decoded images and of the pictures developed from them."""
import random
import hostile, life, mutate

PROFILES = ('dev', 'release')


def run(ck):
    rng = random.Random(ck.seed)
    A = ['shape', 'picture']
    big = ck.thorough
    for r in range(10 if big else 1):
        files = [('well formed ' + n, b) for n, b in mutate.corpus('%s/shape%d' % (ck.seed, r), 6 if big else 4, 24 if big else 12)]
        life.answers(ck, files, 'w%dd' % r, A, 'dev', develop=True)
        files = hostile.sizes(rng, big) if r == 0 else []
        for k, (nm, b) in enumerate(mutate.corpus('%s/cut%d' % (ck.seed, r), 3 if big else 2, 4 if big else 2)):
            q = random.Random('%s/%d/%d' % (ck.seed, r, k))
            files += mutate.mutations(nm, b, q, 200 if big else 60)
            files += mutate.mutations(nm, b, q, 300 if big else 100, ['size', 'size', 'size2', 'size2', 'value', 'value', 'word', 'trunc'])
        for prof in ('dev', 'release'):
            life.answers(ck, files, 'm%d%s' % (r, prof[0]), A, prof, develop=True)
    ck.sample({'damaged files': len(files), 'example': [w for w, b in files[::len(files) // 8]]})
