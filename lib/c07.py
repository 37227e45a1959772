import random
import gen_p
from packed_run import run_packed


def batch(ck, seed, mult, name):
    files = []
    for nm, fn in gen_p.GENS.items():
        for i in range(gen_p.QUICK[nm] * (1 if nm in ('naked', 'pro70') else mult)):
            files.append(fn(random.Random('C07/%s/%d/%d' % (nm, i, seed)), i))
    run_packed(ck, files + gen_p.g_big(seed), name)


def run(ck):
    if not ck.thorough:
        return batch(ck, ck.seed, 1, 'packed')
    for r in range(6):
        batch(ck, ck.seed + 1000 * r, 3, 'packed%d' % r)
