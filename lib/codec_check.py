"""Shared by the codec properties: generate files of each kind, decode, validate."""
import random
from codec_run import run_codecs


def generate(ck, gens, counts):
    files = []
    for name, fn in gens.items():
        for i in range(counts[name]):
            rng = random.Random('%s/%s/%d/%d' % (ck.pid, name, i, ck.seed))
            files.append(fn(rng, i))
    return files


# how many large images of a kind are needed to have all its arrangements
LARGE = {'bad': 0, 'dng': 3, 'cr2': 4, 'sraw': 4, 'nef': 5, 'pana': 2, 'panabig': 0, 'crw': 2}


def large(ck, gens, classes=('wide', 'tall')):
    files = []
    for name, fn in gens.items():
        for c, z in enumerate(classes):
            n = LARGE.get(name, 1)
            for i in range(n):
                rng = random.Random('%s/%s/%s/%d/%d/%d' % (ck.pid, name, z, i, c, ck.seed))
                rng.big = z
                f = fn(rng, i * (2 if name == 'nef' else 1) + c % 2)
                f['id'] = '%s_%s%d_%d' % (name, z, c, i)
                f['what'] += ' ' + z
                files.append(f)
    return files


def run(ck, gens, quick, thorough_factor=6, rounds=1):
    if not ck.thorough:
        run_codecs(ck, generate(ck, gens, quick) + large(ck, gens))
        return
    run_codecs(ck, large(ck, gens, ('big', 'wide', 'tall', 'big')), name='large')
    for r in range(thorough_factor):
        ck.seed += 1000 * (r > 0)
        files = generate(ck, gens, {k: 2 * v for k, v in quick.items()})
        run_codecs(ck, files, name='codecs%d' % r)
    ck.seed -= 1000 * (thorough_factor - 1)
