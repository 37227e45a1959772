"""Filter patterns, shifts and crops."""
import itertools, json, os, random
import dev
from common import *
from codec_run import parse_reports


def patterns(rng, n):
    out = [''] + [''.join(p) for p in itertools.product('RGBE', repeat=4)]
    rng.shuffle(out)
    out = out[:n]
    out += dev.BAYER + ['GMYB'] + dev.XTRANS + [dev.WIDE]
    for size in (16, 36, 144):
        for _ in range(n // 12):
            out.append(''.join(rng.choice('RGBEMY') for _ in range(size)))
    return out


def shifts(ck, rng, n, name):
    cases = []
    for i, p in enumerate(patterns(rng, n)):
        pw, ph = dev.PATS[len(p)]
        sh = [[rng.choice([0, 1, 2, 3, 5, 7, 12, 47, 48, 49, pw, 1000, rng.randrange(5000)]),
               rng.choice([0, 1, 2, 3, 5, 7, 12, 47, 48, 49, ph, 1000, rng.randrange(5000)])] for _ in range(rng.randint(1, 4))]
        if i % 4 == 0 and pw:
            sh.append([-sum(s[0] for s in sh) % pw, -sum(s[1] for s in sh) % ph])
        c = dict(id='%s%d' % (name, i), name=p, shifts=sh, h=rng.choice([1, 7, 13]), w=rng.choice([1, 8, 14]),
                 y0=rng.choice([0, 0, 41, 47, 96, 4999, 12345]), x0=rng.choice([0, 0, 40, 47, 96, 7001, 54321]))
        c.update(dev.patrec(p))
        cases.append(c)
    r = run_harness([dict(id=c['id'], op='cfa', name=c['name'], shifts=c['shifts'], h=c['h'], w=c['w'], y0=c['y0'], x0=c['x0']) for c in cases], ck.wd)
    for c in cases:
        o = r[c['id']]
        none = {'res': o['res'], 'pattern': [], 'cloned': [], 'width': -1, 'height': -1, 'valid': False}
        c['obs'] = o['obs'] if o['res'] == 'ok' else [none] * (1 + len(c['shifts']))
    p = os.path.join(ck.wd, name + '.json')
    with open(p, 'w') as f:
        json.dump(cases, f)
    r = run_tlc('CfaTrace', 'SPECIFICATION Spec\nINVARIANT Conforms\nINVARIANT Periodic\nALIAS Report\nCHECK_DEADLOCK FALSE\n', ck.wd, {'CASES': p}, cont=True)
    ck.add_tlc(r, name)
    ck.cov['traces_validated_against_impl'] += len(cases)
    ck.cov['values_compared'] += sum(len(o['pattern']) for c in cases for o in c['obs'])
    ck.sample({'histories': len(cases), 'example': {k: cases[0][k] for k in ('name', 'shifts', 'y0', 'x0')}})
    bad = parse_reports(r['out'])
    if r['violation'] and not bad:
        raise ToolError('violation could not be read:\n' + r['out'][-3000:])
    if not r['violation'] and r['distinct'] < len(cases):
        raise ToolError('incomplete')
    by = {c['id']: c for c in cases}
    for cid, what in sorted(bad.items()):
        c = by[cid]
        ck.violation(cid, 'pattern %s shifts %s: %s' % (c['name'], c['shifts'], what[:200]), [], {k: v for k, v in c.items() if k != 'obs'})


def from_files(ck, rng, n, name):
    """the pattern tag and the active area of a file"""
    import gen_meta, meta_run
    quads = [list(p) for p in itertools.product(range(3), repeat=4)]
    rng.shuffle(quads)
    files = []
    for i in range(n):
        o = {'linear': i % 9 == 8, 'aa': i % 4 != 3, 'bk': 'one'}
        if i % 3 == 0:
            o['pat'] = [rng.randrange(3) for _ in range((36, 16, 144, 36)[i // 3 % 4])]
        else:
            o['pat'] = quads[i % 81]
        f = gen_meta.make('DNG', rng.choice([('Foo', 'Bar', ''), ('Canon', 'Canon EOS 5D', '')]), '%s%d/%d' % (name, ck.seed, i), rng.random(), o, plain=i % 5 == 0)
        f['id'] = '%s%d' % (name, i)
        files.append(f)
    for i in range(n // 4):
        # patterns that no image may be given
        o = {'linear': False, 'aa': i % 4 != 3, 'bk': 'one'}
        if i % 7 == 0:
            o['nopat'] = True
        elif i % 7 < 4:
            k = (4, 36, 16, 144)[i % 4]
            o['pat'] = [rng.randrange(3) for _ in range(k)]
            o['pat'][rng.randrange(k)] = (3, 4, 5, 6, 255, rng.randrange(3, 256))[i % 6]
        else:
            o['pat'] = [rng.randrange(3) for _ in range((1, 2, 3, 5, 6, 8, 9, 12, 18, 35, 37, 64, 143, 145)[i // 2 % 14])]
        f = gen_meta.make('DNG', ('Foo', 'Bar', ''), '%sr%d/%d' % (name, ck.seed, i), rng.random(), o, plain=i % 5 == 0)
        f.update(id='%sr%d' % (name, i), expect='err')
        files.append(f)
    ck.sample({'files with pattern and active area': len(files)})
    meta_run.run_meta(ck, files, ['pattern', 'crops', 'size'], name=name)


def run(ck):
    for r in range(6 if ck.thorough else 1):
        shifts(ck, random.Random('C13/%d/%d' % (ck.seed, r)), 257 if ck.thorough else 120, 'cfa%d_' % r)
        from_files(ck, random.Random('C13f/%d/%d' % (ck.seed, r)), 400 if ck.thorough else 160, 'file%d_' % r)
