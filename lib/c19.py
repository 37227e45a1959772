"""The command line tool."""
import json, os, random, shutil, subprocess
import life, mutate
from common import *
from codec_run import parse_reports
from c03 import tall


def snapshot(d):
    out = {}
    for root, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            if os.path.islink(p):
                out[p] = os.readlink(p)
            else:
                st = os.stat(p)
                with open(p, 'rb') as h:
                    out[p] = (hashlib.sha1(h.read()).hexdigest(), st.st_ino, st.st_mtime_ns)
        for x in ds:
            out[os.path.join(root, x)] = 'dir'
    return out


SAYS = ('Image size', 'black levels', 'white levels', 'crops', 'Found')


def facts(r):
    names = [r[k] for k in ('make', 'model', 'clean_make', 'clean_model')]
    if any(not 31 < ord(ch) < 127 for x in names for ch in x):
        names = []      # not a line of text
    return {'names': names, 'size': [r['width'], r['height']], 'black': r['black'], 'white': r['white'], 'crops': r['crops']}


def one(exe, e, d, n, kind, where, src, rng):
    """one run in a directory of its own"""
    os.makedirs(d)
    name = rng.choice(['IMG_1.CR2', 'a.dng', 'noext', 'with space.nef', '\u00e9.raw', 'x.ppm', '.hid'])
    sub = rng.choice(['', '', 'in'])
    if sub:
        os.makedirs(os.path.join(d, sub))
    inp = os.path.join(sub, name)
    if kind == 'missing':
        pass
    elif kind == 'dir':
        os.makedirs(os.path.join(d, inp))
    else:
        shutil.copy(src, os.path.join(d, inp))
    for x in range(rng.randrange(3)):
        with open(os.path.join(d, rng.choice(['other', 'out', inp + '.txt'])), 'wb') as f:
            f.write(b'keep')
    args, out, state = [inp], inp + '.ppm', 'free'
    if where in ('named', 'replace', 'input', 'dir', 'nodir', 'full', 'long', 'abs', 'three', 'under'):
        out = {'named': 'result', 'replace': 'result.ppm', 'input': inp, 'dir': 'outdir', 'nodir': 'no/such/dir/x.ppm', 'full': '/dev/full', 'long': 'y' * 300,
               'abs': os.path.join(d, 'abs.out'), 'three': 'result', 'under': inp + '/x'}[where]
        args.append(out)
    if where == 'three':
        args.append('ignored')
    outp = os.path.join(d, out)
    if where in ('replace', 'default-replace'):
        with open(outp, 'wb') as f:
            f.write(bytes(rng.randrange(256) for _ in range(rng.choice([3, 200000]))))
    if where in ('dir', 'default-dir'):
        os.makedirs(outp, exist_ok=True)
    if where in ('dir', 'default-dir', 'nodir', 'long', 'under'):
        state = 'closed'
    if where == 'full':
        state = 'full'
    if n == 0:
        args = []
    before = snapshot(d)
    try:
        p = subprocess.run([exe] + args, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
        status, so = p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        status, so = 999, ''
    after = snapshot(d)
    touched = set()
    for q in set(before) | set(after):
        if before.get(q) != after.get(q):
            touched.add(1 if os.path.abspath(q) == os.path.abspath(outp) else 2)
    lines = so.split('\n')
    ppm = []
    if state == 'free' and os.path.isfile(outp):
        with open(outp, 'rb') as f:
            ppm = list(f.read()[:400000])
    return {'args': min(n, 1) * len(args), 'input': 'good' if kind == 'good' else 'bad', 'out': state, 'status': status if status >= 0 else 1000 - status,
            'said': [x for x in lines if x.startswith(SAYS)], 'usage': '<file>' in so, 'error': any(x.startswith('ERROR') for x in lines), 'touched': sorted(touched), 'ppm': ppm}


def run(ck):
    import concurrent.futures
    rng = random.Random('C19/%d' % ck.seed)
    big = ck.thorough
    for rnd in range(6 if big else 1):
        seed = '%s/cli%d' % (ck.seed, rnd)
        files = [b for n, b in mutate.corpus(seed, 2 if big else 1, 2 if big else 1)] + [b for f, w, b in tall(seed, 1)]
        for n, b in mutate.corpus(seed + 'm', 1, 1):
            files += [x for w, x in mutate.mutations(n, b, random.Random(seed + n), 4 if big else 2)]
        wd = fresh_dir(os.path.join(ck.wd, 'cli%d' % rnd))
        jobs = []
        for i, b in enumerate(files):
            p = os.path.join(wd, 'f%d' % i)
            with open(p, 'wb') as f:
                f.write(b)
            jobs.append({'id': i, 'op': 'decode', 'path': p, 'devmax': 40000, 'develop': [{'kind': 'srgb', 'mw': 0, 'mh': 0}]})
        res = run_harness(jobs, wd)
        good = [i for i in range(len(files)) if res[i]['res'] == 'ok' and res[i].get('dev') and res[i]['dev'][0]['res'] == 'ok']
        bad = [i for i in range(len(files)) if res[i]['res'] == 'err' or res[i].get('dev') and res[i]['dev'][0]['res'] == 'err']
        rng.shuffle(good)
        rng.shuffle(bad)
        WHERE = ['default', 'named', 'replace', 'default-replace', 'input', 'abs', 'three', 'dir', 'default-dir', 'nodir', 'full', 'long', 'under']
        plan = [(0, 'missing', 'default', None)] * 3
        for k, i in enumerate(good):
            plan.append((1, 'good', WHERE[k % len(WHERE)], i))
            if k % 2:
                plan.append((1, 'good', WHERE[(k + 1 + k // 13) % 5], i))
        for k, i in enumerate(bad):
            plan.append((1, 'bad', WHERE[k % len(WHERE)], i))
        for k, w in enumerate(WHERE):
            plan.append((1, ('missing', 'dir')[k % 2], w, None))
            plan.append((1, ('dir', 'missing')[k % 2], w, None))
        plan = [p for p in plan if not (p[1] in ('missing', 'dir') and p[2] in ('input', 'under'))]
        exe = os.path.join(TARGET, 'debug', 'rlcli')
        e = env()
        e['RUST_BACKTRACE'] = '0'

        def go(k):
            n, kind, where, i = plan[k]
            c = one(exe, e, os.path.join(wd, 'd%d' % k), n, kind, where, jobs[i]['path'] if i is not None else None, random.Random('%s/%d' % (seed, k)))
            c.update(id='cli%d_%d' % (rnd, k), w=0, h=0, pix=[])
            if kind == 'good':
                d = res[i]['dev'][0]
                c.update(w=d['width'], h=d['height'], pix=d['data'], facts=facts(res[i]))
            return c
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            cases = list(ex.map(go, range(len(plan))))
        p = os.path.join(ck.wd, 'cli.json')
        with open(p, 'w') as f:
            json.dump(cases, f)
        t = run_tlc('CliTrace', life.CFG, ck.wd, {'CASES': p}, cont=True, heap='12g')
        ck.add_tlc(t, 'cli%d' % rnd)
        ck.detail['cli%d' % rnd].update(runs=len(cases), pictures=sum(1 for c in cases if c['status'] == 0), errors=sum(1 for c in cases if c['status'] == 2))
        ck.cov['traces_validated_against_impl'] += len(cases)
        ck.cov['values_compared'] += sum(4 + len(c['ppm']) for c in cases)
        badc = parse_reports(t['out'])
        if t['violation'] and not badc:
            raise ToolError('violation could not be read:\n' + t['out'][-3000:])
        for cid, v in sorted(badc.items()):
            k = int(cid.split('_')[1])
            n, kind, where, i = plan[k]
            ck.violation(cid, 'tool with %d arguments, input %s, output %s: %s' % (n, kind, where, v), [jobs[i]['path']] if i is not None else [],
                         {x: y for x, y in cases[k].items() if x not in ('ppm', 'pix')})
        shutil.rmtree(wd)
    ck.sample({'good': len(good), 'bad': len(bad), 'runs': len(plan), 'places': WHERE})
