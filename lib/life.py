"""What calls come to: totality, shape, independence of history and schedule."""
import json, os, random
from common import *
from codec_run import parse_reports

CFG = 'SPECIFICATION Spec\nINVARIANT Conforms\nALIAS Report\nCHECK_DEADLOCK FALSE\n'
DEV = [{'kind': 'rgb', 'mw': 0, 'mh': 0, 'inline': False}, {'kind': 'srgb', 'mw': 5, 'mh': 4, 'inline': False}, {'kind': 'linear', 'mw': 1, 'mh': 9, 'inline': False}]


def small(n):
    return n if 0 <= n < 2 ** 31 else -1


LIMITS = [(0, 0), (1, 0), (0, 1), (40, 30), (0, 0), (7, 3), (3, 200), (0, 0), (1000, 1000)]


def variants(i):
    """each of the three developments, at sizes that go round"""
    return [dict(DEV[0], kind=k, mw=LIMITS[(i + i // 9 + 3 * n) % 9][0], mh=LIMITS[(i + i // 9 + 3 * n) % 9][1])
            for n, k in enumerate(('rgb', 'srgb', 'linear'))] + [dict(DEV[0], kind=('srgb', 'linear', 'rgb')[i % 3], mw=0, mh=0)]


def decode_all(ck, files, name, profile, develop=False, timeout=20, procs=NCPU):
    """files: [(what, bytes)]; decodes them all, in processes shared by many"""
    wd = fresh_dir(os.path.join(ck.wd, name))
    jobs = []
    for i, (what, b) in enumerate(files):
        p = os.path.join(wd, '%s%d' % (name, i))
        with open(p, 'wb') as f:
            f.write(b)
        j = {'id': i, 'op': 'decode', 'path': p}
        if develop:
            j['develop'] = variants(i)
            j['devmax'] = 200000
        jobs.append(j)
    return wd, jobs, run_harness(jobs, wd, profile=profile, job_timeout=timeout, procs=procs)


def answers(ck, files, name, aspects, profile='dev', develop=False, paths=()):
    wd, jobs, res = decode_all(ck, files, name, profile, develop)
    what = {i: w for i, (w, b) in enumerate(files)}
    for k, p in enumerate(paths):
        i = len(files) + k
        jobs.append({'id': i, 'op': 'decode', 'path': p})
        what[i] = 'path %r' % p[:60]
    if paths:
        res.update(run_harness(jobs[len(files):], wd, profile=profile, job_timeout=20, tag='p'))
    cases = []
    for j in jobs:
        r = res[j['id']]
        c = ['%s%d' % (name, j['id']), r['res']]
        if r['res'] == 'ok':
            c += [small(r['width']), small(r['height']), small(r['cpp']), small(r['len']), [small(x) for x in r['crops']],
                  [[d['res'], small(d.get('width', -1)), small(d.get('height', -1)), small(d.get('len', -1))] for d in r.get('dev', [])]]
        cases.append(c)
    p, a = os.path.join(ck.wd, name + '.json'), os.path.join(ck.wd, name + '-aspects.json')
    with open(p, 'w') as f:
        json.dump(cases, f)
    with open(a, 'w') as f:
        json.dump(aspects, f)
    t = run_tlc('AnswerTrace', CFG, ck.wd, {'CASES': p, 'ASPECTS': a}, cont=True, heap='12g')
    ck.add_tlc(t, name)
    ck.cov['traces_validated_against_impl'] += len(cases)
    ck.cov['values_compared'] += sum(1 if len(c) < 3 else 2 + len(c[7]) for c in cases)
    n = ck.detail[name]
    n['images'] = sum(1 for c in cases if c[1] == 'ok')
    n['errors'] = sum(1 for c in cases if c[1] == 'err')
    n['pictures'] = sum(1 for c in cases if len(c) > 2 for d in c[7] if d[0] == 'ok')
    n['profile'] = profile
    bad = parse_reports(t['out'])
    if t['violation'] and not bad:
        raise ToolError('violation could not be read:\n' + t['out'][-3000:])
    if not t['violation'] and t['distinct'] != len(cases):
        raise ToolError('specification did not run to completion')
    for cid, v in sorted(bad.items()):
        i = int(cid[len(name):])
        ck.violation(cid + '-' + profile, '%s build, %s: %s' % (profile, what[i], v), [jobs[i]['path']], res[i])
    os.remove(p)
    shutil.rmtree(wd)
    return res


def damaged(ck, seed, per, codecs, n, name):
    import mutate
    files = []
    for k, (nm, b) in enumerate(mutate.corpus('%s/%s' % (seed, name), per, codecs)):
        files += mutate.mutations(nm, b, random.Random('%s/%s/%d' % (seed, name, k)), n)
    return files


def exe(profile):
    return os.path.join(TARGET, 'debug' if profile == 'dev' else 'release', 'rlharness')


def sessions(ck, jobs, name, profile='dev', threads=None, procs=NCPU, timeout=120):
    """every job in a process of its own"""
    import concurrent.futures
    e = env()
    e['RUST_BACKTRACE'] = '0'
    if threads:
        e['RAYON_NUM_THREADS'] = str(threads)
    wd = fresh_dir(os.path.join(ck.wd, name + '-s'))

    def one(k):
        jp, op = os.path.join(wd, '%d.job' % k), os.path.join(wd, '%d.out' % k)
        with open(jp, 'w') as f:
            f.write(json.dumps(jobs[k]) + '\n')
        r = None
        try:
            p = subprocess.run(['bash', '-c', 'ulimit -v 8000000; exec "$0" "$@"', exe(profile), jp, op], env=e, cwd=wd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)
            with open(op) as f:
                for line in f:
                    if not line.startswith('B '):
                        r = json.loads(line)
            if r is None:
                r = {'res': 'died', 'signal': p.returncode}
        except subprocess.TimeoutExpired:
            r = {'res': 'hang'}
        for x in (jp, op):
            if os.path.exists(x):
                os.remove(x)
        return r
    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        out = list(ex.map(one, range(len(jobs))))
    shutil.rmtree(wd)
    return out


class Life:
    """contents, their answers in a fresh process, and what was observed elsewhere"""

    def __init__(self, ck, files, name, developed=True):
        """files: [(what, bytes)]"""
        self.ck, self.name, self.developed = ck, name, developed
        self.wd = fresh_dir(os.path.join(ck.wd, name))
        self.what = [w for w, b in files]
        self.paths = []
        for i, (w, b) in enumerate(files):
            p = os.path.join(self.wd, 'c%d' % i)
            with open(p, 'wb') as f:
                f.write(b)
            self.paths.append(p)
        self.ids = {}
        self.cases = []
        self.info = {}
        self.obs = 0
        rs = sessions(ck, [self.job([p]) for p in self.paths + [os.path.join(self.wd, 'missing')]], name + '-fresh', threads=1)
        self.answers = [self.intern(r['seen'][0] if r['res'] == 'ok' else r['res']) for r in rs]
        self.missing = self.answers.pop()

    def job(self, paths):
        return {'id': 0, 'op': 'history', 'developed': self.developed, 'steps': [['d', p] for p in paths]}

    def intern(self, s):
        return self.ids.setdefault(s, len(self.ids) + 1)

    def texts(self):
        return {v: k for k, v in self.ids.items()}

    def case(self, cid, what, events):
        self.cases.append({'id': cid, 'events': events})
        self.info[cid] = what
        self.obs += sum(1 for e in events if e[0] in 'dm')

    def seen(self, cid, what, contents, r):
        """contents decoded one after the other in one process"""
        if r['res'] != 'ok':
            self.case(cid, what, [['m', contents[0] + 1, self.intern('process ' + r['res'])]])
        else:
            self.case(cid, what, [['m', c + 1, self.intern(a)] for c, a in zip(contents, r['seen'])])

    def check(self):
        ck = self.ck
        p = os.path.join(ck.wd, self.name + '.json')
        with open(p, 'w') as f:
            json.dump({'cases': self.cases, 'fresh': self.answers, 'missing': self.missing}, f)
        t = run_tlc('LifeTrace', CFG, ck.wd, {'CASES': p}, cont=True, heap='12g')
        ck.add_tlc(t, self.name)
        ck.detail[self.name].update(contents=len(self.paths), processes=len(self.cases), observations=self.obs,
                                    images=sum(1 for a in self.answers if self.texts()[a].startswith('ok')))
        ck.cov['traces_validated_against_impl'] += len(self.cases)
        ck.cov['values_compared'] += self.obs
        bad = parse_reports(t['out'])
        if t['violation'] and not bad:
            raise ToolError('violation could not be read:\n' + t['out'][-3000:])
        if not t['violation'] and t['distinct'] != sum(1 + len(c['events']) for c in self.cases):
            raise ToolError('specification did not run to completion')
        tx = self.texts()
        for cid, v in sorted(bad.items()):
            m = re.search(r'"content", (\d+), "answer", (\d+), "instead of", (\d+)', v)
            c, a, b = (int(x) for x in m.groups())
            w = self.what[c - 1] if c else 'a missing file'
            ck.violation(cid, '%s: %s gave %s instead of %s' % (self.info[cid], w, tx[a][:160], tx[b][:160]), [self.paths[c - 1]] if c else [], v)
        os.remove(p)
        shutil.rmtree(self.wd)


def histories(ck, n):
    out = os.path.join(ck.wd, 'histories.json')
    r = run_tlc('LifePlan', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', ck.wd, {'LENGTH': str(n), 'OUT': out})
    ck.add_tlc(r, 'histories of length %d' % n)
    with open(out) as f:
        h = json.load(f)
    os.remove(out)
    return h
