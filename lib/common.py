"""Shared plumbing: build, harness runner, TLC runner, evidence, reporting."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time, threading, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
TARGET = os.path.join(VERIF, 'target')
WORK = os.path.join(VERIF, 'work')
REPLAY = os.path.join(VERIF, 'replay')
EVID = os.path.join(VERIF, 'evidence')
SPEC = os.path.join(VERIF, 'spec')
NCPU = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE)
    for kv in r.stdout.split(b'\0'):
        if b'=' in kv:
            k, v = kv.split(b'=', 1)
            e[k.decode()] = v.decode()
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def tree_hash():
    h = hashlib.sha256()
    for root in ('src', 'data', 'Cargo.toml', 'build.rs'):
        p = os.path.join(REPO, root)
        files = []
        if os.path.isfile(p):
            files = [p]
        else:
            for d, ds, fs in os.walk(p):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs) if f != 'all.toml']
        for f in files:
            h.update(f.encode())
            with open(f, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()


def build(profile='dev'):
    """Build the harness against /repo's working tree; returns the directory of binaries."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = env()
        out = os.path.join(TARGET, 'debug' if profile == 'dev' else 'release')
        stamp = os.path.join(TARGET, 'stamp-' + profile)
        th = tree_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ''
        hd = os.path.join(VERIF, 'harness')
        rel = ['--release'] if profile == 'release' else []
        if old and old != th:
            subprocess.run(['cargo', 'clean', '--offline', '-p', 'rawloader', '--target-dir', TARGET] + rel,
                           cwd=hd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(['cargo', 'build', '--offline', '--target-dir', TARGET] + rel,
                           cwd=hd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise ToolError('build failed:\n' + r.stdout.decode(errors='replace')[-4000:])
        with open(stamp, 'w') as f:
            f.write(th)
        return out


def fresh_dir(path):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


def run_harness(jobs, wd, profile='dev', procs=NCPU, job_timeout=60, extra_env=None, mem_mb=6000, tag='h'):
    """Run jobs (dicts with unique 'id'); returns {id: result}.  A job whose
    process dies gets {'res':'died','signal':..}; one that exceeds job_timeout
    gets {'res':'hang'}."""
    exe = os.path.join(TARGET, 'debug' if profile == 'dev' else 'release', 'rlharness')
    if not jobs:
        return {}
    procs = max(1, min(procs, len(jobs)))
    results = {}
    e = env()
    e['RUST_BACKTRACE'] = '0'
    if extra_env:
        e.update(extra_env)
    lock = threading.Lock()

    def shard(no, mine):
        attempt = 0
        while mine:
            attempt += 1
            jp = os.path.join(wd, '%s-%d-%d.jobs' % (tag, no, attempt))
            op = os.path.join(wd, '%s-%d-%d.out' % (tag, no, attempt))
            with open(jp, 'w') as f:
                for j in mine:
                    f.write(json.dumps(j) + '\n')
            open(op, 'w').close()
            p = subprocess.Popen(['bash', '-c', 'ulimit -v %d; exec "$0" "$@"' % (mem_mb * 1024), exe, jp, op],
                                 env=e, cwd=wd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                 start_new_session=True)
            last_size, last_t, hang = -1, time.time(), False
            while True:
                try:
                    p.wait(timeout=0.1 if last_size >= 0 else 0.02)
                    break
                except subprocess.TimeoutExpired:
                    s = os.path.getsize(op)
                    if s != last_size:
                        last_size, last_t = s, time.time()
                    elif time.time() - last_t > job_timeout:
                        hang = True
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        break
            done, began = {}, None
            with open(op) as f:
                for line in f:
                    if line.startswith('B '):
                        began = json.loads(line[2:])
                    else:
                        try:
                            r = json.loads(line)
                        except ValueError:
                            continue
                        done[r['id']] = r
                        began = None
            with lock:
                results.update(done)
            rest = [j for j in mine if j['id'] not in done]
            if rest and began is None and p.returncode == 0:
                raise ToolError('harness ended early without finishing its jobs')
            if rest:
                bad = began if began is not None else rest[0]['id']
                with lock:
                    results[bad] = {'id': bad, 'res': 'hang' if hang else 'died',
                                    'signal': -p.returncode if p.returncode < 0 else p.returncode}
                rest = [j for j in rest if j['id'] != bad]
            os.remove(jp)
            os.remove(op)
            mine = rest
    ths, errs = [], []

    def guard(no, mine):
        try:
            shard(no, mine)
        except Exception as ex:  # noqa
            errs.append(ex)
    for i in range(procs):
        t = threading.Thread(target=guard, args=(i, jobs[i::procs]))
        t.start()
        ths.append(t)
    for t in ths:
        t.join()
    if errs:
        raise errs[0]
    missing = [j['id'] for j in jobs if j['id'] not in results]
    if missing:
        raise ToolError('no result for jobs %s' % missing[:5])
    return results


JAVA = ['java', '-XX:+UseParallelGC', '-cp',
        '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar']


def run_tlc(module, cfg, wd, env_extra=None, workers=NCPU, cont=False, timeout=800, heap='8g', extra=()):
    """Run TLC on spec/<module>.tla with the given cfg text. Returns dict."""
    meta = os.path.join(wd, 'tlc-' + module + '-%d' % random.randrange(10**9))
    os.makedirs(meta)
    cfgp = os.path.join(meta, module + '.cfg')
    with open(cfgp, 'w') as f:
        f.write(cfg)
    e = dict(os.environ)
    if env_extra:
        e.update(env_extra)
    cmd = [JAVA[0], '-Xmx' + heap, '-Xss64m', '-DTLA-Library=' + SPEC] + JAVA[1:] + \
          ['tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-config', cfgp,
           '-deadlock', '-noGenerateSpecTE', '-checkpoint', '0'] + \
          (['-continue'] if cont else []) + list(extra) + [os.path.join(SPEC, module + '.tla')]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, env=e, cwd=meta, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        shutil.rmtree(meta, ignore_errors=True)
        raise ToolError('TLC timed out on ' + module)
    out = r.stdout.decode(errors='replace')
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    res = {'rc': r.returncode, 'out': out, 'wall': time.time() - t0,
           'generated': int(m.group(1)) if m else 0, 'distinct': int(m.group(2)) if m else 0,
           'violation': 'is violated' in out, 'ok': 'Model checking completed. No error has been found' in out}
    shutil.rmtree(meta, ignore_errors=True)
    if not res['ok'] and not res['violation']:
        raise ToolError('TLC failed on %s (rc %d):\n%s' % (module, r.returncode, out[max(0, out.find('Error:')):][:5000] if 'Error:' in out else out[-3000:]))
    return res


class Check:
    """One run of one property's check."""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.wd = fresh_dir(os.path.join(WORK, '%s-%s-%d' % (pid, tier, os.getpid())))
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'values_compared': 0, 'samples': []}
        self.detail = {}
        self.violations = []
        self.known_hit = []
        self.assumptions = []
        self.known = load_known(pid)
        self.rng = random.Random('%s/%s/%d' % (pid, tier, self.seed))

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def add_tlc(self, r, name=None):
        self.cov['states'] += r['distinct']
        self.cov['transitions'] += r['generated']
        if name:
            self.detail[name] = {'distinct': r['distinct'], 'generated': r['generated'], 'wall_s': round(r['wall'], 2)}

    def sample(self, s, limit=12):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(s)

    def violation(self, key, what, files=(), payload=None):
        """Record a violation. key identifies the specific failing case."""
        for k in self.known:
            if k['key'] == key:
                self.known_hit.append((key, k['what']))
                return
        if len(self.violations) >= 20:
            return
        d = os.path.join(REPLAY, self.pid, re.sub(r'[^A-Za-z0-9_.-]', '_', key)[:80])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in files:
            if f and os.path.isfile(f) and os.path.getsize(f) < 80 << 20:
                shutil.copy(f, d)
        with open(os.path.join(d, 'what.json'), 'w') as f:
            json.dump({'property': self.pid, 'key': key, 'what': what, 'payload': payload}, f, indent=1, default=str)
        self.violations.append({'key': key, 'what': what, 'replay': d})

    def finish(self, level='model_checking'):
        os.makedirs(EVID, exist_ok=True)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
              'coverage': dict(self.cov, **({'detail': self.detail} if self.detail else {})),
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations),
              'assumptions': self.assumptions}
        tmp = os.path.join(EVID, self.pid + '.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.pid + '.json'))
        shutil.rmtree(self.wd, ignore_errors=True)
        seen = set()
        for key, what in self.known_hit:
            if key not in seen:
                seen.add(key)
                print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        for v in self.violations:
            print('%s' % v['what'])
            print('VIOLATION property=%s replay=%s' % (self.pid, v['replay']))
        print('%s %s: %s in %.1fs' % (self.pid, self.tier,
              'FAILED' if self.violations else 'held', time.time() - self.t0), json.dumps({k: v for k, v in self.cov.items() if k != 'samples'}))
        return 1 if self.violations else 0


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid and k.get('status') == 'known']
