#!/usr/bin/env python3
"""seed.py add ID PROP NEEDS BREAKS [--mode M] [--release] FILES...   take /repo's current diff as the planted bug, then revert it
   seed.py verify [ID...]   apply, build, test, demo, check, revert
   seed.py record ID...     record the expected output again (on the unchanged tree)"""
import gzip, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def clean():
    assert not sh('git', '-C', '/repo', 'status', '--porcelain').stdout.strip(), '/repo is not clean'


def demo(i, **env):
    e = dict(os.environ, **env)
    return sh('bash', os.path.join(S, i, 'demo.sh'), cwd='/repo', env=e)


def add(a):
    mode, rel, custom = None, False, None
    pos = []
    it = iter(a)
    for x in it:
        if x == '--mode':
            mode = next(it)
        elif x == '--release':
            rel = True
        elif x == '--main':
            custom = next(it)
        else:
            pos.append(x)
    i, prop, needs, breaks = pos[:4]
    d = os.path.join(S, i)
    diff = sh('git', '-C', '/repo', 'diff').stdout
    assert diff.strip(), 'no change in /repo'
    sh('git', '-C', '/repo', 'checkout', '--', '.')
    clean()
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    t = os.path.join(V, 'tools', 'demo')
    shutil.copy(custom or os.path.join(t, 'main.rs'), os.path.join(d, 'main.rs'))
    for f in ('Cargo.toml', 'Cargo.lock', 'demo.sh'):
        if os.path.exists(os.path.join(t, f)):
            shutil.copy(os.path.join(t, f), d)
    if mode:
        open(os.path.join(d, 'mode'), 'w').write(mode)
    if rel:
        open(os.path.join(d, 'cargoflags'), 'w').write('--release')
    for f in pos[4:]:
        with open(f, 'rb') as fh, open(os.path.join(d, os.path.basename(f) + '.gz'), 'wb') as o:
            with gzip.GzipFile(filename='', mode='wb', fileobj=o, mtime=0) as g:
                g.write(fh.read())
    record(i)
    verify(i)


def record(i):
    clean()
    r = demo(i, DEMO_RECORD=os.path.join(S, i, 'expected'))
    assert r.returncode == 0, r.stdout.decode()
    print('expected recorded:', os.path.getsize(os.path.join(S, i, 'expected')))


def verify(i, check=True):
    clean()
    d = os.path.join(S, i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    r = demo(i)
    print(i, prop, 'demo clean:', r.returncode, r.stdout.decode()[-200:].strip())
    ok = r.returncode == 0
    r = sh('git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff'))
    try:
        if r.returncode:
            print('DOES NOT APPLY', r.stdout.decode())
            return
        b = sh('bash', '/opt/vp/build.sh')
        t = sh('bash', '/opt/vp/test.sh', '/tmp/seed-test.json')
        tj = json.load(open('/tmp/seed-test.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        bl = base.get('passed') or base.get('stable') or base
        failed = tj.get('failed', [])
        print('  build', b.returncode, 'tests failed:', failed, 'passed', len(tj.get('passed', [])))
        r = demo(i)
        print('  demo with patch:', r.returncode, r.stdout.decode()[:300].strip())
        if r.returncode == 0:
            print('  !! DEMO DOES NOT FAIL')
        if check:
            c = sh(os.path.join(V, 'check'), prop, 'quick', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            o = c.stdout.decode()
            print('  CHECK', prop, 'exit', c.returncode, '%s' % ('CAUGHT' if c.returncode == 1 and 'VIOLATION property=' + prop in o else '**** MISSED'))
            print('   ', o.strip().splitlines()[0][:200] if o.strip() else '', '|', o.strip().splitlines()[-1][:100])
    finally:
        sh('git', '-C', '/repo', 'checkout', '--', '.')


if __name__ == '__main__':
    c, a = sys.argv[1], sys.argv[2:]
    if c == 'add':
        add(a)
    elif c == 'record':
        for i in a or sorted(os.listdir(S)):
            record(i)
    else:
        for i in a or sorted(os.listdir(S)):
            verify(i)
