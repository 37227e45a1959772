"""Decode generated files with the real library and check every sample against
the specification (CodecTrace)."""
import json, os, re, time
from common import *

CFG = """SPECIFICATION Spec
INVARIANT Conforms
INVARIANT Complete
ALIAS Report
CHECK_DEADLOCK FALSE
"""


def write_files(files, wd):
    for f in files:
        f['path'] = os.path.join(wd, f['id'] + f.get('ext', '.raw'))
        with open(f['path'], 'wb') as fh:
            fh.write(f['bytes'])


def parse_reports(out):
    """the alias records of violating states: {case id: text}"""
    bad = {}
    for m in re.finditer(r'/\\ case = "([^"]*)"(.*?)(?=\n\n|\nState|\nError|\Z)', out, re.S):
        body = m.group(2)
        b = re.search(r'/\\ bad = (<<.*?>>)\s*(?=/\\|\Z)', body, re.S)
        if b and b.group(1) != '<< >>' and b.group(1) != '<<>>':
            bad[m.group(1)] = re.sub(r'\s+', ' ', b.group(1))
    return bad


def run_codecs(ck, files, profile='dev', name='codecs', heap='12g', batch=400000):
    wd = ck.wd
    write_files(files, wd)
    jobs = [{'id': f['id'], 'op': 'decode', 'path': f['path'], 'inline': 1 << 22, **f.get('job', {})} for f in files]
    res = run_harness(jobs, wd, profile=profile)
    cases, owner, share = [], {}, []
    for f in files:
        r = res[f['id']]
        share.append({'data': list(f.get('spec_bytes', f['bytes'])), 'obs': r.get('data', []) if r['res'] == 'ok' else []})
        for n, C in enumerate(f['cases']):
            c = dict(C)
            c['id'] = '%s#%d' % (f['id'], n)
            c['data'] = c['obs'] = len(share) - 1
            if 'jpeg' in c:     # what the specification reads from the header
                c.update(refused='', off=0, prec=0, sofw=0, sofh=0, ncomp=0, sv=0, tsel=[], dht=[], pt=0)
            c['res'] = r['res'] if r['res'] != 'err' else 'err: ' + str(r.get('err'))[:60]
            c['want'] = f['want']
            c['got'] = [r.get('width', -1), r.get('height', -1), r.get('cpp', -1)]
            cases.append(c)
            owner[c['id']] = f
    total = 0
    # batches bounded by JSON size
    groups, cur, sz, last = [], [], 0, None
    for c in cases:
        n = 0 if c['data'] == last else len(share[c['data']]['data']) + len(share[c['data']]['obs'])
        last = c['data']
        if cur and sz + n > batch * 8:
            groups.append(cur)
            cur, sz = [], 0
        cur.append(c)
        sz += n
    groups.append(cur)
    allbad = {}
    for g, grp in enumerate(groups):
        p = os.path.join(wd, '%s-%d.json' % (name, g))
        with open(p, 'w') as fh:
            used = sorted({c['data'] for c in grp})
            no = {d: i for i, d in enumerate(used)}
            json.dump({'files': [share[d] for d in used], 'cases': [dict(c, data=no[c['data']], obs=no[c['data']]) for c in grp]}, fh)
        r = run_tlc('CodecTrace', CFG, wd, {'CASES': p}, cont=True, heap=heap)
        ck.add_tlc(r, '%s-%d' % (name, g))
        os.remove(p)
        bad = parse_reports(r['out'])
        allbad.update(bad)
        if r['violation'] and not bad:
            m = re.search(r'case = "([^"]*)"', r['out'])
            if not m:
                raise ToolError('TLC reported a violation that could not be read:\n' + r['out'][-3000:])
            for m in re.finditer(r'/\\ case = "([^"]*)"', r['out']):
                allbad.setdefault(m.group(1), 'samples missing')
        if not r['violation']:
            want = sum(c['units'] + 1 for c in grp)
            if r['distinct'] != want:
                raise ToolError('specification did not run to completion: %d states, expected %d' % (r['distinct'], want))
    for f in files:
        ck.cov['traces_validated_against_impl'] += 1
        ck.cov['values_compared'] += sum(C['nout'] for C in f['cases'])
    kinds = {}
    for f in files:
        kinds.setdefault(re.sub(r'\d+$', '', f['id']), []).append(f)
    for kd, fs in kinds.items():
        ck.sample({'kind': kd, 'files': len(fs), 'example': fs[0].get('what'), 'bytes': len(fs[0]['bytes']), 'geometry': fs[0]['want']}, 40)
    seen = set()
    for cid, what in sorted(allbad.items()):
        f = owner[cid]
        if f['id'] in seen:
            continue
        seen.add(f['id'])
        ck.violation(f['id'], '%s (%s): %s' % (f['id'], f.get('what'), what), [f['path']],
                     {k: v for k, v in f['cases'][0].items() if k not in ('data', 'obs', 'lintab', 'curve')})
    return allbad
