"""Decode files and check what the library says about them against MetaTrace."""
import json, os, struct
from common import *
from codec_run import write_files, parse_reports
import db

CFG = """SPECIFICATION Spec
INVARIANT Conforms
ALIAS Report
CHECK_DEADLOCK FALSE
"""
MAKERS = {
    'SONY': 'ARW', 'Mamiya-OP Co.,Ltd.': 'MEF', 'OLYMPUS IMAGING CORP.': 'ORF', 'OLYMPUS CORPORATION': 'ORF', 'OLYMPUS OPTICAL CO.,LTD': 'ORF',
    'SAMSUNG': 'SRW', 'SEIKO EPSON CORP.': 'ERF', 'EASTMAN KODAK COMPANY': 'KDC', 'KODAK': 'DCS', 'Kodak': 'DCR', 'Panasonic': 'RW2', 'LEICA': 'RW2',
    'FUJIFILM': 'RAF', 'PENTAX Corporation': 'PEF', 'RICOH IMAGING COMPANY, LTD.': 'PEF', 'PENTAX': 'PEF', 'Leaf': 'IIQ', 'Phase One A/S': 'IIQ',
    'Hasselblad': 'TFR', 'NIKON CORPORATION': 'NEF', 'NIKON': 'NRW', 'Canon': 'CR2'}
ALL = ['names', 'size', 'wb', 'white', 'black', 'matrix', 'pattern', 'crops', 'orient']


def halves(b):
    return [b >> 16, b & 65535]


def masked_sums(out, w, ah, av, h):
    """<<row mod 24, column parity, sum div 2^15, sum mod 2^15, count>> over the two masked areas"""
    import numpy
    out = numpy.frombuffer(out, '<u2')
    acc = {}

    def add(y, x0, x1):
        row = out[y * w + x0:y * w + x1]
        for par in (0, 1):
            v = row[(par - x0) % 2::2]
            if len(v):
                t = acc.setdefault((y % 24, par), [0, 0])
                t[0] += int(v.sum(dtype='u8'))
                t[1] += len(v)
    for y in range(ah[0], ah[0] + ah[1]):
        add(y, 0, w)
    if av[1]:
        for y in range(h):
            add(y, av[0], av[0] + av[1])
    return [[y, par, t >> 15, t & 32767, n] for (y, par), (t, n) in sorted(acc.items())]


def observation(r, f):
    o = {'res': r['res'], 'msg': str(r.get('err', r['res']))[:100]}
    if r['res'] != 'ok':
        return o
    by = lambda s: list(s.encode())
    o.update(names=[by(r[k]) for k in ('make', 'model', 'clean_make', 'clean_model')], size=[r['width'], r['height'], r['cpp']],
             wb=[halves(x) for x in r['wb']], white=r['white'], black=r['black'], mat=[halves(x) for row in r['xyz'] for x in row],
             cfadim=[r['cfaw'], r['cfah']], cfavalid=r['cfavalid'], cfa=r['cfa'], croppedcfa=r['croppedcfa'], crops=r['crops'],
             orient=r['orientation'], masked=[], digest=r['digest'])
    return o


def run_meta(ck, files, aspects=ALL, name='meta', profile='dev', keep=False):
    """files: id, bytes, what; optional head (how many bytes the specification needs), areas (masked areas to sum up),
    refusal (text that an error message has to contain), aspects"""
    wd = ck.wd
    write_files(files, wd)
    jobs = []
    for f in files:
        j = {'id': f['id'], 'op': 'decode', 'path': f['path']}
        if f.get('areas'):
            j['out'] = f['path'] + '.out'
        jobs.append(j)
    res = run_harness(jobs, wd, profile=profile)
    cases, owner = [], {}
    for f in files:
        r = res[f['id']]
        o = observation(r, f)
        C = {'id': f['id'], 'buf': list(f['bytes'][:f.get('head', len(f['bytes']))]), 'size': len(f['bytes']), 'aspects': f.get('aspects', aspects),
             'obs': o, 'areas': [[0, 0], [0, 0]], 'want': f.get('expect', 'ok'), 'twin': 0}
        if r['res'] == 'err' and f.get('refusal'):
            C['refusal'] = f['refusal'] in r['err']
        if f.get('areas'):
            C['areas'] = [list(a) for a in f['areas']]
            if r['res'] == 'ok':
                raw = open(f['path'] + '.out', 'rb').read()
                try:
                    o['masked'] = masked_sums(raw, r['width'], f['areas'][0], f['areas'][1], r['height'])
                except IndexError:
                    pass
                os.remove(f['path'] + '.out')
        cases.append(C)
        owner[f['id']] = f
    cp, mp = os.path.join(wd, 'cameras.json'), os.path.join(wd, 'makers.json')
    with open(cp, 'w') as fh:
        json.dump(db.tla(), fh)
    with open(mp, 'w') as fh:
        json.dump([{'make': list(k.encode()), 'format': v} for k, v in MAKERS.items()], fh)
    groups, cur, sz = [], [], 0
    where, group = {}, {f['id']: f.get('group') for f in files}
    for c in cases:
        if cur and sz + len(c['buf']) > 6000000 and (group[c['id']] is None or group[c['id']] != group[cur[-1]['id']]):
            groups.append(cur)
            cur, sz = [], 0
        cur.append(c)
        sz += len(c['buf'])
        g = group[c['id']]
        if g is not None:
            if g in where:
                c['twin'] = where[g]
            else:
                where[g] = len(cur)
    groups.append(cur)
    bad = {}
    for g, grp in enumerate(groups):
        p = os.path.join(wd, '%s-%d.json' % (name, g))
        with open(p, 'w') as fh:
            json.dump(grp, fh)
        r = run_tlc('MetaTrace', CFG, wd, {'CASES': p, 'CAMERAS': cp, 'MAKERS': mp}, cont=True, heap='12g')
        ck.add_tlc(r, '%s-%d' % (name, g))
        os.remove(p)
        b = parse_reports(r['out'])
        for k, v in b.items():
            if 'GENERATOR' in v:
                raise ToolError('%s was built for another outcome than the specification gives: %s' % (k, v))
        bad.update(b)
        if r['violation'] and not b:
            raise ToolError('violation could not be read:\n' + r['out'][-3000:])
        if not r['violation'] and r['distinct'] != 2 * len(grp):
            raise ToolError('specification did not run to completion')
    for f in files:
        ck.cov['traces_validated_against_impl'] += 1
        ck.cov['values_compared'] += len(f.get('aspects', aspects))
    for cid, what in sorted(bad.items()):
        f = owner[cid]
        ck.violation(f['id'], '%s (%s): %s' % (cid, f.get('what', ''), what[:600]), [f['path']])
    if not keep:
        for f in files:
            os.remove(f['path'])
    return bad, res
