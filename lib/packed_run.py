"""Decode packed files and check rows against PackedTrace."""
import json, os, struct
from common import *
from codec_run import write_files, parse_reports, CFG


def window(C, y, rw):
    """file positions that cover row y (the specification reads exactly what it needs from them)"""
    L, w, h = C['layout'], C['w'], C['h']
    if C['rot']:
        return 0, 1 << 31
    if 'interlaced' in L:
        f2 = (((h + 1) // 2 * w * 3 // 2 >> 11) + 1) << 11 if L == '12be_interlaced' else (h + 1) // 2 * w * 3 // 2
        a, n = (y % 2) * f2 + (y // 2) * w * 12 // 8, w * 12 // 8
    elif L == '12be_al16':
        n = 2 * ((w * 12 // 8 + 1) // 2)
        a = y * n
    elif L.endswith('wcontrol'):
        n = w * 12 // 8 + (w + 2) // 10
        a = y * n
    else:
        n8 = w * (8 if L == '8bit' else 10 if L.startswith('10') else 32 if L == '16le_skip' else
                  12 if L in ('12be', '12le', '12be_msb16', '12be_msb32') else 16)
        a, n = y * n8 // 8, n8 // 8
    return max(0, C['off'] + a - 16), C['off'] + a + n + 48


def run_packed(ck, files, name='packed', pfx=''):
    wd = ck.wd
    write_files(files, wd)
    jobs = []
    for f in files:
        j = {'id': f['id'], 'op': 'decode', 'path': f['path']}
        if 'rows' in f:
            j['out'] = f['path'] + '.out'
        else:
            j['inline'] = 1 << 22
        jobs.append(j)
    res = run_harness(jobs, wd)
    cases, owner = [], {}
    for f in files:
        r = res[f['id']]
        C = dict(f['case'])
        C['id'] = f['id']
        C['res'] = r['res'] if r['res'] != 'err' or C['optional'] else 'err: ' + str(r.get('err'))[:60]
        C['want'] = f['want']
        C['got'] = [r.get('width', -1), r.get('height', -1), r.get('cpp', -1)]
        C['len'] = r.get('len', -1)
        rw = f['want'][0] * f['want'][2]
        n = 0
        if r['res'] != 'ok' or C['got'] != f['want'] or C['len'] != rw * f['want'][1]:
            C['rows'], C['data'], C['base'] = [], [], 0
            cases.append(C)
            owner[C['id']] = f
        elif 'rows' in f:
            # one case per sampled row with just the bytes around it
            with open(f['path'] + '.out', 'rb') as fh:
                for y in f['rows']:
                    fh.seek(2 * rw * y)
                    row = list(struct.unpack('<%dH' % rw, fh.read(2 * rw)))
                    n += rw
                    if C['rot'] and y != f['rows'][0]:
                        cases[-1]['rows'].append([y, row])
                        continue
                    c = dict(C, id='%s:row%d' % (f['id'], y), rows=[[y, row]])
                    lo, hi = window(C, y, rw)
                    hi = min(len(f['bytes']) + 16, hi)
                    c['data'] = list((f['bytes'] + b'\0' * 16)[lo:hi])
                    c['base'] = lo
                    cases.append(c)
                    owner[c['id']] = f
            os.remove(f['path'] + '.out')
        else:
            d = r['data']
            C['rows'] = [[y, d[y * rw:(y + 1) * rw]] for y in range(f['want'][1])]
            C['data'] = list(f['bytes']) + [0] * 16
            C['base'] = 0
            n = len(d)
            cases.append(C)
            owner[C['id']] = f
        ck.cov['traces_validated_against_impl'] += 1
        ck.cov['values_compared'] += n
    p = os.path.join(wd, name + '.json')
    with open(p, 'w') as fh:
        json.dump(cases, fh)
    cfg = CFG.replace('INVARIANT Complete\n', '')
    r = run_tlc('PackedTrace', cfg, wd, {'CASES': p}, cont=True, heap='12g')
    ck.add_tlc(r, name)
    os.remove(p)
    bad = parse_reports(r['out'])
    if r['violation'] and not bad:
        raise ToolError('violation could not be read:\n' + r['out'][-3000:])
    if not r['violation'] and r['distinct'] != sum(len(c['rows']) + 1 for c in cases):
        raise ToolError('specification did not run to completion')
    kinds = {}
    for f in files:
        kinds.setdefault((f['id'].rsplit('_', 1)[0], f['case']['layout']), []).append(f)
    for (kd, lay), fs in sorted(kinds.items()):
        ck.sample({'container': kd, 'layout': lay, 'files': len(fs), 'example': fs[0]['what'], 'geometry': fs[0]['want']}, 60)
    seen = set()
    for cid, what in sorted(bad.items()):
        f = owner[cid]
        if f['id'] not in seen:
            seen.add(f['id'])
            ck.violation(f['id'], '%s (%s): %s' % (cid, f['what'], what), [f['path']], {k: v for k, v in f['case'].items() if k != 'table'})
    for f in files:
        if os.path.getsize(f['path']) > 1 << 20:
            os.remove(f['path'])
