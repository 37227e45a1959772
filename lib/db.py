"""The camera database as data (the TOML files of the repository)."""
import json, os
from common import VERIF

_cache = None


def load():
    """The reference copy of the database (spec/cameras.json, written by tools/snapshot_db.py), in
    the order in which the build joins the files: of two entries for one name the later counts."""
    global _cache
    if _cache is None:
        with open(os.path.join(VERIF, 'spec', 'cameras.json')) as f:
            _cache = json.load(f)
    return _cache


def tla():
    """the same as the specification reads it: names as bytes"""
    by = lambda s: list(s.encode())
    col = dict(R=0, G=1, B=2, E=3, M=1, Y=3)
    out = []

    def attrs(t):
        d = {}
        for k, v in t.items():
            if k in ('whitepoint', 'blackpoint', 'crops', 'color_matrix', 'blackareah', 'blackareav', 'bps', 'wb_offset', 'filesize',
                     'raw_width', 'raw_height', 'hints'):
                d[k] = v
            elif k == 'color_pattern':
                d['pat'] = [col[c] for c in v]
        return d
    for t in load():
        d = attrs(t)
        d.update(make=by(t['make']), cmake=by(t['clean_make']),
                 names=[[by(t['model']), by(t['clean_model'])]] + [[by(a), by(b)] for a, b in t.get('model_aliases', [])],
                 modes=[dict(attrs(m), mode=by(m['mode'])) for m in t['modes']])
        out.append(d)
    return out


def variants():
    """(make, model, mode) -> merged attribute dict.  Only used to choose
    parameters for generated files; the judgement is the specification's."""
    out = {}
    for t in load():
        names = [(t['model'], t.get('clean_model', ''))] + [tuple(a) for a in t.get('model_aliases', [])]
        for m in [{}] + t.get('modes', []):
            base = {k: v for k, v in t.items() if k not in ('modes', 'model_aliases')}
            base.update(m)
            for model, clean in names:
                a = dict(base, model=model, clean_model=clean)
                out[(a['make'], model, a.get('mode', ''))] = a
    return out


def by_make(make):
    return {k: v for k, v in variants().items() if k[0] == make}
