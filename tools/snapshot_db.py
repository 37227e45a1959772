"""Writes spec/cameras.json from the camera files of the repository (done once; the copy is the reference)."""
import json, os, tomllib
base = '/repo/data/cameras'
out = []
for d, ds, fs in os.walk(base):
    for f in fs:
        if f.endswith('.toml') and f != 'all.toml':
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                t = tomllib.load(fh)
            t['modes'] = t.pop('cameras', {}).get('modes', [])
            t['_file'] = os.path.relpath(p, '/repo')
            out.append(t)
out.sort(key=lambda t: t['_file'].split('/'))
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'cameras.json'), 'w') as f:
    json.dump(out, f, indent=0, sort_keys=True)
