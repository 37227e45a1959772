"""Writes MANIFEST.json: a property is claimed when lib/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
}
TECH = {
 'C01': ('TLC exploration of the directory walk and of the life of a process (WalkDesign.tla, Life.tla), its plans replayed as files and histories into the library, and TLC trace validation of the answers (WalkTrace.tla, AnswerTrace.tla, LifeTrace.tla)', None),
 'C02': ('TLC trace validation: AnswerTrace.tla checks the shape relation on every answer and every developed picture, on systematically damaged files of every format', None),
 'C03': ('TLC model checking of the worker pool (Workers.tla, with a sharing negative control) and of process histories (Life.tla); histories, thread counts and concurrent calls generated from them are replayed and validated by TLC (LifeTrace.tla, AnswerTrace.tla)', None),
 'C19': ('TLC trace validation: CliTrace.tla relates arguments, file system before and after, exit status, output and the picture of every run of the tool', None),
 'C04': ('TLC trace validation: MetaTrace.tla derives from the bytes of the file (Tiff.tla, Meta.tla) the format and all that follows from it, and compares with what the library said', None),
 'C05': ('TLC trace validation: MetaTrace.tla derives from the bytes of the file (Tiff.tla, Meta.tla) the camera and its attributes and compares with what the library said, for every entry of the database', None),
 'C06': ('TLC trace validation: MetaTrace.tla derives from the bytes of the file (Tiff.tla, Meta.tla) what the tags say, for many arrangements of the same content, which must also give identical samples', None),
 'C11': ('TLC trace validation: MetaTrace.tla derives from the bytes of the file (Tiff.tla, Meta.tla) the white balance and compares with what the library said, for every storage variant', None),
 'C12': ('TLC trace validation: MetaTrace.tla derives from the bytes of the file (Tiff.tla, Meta.tla) the levels, averaging the observed masked pixels, and compares with what the library said', None),
 'C07': ('TLC trace validation: PackedTrace.tla predicts every sample from the file bytes', None),
 'C08': ('TLC trace validation: CodecTrace.tla/Codecs.tla decode the stream in the specification and compare every sample', None),
 'C09': ('TLC trace validation: CodecTrace.tla/Codecs.tla decode the stream in the specification and compare every sample', None),
 'C13': ('TLC trace validation: CfaTrace.tla computes the colour at every position after every shift history and compares', None),
 'C14': ('TLC trace validation: DevelopTrace.tla/Develop.tla SizeOK relation on every size the library delivered', None),
 'C15': ('TLC trace validation: DevelopTrace.tla maps every pixel through the orientation mapping of Develop.tla', None),
 'C16': ('TLC model-generated reference pictures (DevelopPlan.tla) and trace validation of every developed pixel (DevelopTrace.tla)', None),
 'C17': ('TLC trace validation: levels and white balance applied by the specification, tone relations on ramps (DevelopTrace.tla)', None),
 'C18': ('TLC trace validation: ColorTrace.tla checks the inverse, neutral and scene colour relations in fixed point arithmetic', None),
 'C10': ('TLC trace validation: CodecTrace.tla/Codecs.tla decode the stream in the specification and compare every sample', None),
}
GEN = 'The specification is the oracle: TLC computes the expected observation from the input that was given to the real library (built from the current tree) and compares it with what the library returned. Complete for each input explored; inputs are generated from the seed. Trusted: TLC, the thin harness around the public API, the file writers (a wrong file is rejected by the specification as well).'
try:
    from manifest_text import TECH as T2
    TECH.update(T2)
except ImportError:
    pass
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, 'lib', i.lower() + '.py')):
        t, note = TECH[i]
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                       'technique': t, 'level': 'model_checking', 'level_note': (note + ' ' if note else '') + GEN,
                       'evidence_file': 'evidence/%s.json' % i})
    else:
        na.append({'property': i, 'reason': 'check under construction'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Specification language: TLA+, checked with TLC. No hooks in /repo: the harness uses the public API only. See DESIGN.md.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
