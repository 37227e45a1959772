import sys, random
sys.path.insert(0, '/verif/lib')
from common import *
import codec_run, importlib
mod = importlib.import_module(sys.argv[1])
names = sys.argv[2].split(',') if sys.argv[2] != 'all' else list(mod.GENS)
n = int(sys.argv[3])
ck = Check('X00', 'quick')
build()
files = []
for nm in names:
    for i in range(n):
        rng = random.Random('%s/%d/%s' % (nm, i, sys.argv[4] if len(sys.argv) > 4 else '1'))
        files.append(mod.GENS[nm](rng, i))
codec_run.run_codecs(ck, files)
ck.finish()
os.remove(os.path.join(EVID, 'X00.json'))
