"""python3 run1.py CASE [N] [flavour] -- develop: run a case against /repo directly"""
import sys, os, time
sys.path.insert(0, os.environ.get('STAGE', '/repo')); sys.path.insert(0, '/verif')
from harness import core
import importlib
mod = os.environ.get('MODS')
if mod:
    for m in mod.split(','): importlib.import_module('harness.' + m)
else: core.load_cases()
from durus.logger import logger; logger.disabled = True
names = sys.argv[1].split(',') if sys.argv[1] != 'all' else list(core.CASES)
for n in names:
    cs = core.CASES[n]; t = time.time(); nt = 0
    for i in range(int(sys.argv[2]) if len(sys.argv) > 2 else cs.n):
        logger.setLevel(1 if i % 4 == 0 else 20)
        v, c = core.run_one(cs, i, 1, 'quick', 'c')
        nt += c.nontrivial
        if v:
            print(n, i, v['message']); print(v['traceback'][-1500:]); print('\n'.join(c.trace[-40:])); break
    print(n, 'ok' if not v else 'VIOL', i + 1, nt, '%.1fs' % (time.time() - t), flush=True)
