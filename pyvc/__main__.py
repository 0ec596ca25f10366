import sys, importlib, os, time
sys.setrecursionlimit(6000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import runner
from pyvc.interp import Program
mods = sys.argv[1].split(',')
for m in mods: importlib.import_module('contracts.' + m)
names = sys.argv[2:]
v = '-v' in names
names = [n for n in names if n != '-v']
prog = Program()
t0 = time.time()
for c in runner.ALL:
    if names and c.name not in names: continue
    if not names and c.__class__.__module__ != 'contracts.' + mods[0]: continue
    r = runner.verify(c, prog, verbose=v)
    runner.report(r, v)
print('%.1fs' % (time.time() - t0))
