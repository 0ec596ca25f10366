"""Discharge the lemmas of a contract module."""
import sys, time, importlib
import z3
from pyvc import prelude as P, natives as N, engine as E

def check(mod, timeout=20000):
    out = []
    for name, hyp, goal in mod.lemmas():
        t0 = time.time()
        ok = False
        for seed in (0, 7, 23):
            s = z3.Solver()
            s.set('auto_config', False); s.set('smt.mbqi', False); s.set('timeout', timeout); s.set('random_seed', seed)
            s.add(P.axioms()); s.add(hyp); s.add(z3.Not(goal))
            if s.check() == z3.unsat:
                ok = True
                break
        # the hypotheses alone must not be contradictory
        s = z3.Solver()
        s.set('auto_config', False); s.set('smt.mbqi', False); s.set('timeout', 3000)
        s.add(P.axioms()); s.add(hyp)
        vac = s.check() == z3.unsat
        out.append((name, ok and not vac, time.time() - t0, 'contradictory hypotheses' if vac else ''))
    return out

if __name__ == '__main__':
    for m in sys.argv[1:]:
        for r in check(importlib.import_module('contracts.' + m)): print(r)
