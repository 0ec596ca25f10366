"""python3-vt -m pyvc.selftest [MODULE...]: does each proof notice when the code is wrong?

Every line of MUTANTS (kept with the contracts, in contracts/mutants.py) is a small change to a
function under contract; it is applied to a scratch copy of the sources and the contract must not
be proved any more.  This guards against contracts that hold of anything.  It is a tool for whoever
works on the contracts; the checks do not run it.
"""
import importlib
import multiprocessing
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(6000)


def one(m):
    item, path, old, new = m
    d = tempfile.mkdtemp(prefix='pyvc-self')
    try:
        repo = os.environ.get('PYVC_REPO', '/repo')
        shutil.copytree(os.path.join(repo, 'durus'), os.path.join(d, 'durus'))
        p = os.path.join(d, path)
        s = open(p).read()
        if s.count(old) != 1:
            return m, 'STALE (%d)' % s.count(old), []
        with open(p, 'w') as f:
            f.write(s.replace(old, new))
        from pyvc import prove, runner
        from pyvc.interp import Program
        prove.load()
        mod, name = item.split(':')
        c = [c for c in runner.ALL if c.name == name and c.__class__.__module__ == 'contracts.' + mod][0]
        r = runner.verify(c, Program(d))
        return m, r.status, [o['label'] for o in r.obligations if o['status'] != 'proved'] or [r.reason]
    finally:
        shutil.rmtree(d)


def main(argv):
    from contracts.mutants import MUTANTS
    ms = [m for m in MUTANTS if not argv or m[0].split(':')[0] in argv or m[0] in argv]
    bad = 0
    with multiprocessing.Pool(8, maxtasksperchild=1) as pool:
        for m, status, labels in pool.imap_unordered(one, ms, chunksize=1):
            ok = status == 'failed'
            bad += not ok
            print('%-8s %s %r -> %r: %s' % ('ok' if ok else status.upper(), m[0], m[2][-40:], m[3][-40:], sorted(set(labels))[:2]))
    return bad != 0


if __name__ == '__main__':
    raise SystemExit(main(sys.argv[1:]))
