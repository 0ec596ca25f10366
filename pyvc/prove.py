"""python3-vt -m pyvc.prove OUT.json ITEM... : discharge the obligations of the
items and write the results.  ITEM is MODULE:CONTRACT, lemmas:MODULE or prelude."""
import importlib
import json
import os
import sys
import time

sys.setrecursionlimit(6000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

MODULES = ['utils_c', 'serialize_c', 'shelf_c', 'server_c', 'client_c', 'storage_c', 'connection_c', 'containers_c', 'persistent_c', 'btree_c', 'file_c', 'filestorage_c']


def load(modules=MODULES):
    for m in modules:
        importlib.import_module('contracts.' + m)


def catalogue():
    """[(item, props, target)]"""
    from pyvc import runner
    load()
    out = []
    for c in runner.ALL:
        m = c.__class__.__module__.split('.')[-1]
        out.append(('%s:%s' % (m, c.name), tuple(c.props), c.target, getattr(c, 'cost', 3)))
    for m in MODULES:
        mod = importlib.import_module('contracts.' + m)
        if hasattr(mod, 'lemmas'):
            out.append(('lemmas:' + m, tuple(getattr(mod, 'LEMMA_PROPS', ())), 'lemmas of ' + m, 10))
    out.append(('prelude', (), 'axioms of the byte strings', 10))
    return out


def short(x, n=1500):
    x = str(x)
    return x if len(x) <= n else x[:n] + '...'


def prove(item, program):
    from pyvc import runner
    t0 = time.time()
    if item == 'prelude':
        from pyvc import prelude
        obs = [{'label': name, 'status': 'proved' if ok else 'failed', 'line': None, 'where': [],
                'model': '', 'formula': ''} for name, ok in ((n, ok) for n, ok, t in prelude.soundness())]
        return {'item': item, 'target': 'axioms of the byte strings', 'kind': 'lemmas',
                'status': 'proved' if all(o['status'] == 'proved' for o in obs) else 'failed',
                'obligations': obs, 'seconds': time.time() - t0, 'solver_s': time.time() - t0, 'reason': ''}
    if item.startswith('lemmas:'):
        from pyvc import lemmas
        rs = lemmas.check(importlib.import_module('contracts.' + item[7:]))
        obs = [{'label': 'lemma ' + name, 'status': 'proved' if ok else 'failed', 'line': None,
                'where': [], 'model': '', 'formula': note} for name, ok, secs, note in rs]
        return {'item': item, 'target': 'lemmas of ' + item[7:], 'kind': 'lemmas',
                'status': 'proved' if all(o['status'] == 'proved' for o in obs) else 'failed',
                'obligations': obs, 'seconds': time.time() - t0, 'solver_s': sum(r[2] for r in rs), 'reason': ''}
    m, name = item.split(':')
    c = [c for c in runner.ALL if c.name == name and c.__class__.__module__ == 'contracts.' + m][0]
    r = runner.verify(c, program)
    if r.status == 'failed':
        # a second try, with more time: an obligation that holds is not to
        # fail because the machine is busy
        r2 = runner.verify(c, program, timeout=30000, deadline=300)
        if r2.status == 'proved':
            r = r2
    d = r.as_dict()
    d['obligations'] = [dict((k, short(o.get(k))) if k in ('formula', 'model') else (k, o.get(k))
                             for k in ('label', 'status', 'line', 'where', 'formula', 'model'))
                        for o in r.obligations]
    d.update(item=item, kind='contract', assumes=list(getattr(c, 'assumes', ())))
    return d


def main(argv):
    out, items = argv[0], argv[1:]
    from pyvc.interp import Program
    load()
    program = Program()
    results = []
    for item in items:
        try:
            results.append(prove(item, program))
        except Exception as e:
            import traceback
            results.append({'item': item, 'target': '?', 'kind': 'contract', 'status': 'undecided',
                            'reason': 'verifier error: ' + traceback.format_exc()[-600:], 'obligations': [],
                            'seconds': 0, 'solver_s': 0})
        with open(out + '.tmp', 'w') as f:
            json.dump(results, f, default=str)
        os.rename(out + '.tmp', out)


if __name__ == '__main__':
    if sys.argv[1:] == ['--list']:
        for x in catalogue():
            print(*x)
    else:
        main(sys.argv[1:])
