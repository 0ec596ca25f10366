"""Bounded runtime-contract harness: the registry of cases and the worker.

A case is a function case(c) that drives the real code (a staged copy of
/repo's current durus package) against an oracle, and calls c.fail / c.check.
One evaluation is one call with one index; everything random in it comes from
c.rng, which is seeded by (VERIF_SEED, case, index), so an evaluation can be
replayed exactly.
"""
import hashlib
import io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

CASES = {}


class Case(object):
    def __init__(self, fn, props, n, flavours, thorough, limit, rule):
        self.fn = fn
        self.name = fn.__name__
        self.props = props
        self.n = n
        self.flavours = flavours
        self.thorough = thorough
        self.limit = limit
        self.rule = rule or (fn.__doc__ or '').strip()


def case(*props, **kw):
    """n: evaluations in the quick tier; flavours: 'c' (with the C extension)
    and 'py'; thorough: factor of n in the thorough tier; limit: seconds for
    one evaluation."""
    def deco(fn):
        c = Case(fn, props, kw.get('n', 100), kw.get('flavours', ('c',)),
                 kw.get('thorough', 20), kw.get('limit', 60), kw.get('rule'))
        assert c.name not in CASES, c.name
        CASES[c.name] = c
        return fn
    return deco


class Violation(Exception):
    pass


class EvaluationTimeout(BaseException):
    pass


class Ctx(object):
    def __init__(self, case, index, seed, tier, flavour, tmp):
        self.case = case
        self.index = index
        self.seed = seed
        self.tier = tier
        self.flavour = flavour
        self.tmp = tmp
        self.rng = random.Random('%s/%s/%s' % (seed, case, index))
        self.trace = []
        self.nontrivial = False

    def log(self, *items):
        if len(self.trace) < 2000:
            self.trace.append(' '.join(
                x if isinstance(x, str) else short(x) for x in items))

    def note(self, nontrivial=True):
        if nontrivial:
            self.nontrivial = True

    def fail(self, message):
        raise Violation(message)

    def check(self, condition, message, *args):
        if not condition:
            raise Violation(message % args if args else message)

    def equal(self, a, b, message):
        if not (a == b):
            raise Violation('%s: got %s, expected %s' % (
                message, short(a, 300), short(b, 300)))

    def raises(self, exc, f, message):
        try:
            r = f()
        except exc:
            return
        raise Violation('%s: expected %s, got %s' % (message, exc, short(r)))

    def path(self, name):
        return os.path.join(self.tmp, name)


def short(x, n=120):
    try:
        s = repr(x)
    except Exception as e:
        s = '<%s>' % type(x).__name__
    return s if len(s) <= n else s[:n - 3] + '...'


def load_cases():
    from harness import codec, arrays, storages, crash, trees, containers
    from harness import objects, conns, servers


def run_one(case, index, seed, tier, flavour):
    """-> (violation or None, Ctx)"""
    tmp = tempfile.mkdtemp(prefix='ev-')
    c = Ctx(case.name, index, seed, tier, flavour, tmp)
    def on_alarm(signum, frame):
        raise EvaluationTimeout()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(case.limit)
    try:
        try:
            case.fn(c)
        finally:
            signal.alarm(0)
    except Violation as e:
        return {'message': str(e), 'traceback': ''}, c
    except EvaluationTimeout:
        return {'message': 'no answer within %d s' % case.limit,
                'traceback': traceback.format_exc()}, c
    except Exception as e:
        return {'message': 'unexpected %s: %s' % (type(e).__name__,
                                                  short(str(e), 300)),
                'traceback': traceback.format_exc()}, c
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return None, c


def worker(argv):
    """argv: stage flavour tier seed case start stop deadline out"""
    stage, flavour, tier, seed, name, start, stop, deadline, out = argv
    sys.path.insert(0, stage)
    tempfile.tempdir = os.path.dirname(out)
    # no output of the code under test is wanted
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    real_err = os.dup(2)
    os.dup2(devnull, 2)
    report = {'case': name, 'flavour': flavour, 'evaluations': 0,
              'nontrivial': [], 'samples': [], 'violations': [],
              'error': None, 'wall': 0}
    t0 = time.time()
    try:
        load_cases()
        import logging
        logging.raiseExceptions = False
        from durus import logger as durus_logger
        if os.environ.get('DURUS_HARNESS_LOG') is None:
            durus_logger.logger.disabled = True
        case = CASES[name]
        log_level = durus_logger.logger.setLevel
        for i in range(int(start), int(stop)):
            if time.time() - t0 > float(deadline):
                report['cut'] = True
                break
            log_level(1 if i % 4 == 0 else 20)
            v, c = run_one(case, i, seed, tier, flavour)
            report['evaluations'] += 1
            if c.nontrivial:
                h = hashlib.sha1(('%s %s' % (name, c.trace)).encode()
                                 ).hexdigest()[:12]
                report['nontrivial'].append(h)
            if len(report['samples']) < 1 and c.trace:
                report['samples'].append({'case': name, 'index': i,
                    'trace': [t[:200] for t in c.trace[:12]]})
            if v is not None:
                v.update(case=name, index=i, seed=seed, tier=tier,
                         flavour=flavour, trace=c.trace)
                report['violations'].append(v)
                break
    except BaseException:
        report['error'] = traceback.format_exc()
    report['wall'] = time.time() - t0
    with open(out, 'w') as f:
        json.dump(report, f)
    os._exit(0)


if __name__ == '__main__':
    from harness import core
    core.worker(sys.argv[1:])
