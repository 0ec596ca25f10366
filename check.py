#!/usr/bin/env python3
"""python3 check.py ID [--tier quick|thorough] | --replay FILE

Decides property ID for the current tree of /repo:
 1. every obligation of the contracts of that property, generated from the
    current source of /repo and discharged by z3 (pyvc);
 2. bounded runtime-contract checks of the real code, built from a staged copy
    of /repo/durus: the stand-ins for what is not under contract, and the
    source of concrete failing inputs.
Exit 0: held. Exit 1: a line VIOLATION property=ID replay=PATH.
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('PYVC_REPO', '/repo')
PYTHON = next((p for p in ('/opt/venv/bin/python', '/opt/venv/bin/python3') if os.path.exists(p)),
              sys.executable)
PROVER = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
from props import PROPS


def stage(scratch):
    """copies of the package, with and without the C extension"""
    flavours = {}
    src = os.path.join(REPO, 'durus')
    for f in ('c', 'py'):
        d = os.path.join(scratch, f)
        shutil.copytree(src, os.path.join(d, 'durus'),
                        ignore=shutil.ignore_patterns('*.so', '*.pyd', '__pycache__'))
        flavours[f] = d
    out = subprocess.run([PYTHON, '-c', 'import sysconfig as s;print(s.get_paths()["include"]);'
                          'print(s.get_config_var("EXT_SUFFIX"))'],
                         capture_output=True, text=True, check=True).stdout.split()
    p = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-I' + out[0],
                        os.path.join(flavours['c'], 'durus', '_persistent.c'),
                        '-o', os.path.join(flavours['c'], 'durus', '_persistent' + out[1])],
                       capture_output=True, text=True)
    if p.returncode != 0:
        return flavours, p.stderr
    return flavours, None


def cases_of(prop):
    """[(name, n, flavours, thorough factor, limit, rule)], without importing durus"""
    code = ('import json,sys;sys.path.insert(0,%r);from harness import core;core.load_cases();'
            'print(json.dumps([(c.name,c.props,c.n,c.flavours,c.thorough,c.limit,c.rule)'
            ' for c in core.CASES.values()]))' % HERE)
    p = subprocess.run([PYTHON, '-c', code], capture_output=True, text=True, cwd=HERE,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    if p.returncode != 0:
        raise SystemExit('the harness does not load: ' + p.stderr[-2000:])
    return [c for c in json.loads(p.stdout) if prop in c[1]]


class Job(object):
    def __init__(self, kind, key, cmd, out, limit, env):
        self.kind, self.key, self.cmd, self.out, self.limit, self.env = kind, key, cmd, out, limit, env
        self.result = None
        self.timed_out = False
        self.rc = None


def run_jobs(jobs, slots, end):
    lock = threading.Lock()
    todo = list(jobs)

    def work():
        while True:
            with lock:
                if not todo:
                    return
                j = todo.pop(0)
            left = end - time.time()
            if left <= 1:
                continue
            err = open(j.out + '.err', 'w')
            p = subprocess.Popen(j.cmd, stdout=subprocess.DEVNULL, stderr=err, env=j.env,
                                 cwd=HERE, start_new_session=True)
            try:
                j.rc = p.wait(timeout=min(j.limit, left))
            except subprocess.TimeoutExpired:
                j.timed_out = True
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
            err.close()
            if os.path.exists(j.out):
                with open(j.out) as f:
                    try:
                        j.result = json.load(f)
                    except ValueError:
                        pass
            if j.result is None:
                with open(j.out + '.err') as f:
                    j.stderr = f.read()[-1500:]

    ts = [threading.Thread(target=work) for _ in range(slots)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def harness_jobs(cases, flavours, scratch, tier, seed, factor, first=0, per_job=25.0):
    jobs = []
    for name, props, n, fl, thorough, limit, rule in cases:
        total = int(n * factor * (thorough if tier == 'thorough' else 1)) or 1
        for f in fl:
            if f not in flavours:
                continue
            m = total if f == fl[0] else (total + 1) // 2
            parts = max(1, min(8 if tier == 'quick' else 16, m // 40 or 1))
            for k in range(parts):
                a, b = m * k // parts, m * (k + 1) // parts
                if b <= a:
                    continue
                out = os.path.join(scratch, 'h-%s-%s-%d-%d.json' % (name, f, first, k))
                deadline = per_job if tier == 'quick' else per_job * 8
                env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                           PYTHONHASHSEED=str((seed * 1009 + k) % 4294967295),
                           PYTHONPATH=HERE)
                cmd = [PYTHON, '-c', 'import sys;from harness import core;core.worker(sys.argv[1:])',
                       flavours[f], f, tier, str(seed), name, str(first + a), str(first + b),
                       str(deadline), out]
                jobs.append(Job('case', (name, f), cmd, out, deadline + limit + 15, env))
    return jobs


def proof_jobs(prop, scratch, tier):
    p = subprocess.run([PROVER, '-m', 'pyvc.prove', '--list'], capture_output=True, text=True, cwd=HERE,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    if p.returncode != 0:
        raise SystemExit('the verifier does not load: ' + p.stderr[-2000:])
    items = []
    any_contract = False
    for line in p.stdout.splitlines():
        item, rest = line.split(' ', 1)
        props = rest[:rest.index(')') + 1]
        cost = float(line.rsplit(' ', 1)[1])
        if "'%s'" % prop in props:
            items.append((cost, item))
            any_contract = any_contract or ':' in item
    if any_contract:
        items.append((10, 'prelude'))
    items.sort(reverse=True)
    # short ones share a process, for its start costs a second
    groups, cur, load = [], [], 0
    for cost, item in items:
        if cost >= 5:
            groups.append([item])
        else:
            cur.append(item)
            load += cost
            if load >= 12:
                groups.append(cur)
                cur, load = [], 0
    if cur:
        groups.append(cur)
    jobs = []
    for i, g in enumerate(groups):
        out = os.path.join(scratch, 'p-%d.json' % i)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYVC_REPO=REPO, PYTHONHASHSEED='0')
        jobs.append(Job('proof', tuple(g), [PROVER, '-m', 'pyvc.prove', out] + g, out,
                        700 if tier == 'thorough' else 420, env))
    return jobs


def known_findings():
    """{property: [text]} of the findings that are recorded, not repaired"""
    out = {}
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('KNOWN-FINDING: property='):
                prop, text = line[len('KNOWN-FINDING: property='):].strip().split(' ', 1)
                out.setdefault(prop, []).append(text)
    return out


def main(argv):
    if argv[:1] == ['--replay']:
        return replay(argv[1])
    prop = argv[0]
    tier = argv[argv.index('--tier') + 1] if '--tier' in argv else os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    info = PROPS[prop]
    budget = 600 if tier == 'quick' else 3300
    end = t0 + budget
    scratch = tempfile.mkdtemp(prefix='dv')
    try:
        return decide(prop, info, tier, seed, t0, end, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, info, tier, seed, t0, end, scratch):
    flavours, build_error = stage(scratch)
    notes = []
    if build_error:
        notes.append('the C extension does not build: ' + build_error[-400:])
        del flavours['c']
        flavours['c'] = flavours['py']
    cases = cases_of(prop)
    pj = proof_jobs(prop, scratch, tier)
    hj = harness_jobs(cases, flavours, scratch, tier, seed, info.get('factor', 1))
    # long proofs first, then everything mixed
    run_jobs(pj[:4] + hj + pj[4:] if len(pj) > 4 else pj + hj, 8, end)
    violations, errors = collect(hj)
    results = []
    for j in pj:
        got = dict((r['item'], r) for r in j.result or [])
        for item in j.key:
            results.append(got.get(item) or {
                'item': item, 'target': item, 'kind': 'contract', 'status': 'undecided', 'obligations': [],
                'seconds': 0, 'solver_s': 0, 'reason': 'no result within the time limit'
                if j.timed_out or j.rc is None else 'the prover ended: ' + getattr(j, 'stderr', '')[-300:]})
    failed = [r for r in results if r['status'] == 'failed']
    undecided = [r for r in results if r['status'] in ('undecided', 'error')]
    extra = []
    if not violations and (failed or undecided) and cases:
        # look longer for an input that shows it
        extra = harness_jobs(cases, flavours, scratch, tier, seed, info.get('factor', 1) * 2,
                             first=1000000, per_job=25.0)
        run_jobs(extra, 8, min(end, time.time() + 150))
        v2, e2 = collect(extra)
        violations += v2
        errors += e2
    found = known_findings().get(prop, [])
    reports = [j.result for j in hj + extra if j.result]
    write_evidence(prop, info, tier, seed, t0, results, cases, reports, violations, failed, undecided,
                   notes, found)
    for text in found:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', 'replay', prop + '.json')
    if violations:
        v = violations[0]
        v['property'] = prop
        v['failed_obligations'] = [summary(r) for r in failed]
        with open(path, 'w') as f:
            json.dump(v, f, indent=1, default=str)
        print('%s: %s (case %s, index %d)' % (prop, v['message'][:400], v['case'], v['index']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if failed:
        with open(path, 'w') as f:
            json.dump({'property': prop, 'kind': 'obligation', 'failed_obligations':
                       [summary(r) for r in failed]}, f, indent=1, default=str)
        for r in failed:
            for o in r['obligations']:
                if o['status'] != 'proved':
                    print('%s: not discharged: %s: %s (line %s)' % (prop, r['target'], o['label'], o['line']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        return 1
    if errors:
        print('%s: error of the check: %s' % (prop, errors[0]))
        return 2
    n = sum(r['evaluations'] for r in reports)
    obs = sum(len(r['obligations']) for r in results)
    print('%s held: %d obligations of %d contracts discharged, %d undecided contracts, %d bounded evaluations (%.0f s)' % (
        prop, obs, len(results) - len(undecided), len(undecided), n, time.time() - t0))
    for r in undecided:
        print('%s: undecided, left to the bounded checks: %s: %s' % (prop, r['item'], r['reason'][:300]))
    return 0


def summary(r):
    return {'function': r['target'], 'contract': r['item'], 'obligations': [
        {k: o.get(k) for k in ('label', 'line', 'where', 'status', 'model', 'formula')}
        for o in r['obligations'] if o['status'] != 'proved']}


def collect(jobs):
    violations, errors = [], []
    for j in jobs:
        if j.result is None:
            if j.timed_out:
                violations.append({'case': j.key[0], 'flavour': j.key[1], 'index': int(j.cmd[-4]), 'seed': j.cmd[-6],
                                   'message': 'the code under test hangs: no end within %d s' % j.limit,
                                   'stop': j.cmd[-3], 'trace': []})
            elif j.rc is not None:
                # the process died: a crash of the code under test
                violations.append({'case': j.key[0], 'flavour': j.key[1], 'index': int(j.cmd[-4]), 'seed': j.cmd[-6],
                                   'message': 'the process died with status %s: %s' % (j.rc, getattr(j, 'stderr', '')),
                                   'stop': j.cmd[-3], 'trace': []})
            continue
        for v in j.result['violations']:
            v['hashseed'] = j.env['PYTHONHASHSEED']
            violations.append(v)
        if j.result['error']:
            if 'durus' in j.result['error'] and not os.environ.get('CHECK_STRICT'):
                violations.append({'case': j.key[0], 'flavour': j.key[1], 'index': int(j.cmd[-4]), 'seed': j.cmd[-6],
                                   'message': 'the code under test does not load: ' + j.result['error'][-600:], 'trace': []})
            else:
                errors.append('%s: %s' % (j.key, j.result['error'][-800:]))
    return violations, errors


TRUSTED = [
    'pyvc: the generation of obligations from the Python source (pyvc/engine.py, interp.py) and its models of '
    'built-ins, struct, zlib, heapq, files and sockets (pyvc/natives.py)',
    'z3 5.3 (every obligation is an unsat answer of z3)',
    'the CPython interpreter and its standard library behave as those models say',
]


def write_evidence(prop, info, tier, seed, t0, results, cases, reports, violations, failed, undecided, notes, found):
    nontrivial = set()
    for r in reports:
        nontrivial.update(r['nontrivial'])
    contracts = [r for r in results if r['kind'] == 'contract']
    lemmas = [r for r in results if r['kind'] == 'lemmas']
    obs = [o for r in results for o in r['obligations']]
    called = sorted(set(x for r in contracts for x in r.get('called', [])))
    under = set(r['target'] for r in contracts)
    coverage = {
        'obligations': len(obs),
        'discharged': sum(1 for o in obs if o['status'] == 'proved'),
        'checker_cmd': 'cd /verif && python3-vt -m pyvc.prove OUT.json ' + ' '.join(r['item'] for r in results[:6])
                       + (' ...' if len(results) > 6 else ''),
        'trusted_base': TRUSTED + list(info.get('trusted', [])),
        'back_end': 'z3',
        'solver_s': round(sum(r.get('solver_s') or 0 for r in results), 2),
        'functions_under_contract': [
            {'function': r['target'], 'contract': r['item'], 'status': r['status'],
             'obligations': len(r['obligations']), 'paths': r.get('paths'), 'seconds': round(r['seconds'], 2),
             'inlined': r.get('inlined', []), 'contracts_used': r.get('called', []), 'reason': r.get('reason', '')}
            for r in contracts],
        'lemmas': [{'name': r['target'], 'status': r['status'], 'obligations': len(r['obligations'])} for r in lemmas],
        'contracts_assumed_here_and_proved_elsewhere': [x for x in called if x not in under],
        'undecided': [{'contract': r['item'], 'reason': r['reason'][:300]} for r in undecided],
        'evaluations': sum(r['evaluations'] for r in reports),
        'distinct_nontrivial': len(nontrivial),
        'rule': 'BOUNDED (never counted as proved): each evaluation runs the real code on an input or history drawn '
                'from the seed, against an independent model; it is non-trivial if it reached the situation that the '
                'case is about, and distinct if its trace differs. Cases: ' +
                '; '.join('%s: %s' % (c[0], ' '.join((c[6] or '').split())) for c in cases),
        'bounded_stand_ins': sorted(
            {(r['case'], r['flavour']): None for r in reports}.keys()),
        'bounds': {'%s/%s' % k: v for k, v in per_case(reports).items()},
        'samples': [s for r in reports for s in r['samples']][:6] or
                   [{'obligation': o['label'], 'formula': o.get('formula', '')[:300]} for o in obs[:3]],
        'notes': notes, 'known_findings': found,
        'deductive_scope': info.get('scope', ''),
    }
    level = info['level']
    if level == 'other':
        coverage['explanation'] = info.get('note', '')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage,
          'assumptions': list(info.get('assumptions', [])), 'wall_s': round(time.time() - t0, 2),
          'violations': len(violations) + len(failed)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(tmp, os.path.join(HERE, 'evidence', prop + '.json'))


def per_case(reports):
    out = {}
    for r in reports:
        k = (r['case'], r['flavour'])
        d = out.setdefault(k, {'evaluations': 0, 'seconds': 0, 'cut_short': 0})
        d['evaluations'] += r['evaluations']
        d['seconds'] = round(d['seconds'] + r['wall'], 1)
        d['cut_short'] += 1 if r.get('cut') else 0
    return out


def replay(path):
    v = json.load(open(path))
    if v.get('kind') == 'obligation':
        for f in v['failed_obligations']:
            print(f['function'])
            for o in f['obligations']:
                print('   %s (line %s)\n      %s\n      %s' % (o['label'], o['line'], o['formula'], o['model']))
        return 1
    scratch = tempfile.mkdtemp(prefix='dv')
    try:
        flavours, err = stage(scratch)
        out = os.path.join(scratch, 'r.json')
        stop = v.get('stop') or v['index'] + 1
        p = subprocess.run([PYTHON, '-c', 'import sys;from harness import core;core.worker(sys.argv[1:])',
            flavours[v['flavour']], v['flavour'], v.get('tier', 'quick'), str(v['seed']), v['case'], str(v['index']),
            str(stop), '600', out], cwd=HERE, env=dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1',
            PYTHONHASHSEED=str(v.get('hashseed', 0))))
        if not os.path.exists(out):
            print('the process died with status', p.returncode)
            return 1
        r = json.load(open(out))
        for x in r['violations']:
            print(x['message'])
            print(x.get('traceback', ''))
            print('\n'.join(x['trace']))
            return 1
        print('no violation')
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
