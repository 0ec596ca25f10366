"""Verification of one function against its contract."""
import ast
import time
import traceback
import z3
from pyvc import engine as E
from pyvc import interp as IN
from pyvc import natives as N
from pyvc.engine import *
from pyvc.interp import Contract, Cx, Interp, Program, same, is_array

CONTRACTS = {}        # target -> Contract instance (used at call sites)
ALL = []              # every contract to verify


def contract(c):
    """Class decorator: register."""
    inst = c()
    ALL.append(inst)
    if not getattr(c, 'extra', False):
        CONTRACTS[c.target] = inst
    inst.name = c.__name__
    return c


class Result(object):
    def __init__(self, c):
        self.name, self.target = c.name, c.target
        self.status = None           # proved / failed / undecided / error
        self.reason = ''
        self.obligations = []
        self.seconds = self.solver_s = 0.0
        self.paths = 0
        self.inlined, self.called, self.loops = [], [], {}

    def as_dict(self):
        d = dict(self.__dict__)
        return d


def statements(node):
    """[(line, text)] of the statements of a function, without those of functions in it"""
    out = []
    def walk(body):
        for st in body:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant): continue
            out.append((st.lineno, ast.unparse(st).split('\n')[0]))
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)): continue
            for f in ('body', 'orelse', 'finalbody'):
                if f == 'body' and isinstance(st, ast.If) and ast.unparse(st.test).startswith("os.name == 'nt'"):
                    continue   # the verified system is not that one
                walk(getattr(st, f, []))
            for h in getattr(st, 'handlers', []):
                walk(h.body)
    if node is not None and isinstance(getattr(node, 'body', None), list):
        walk(node.body)
    return out


def verify(c, program, contracts=None, timeout=None, deadline=None, verbose=False):
    contracts = CONTRACTS if contracts is None else contracts
    res = Result(c)
    t0 = time.time()
    s = E.Session(c.name, timeout=timeout or c.timeout or 10000)
    s.base = s.base + N.LIB_AXIOMS + list(getattr(c, 'axioms', []))
    for x in getattr(c, 'theory', ()):
        s.base = s.base + x
    s.deadline = t0 + (deadline or getattr(c, 'deadline', 240))
    state = {'pre_sat': False, 'ends': 0, 'normal': 0}

    def run(ctx):
        it = Interp(ctx, program, contracts, target=c.target)
        it.current_contract = c
        for k in contracts.values():
            for o, spec in k.loops.items():
                it.loop_specs[(k.target, o)] = spec
        for o, spec in c.loops.items():
            it.loop_specs[(c.target, o)] = spec
        for k, spec in getattr(c, 'other_loops', {}).items():
            it.loop_specs[k] = spec
        it.inline = set(getattr(c, 'inline', ()))
        f = it.resolve(c.target)
        state['node'] = getattr(f, 'node', None) if not hasattr(c, 'body') else None
        args, kw = c.setup(it)
        cx = Cx(it, it.bind(f, args, kw))
        it.cx = cx
        it.yields = cx.yields = Obj(ctx, None, 'loop yields')
        it.yields.c['n'] = z3.IntVal(0)
        if hasattr(c, 'ghosts'):
            it.yields.c.update(c.ghosts(cx))
        for label, g in c.pre(cx):
            ctx.assume(g)
        if not state['pre_sat']:
            if ctx.check(z3.BoolVal(True), 3000) == z3.unsat:
                raise PathEnd()
            state['pre_sat'] = True
        elif ctx.check(z3.BoolVal(True)) == z3.unsat:
            raise PathEnd()
        it.old = cx.old = ctx.snapshot()
        it.asserts_raise = c.asserts_raise
        setup_heap = list(ctx.heap)
        try:
            if hasattr(c, 'body'):
                r = c.body(it, f, cx)
            else:
                r = it.call_body(f, args, kw)
                if isinstance(r, GenObj) and f.is_gen and not getattr(c, 'keep_gen', False):
                    while True:
                        try:
                            y = r.next()
                        except StopIteration:
                            r = None
                            break
                        if hasattr(c, 'on_yield'):
                            for label, g in c.on_yield(cx, y):
                                ctx.prove(g, 'at yield: ' + label)
                        it.yields.c['n'] = to_int(simp(to_int(it.yields.c['n']) + 1))
        except PyRaise as e:
            cx.exc = e.exc
            allowed = [it.resolve(x) if isinstance(x, str) else x for x in c.raises]
            ok = any(it.exc_is(e.exc, x) for x in allowed)
            if not ok:
                ctx.prove(z3.BoolVal(False), 'no exception %s is raised' % e.exc, getattr(it, 'line', None))
            for label, g in c.post_exc(cx):
                ctx.prove(g, 'on %s: %s' % (e.exc, label))
        else:
            cx.result = r
            state['normal'] += 1
            for label, g in c.post(cx):
                ctx.prove(g, 'ensures: ' + label)
        # frame
        allowed = frame_of(c.modifies(cx))
        if allowed is not None:
            for o in setup_heap:
                if o in it.old.cells and not isinstance(o, IN.LoopCtx):
                    check_frame(it, o, allowed)
        state['ends'] += 1

    try:
        s.explore(run)
        if not state['pre_sat']:
            res.status, res.reason = 'error', 'the precondition is not satisfiable'
        elif not s.obligations:
            res.status, res.reason = 'error', 'no obligations'
        else:
            bad = s.failed()
            res.status = 'failed' if bad else 'proved'
            missing = [k for k, v in s.loops_seen.items() if not v and k not in getattr(c, 'free_loops', ())
                       and not _free(c, contracts, k)]
            expected = set((c.target, o) for o in c.loops)
            there = set(n._loop for n in ast.walk(state['node']) if getattr(n, '_loop', ('',))[0] == c.target) if state.get('node') is not None else set()
            if bad and (missing or (expected - set(s.loops_seen) - there)):
                res.status = 'undecided'
                res.reason = 'the loops are not those that have invariants: %s' % (missing or expected)
    except Unsupported as e:
        res.status, res.reason = 'undecided', 'not supported: %s' % e
        if verbose: traceback.print_exc()
    except RecursionError as e:
        res.status, res.reason = 'undecided', 'recursion'
    except KeyError as e:
        res.status, res.reason = 'undecided', 'missing in the code: %s' % e
        if verbose: traceback.print_exc()
    except Exception as e:
        res.status, res.reason = 'undecided', 'verifier error: %s' % ''.join(traceback.format_exception_only(type(e), e))
        if verbose: traceback.print_exc()
    # a statement that no path reaches would be proved of nothing
    res.unreached = [t for line, t in statements(state.get('node')) if (c.target, line) not in s.reached and t not in getattr(c, 'dead', ())]
    if res.status == 'proved' and res.unreached:
        res.status, res.reason = 'undecided', 'not reached: %s' % '; '.join(res.unreached)
    res.obligations = s.obligations
    res.seconds, res.solver_s, res.paths = time.time() - t0, s.solver_s, s.paths
    res.inlined, res.called = sorted(s.inlined), sorted(s.called_contracts)
    res.loops = dict(('%s#%d' % k, v) for k, v in s.loops_seen.items())
    res.completed = state['ends']
    return res


def _free(c, contracts, key):
    k = contracts.get(key[0])
    return k is not None and key[1] in getattr(k, 'free_loops', ())


def frame_of(ms):
    if ms is None:
        return None
    out = set()
    for m in ms:
        if isinstance(m, tuple): out.add((m[0], m[1]))
        else: out.add((m, None))
    return out


def check_frame(it, o, allowed):
    if isinstance(o, Frame) or (o, None) in allowed:
        return
    old = it.old.cells[o]
    if isinstance(o, Obj) and o.name.startswith('loop '):
        return
    for k, v in old.items():
        if (o, k) in allowed or k == 'size' and isinstance(o, DictV): continue
        if k not in o.c:
            it.ctx.prove(z3.BoolVal(False), 'frame: %s.%s is kept' % (o.name, k))
            continue
        w = o.c[k]
        if same(v, w): continue
        if is_z(v) and is_z(w) and v.sort() == w.sort() or (is_int(v) and is_int(w)):
            it.ctx.prove((to_int(v) == to_int(w)) if is_int(v) else v == w, 'frame: %s.%s is unchanged' % (o.name, k))
        else:
            it.ctx.prove(z3.BoolVal(False), 'frame: %s.%s is unchanged' % (o.name, k))
    for k in o.c:
        if k not in old and (o, k) not in allowed and (o, '+') not in allowed:
            it.ctx.prove(z3.BoolVal(False), 'frame: no attribute %s is added to %s' % (k, o.name))


def report(res, verbose=False):
    n = len(res.obligations)
    ok = sum(1 for o in res.obligations if o['status'] == 'proved')
    print('%-10s %-46s %3d/%3d obligations %3d paths %6.2fs %s' % (
        res.status, res.name, ok, n, res.paths, res.seconds, res.reason))
    for o in res.obligations:
        if o['status'] != 'proved':
            print('    %s: %s  [line %s; %s]' % (o['status'], o['label'], o['line'], ' > '.join(o['where'])))
            if verbose:
                print('        ', o['formula'])
                print('        ', (o['model'] or '')[:600])
