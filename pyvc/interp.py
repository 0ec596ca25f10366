"""The interpreter of pyvc: Python statements and expressions over symbolic values."""
import ast
import types
import os
from pyvc.engine import *
from pyvc import engine as E

REPO = os.environ.get('PYVC_REPO', '/repo')

PYEXC = dict((n, getattr(__builtins__ if not isinstance(__builtins__, dict) else None, n, None) or
              __import__('builtins').__dict__[n]) for n in (
    'Exception BaseException KeyError IndexError ValueError TypeError AttributeError AssertionError '
    'IOError OSError RuntimeError StopIteration NotImplementedError OverflowError ImportError '
    'SystemExit TimeoutError ZeroDivisionError LookupError NameError ArithmeticError EOFError').split())


class Program(object):
    """The parsed sources."""
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.trees = {}

    def tree(self, module):
        if module not in self.trees:
            path = os.path.join(self.repo, *module.split('.')) + '.py'
            if module == 'collections.abc':      # (the standard library's own source)
                import _collections_abc
                path = _collections_abc.__file__
            if module.startswith('models.'):     # (models of parts of the standard library)
                path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', *module.split('.')) + '.py'
            if not os.path.exists(path):
                path = os.path.join(self.repo, *module.split('.'), '__init__.py')
            with open(path, 'rb') as f:
                src = f.read()
            self.trees[module] = ast.parse(src, path)
            self.number_loops(self.trees[module], module)
        return self.trees[module]

    def number_loops(self, tree, module):
        def walk(node, qual, counter):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                    q = (qual + '.' if qual else '') + ch.name
                    ch._qual = module + ':' + q
                    walk(ch, q, [0, 0, 0])
                elif isinstance(ch, ast.Lambda):
                    walk(ch, qual, counter)
                else:
                    if isinstance(ch, (ast.For, ast.While)):
                        ch._loop = (module + ':' + qual, counter[0])
                        counter[0] += 1
                    if isinstance(ch, ast.YieldFrom):
                        ch._loop = (module + ':' + qual + ' yield from', counter[1])
                        counter[1] += 1
                    if isinstance(ch, ast.comprehension):
                        ch._loop = (module + ':' + qual + '(comprehension)', counter[2])
                        counter[2] += 1
                    walk(ch, qual, counter)
        walk(tree, '', [0, 0, 0])


class LoopCtx(object):
    """What a loop invariant can talk about."""
    def __init__(self, it, node, fr, ghost, entry):
        self.it, self.ctx, self.node, self.fr, self.g, self.entry = it, it.ctx, node, fr, ghost, entry
        self.old = it.old

    def ghost_i(self):
        return to_int(self.g.c['i'])

    def loop_i(self, ordinal):
        """the counter of another loop of this function, around this one"""
        return to_int(self.ctx.byname['loop %s.%d' % (self.node._loop[0], ordinal)].c['i'])

    def has(self, name):
        return name in self.fr.c and not isinstance(self.fr.c[name], (Unusable, Unbound))

    def __getitem__(self, name):
        f = self.fr
        while f is not None:
            if name in f.c:
                return f.c[name]
            f = f.parent
        raise Unsupported('loop invariant of %s: no local %r' % (self.node._loop, name))

    def modified(self, kind):
        """locals of this kind that the loop changes (for invariants that must not depend on names)"""
        m = self.it.ctx.s.mods.get(self.node._loop, {})
        return [self.fr.c[c] for (n, c), k in m.items()
                if n == self.fr.name and k == kind and c in self.fr.c]


class Contract(object):
    target = None
    raises = ()               # exception classes (Python classes or 'module:Class')
    asserts_raise = False     # assertions of the code raise AssertionError instead of being obligations
    loops = {}
    timeout = None
    inline_only = False

    def setup(self, it):
        """-> (args, kwargs): arbitrary arguments"""
        raise NotImplementedError

    def pre(self, cx):
        return []

    def post(self, cx):
        return []

    def post_exc(self, cx):
        return []

    def modifies(self, cx):
        return []

    def result(self, cx):
        return None


class Cx(object):
    """The arguments and outcome of one call, for pre/post."""
    def __init__(self, it, a):
        self.it, self.ctx, self.a = it, it.ctx, a
        self.old = None
        self.result = None
        self.exc = None

    def __getattr__(self, name):
        try:
            return self.__dict__['a'][name]
        except KeyError:
            raise AttributeError(name)


class Interp(object):
    def __init__(self, ctx, program, contracts=None, natives=None, target=None):
        self.ctx, self.program = ctx, program
        ctx.it = self
        self.contracts = contracts or {}
        self.target = target
        self.modules = {}
        self.old = None
        self.asserts_raise = False
        self.depth = 0
        self.loop_specs = {}
        self.frames = []          # the functions that are active
        self.get_hooks = False
        self.set_hooks = False
        self.inline = set()
        from pyvc import natives as N
        self.N = N
        self.builtins = N.make_builtins(self)

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        m = ModuleVal(name)
        self.modules[name] = m
        m.env["__name__"] = name
        self.N.pre_module(self, m)
        fr = Frame(self.ctx, 'module ' + name, None, None, m)
        fr.c = m.env
        prefix, self.ctx.prefix_name = self.ctx.prefix_name, name + '.'
        where = list(self.ctx.where)
        for st in self.program.tree(name).body:
            if name == 'collections.abc' and not isinstance(st, ast.ClassDef): continue
            if name == 'durus.logger' and isinstance(st, ast.If):
                continue        # (the configuration of the logging module)
            try:
                self.run_block([st], fr)
            except Unsupported as e:
                self.unsupported_top(m, st, e)
            except PyRaise as e:
                self.unsupported_top(m, st, e)
            self.ctx.where = list(where)
        self.N.post_module(self, m)
        self.ctx.prefix_name = prefix
        return m

    def unsupported_top(self, m, st, e):
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                m.env.setdefault(n.id, Opaque('%s.%s (%s)' % (m.name, n.id, e)))

    def resolve(self, qual):
        mod, path = qual.split(':')
        env = self.module(mod).env
        v = None
        for part in path.split('.'):
            v = env[part]
            if isinstance(v, ClassVal):
                env = v.env
        if isinstance(v, (StaticM, ClassM)):
            v = v.f
        return v

    def cls(self, qual):
        return self.resolve(qual)

    # ------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        if name in fr.globals_:
            f = None
        while f is not None:
            if name in f.c:
                v = f.c[name]
                if isinstance(v, Unbound):
                    break
                return v
            f = f.parent
        env = fr.module.env
        if name in env:
            return env[name]
        if name in self.builtins:
            return self.builtins[name]
        if name in PYEXC:
            return PYEXC[name]
        raise Unsupported('name %r' % name)

    def assign_name(self, name, v, fr):
        if name in fr.globals_:
            fr.module.env[name] = v
        elif name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.c:
                f = f.parent
            if f is None: raise Unsupported('nonlocal ' + name)
            f.c[name] = v
        else:
            fr.c[name] = v

    # ------------------------------------------------------------ statements
    def run_block(self, body, fr):
        """A block that does not yield."""
        for _ in self.exec_block(body, fr):
            raise Unsupported('yield')

    def exec_block(self, body, fr):
        for st in body:
            m = getattr(self, 'x_' + type(st).__name__, None)
            if m is None:
                raise Unsupported('statement %s' % type(st).__name__)
            self.line = getattr(st, 'lineno', None)
            if fr.name == self.target and (fr.name, self.line) not in self.ctx.s.reached:
                # (reached means: on a path whose assumptions are not contradictory)
                if self.ctx.check(z3.BoolVal(True), 1000) != z3.unsat:
                    self.ctx.s.reached.add((fr.name, self.line))
            r = m(st, fr)
            if r is not None:
                yield from r

    def x_Pass(self, st, fr): pass

    def x_Expr(self, st, fr):
        v = st.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(v, fr)
        self.ev(v, fr)

    def do_yield(self, v, fr):
        if isinstance(v, ast.Yield):
            yield (self.ev(v.value, fr) if v.value is not None else None)
        else:
            src = self.ev(v.value, fr)
            yield from self.iterate_yields(src, v, fr)

    def iterate_yields(self, src, node, fr):
        it = self.get_iter(src)
        if isinstance(it, GenObj):
            while True:
                try:
                    x = it.next()
                except StopIteration:
                    return
                yield x
        elif isinstance(it, list):
            for x in it:
                yield x
        else:
            yield from self.sym_for(it, node, fr, None, None, yield_elem=True)

    def x_Assign(self, st, fr):
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            raise Unsupported('value of a yield')
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack_seq(v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        else:
            raise Unsupported('assignment to %s' % type(t).__name__)

    def unpack_seq(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                self.raise_(ValueError)
            return v
        if isinstance(v, ListV):
            if v.concrete():
                return self.unpack_seq(tuple(v.c['items']), n)
            if not self.ctx.branch(v.c['n'] == n):
                self.raise_(ValueError)
            return tuple(v.ek.unpack(self.ctx, v.at(z3.IntVal(i))) for i in range(n))
        if isinstance(v, Opaque):
            return tuple(Opaque(v.what) for i in range(n))
        raise Unsupported('unpacking %r' % (v,))

    def x_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            self.assign_name(t.id, self.inplace(st.op, cur, self.ev(st.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(st.op, cur, self.ev(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev_index(t.slice, fr)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.inplace(st.op, cur, self.ev(st.value, fr)))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, a, b):
        if isinstance(a, SetV):
            n = {ast.BitOr: 'update', ast.Sub: 'difference_update',
                 ast.BitAnd: 'intersection_update'}.get(type(op))
            if n:
                self.call(self.getattr(a, n), [b])
                return a
        if isinstance(a, ListV) and isinstance(op, ast.Add):
            self.call(self.getattr(a, 'extend'), [b])
            return a
        if isinstance(a, self.N.OpV): return a.inplace(self, self.N.OPS[type(op)], b)
        names = {ast.Add: '__iadd__', ast.Sub: '__isub__', ast.Mult: '__imul__', ast.BitOr: '__ior__',
                 ast.BitAnd: '__iand__', ast.BitXor: '__ixor__'}
        if isinstance(a, Obj) and type(op) in names:
            f, _ = a.cls.lookup(names[type(op)])
            if f is not None:
                return self.call(Bound(f, a), [b])
        return self.binop(op, a, b)

    def x_If(self, st, fr):
        if self.truth(self.ev(st.test, fr)):
            return self.exec_block(st.body, fr)
        return self.exec_block(st.orelse, fr)

    def x_Return(self, st, fr):
        raise ReturnEx(self.ev(st.value, fr) if st.value is not None else None)

    def x_Break(self, st, fr): raise BreakEx()
    def x_Continue(self, st, fr): raise ContinueEx()

    def x_Global(self, st, fr): fr.globals_.update(st.names)
    def x_Nonlocal(self, st, fr): fr.nonlocals.update(st.names)

    def x_Assert(self, st, fr):
        v = self.ev(st.test, fr)
        if self.asserts_raise:
            if not self.truth(v):
                self.raise_(AssertionError)
            return
        f = self.truth_term(v)
        if f is None:
            f = self.truth(v)
        self.ctx.prove(f, 'assert %s' % ast.unparse(st.test)[:80], st.lineno)

    def x_Raise(self, st, fr):
        if st.exc is None:
            cur = getattr(self, 'handling', None)
            if not cur:
                raise Unsupported('raise without exception')
            raise PyRaise(cur[-1])
        v = self.ev(st.exc, fr)
        raise PyRaise(self.as_exc(v))

    def as_exc(self, v):
        if isinstance(v, ExcInst):
            return v
        if isinstance(v, type) and issubclass(v, BaseException):
            return ExcInst(v)
        if isinstance(v, ClassVal):
            return self.call(v, [])
        raise Unsupported('raise %r' % (v,))

    def raise_(self, cls, *args):
        raise PyRaise(ExcInst(cls, args))

    def exc_is(self, exc, cls):
        if isinstance(cls, tuple):
            return any(self.exc_is(exc, c) for c in cls)
        ec = exc.cls if isinstance(exc, ExcInst) else exc
        if isinstance(cls, Opaque):
            raise Unsupported('except %r' % cls)
        if isinstance(ec, ClassVal):
            for c in ec.mro():
                if c is cls: return True
                if isinstance(c, type) and isinstance(cls, type) and issubclass(c, cls): return True
            return False
        return isinstance(cls, type) and issubclass(ec, cls)

    def x_Try(self, st, fr):
        return self.try_gen(st, fr)

    def try_gen(self, st, fr):
        try:
            try:
                yield from self.exec_block(st.body, fr)
            except PyRaise as e:
                handled = False
                for h in st.handlers:
                    if h.type is None or self.exc_is(e.exc, self.ev_excs(h.type, fr)):
                        handled = True
                        if h.name:
                            self.assign_name(h.name, e.exc, fr)
                        if not hasattr(self, 'handling'): self.handling = []
                        self.handling.append(e.exc)
                        try:
                            yield from self.exec_block(h.body, fr)
                        finally:
                            self.handling.pop()
                        break
                if not handled:
                    raise
            else:
                yield from self.exec_block(st.orelse, fr)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            yield from self.exec_block(st.finalbody, fr)
            raise
        else:
            yield from self.exec_block(st.finalbody, fr)

    def ev_excs(self, t, fr):
        v = self.ev(t, fr)
        return v

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.c.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, fr), t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev_index(t.slice, fr))
            else:
                raise Unsupported('del')

    def x_FunctionDef(self, st, fr):
        q = getattr(st, '_qual', '%s:%s' % (fr.module.name, st.name))
        cls = fr.c.get('__class_under_construction__')
        f = FuncVal(st, None if fr.func is None and cls is None and fr.parent is None else fr,
                    fr.module, q)
        if cls is not None:
            f.frame = fr.parent if fr.parent is not None and fr.parent.func is not None else None
        a = st.args
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            f.defaults[p.arg] = self.ev(d, fr)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                f.defaults[p.arg] = self.ev(d, fr)
        v = f
        for d in reversed(st.decorator_list):
            n = ast.unparse(d)
            if n == 'staticmethod': v = StaticM(v)
            elif n == 'classmethod': v = ClassM(v)
            elif n == 'property': v = PropM(v)
            elif n == "abstractmethod": pass
            else: raise Unsupported('decorator ' + n)
        self.assign_name(st.name, v, fr)

    def x_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        env_fr = Frame(self.ctx, 'class ' + st.name, None, fr, fr.module)
        env_fr.c['__class_under_construction__'] = True
        self.run_block(st.body, env_fr)
        env = dict(env_fr.c)
        del env['__class_under_construction__']
        c = ClassVal(st.name, bases, env, fr.module)
        for v in env.values():
            f = v.f if isinstance(v, (StaticM, ClassM, PropM)) else v
            if isinstance(f, FuncVal) and f.cls is None:
                f.cls = c
        self.assign_name(st.name, c, fr)

    def x_Import(self, st, fr):
        for a in st.names:
            name = a.asname or a.name.split('.')[0]
            if a.name.startswith('durus') and not a.asname:
                self.assign_name('durus', self.N.DurusPkg(self), fr)
            else:
                self.assign_name(name, self.N.std_module(self, a.name if a.asname else name), fr)

    def x_ImportFrom(self, st, fr):
        if st.module == 'durus._persistent':
            self.raise_(ImportError)
        for a in st.names:
            if st.module and st.module.startswith('durus'):
                m = self.module(st.module)
                if a.name not in m.env:
                    try:
                        v = self.module(st.module + '.' + a.name)
                    except (IOError, OSError):
                        raise Unsupported('import %s from %s' % (a.name, st.module))
                else:
                    v = m.env[a.name]
            else:
                v = self.N.std_attr(self, st.module, a.name)
            self.assign_name(a.asname or a.name, v, fr)

    def x_With(self, st, fr):
        raise Unsupported('with')

    # ------------------------------------------------------------ loops
    def x_While(self, st, fr):
        return self.while_gen(st, fr)

    def while_gen(self, st, fr):
        ctx = self.ctx
        def guard(iterate):
            v = self.ev(st.test, fr)
            f = self.truth_term(v)
            if f is None:
                t = self.truth(v)
                if t != iterate:
                    raise PathEnd()
            else:
                f = simp(f)
                if f is (not iterate): raise PathEnd()
                if f is not iterate:
                    g = f if iterate else Not(f)
                    if ctx.check(g) == z3.unsat:
                        raise PathEnd()
                    ctx.assume(g)
        never = isinstance(st.test, ast.Constant) and bool(st.test.value)
        yield from self.cut(st, fr, guard, None, None, st.body, st.orelse, never_exits=never)

    def find_spec(self, node):
        key = node._loop
        return self.loop_specs.get(key)

    def havoc_cell(self, obj, cell, kind):
        ctx = self.ctx
        if cell == '*list':
            ek = kind
            obj.ek = ek if ek is not None else obj.ek
            obj.setsym(ctx.int('n_' + obj.name, lo=0),
                       [ctx.fresh_const(z3.ArraySort(I, s), obj.name) for s in obj.ek.sorts])
        elif cell == '*dict':
            kk, vk = kind
            obj.kk, obj.vk = kk, vk
            obj.c = {'size': None, 'dom': ctx.fresh_const(z3.ArraySort(kk.sorts[0], B), obj.name + '_dom')}
            if vk is not None:
                for j, s in enumerate(vk.sorts):
                    obj.c['v%d' % j] = ctx.fresh_const(z3.ArraySort(kk.sorts[0], s), obj.name + '_v')
        elif kind == 'array':
            obj.c[cell] = ctx.fresh_const(obj.c[cell].sort(), '%s_%s' % (obj.name, cell))
        else:
            obj.c[cell] = ctx.fresh(kind, '%s_%s' % (obj.name, cell))

    def changed_cells(self, head):
        """{(object name, cell): kind} for what differs between the snapshot and now"""
        out = {}
        for o in self.ctx.heap:
            if o not in head.cells:
                continue
            h = head.cells[o]
            if isinstance(o, (ListV, DictV)):
                diff = set(h) != set(o.c) or any(not same(h[k], o.c[k]) for k in h)
                if diff:
                    if isinstance(o, ListV):
                        ek = o.ek
                        if o.concrete():
                            for x in list(o.c['items']) + list(h.get('items', ())):
                                ek = join_kind(ek, kind_of(x)) if ek is not None else kind_of(x)
                        out[o.name, '*list'] = ek
                    else:
                        out[o.name, '*dict'] = (o.kk, o.vk)
                continue
            for k, v in o.c.items():
                if k not in h:
                    out[o.name, k] = kind_of(v) if not is_array(v) else 'array'
                elif not same(h[k], v):
                    if is_array(v):
                        out[o.name, k] = 'array'
                    else:
                        hv = h[k]
                        if isinstance(hv, (Unbound, Unusable)):
                            out[o.name, k] = kind_of(v) if isinstance(hv, Unbound) else BAD
                        else:
                            out[o.name, k] = join_kind(kind_of(hv), kind_of(v))
        return out

    def cut(self, node, fr, guard, enter, advance, body, orelse, never_exits=False, ghosts=None,
            on_exit=None, yield_elem=False, iterable=None):
        """Execute a loop by its invariant."""
        ctx = self.ctx
        key = node._loop
        at = list(ctx.taken)
        spec = self.find_spec(node)
        ctx.s.loops_seen[key] = bool(spec)
        g = Obj(ctx, None, 'loop %s.%d' % key)
        g.c.update(ghosts or {})
        entry = ctx.snapshot()
        L = LoopCtx(self, node, fr, g, entry)
        L.iterable = iterable
        self.cur_loop = L
        if spec and hasattr(spec, 'ghosts'):
            g.c.update(spec.ghosts(L))
        lab = '%s loop %d' % (key[0].split(':')[1] if ':' in key[0] else key[0], key[1])
        def invs():
            out = []
            if spec:
                out += list(spec(L))
            return out
        for label, f in invs():
            ctx.prove(f, '%s: invariant on entry: %s' % (lab, label), node.lineno)
        mods = ctx.s.mods.setdefault(key, {})
        for (name, cell), kind in list(mods.items()):
            o = ctx.byname.get(name)
            if o is not None and o in entry.cells:
                self.havoc_cell(o, cell, kind)
        for f in self.auto_inv(L, mods, entry):
            ctx.assume(f)
        for label, f in invs():
            ctx.assume(f)
        head = ctx.snapshot()
        L.head = head
        k = 0 if never_exits else ctx.choose([None, None], 'loop')
        if k == 0:
            ctx.where.append('in an iteration of %s' % lab)
            guard(True)
            broke = False
            try:
                if enter is not None:
                    v = enter()
                try:
                    if yield_elem:
                        yield v
                    else:
                        yield from self.exec_block(body, fr)
                except ContinueEx:
                    pass
            except BreakEx:
                broke = True
            if not broke:
                if advance is not None:
                    advance()
                if spec and hasattr(spec, 'step'):
                    spec.step(L)
                ch = self.changed_cells(head)
                new = False
                for c, kind in ch.items():
                    if c in mods:
                        j = self.join_cell(mods[c], kind)
                        if j != mods[c]:
                            mods[c] = j
                            new = True
                    else:
                        mods[c] = kind
                        new = True
                if new:
                    for kk in [kk for kk in ctx.s.proved_cache if list(kk[0][:len(at)]) == at]:
                        del ctx.s.proved_cache[kk]
                    raise Restart(at)
                for label, f in self.auto_check(L, mods, entry):
                    ctx.prove(f, '%s: %s' % (lab, label), node.lineno)
                for label, f in invs():
                    ctx.prove(f, '%s: invariant after an iteration: %s' % (lab, label), node.lineno)
                ctx.s.cover.add(key)
                raise PathEnd()
            ctx.where.pop()
        else:
            guard(False)
            if on_exit is not None:
                on_exit()
            yield from self.exec_block(orelse, fr)

    def join_cell(self, a, b):
        if a == 'array' or b == 'array':
            return 'array'
        if isinstance(a, tuple):
            return (a[0] or b[0], a[1] or b[1])
        if a is None or b is None:
            return a or b
        return join_kind(a, b)

    # Facts about loops that need no annotation: an integer that is only ever increased stays
    # at or above its first value.  (proved like any other invariant)
    def auto_inv(self, L, mods, entry):
        out = []
        for (name, cell), kind in mods.items():
            o = self.ctx.byname.get(name)
            if kind == INT and o is not None and o in entry.cells and cell in entry.cells[o] and \
                    is_int(entry.cells[o][cell]) and ('mono', L.node._loop, name, cell) not in self.ctx.s.cover_off():
                out.append(to_int(o.c[cell]) >= to_int(entry.cells[o][cell]))
        return out

    def auto_check(self, L, mods, entry):
        ctx = self.ctx
        for (name, cell), kind in mods.items():
            o = ctx.byname.get(name)
            key = ('mono', L.node._loop, name, cell)
            if kind == INT and o is not None and o in entry.cells and cell in entry.cells[o] and \
                    is_int(entry.cells[o][cell]) and key not in ctx.s.cover_off():
                if not is_int(o.c[cell]) or not ctx.entails(to_int(o.c[cell]) >= to_int(entry.cells[o][cell]), 2000):
                    # not an invariant: forget it and start again
                    ctx.s.cover_off().add(key)
                    ctx.s.proved_cache.clear()
                    raise Restart([])
        return []

    def x_For(self, st, fr):
        return self.for_gen(st, fr)

    def for_gen(self, st, fr):
        x = self.ev(st.iter, fr)
        it = self.live(x) if isinstance(x, ListV) and x.concrete() else self.get_iter(x)
        if isinstance(it, self.N.DictIter) and it.dom0 is None: it = []
        if isinstance(it, GenObj):
            while True:
                try:
                    v = it.next()
                except StopIteration:
                    break
                self.assign(st.target, v, fr)
                try:
                    yield from self.exec_block(st.body, fr)
                except BreakEx:
                    return
                except ContinueEx:
                    pass
            yield from self.exec_block(st.orelse, fr)
        elif isinstance(it, (list, types.GeneratorType)):
            for v in it:
                self.assign(st.target, v, fr)
                try:
                    yield from self.exec_block(st.body, fr)
                except BreakEx:
                    return
                except ContinueEx:
                    pass
            yield from self.exec_block(st.orelse, fr)
        else:
            yield from self.sym_for(it, st, fr, st.target, st.body, orelse=st.orelse)

    def live(self, l):
        """the elements of a list, which may grow meanwhile"""
        i = 0
        while True:
            if not l.concrete(): raise Unsupported('the list changes while it is iterated over')
            if i >= len(l.c['items']): return
            yield l.c['items'][i]
            i += 1

    def sym_for(self, it, node, fr, target, body, orelse=(), yield_elem=False):
        ctx = self.ctx
        st = it.start(self)                       # ghosts
        g = {}
        g.update(st)
        L = {}
        def guard(iterate):
            gh = self.ctx.byname[L['name']] if 'name' in L else self.cur_loop.g
            L['g'] = gh
            ctx.assume(it.always(self, gh))
            f = it.more(self, gh)
            if iterate:
                ctx.assume(f)
                if ctx.check(z3.BoolVal(True)) == z3.unsat: raise PathEnd()
            else:
                ctx.assume(Not(f) if not isinstance(f, bool) else (not f))
        def enter():
            v = it.element(self, L['g'])
            if target is not None:
                self.assign(target, v, fr)
            return v
        def advance():
            it.advance(self, L['g'])
        def on_exit():
            it.at_exit(self, L['g'])
        yield from self.cut(node, fr, guard, enter, advance, body, orelse, ghosts=g, on_exit=on_exit,
                            yield_elem=yield_elem, iterable=it)

    def get_iter(self, v):
        """a GenObj, a list of values to unroll over, or a symbolic iteration"""
        if isinstance(v, (GenObj, SymIter, self.N.Iteration)):
            return v
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ListV):
            if v.concrete():
                return list(v.c['items'])
            return self.N.ListIter(v)
        if isinstance(v, DictV):
            return self.N.DictIter(v, 'keys')
        if isinstance(v, (Obj, FamRef)):
            cls = v.cls if isinstance(v, Obj) else v.fam.cls
            f, _ = cls.lookup('__iter__')
            if f is not None:
                return self.get_iter(self.call(Bound(f, v), []))
            f, _ = cls.lookup('__getitem__')
            if f is not None:
                def go():
                    i = 0
                    while True:
                        try:
                            x = self.call(Bound(f, v), [i])
                        except PyRaise as e:
                            if self.exc_is(e.exc, IndexError):
                                return
                            raise
                        yield x
                        i += 1
                return GenObj(go())
        if isinstance(v, str):
            return list(v)
        if isinstance(v, self.N.KwDict):
            return list(v.d)
        if isinstance(v, self.N.OpV): return self.get_iter(v.iter(self))
        if isinstance(v, Native) and hasattr(v, 'iterate'): return v.iterate(self)
        raise Unsupported('iteration over %r' % (v,))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Bound):
            if isinstance(f.f, Builtin):
                return f.f.f(self, [f.obj] + list(args), kw)
            return self.call(f.f, [f.obj] + list(args), kw)
        if isinstance(f, Builtin):
            return f.f(self, list(args), kw)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if isinstance(f, (StaticM,)):
            return self.call(f.f, args, kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, NativeClass):
            if f.make is None: raise Unsupported('instance of %s' % f.name)
            return f.make(self, list(args), kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcInst(f, tuple(args))
        if isinstance(f, Opaque):
            return Opaque(f.what + '()')
        if isinstance(f, Obj):
            g, _ = f.cls.lookup('__call__')
            if g is not None:
                return self.call(Bound(g, f), args, kw)
        if isinstance(f, Native):
            return f.call(self, args, kw)
        if isinstance(f, Ident):
            return f.kind.call(self, f, list(args), kw)
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, cls, args, kw, init=True):
        for c in cls.mro():
            if isinstance(c, type) and issubclass(c, BaseException):
                e = ExcInst(cls, tuple(args))
                f, _ = cls.lookup('__init__')
                if f is not None:
                    pass
                return e
        new, where = cls.lookup('__new__')
        for c in cls.mro():
            if isinstance(c, NativeClass) and c.make is not None and c is not self.builtins['object']:
                return c.make(self, list(args), kw)
        if new is not None:
            o = self.call(new, [cls] + list(args), kw)
        else:
            o = Obj(self.ctx, cls, cls.name)
        f, _ = cls.lookup('__init__')
        if f is not None and init:
            self.call(Bound(f, o), args, kw)
        return o

    def bind(self, f, args, kw):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                raise Unsupported('too many arguments for %s' % f.qual)
            out[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(names, args):
            out[n] = v
        kw = dict(kw)
        for n in names[len(args):] + [p.arg for p in a.kwonlyargs]:
            if n in kw:
                out[n] = kw.pop(n)
            elif n in f.defaults:
                out[n] = f.defaults[n]
            else:
                raise Unsupported('argument %s of %s' % (n, f.qual))
        if a.kwarg is not None:
            d = {}
            d.update(kw)
            out[a.kwarg.arg] = self.N.KwDict(self.ctx, d)
        elif kw:
            raise Unsupported('keyword arguments %s of %s' % (sorted(kw), f.qual))
        return out

    def call_func(self, f, args, kw):
        c = self.contracts.get(f.qual)
        if c is not None and not c.inline_only and f.qual not in self.inline and \
                not (f.qual == self.target and self.depth == 0 and not self.frames):
            return self.apply_contract(c, f, args, kw)
        return self.call_body(f, args, kw)

    def call_body(self, f, args, kw):
        if self.depth > 60:
            raise Unsupported('recursion without a contract in %s' % f.qual)
        loc = self.bind(f, args, kw)
        fr = Frame(self.ctx, f.qual, f, f.frame, f.module)
        fr.c.update(loc)
        if f.qual != self.target:
            self.ctx.s.inlined.add(f.qual)
        if f.is_gen:
            return GenObj(self.gen_body(f, fr), f.qual)
        self.depth += 1
        self.ctx.where.append('%s' % f.qual.split(':')[1])
        self.frames.append(fr)
        try:
            self.run_block(f.node.body, fr)
            r = None
        except ReturnEx as e:
            r = e.v
        except PyRaise:
            self.frames.remove(fr)
            self.depth -= 1
            self.ctx.where.pop()
            raise
        self.frames.remove(fr)
        self.depth -= 1
        self.ctx.where.pop()
        return r

    def gen_body(self, f, fr):
        self.frames.append(fr)
        try:
            yield from self.exec_block(f.node.body, fr)
        except ReturnEx:
            self.frames.remove(fr)
            return
        except PyRaise:
            self.frames.remove(fr)
            raise
        self.frames.remove(fr)

    def held(self):
        """the identities of the family members that local variables of active functions refer to"""
        out = []
        for fr in self.frames:
            for v in fr.c.values():
                for x in (v if isinstance(v, tuple) else (v,)):
                    if isinstance(x, FamRef) and not any(x.t.eq(y) for y in out): out.append(x.t)
        return out

    def bind_contract(self, f, args, kw):
        return self.bind(f, args, kw)

    def apply_contract(self, c, f, args, kw):
        ctx = self.ctx
        ctx.s.called_contracts.add(f.qual)
        cx = Cx(self, self.bind(f, args, kw))
        short = f.qual.split(':')[1]
        for label, g in c.pre(cx):
            ctx.prove(g, 'precondition of %s: %s' % (short, label), getattr(self, 'line', None))
        cx.old = ctx.snapshot()
        self.havoc_list(c.modifies(cx))
        outs = [None] + list(c.raises)
        k = ctx.choose([None] * len(outs), 'outcome of ' + short) if len(outs) > 1 else 0
        if k == 0:
            cx.result = c.result(cx)
            for label, g in c.post(cx):
                ctx.assume(g)
            if ctx.check(z3.BoolVal(True)) == z3.unsat:
                raise PathEnd()
            return cx.result
        cls = outs[k]
        cx.exc = ExcInst(self.resolve(cls) if isinstance(cls, str) else cls)
        for label, g in c.post_exc(cx):
            ctx.assume(g)
        if ctx.check(z3.BoolVal(True)) == z3.unsat:
            raise PathEnd()
        raise PyRaise(cx.exc)

    def havoc_list(self, ms):
        for m in ms:
            if isinstance(m, tuple):
                o, cell = m[0], m[1]
                kind = m[2] if len(m) > 2 else None
                if kind is None:
                    v = o.c[cell]
                    kind = 'array' if is_array(v) else kind_of(v)
                    if kind == BAD:
                        raise Unsupported('havoc of %s.%s' % (o.name, cell))
                self.havoc_cell(o, cell, kind)
            elif isinstance(m, ListV):
                m.symbolize()
                self.havoc_cell(m, '*list', m.ek)
            elif isinstance(m, DictV):
                self.havoc_cell(m, '*dict', (m.kk, m.vk))
            elif isinstance(m, HeapObj):
                for cell, v in list(m.c.items()):
                    k = 'array' if is_array(v) else kind_of(v)
                    if k not in (BAD, NONE, OPAQUE):
                        self.havoc_cell(m, cell, k)
            else:
                raise Unsupported('modifies %r' % (m,))

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        v = m(e, fr)
        if isinstance(v, Unusable):
            raise Unsupported('value of %s after a loop' % ast.unparse(e))
        return v

    def e_Constant(self, e, fr): return e.value
    def e_Name(self, e, fr): return self.lookup(e.id, fr)
    def e_Tuple(self, e, fr): return tuple(self.ev_star(e.elts, fr))

    def ev_star(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                if isinstance(v, tuple): out.extend(v)
                elif isinstance(v, ListV) and v.concrete(): out.extend(v.c['items'])
                else: raise Unsupported('* of %r' % (v,))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_List(self, e, fr): return ListV(self.ctx, 'list', items=self.ev_star(e.elts, fr))

    def e_Dict(self, e, fr):
        if e.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in e.keys):
            return self.N.KwDict(self.ctx, dict((k.value, self.ev(v, fr)) for k, v in zip(e.keys, e.values)))
        d = DictV(self.ctx, 'dict')
        for k, v in zip(e.keys, e.values):
            self.setitem(d, self.ev(k, fr), self.ev(v, fr))
        return d

    def e_Set(self, e, fr):
        s = SetV(self.ctx, 'set')
        for x in e.elts:
            self.call(self.getattr(s, 'add'), [self.ev(x, fr)])
        return s

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev_index(e.slice, fr))

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            if s.step is not None:
                raise Unsupported('slice step')
            return self.N.SliceV(self.ev(s.lower, fr) if s.lower else None,
                                 self.ev(s.upper, fr) if s.upper else None)
        return self.ev(s, fr)

    def e_Call(self, e, fr):
        line = getattr(e, 'lineno', None)
        f = self.ev(e.func, fr)
        args = self.ev_star(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, fr)
                if isinstance(v, self.N.KwDict): kw.update(v.d)
                else: raise Unsupported('** of %r' % (v,))
            else:
                kw[k.arg] = self.ev(k.value, fr)
        self.line = line
        return self.call(f, args, kw)

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            # keep pure conditions as terms, to have fewer paths
            if is_boolv(v) and all(self.pure_test(y, fr) for y in e.values[i + 1:]):
                s = simp(v)
                if s is True or s is False:
                    if s != is_and: return s
                    continue
                rest = self.try_terms(e.values[i + 1:], fr)
                if rest is not None:
                    return simp(And(v, *rest) if is_and else Or(v, *rest))
            t = self.truth(v)
            if t != is_and:
                return v
        return v

    def pure_test(self, y, fr):
        for n in ast.walk(y):
            if not isinstance(n, (ast.Compare, ast.Name, ast.Constant, ast.Load, ast.BinOp, ast.Add, ast.Sub,
                    ast.Mult, ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq, ast.UnaryOp, ast.Not,
                    ast.USub, ast.BoolOp, ast.And, ast.Or)):
                return False
        for n in ast.walk(y):
            if isinstance(n, ast.Name):
                v = self.lookup(n.id, fr)
                if not (is_int(v) or is_boolv(v)):
                    return False
        return True

    def try_terms(self, ys, fr):
        out = []
        for y in ys:
            v = self.ev(y, fr)
            if not is_boolv(v): return None
            out.append(to_bool(v))
        return out

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            f = self.truth_term(v)
            if f is not None:
                return simp(Not(f))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)): return -v
            return simp(-to_int(v))
        if isinstance(e.op, ast.Invert):
            if isinstance(v, int): return ~v
            return simp(-to_int(v) - 1)
        raise Unsupported('unary operator')

    def e_IfExp(self, e, fr):
        if self.truth(self.ev(e.test, fr)):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            if out and not is_boolv(out[-1]):
                if not self.truth(out[-1]): return False
            elif out and simp(out[-1]) is False:
                return False
            right = self.ev(r, fr)
            out.append(self.compare(op, left, right))
            left = right
        if len(out) == 1:
            return out[0]
        return simp(And(*[to_bool(x) if is_boolv(x) else z3.BoolVal(self.truth(x)) for x in out]))

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def e_JoinedStr(self, e, fr): return Opaque('str')

    def e_Lambda(self, e, fr):
        fn = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(value=e.body)],
                             decorator_list=[], lineno=e.lineno)
        f = FuncVal(fn, fr, fr.module, '%s:<lambda %d>' % (fr.module.name, e.lineno))
        for p, d in zip(e.args.args[len(e.args.args) - len(e.args.defaults):], e.args.defaults):
            f.defaults[p.arg] = self.ev(d, fr)
        return f

    def comp_gen(self, gens, elt, fr):
        """the elements of a comprehension, when everything can be unrolled"""
        inner = Frame(self.ctx, 'comprehension', fr.func, fr, fr.module)
        def go(i):
            if i == len(gens):
                yield elt(inner)
                return
            g = gens[i]
            it = self.get_iter(self.ev(g.iter, inner))
            if isinstance(it, list):
                seq = iter(it)
            elif isinstance(it, GenObj):
                def s():
                    while True:
                        try: v = it.next()
                        except StopIteration: return
                        yield v
                seq = s()
            else:
                if i or len(gens) > 1:
                    raise Unsupported('comprehension over a symbolic collection')
                node = g
                node.lineno = getattr(g.target, 'lineno', 0)
                if not hasattr(node, '_loop'):
                    node._loop = (getattr(fr.func, 'qual', fr.module.name) + '(comprehension)', node.lineno)
                def body():
                    ok = all(self.truth(self.ev(c, inner)) for c in g.ifs)
                    if ok:
                        yield elt(inner)
                class Body(object): pass
                yield from self.sym_comp(it, node, inner, g, elt)
                return
            for v in seq:
                self.assign(g.target, v, inner)
                if all(self.truth(self.ev(c, inner)) for c in g.ifs):
                    yield from go(i + 1)
        return GenObj(go(0))

    def sym_comp(self, it, node, inner, g, elt):
        # as a for loop whose body yields
        ifs = g.ifs
        me = self
        class YieldBody(ast.stmt):
            pass
        def run(st, fr):
            if all(me.truth(me.ev(c, fr)) for c in ifs):
                yield elt(fr)
        b = YieldBody()
        b.lineno = node.lineno
        self.x_YieldBody = lambda st, fr: st.run(st, fr)
        b.run = run
        yield from self.sym_for(it, node, inner, g.target, [b])

    def e_GeneratorExp(self, e, fr):
        return self.comp_gen(e.generators, lambda f: self.ev(e.elt, f), fr)

    def e_ListComp(self, e, fr):
        m = self.map_comp(e, fr)
        if m is not None:
            return m
        out = ListV(self.ctx, 'list', items=())
        g = self.comp_gen(e.generators, lambda f: self.ev(e.elt, f), fr)
        ap = self.getattr(out, 'append')
        while True:
            try: v = g.next()
            except StopIteration: return out
            self.call(ap, [v])

    def map_comp(self, e, fr):
        """[f(x) for x in symbolic list] without branches: pointwise"""
        return None

    def e_SetComp(self, e, fr):
        out = SetV(self.ctx, 'set')
        g = self.comp_gen(e.generators, lambda f: self.ev(e.elt, f), fr)
        ap = self.getattr(out, 'add')
        while True:
            try: v = g.next()
            except StopIteration: return out
            self.call(ap, [v])

    def e_DictComp(self, e, fr):
        out = DictV(self.ctx, 'dict')
        g = self.comp_gen(e.generators, lambda f: (self.ev(e.key, f), self.ev(e.value, f)), fr)
        while True:
            try: k, v = g.next()
            except StopIteration: return out
            self.setitem(out, k, v)

    def e_Starred(self, e, fr): raise Unsupported('*')

    # ------------------------------------------------------------ operators
    def truth_term(self, v):
        """the truth value as a term, or None if it takes execution to find it"""
        if is_boolv(v): return to_bool(v)
        if v is None: return z3.BoolVal(False)
        if isinstance(v, (int, str, bytes, tuple, float)): return z3.BoolVal(bool(v))
        if is_z(v):
            if v.sort() == I: return v != 0
            if v.sort() == Bytes: return blen(v) != 0
        if isinstance(v, ListV):
            n = v.length()
            return to_int(n) != 0
        if isinstance(v, (GenObj, FuncVal, Bound, Builtin, ClassVal, ModuleVal)):
            return z3.BoolVal(True)
        return None

    def truth(self, v):
        f = self.truth_term(v)
        if f is not None:
            return self.ctx.branch(f, 'truth')
        if isinstance(v, DictV):
            if v.c['dom'] is None: return False
            ctx = self.ctx
            s = v.ks()
            w = ctx.fresh_const(s, 'witness')
            x = z3.Const('x', s)
            return ctx.choose([v.c['dom'][w],
                               z3.ForAll([x], Not(v.c['dom'][x]), patterns=[v.c['dom'][x]])]) == 0
        if isinstance(v, Opaque):
            return self.ctx.choose([None, None], 'unknown') == 0
        if isinstance(v, (Obj, FamRef)):
            cls = v.cls if isinstance(v, Obj) else v.fam.cls
            if cls is not None:
                for n in ('__bool__', '__len__'):
                    f, _ = cls.lookup(n)
                    if f is not None:
                        return self.truth(self.call(Bound(f, v), []))
            return True
        if isinstance(v, Native):
            return v.truth(self)
        if isinstance(v, StrRep):
            return self.ctx.branch(to_int(v.n) != 0) if not v.pre else True
        return True

    def eq(self, a, b):
        """a term or bool"""
        if a is b and not isinstance(a, (Obj, Opaque)):
            return True
        if a is None or b is None:
            return a is b
        if isinstance(a, self.N.OpV) or isinstance(b, self.N.OpV): return self.N.compare_hook(self, ast.Eq(), a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.ctx.fresh_const(B, 'opaque_eq')
        if isinstance(a, TextV) or isinstance(b, TextV):
            if not all(isinstance(x, (TextV, str)) for x in (a, b)): return False
            self.ctx._lits()
            return simp(TEXT.pack(a)[0] == TEXT.pack(b)[0])
        if isinstance(a, str) or isinstance(b, str):
            return isinstance(a, str) and isinstance(b, str) and a == b
        if is_bytes(a) and is_bytes(b):
            if isinstance(a, bytes) and isinstance(b, bytes): return a == b
            ta, tb = to_bytes(a), to_bytes(b)
            if isinstance(a, bytes) or isinstance(b, bytes): self.ctx._lits()
            return simp(ta == tb)
        if (is_int(a) or is_boolv(a)) and (is_int(b) or is_boolv(b)):
            if is_boolv(a) and is_boolv(b):
                return simp(to_bool(a) == to_bool(b))
            return simp(to_int(a) == to_int(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            fs = [self.eq(x, y) for x, y in zip(a, b)]
            return simp(And(*[to_bool(f) for f in fs])) if fs else True
        if is_z(a) and is_z(b) and a.sort() == b.sort():
            return simp(a == b)
        if isinstance(a, FamRef) and isinstance(b, FamRef):
            return simp(a.t == b.t) if a.fam is b.fam else False
        if isinstance(a, Ident) or isinstance(b, Ident):
            return self.is_(a, b)
        if isinstance(a, (Obj,)):
            f, _ = a.cls.lookup('__eq__') if a.cls is not None else (None, None)
            if f is not None:
                return self.call(Bound(f, a), [b])
            return a is b
        if isinstance(a, ListV) and isinstance(b, ListV) and a.concrete() and b.concrete():
            return self.eq(a.c['items'], b.c['items'])
        if isinstance(a, (ClassVal, FuncVal, Native)) or isinstance(b, (ClassVal, FuncVal, Native)):
            return a is b
        if (is_int(a) and is_bytes(b)) or (is_bytes(a) and is_int(b)):
            return False
        raise Unsupported('%r == %r' % (a, b))

    def is_(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, SockId) or isinstance(b, SockId):
            ks = KSock()
            if all(isinstance(x, SockId) or hasattr(x, 'sid') for x in (a, b)):
                return simp(ks.pack(a)[0] == ks.pack(b)[0])
            return False
        if isinstance(a, FamRef) and isinstance(b, FamRef):
            return simp(a.t == b.t) if a.fam is b.fam else False
        if isinstance(a, Ident) or isinstance(b, Ident):
            return simp(a.t == b.t) if isinstance(a, Ident) and isinstance(b, Ident) and a.kind == b.kind else False
        if isinstance(a, (HeapObj, ClassVal, FuncVal)) or isinstance(b, (HeapObj, ClassVal, FuncVal)):
            return a is b
        if isinstance(a, (bool,)) or isinstance(b, bool):
            return self.eq(a, b) if is_boolv(a) and is_boolv(b) else False
        if is_int(a) and is_int(b):
            return self.eq(a, b)
        if isinstance(a, (NativeClass, type)) or isinstance(b, (NativeClass, type)):
            return a is b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.ctx.fresh_const(B, 'opaque_is')
        raise Unsupported('%r is %r' % (a, b))

    def neg(self, f):
        if isinstance(f, bool): return not f
        if is_boolv(f): return simp(Not(f))
        return not self.truth(f)

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq): return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            if isinstance(a, Obj) and a.cls is not None:
                f, _ = a.cls.lookup('__ne__')
                if f is not None:
                    return self.call(Bound(f, a), [b])
            if isinstance(a, self.N.OpV) or isinstance(b, self.N.OpV): return self.N.compare_hook(self, op, a, b)
            return self.neg(self.eq(a, b))
        if isinstance(op, ast.Is): return self.is_(a, b)
        if isinstance(op, ast.IsNot): return self.neg(self.is_(a, b))
        if isinstance(op, ast.In): return self.contains(b, a)
        if isinstance(op, ast.NotIn): return self.neg(self.contains(b, a))
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.ctx.fresh_const(B, 'opaque_cmp')
        if isinstance(a, float) or isinstance(b, float):
            raise Unsupported('float comparison')
        if a is None or b is None:
            self.raise_(TypeError)
        if isinstance(a, bytes) and isinstance(b, bytes):
            raise Unsupported('order of bytes')
        r = self.N.compare_hook(self, op, a, b)
        if r is not None:
            return r
        x, y = to_int(a), to_int(b)
        return simp({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])

    def contains(self, c, x):
        if isinstance(c, DictV):
            if c.c['dom'] is None: return False
            if isinstance(x, Opaque): return self.ctx.fresh_const(B, 'opaque_in')
            return simp(c.has(x))
        if isinstance(c, tuple):
            fs = [self.eq(x, y) for y in c]
            return simp(Or(*[to_bool(f) for f in fs])) if fs else False
        if isinstance(c, ListV):
            if c.concrete():
                return self.contains(tuple(c.c['items']), x)
            i = self.ctx.fresh_const(I, 'idx')
            ts = c.ek.pack(x)
            j = z3.Int('j')
            inside = And(0 <= i, i < c.c['n'], *[u == t for u, t in zip(c.at(i), ts)])
            none = z3.ForAll([j], Implies(And(0 <= j, j < c.c['n']),
                Not(And(*[u == t for u, t in zip(c.at(j), ts)]))), patterns=[c.at(j)[0]])
            return self.ctx.choose([inside, none]) == 0
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, self.N.KwDict):
            if isinstance(x, TextV): return self.contains(tuple(c.d), x)
            return x in c.d
        if isinstance(c, (Obj, FamRef)):
            cls = c.cls if isinstance(c, Obj) else c.fam.cls
            f, _ = cls.lookup('__contains__')
            if f is not None:
                return self.call(Bound(f, c), [x])
        if isinstance(c, Native):
            return c.contains(self, x)
        if isinstance(c, Opaque):
            return self.ctx.fresh_const(B, 'opaque_in')
        raise Unsupported('%r in %r' % (x, c))

    def binop(self, op, a, b):
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        t = type(op)
        r = self.N.binop_hook(self, t, a, b)
        if r is not None:
            return r
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if t in (ast.FloorDiv, ast.Mod, ast.Div) and b == 0: self.raise_(ZeroDivisionError)
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                    ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b,
                    ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b,
                    ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b, ast.Div: lambda: a / b}[t]()
        if isinstance(a, str):
            if t is ast.Mod:
                if isinstance(b, (str, int)) or isinstance(b, tuple) and all(isinstance(x, (str, int)) for x in b):
                    return a % b
                return Opaque('str')
            if t is ast.Add and isinstance(b, str): return a + b
            if t is ast.Add and isinstance(b, StrRep): return StrRep(a + b.pre, b.text, b.n)
            if t is ast.Mult and is_int(b): return StrRep('', a, b) if is_z(b) else a * b
            if isinstance(b, Opaque): return Opaque('str')
        if isinstance(a, Opaque) or isinstance(b, Opaque) or isinstance(a, float) or isinstance(b, float):
            return Opaque('arith')
        if is_bytes(a) and is_bytes(b) and t is ast.Add:
            if isinstance(a, bytes) and isinstance(b, bytes): return a + b
            return self.cat(a, b)
        if t is ast.Mult and is_bytes(a) and is_int(b): return self.bmul(a, b)
        if t is ast.Mult and is_int(a) and is_bytes(b): return self.bmul(b, a)
        if isinstance(a, tuple) and isinstance(b, tuple) and t is ast.Add:
            return a + b
        if isinstance(a, ListV) and isinstance(b, ListV) and t is ast.Add:
            return self.N.list_concat(self, a, b)
        if isinstance(a, ListV) and is_int(b) and t is ast.Mult and a.concrete() and isinstance(b, int):
            return ListV(self.ctx, 'list', items=a.c['items'] * b)
        if isinstance(a, SetV) and isinstance(b, SetV):
            return self.N.set_binop(self, t, a, b)
        if isinstance(a, (Obj, FamRef)):
            cls = a.cls if isinstance(a, Obj) else a.fam.cls
            n = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.BitAnd: '__and__',
                 ast.BitOr: '__or__', ast.BitXor: '__xor__'}.get(t)
            f, _ = cls.lookup(n) if n else (None, None)
            if f is not None:
                return self.call(Bound(f, a), [b])
        if is_int(a) and is_int(b):
            x, y = to_int(a), to_int(b)
            if t is ast.Add: return simp(x + y)
            if t is ast.Sub: return simp(x - y)
            if t is ast.Mult:
                if is_z(simp(x)) and is_z(simp(y)): return P.mul(x, y)
                return simp(x * y)
            if t in (ast.FloorDiv, ast.Mod):
                if isinstance(b, int) and b > 0:
                    return simp(x / y) if t is ast.FloorDiv else simp(x % y)
                if self.ctx.branch(y == 0): self.raise_(ZeroDivisionError)
                if self.ctx.branch(y > 0):
                    return simp(x / y) if t is ast.FloorDiv else simp(x % y)
                raise Unsupported('division by a negative number')
            if t is ast.RShift and isinstance(a, int):
                if self.ctx.branch(y < 0): self.raise_(ValueError)
                for k in range(a.bit_length()):
                    if self.ctx.branch(y == k): return a >> k
                return 0
            if t is ast.BitAnd and (isinstance(b, int) or isinstance(a, int)):
                m, v = (b, x) if isinstance(b, int) else (a, y)
                return self.bit_and(v, m)
            if t is ast.BitOr and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
                return simp(x + (1 - (x / b) % 2) * b)
            if t is ast.LShift and isinstance(b, int):
                return simp(x * 2 ** b)
            if t is ast.RShift and isinstance(b, int):
                return simp(x / 2 ** b)
            if t is ast.Pow and isinstance(a, int) and isinstance(b, int):
                return a ** b
        raise Unsupported('%s of %r and %r' % (t.__name__, a, b))

    def bit_and(self, v, m):
        if m == 0: return 0
        if m > 0 and m & (m - 1) == 0:
            return simp(((v / m) % 2) * m)
        if m < 0:
            inv = ~m                   # v & ~inv == v - (v & inv)
            if inv == 0: return v
            if inv & (inv - 1) == 0:
                return simp(v - ((v / inv) % 2) * inv)
        if m > 0 and (m + 1) & m == 0:
            return simp(v % (m + 1))
        raise Unsupported('bitwise and with %d' % m)

    def cat(self, a, b):
        ta, tb = to_bytes(a), to_bytes(b)
        self.ctx._lits()
        return wr(ta, blen(ta), tb)

    def bmul(self, a, n):
        if isinstance(a, bytes) and isinstance(n, int): return a * n
        if isinstance(a, bytes) and len(set(a)) == 1:
            k = simp(to_int(n) * len(a))
            if self.ctx.branch(to_int(k) < 0): return b''
            return rep(z3.IntVal(a[0]), to_int(k))
        if is_z(a) and self.ctx.entails(blen(a) == 1, 2000):
            if self.ctx.branch(to_int(n) < 0): return b''
            # n copies of one byte
            t = rep(de1(a), to_int(n))
            return t
        raise Unsupported('repetition of bytes')

    # ------------------------------------------------------------ attributes and items
    def getattr(self, o, name):
        if isinstance(o, Obj):
            if self.get_hooks and o.cls is not None:
                f, c = o.cls.lookup('__getattribute__')
                if isinstance(f, FuncVal):
                    return self.call(Bound(f, o), [name])
            return self.raw_getattr(o, name)
        if isinstance(o, FamRef):
            return self.raw_getattr(o, name)
        if isinstance(o, ModuleVal):
            if name in o.env: return o.env[name]
            if isinstance(o, self.N.DurusPkg): return self.module('durus.' + name)
            raise Unsupported('%s.%s' % (o.name, name))
        if isinstance(o, ClassVal):
            if name == '__name__': return o.name
            if name == '__mro__': return tuple(o.mro())
            if name == '__subclasses__': return Builtin('__subclasses__', lambda it, a, k: Opaque('subclasses'))
            v, c = o.lookup(name)
            if v is None and c is None:
                if name == '__new__':
                    return Builtin('__new__', lambda it, a, k: it.new_obj(a[0]))
                self.raise_(AttributeError)
            if isinstance(v, StaticM): return v.f
            if isinstance(v, ClassM): return Bound(v.f, o)
            return v
        if isinstance(o, ExcInst):
            if name == 'args': return o.args
            if name in o.fields: return o.fields[name]
            return Opaque('exc.' + name)
        if isinstance(o, Opaque):
            return Opaque(o.what + '.' + name)
        return self.N.native_getattr(self, o, name)

    def new_obj(self, cls):
        new, where = cls.lookup('__new__')
        if isinstance(new, (FuncVal, Builtin)):
            return self.call(new, [cls])
        return Obj(self.ctx, cls, cls.name)

    def raw_getattr(self, o, name):
        if hasattr(o, 'raw_get'): return o.raw_get(self, name)
        cls = o.cls if isinstance(o, Obj) else o.fam.cls
        if isinstance(o, Obj):
            if name in o.c:
                return o.c[name]
        elif name in o.fam.kinds:
            if isinstance(o.fam.kinds[name], KSetOf):
                return FamSetV(o.fam, name, o.t, o.fam.kinds[name].kk)
            return o.fam.kinds[name].unpack(self.ctx, o.fam.terms(name, o.t))
        if name == '__class__':
            return cls
        if name == '__dict__' and isinstance(o, Obj):
            return self.N.ObjDict(self, o)
        if cls is not None:
            v, c = cls.lookup(name)
            if c is not None:
                if isinstance(v, FuncVal): return Bound(v, o)
                if isinstance(v, StaticM): return v.f
                if isinstance(v, ClassM): return Bound(v.f, cls)
                if isinstance(v, PropM): return self.call(Bound(v.f, o), [])
                if isinstance(v, Builtin): return Bound(v, o)
                return v
        f = self.N.obj_attr(self, o, name)
        if f is not None:
            return f
        self.raise_(AttributeError, name)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if self.set_hooks and o.cls is not None:
                f, c = o.cls.lookup('__setattr__')
                if isinstance(f, FuncVal):
                    return self.call(Bound(f, o), [name, v])
            self.raw_setattr(o, name, v)
        elif isinstance(o, FamRef):
            if self.set_hooks:
                f, c = o.fam.cls.lookup('__setattr__')
                if isinstance(f, FuncVal):
                    return self.call(Bound(f, o), [name, v])
            self.raw_setattr(o, name, v)
        elif isinstance(o, ExcInst):
            o.fields[name] = v
        elif isinstance(o, (ClassVal,)):
            o.env[name] = v
        elif isinstance(o, ModuleVal):
            o.env[name] = v
        elif isinstance(o, Native):
            o.setattr(self, name, v)
        elif isinstance(o, Opaque):
            pass
        else:
            raise Unsupported('attribute %s of %r' % (name, o))

    def raw_setattr(self, o, name, v):
        if hasattr(o, 'raw_set'): return o.raw_set(self, name, v)
        if isinstance(o, Obj):
            o.c[name] = v
        else:
            if name not in o.fam.kinds:
                raise Unsupported('field %s of family %s' % (name, o.fam.name))
            o.fam.store(name, o.t, v)

    def delattr(self, o, name):
        if isinstance(o, Obj):
            f, c = o.cls.lookup('__delattr__') if self.set_hooks else (None, None)
            if isinstance(f, FuncVal):
                return self.call(Bound(f, o), [name])
            self.raw_delattr(o, name)
        else:
            raise Unsupported('del attribute')

    def raw_delattr(self, o, name):
        if hasattr(o, 'raw_del'): return o.raw_del(self, name)
        if name not in o.c:
            self.raise_(AttributeError)
        del o.c[name]

    def getitem(self, o, i):
        if isinstance(o, (Obj, FamRef)):
            cls = o.cls if isinstance(o, Obj) else o.fam.cls
            f, _ = cls.lookup('__getitem__')
            if f is None: self.raise_(TypeError)
            return self.call(Bound(f, o), [i])
        return self.N.native_getitem(self, o, i)

    def setitem(self, o, i, v):
        if isinstance(o, Obj):
            f, _ = o.cls.lookup('__setitem__')
            if f is None: self.raise_(TypeError)
            return self.call(Bound(f, o), [i, v])
        return self.N.native_setitem(self, o, i, v)

    def delitem(self, o, i):
        if isinstance(o, Obj):
            f, _ = o.cls.lookup('__delitem__')
            if f is None: self.raise_(TypeError)
            return self.call(Bound(f, o), [i])
        return self.N.native_delitem(self, o, i)


def is_array(v):
    return is_z(v) and z3.is_array(v)

def same(a, b):
    if a is b: return True
    if is_z(a) and is_z(b):
        return a.eq(b)
    if is_z(a) or is_z(b): return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, FamRef) and isinstance(b, FamRef):
        return a.fam is b.fam and a.t.eq(b.t)
    if isinstance(a, Opaque) and isinstance(b, Opaque): return True
    if isinstance(a, Ident) and isinstance(b, Ident): return a.kind == b.kind and a.t.eq(b.t)
    if isinstance(a, (int, str, bytes, float)) and type(a) is type(b):
        return a == b
    return False
