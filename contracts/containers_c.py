"""
Contracts of persistent_list.py, persistent_dict.py and persistent_set.py (C11).

What a list, a dict or a set does is not modelled: for each operation of the builtin type there are
three unknown functions of its contents and the arguments, whether it raises an exception, what it
returns, and what the contents are then.  The contract of a method of a container says that it
raises, returns and leaves exactly what the operation of the builtin type does on the contents of
the container (arguments that are containers count as their contents), and that the container has
been registered as changed if the operation can change it.

The code of PersistentObject that runs on the way (attribute access, loading, noting changes) is the
pure Python implementation, executed from the source.
"""
from pyvc.engine import *
from pyvc.natives import *
from pyvc.interp import Contract
from pyvc.runner import contract, CONTRACTS, ALL

LISTM, DICTM, SETM = 'durus.persistent_list:PersistentList', 'durus.persistent_dict:PersistentDict', 'durus.persistent_set:PersistentSet'
KINDS = {LISTM: 'list', DICTM: 'dict', SETM: 'set'}
FIELD = {'list': 'data', 'dict': 'data', 'set': 's'}
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
ForAll = z3.ForAll

def fn(name, n, sort): return z3.Function(name, *([Val] * n + [sort]))
boxed_as = {k: fn('a_' + k, 1, Val) for k in ('list', 'dict', 'set')}
an_int = z3.Function('an_int', I, Val)
a_slice = fn('a_slice', 2, Val)
NONE = z3.Const('none', Val)
ODD = fn('while_it_changes', 1, Val)
def raises(op, *a): return fn('raises %s/%d' % (op, len(a)), len(a), B)(*a)
def gives(op, *a): return fn('result %s/%d' % (op, len(a)), len(a), Val)(*a)
def leaves(op, *a): return fn('contents after %s/%d' % (op, len(a)), len(a), Val)(*a)
key_at, val_at = z3.Function('key of pair', Val, z3.ArraySort(I, Val)), z3.Function('value of pair', Val, z3.ArraySort(I, Val))
def num(op, *a): return fn('number %s/%d' % (op, len(a)), len(a), I)(*a)
def holds(op, *a): return fn('truth %s/%d' % (op, len(a)), len(a), B)(*a)

MUT = {'list': {'setitem', 'delitem', 'extend', 'imul', 'append', 'insert', 'pop', 'remove', 'reverse', 'sort', 'clear'},
       'dict': {'setitem', 'delitem', 'clear', 'update', 'pop', 'popitem', 'setdefault'},
       'set': {'iand', 'ior', 'isub', 'ixor', 'add', 'clear', 'discard', 'pop', 'remove', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'update'}}
BOXED = {'list': {'add', 'radd', 'mul', 'copy', 'getslice'}, 'dict': {'copy', 'or'},
         'set': {'and', 'or', 'sub', 'xor', 'rand', 'ror', 'rsub', 'rxor', 'difference', 'intersection', 'symmetric_difference', 'union', 'copy'}}
TRUTH = {'in', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'issubset', 'issuperset', 'isdisjoint'}
NUMBER = {'len', 'count', 'index'}
READ = {'list': {'getitem', 'copy'}, 'dict': {'getitem', 'get', 'keys', 'values', 'items', 'copy'}, 'set': {'difference', 'intersection', 'symmetric_difference', 'union', 'copy'}}
NO_ERROR = {'len', 'append', 'reverse', 'clear', 'copy', 'keys', 'values', 'items'}
# these take any iterable: a container counts as its contents
ITER = {'extend', 'update', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'difference', 'intersection',
        'symmetric_difference', 'union', 'issubset', 'issuperset', 'isdisjoint'}
CANON = {'list': {'iadd': 'extend'}, 'set': {}, 'dict': {}}
# if these raise an exception they have changed nothing
ATOMIC = {'setitem', 'delitem', 'append', 'insert', 'pop', 'remove', 'reverse', 'add', 'discard', 'clear', 'popitem', 'setdefault', 'iand', 'ior', 'isub', 'ixor', 'imul'}

class AnyV(OpV):
    """any object, of none of the types that the code asks for"""
    def __init__(self, ctx, name, mapping=False):
        HeapObj.__init__(self, ctx, name)
        self.t = ctx.fresh_const(Val, name)
        self.mapping = mapping
    def attr(self, it, name):
        if name == 'keys' and self.mapping: return Builtin('keys', lambda it, a, k: self.seq(it, 'keys'))
        it.raise_(AttributeError, name)
    def seq(self, it, what):
        n = num('length of ' + what, self.t)
        it.ctx.assume(n >= 0)
        return ListV(it.ctx, what, n=n, arrs=[seqs(what, self.t)], ek=VAL)
    def iter(self, it):
        """pairs"""
        n = num('length of pairs', self.t)
        it.ctx.assume(n >= 0)
        return ListV(it.ctx, 'pairs', n=n, arrs=[key_at(self.t), val_at(self.t)], ek=KTuple(VAL, VAL))
    def getitem(self, it, i):
        if it.ctx.branch(raises('item', self.t, i)): it.raise_(LookupError)
        return gives('item', self.t, i)
    def contains(self, it, x): raise Unsupported('in')
    def binop(self, it, op, b):
        if isinstance(b, BoxV): return b.do(it, 'r' + op, self)
        raise Unsupported('operator')
    def compare(self, it, op, b): raise Unsupported('comparison')
def seqs(what, t): return z3.Function('the ' + what, Val, z3.ArraySort(I, Val))(t)

class BoxV(OpV):
    """a list, a dict or a set"""
    def __init__(self, ctx, kind, v, name='box'):
        HeapObj.__init__(self, ctx, name)
        self.pytype = kind
        self.c['v'] = v
    def term(self): return boxed_as[self.pytype](self.c['v'])
    def do(self, it, op, *args):
        k = self.pytype
        op = CANON[k].get(op, op)
        ts = [enc(it, x, op, self) for x in args]
        return self.apply(it, op, ts)
    def apply(self, it, op, ts):
        ctx, k, v = it.ctx, self.pytype, self.c['v']
        name = k + '.' + op
        assume_about(ctx, k, op, v, ts)
        bad = op not in NO_ERROR and ctx.branch(raises(name, v, *ts))
        op = op.split(':')[0]
        if op in MUT[k]:
            self.c['v'] = leaves(name, v, *ts)
        if bad: raise PyRaise(ExcInst(error_of(k, op)))
        if op in TRUTH: return holds(name, v, *ts)
        if op in NUMBER:
            n = num(name, v, *ts)
            ctx.assume(n >= 0)
            return n
        if op in BOXED[k]: return BoxV(ctx, k, gives(name, v, *ts))
        if k == 'dict' and op in ('keys', 'values', 'items'): return AnyView(it, self, op)
        if op in MUT[k] and op not in ('pop', 'popitem', 'setdefault'): return None
        return gives(name, v, *ts)
    def attr(self, it, name):
        if name.startswith('__') and name.endswith('__') and name != '__len__': raise Unsupported(name)
        op = name.strip('_')
        k = self.pytype
        if op in MUT[k] or op in BOXED[k] or op in TRUTH or op in NUMBER or op in READ[k]:
            def f(it, a, kw):
                names = sorted(kw)
                return self.do(it, op + ''.join(':' + x for x in names), *(list(a) + [kw[x] for x in names])) if kw else self.do(it, op, *a)
            return Builtin(name, f)
        it.raise_(AttributeError, name)
    def truth(self, it): return it.truth(self.do(it, 'len') > 0)
    def binop(self, it, op, b): return self.do(it, op, b)
    def inplace(self, it, op, b):
        self.do(it, 'i' + op, b)
        return self
    def compare(self, it, op, b):
        return self.do(it, op, b)
    def contains(self, it, x): return self.do(it, 'in', x)
    def getitem(self, it, i):
        if isinstance(i, SliceV) and self.pytype == 'list': return self.do(it, 'getslice', i)
        return self.do(it, 'getitem', i)
    def setitem(self, it, i, v): return self.do(it, 'setitem', i, v)
    def delitem(self, it, i): return self.do(it, 'delitem', i)
    def iter(self, it): return self.seq(it)
    def seq(self, it, what='elements'):
        n = num('length of ' + what, self.term())
        it.ctx.assume(n >= 0)
        if what == 'items': return ListV(it.ctx, what, n=n, arrs=[key_at(self.term()), val_at(self.term())], ek=KTuple(VAL, VAL))
        return ListV(it.ctx, what, n=n, arrs=[seqs(what, self.term())], ek=VAL)

class AnyView(OpV):
    """the keys, values or items of a dict"""
    def __init__(self, it, box, what):
        HeapObj.__init__(self, it.ctx, what)
        self.box, self.what, self.v0 = box, what, box.c['v']
        self.t = gives('dict.' + what, self.v0)
    def iter(self, it): return self.box.seq(it, what=self.what)

def error_of(kind, op):
    if kind == 'dict' and op in ('getitem', 'delitem', 'pop', 'popitem'): return KeyError
    return BuiltinError
class BuiltinError(Exception):
    """the exception of the builtin operation"""

def assume_about(ctx, k, op, v, ts):
    """what is known of builtin types"""
    name = k + '.' + op
    for t in ts:
        for q in ('list', 'set', 'dict'):
            if z3.is_app(t) and t.decl().eq(boxed_as[q]): ctx.assume(And(Not(raises(q, t)), gives(q, t) == t.arg(0)))
    if op in ATOMIC: ctx.assume(Implies(raises(name, v, *ts), leaves(name, v, *ts) == v))
    if op in ('radd', 'rand', 'ror', 'rsub', 'rxor') and z3.is_app(ts[0]) and ts[0].decl().eq(boxed_as[k]):
        # x + y, asked of y
        n, w, u = '%s.%s' % (k, op[1:]), ts[0].arg(0), boxed_as[k](v)
        ctx.assume(And(raises(name, v, ts[0]) == raises(n, w, u), gives(name, v, ts[0]) == gives(n, w, u)))
    if k == 'list' and op == 'extend':
        # extending by an iterable is extending by the list of it
        ctx.assume(And(raises(name, v, ts[0]) == raises('list', ts[0]), Implies(Not(raises('list', ts[0])), leaves(name, v, ts[0]) == leaves(name, v, boxed_as['list'](gives('list', ts[0]))))))
    if op == 'copy': ctx.assume(gives(name, v) == v)
    if (op in ('eq', 'ne') or k != 'dict' and op in ('lt', 'le', 'gt', 'ge')) and ts[0].eq(boxed_as[k](v)):
        ctx.assume(And(Not(raises(name, v, *ts)), holds(name, v, *ts) == z3.BoolVal(op in ('eq', 'le', 'ge'))))
    if k == 'dict' and op == 'ne':
        ctx.assume(Implies(Not(raises(name, v, *ts)), And(Not(raises('dict.eq', v, *ts)), holds(name, v, *ts) == Not(holds('dict.eq', v, *ts)))))
    if k == 'dict' and op in ('getitem', 'in', 'setitem', 'get', 'setdefault', 'has'):
        x = ts[0]
        ctx.assume(Implies(Not(raises('dict.in', v, x)), raises('dict.getitem', v, x) == Not(holds('dict.in', v, x))))
        ctx.assume(Implies(raises('dict.in', v, x), raises('dict.getitem', v, x)))
        ctx.assume(And(*[raises(n, v, *a) == raises('dict.in', v, x) for n, a in (('dict.get', [x, t]) for t in ts[1:])]) if op == 'get' else TRUE)
    if k == 'dict' and op == 'setitem':
        ctx.assume(raises(name, v, *ts) == raises('dict.in', v, ts[0]))
        ctx.assume(Implies(Not(raises(name, v, *ts)), And(Not(raises('dict.getitem', leaves(name, v, *ts), ts[0])), gives('dict.getitem', leaves(name, v, *ts), ts[0]) == ts[1])))
    if k == 'dict' and op == 'setdefault':
        x, d = ts
        there = holds('dict.in', v, x)
        ctx.assume(raises(name, v, x, d) == raises('dict.in', v, x))
        ctx.assume(And(gives(name, v, x, d) == If(there, gives('dict.getitem', v, x), d), leaves(name, v, x, d) == If(there, v, leaves('dict.setitem', v, x, d))))

def the_box(o, it=None):
    """the builtin in a container"""
    for f in ('data', 's'):
        if isinstance(o, Obj) and isinstance(o.c.get(f), BoxV): return o.c[f]

def enc(it, x, op=None, receiver=None):
    if x is None: return NONE
    if isinstance(x, (BoxV,)): return x.term()
    if isinstance(x, (AnyV, AnyView)): return x.t
    if is_boolv(x): raise Unsupported('a truth value as argument')
    if is_int(x): return an_int(to_int(x))
    if isinstance(x, SliceV): return a_slice(enc(it, x.start), enc(it, x.stop))
    if isinstance(x, Obj):
        b = the_box(x)
        if b is None:
            f = [n for n in ('data', 's') if n in x.cls.lookup('__slots__')[0].c['items']][0]
            b = it.getattr(x, f)
        if op in ITER or op is None:
            # a container is iterated over
            return ODD(b.term()) if b is receiver and op in ('difference_update', 'extend') else b.term()
        return fn('a container', 1, Val)(b.term())
    if is_z(x) and x.sort() == Val: return x
    if isinstance(x, str): return z3.Const('string ' + x, Val)
    if isinstance(x, ListV) and x.concrete() or isinstance(x, tuple):
        items = [enc(it, y) for y in (x if isinstance(x, tuple) else x.c['items'])]
        return fn('a %s of %d' % ('tuple' if isinstance(x, tuple) else 'list', len(items)), len(items), Val)(*items) if items else z3.Const('an empty sequence', Val)
    raise Unsupported('argument %r' % (x,))

def make(it, kind, a, kw):
    """list(x), dict(x), set(x)"""
    ctx = it.ctx
    if kw: raise Unsupported('%s(**kw)' % kind)
    if not a: return BoxV(ctx, kind, z3.Const('empty ' + kind, Val))
    x = a[0]
    if isinstance(x, BoxV) and x.pytype == kind: return BoxV(ctx, kind, x.c['v'])
    if isinstance(x, (BoxV, AnyV, AnyView, Obj)) or is_z(x):
        t = enc(it, x)
        if isinstance(x, Obj) and the_box(x) is not None and the_box(x).pytype == kind: return BoxV(ctx, kind, the_box(x).c['v'])
        if not isinstance(x, (BoxV, AnyView)) and ctx.branch(raises(kind, t)): raise PyRaise(ExcInst(BuiltinError))
        return BoxV(ctx, kind, gives(kind, t))
    raise Unsupported('%s(%r)' % (kind, x))

# ------------------------------------------------------------------ the container and its connection

class Conn(Native):
    def __init__(self, ctx, contents):
        HeapObj.__init__(self, ctx, 'connection')
        self.c.update(noted=FALSE, transaction_serial=ctx.int('serial', lo=1))
        self.contents = contents
    def attr(self, it, name):
        if name == 'transaction_serial': return self.c['transaction_serial']
        if name == 'note_change':
            def note(it, a, k): self.c['noted'] = TRUE
            return Builtin(name, note)
        if name == 'note_access':
            def access(it, a, k): a[0].c['_p_serial'] = self.c['transaction_serial']
            return Builtin(name, access)
        if name == 'load_state':
            def load(it, a, k):
                self.contents(a[0])
            return Builtin(name, load)
        raise Unsupported('connection.' + name)
    def truth(self, it): return True

def container(it, target, name='self', states=(0, 1, 2, 3)):
    """a container in any state: a ghost, saved, changed, never stored"""
    ctx = it.ctx
    kind = KINDS[target]
    cls = it.cls(target)
    v = ctx.fresh_const(Val, 'contents of ' + name)
    o = Obj(ctx, cls, name)
    box = BoxV(ctx, kind, v, 'contents of ' + name)
    def load(x): x.c[FIELD[kind]] = box
    s = states[ctx.choose([None] * len(states), 'state of ' + name)] if len(states) > 1 else states[0]
    conn = Conn(ctx, load)
    o.c.update(_p_status=(-1, 0, 1, 1)[s], _p_serial=conn.c['transaction_serial'] if s else ctx.int('serial of ' + name), _p_connection=None if s == 3 else conn, _p_oid=None if s == 3 else ctx.bytes('oid of ' + name, 8))
    if s: load(o)
    o.v, o.box, o.conn, o.state0 = v, box, conn, s
    return o

class Method(Contract):
    props = ('C11',)
    extra = True
    raises = (Exception,)
    args = ()
    names = ()
    op = None
    result_kind = None
    states = (0, 1, 2, 3)
    def setup(self, it):
        it.get_hooks = it.set_hooks = True
        it.ctx.ghost['boxes'] = make
        self_ = container(it, self.cls_target, states=self.states)
        it.the_self = self_
        it.the_args = [self.arg(it, self_, x) for x in self.args]
        return [self_] + it.the_args, {}
    def arg(self, it, me, x):
        ctx = it.ctx
        if x == 'item': return ctx.fresh_const(Val, 'item')
        if x == 'self': return me
        if x == 'same': return container(it, self.cls_target, 'other', states=(1,))
        if x == 'box': return BoxV(ctx, KINDS[self.cls_target], ctx.fresh_const(Val, 'box'), 'other')
        if x == 'any': return AnyV(ctx, 'other')
        if x == 'mapping': return AnyV(ctx, 'other', True)
        if isinstance(x, tuple): return self.arg(it, me, x[ctx.choose([None] * len(x), 'argument')])
        raise ValueError(x)
    def me(self, cx): return cx.it.the_self
    def modifies(self, cx):
        me = self.me(cx)
        return [me, me.box, me.conn] + [x for o in cx.it.the_args if isinstance(o, Obj) for x in (o, o.conn) if o is not me]
    def terms(self, cx):
        """the arguments, with the contents of containers for the containers"""
        return [boxed_as[x.box.pytype](x.v) if isinstance(x, Obj) else enc(cx.it, x) for x in cx.it.the_args]
    def contents(self, cx):
        o = self.me(cx)
        f = FIELD[KINDS[self.cls_target]]
        return o.c[f].c['v'] if f in o.c else o.v
    def opname(self): return KINDS[self.cls_target] + '.' + self.op
    def noted(self, cx):
        o = self.me(cx)
        return And(to_int(o.c['_p_status']) == 1, Or(z3.BoolVal(o.state0 >= 2), o.conn.c['noted']))
    def untouched(self, cx):
        o = self.me(cx)
        return And(Or(to_int(o.c['_p_status']) == min(o.state0 - 1, 1), And(z3.BoolVal(o.state0 == 0), to_int(o.c['_p_status']) == 0)), Not(o.conn.c['noted']))
    def mut(self): return self.op in MUT[KINDS[self.cls_target]]
    def post(self, cx):
        me, ts, k = self.me(cx), self.terms(cx), KINDS[self.cls_target]
        n = self.opname()
        for t in [ts]: assume_about(cx.ctx, k, self.op, me.v, ts)
        out = [('no error where %s has one' % k, TRUE if self.op in NO_ERROR else Not(raises(n, me.v, *ts))),
               ('the contents of the %s' % k, self.contents(cx) == (leaves(n, me.v, *ts) if self.mut() else me.v))]
        out += [('a change is registered', Or(self.noted(cx), self.contents(cx) == me.v))] if self.mut() else [('no change is registered', self.untouched(cx))]
        return out + [('the result of the %s' % k, self.right(cx, n, me.v, ts))]
    def post_exc(self, cx):
        me, ts, k = self.me(cx), self.terms(cx), KINDS[self.cls_target]
        n = self.opname()
        assume_about(cx.ctx, k, self.op, me.v, ts)
        out = [('an error only where %s has one' % k, FALSE if self.op in NO_ERROR else raises(n, me.v, *ts)),
               ('the contents of the %s, or as before' % k, Or(self.contents(cx) == me.v, self.contents(cx) == leaves(n, me.v, *ts)) if self.mut() else self.contents(cx) == me.v)]
        if error_of(k, self.op) is KeyError: out.append(('a KeyError', Or(z3.BoolVal(cx.it.exc_is(cx.exc, KeyError)), raises('dict.in', me.v, ts[0]) if ts else FALSE)))
        out += [('a change is registered', Or(self.noted(cx), self.contents(cx) == me.v))] if self.mut() else [('no change is registered', self.untouched(cx))]
        return out
    def right(self, cx, n, v, ts):
        r, k = cx.result, KINDS[self.cls_target]
        if self.result_kind == 'self': return z3.BoolVal(r is self.me(cx))
        if self.op in TRUTH: return to_bool(r) == holds(n, v, *ts)
        if self.op in NUMBER: return to_int(r) == num(n, v, *ts)
        if self.op in BOXED[k] or self.result_kind == 'new':
            new = isinstance(r, Obj) and r.cls is self.me(cx).cls and r is not self.me(cx)
            if not new: return FALSE
            b = the_box(r)
            return And(z3.BoolVal(b is not None and b is not self.me(cx).box and b.pytype == k and r.c['_p_oid'] is None and r.c['_p_status'] == 1), b.c['v'] == gives(n, v, *ts))
        if self.result_kind == 'list':        # a list, of what the operation gives
            return And(z3.BoolVal(isinstance(r, BoxV) and r.pytype == 'list'), r.c['v'] == gives('list', gives(n, v, *ts)))
        if self.mut() and self.op not in ('pop', 'popitem', 'setdefault'): return z3.BoolVal(r is None)
        return enc(cx.it, r) == gives(n, v, *ts)

def method(cls_target, mname, op, args=(), **kw):
    d = dict(target='%s.%s' % (cls_target, mname), cls_target=cls_target, op=op, args=args)
    d.update(kw)
    c = type('%s%s' % (KINDS[cls_target][0].upper(), mname.strip('_') if mname.strip('_') != 'init' else 'init'), (d.pop('base', Method),), d)
    c.__module__ = __name__
    return contract(c)

# ------------------------------------------------------------------ PersistentList
OTHER = ('self', 'same', 'box', 'any')
for m in ('lt', 'le', 'eq', 'ne', 'gt', 'ge'): method(LISTM, '__%s__' % m, m, (OTHER,))
method(LISTM, '__contains__', 'in', ('item',))
method(LISTM, '__len__', 'len')
method(LISTM, '__getitem__', 'getitem', ('item',))
method(LISTM, '__setitem__', 'setitem', ('item', 'item'))
method(LISTM, '__delitem__', 'delitem', ('item',))
method(LISTM, '__iadd__', 'extend', (OTHER,), result_kind='self')
method(LISTM, 'extend', 'extend', (OTHER,))
method(LISTM, '__mul__', 'mul', ('item',))
method(LISTM, '__imul__', 'imul', ('item',), result_kind='self')
for m, n in (('append', 1), ('insert', 2), ('pop', 1), ('remove', 1), ('count', 1), ('index', 2), ('reverse', 0)): method(LISTM, m, m, ('item',) * n)

class AsList(Method):
    """other objects count as the lists of them"""
    def terms(self, cx):
        x = cx.it.the_args[0]
        if isinstance(x, AnyV): return [boxed_as['list'](gives('list', x.t))]
        return Method.terms(self, cx)
    def post_exc(self, cx):
        x = cx.it.the_args[0]
        if isinstance(x, AnyV):
            assume_about(cx.ctx, 'list', self.op, self.me(cx).v, self.terms(cx))
            return [('an error only if the other, or the operation, has one', Or(raises('list', x.t), raises(self.opname(), self.me(cx).v, *self.terms(cx)))),
                                        ('the contents are as before', self.contents(cx) == self.me(cx).v), ('no change is registered', self.untouched(cx))]
        return Method.post_exc(self, cx)
for m in ('add', 'radd'): method(LISTM, '__%s__' % m, m, (OTHER,), base=AsList)

class Sort(Method):
    def setup(self, it):
        a, k = Method.setup(self, it)
        kw = [{}, {'key': it.ctx.fresh_const(Val, 'key')}, {'key': it.ctx.fresh_const(Val, 'key'), 'reverse': it.ctx.fresh_const(Val, 'reverse')}][it.ctx.choose([None] * 3, 'arguments')]
        it.the_kw = kw
        it.the_args = [kw[x] for x in sorted(kw)]
        return a, kw
    def opname(self): return self.op_now
    def post(self, cx): return self.with_kw(cx, Method.post)
    def post_exc(self, cx): return self.with_kw(cx, Method.post_exc)
    def with_kw(self, cx, f):
        self.op_now = 'list.sort' + ''.join(':' + x for x in sorted(cx.it.the_kw))
        return f(self, cx)
method(LISTM, 'sort', 'sort', base=Sort)

class Init(Method):
    """the contents of a new container are those of a builtin made of the argument"""
    def setup(self, it):
        a, k = Method.setup(self, it)
        if it.ctx.choose([None, None], 'argument') == 0:
            it.the_args = [self.arg(it, it.the_self, ('same', 'box', 'any'))]
        return [it.the_self] + it.the_args, k
    def post(self, cx):
        k, a = KINDS[self.cls_target], self.terms(cx)
        b = the_box(self.me(cx))
        ok = b is not None and b is not self.me(cx).box and b.pytype == k
        for t in a: assume_about(cx.ctx, k, 'init', t, a)
        return [('a %s of its own' % k, z3.BoolVal(bool(ok))), ('its contents', (b.c['v'] == (gives(k, a[0]) if a else z3.Const('empty ' + k, Val))) if ok else FALSE), ('a change is registered', self.noted(cx))]
    def post_exc(self, cx):
        k, a = KINDS[self.cls_target], self.terms(cx)
        return [('an error only where %s has one' % k, raises(k, a[0]) if a else FALSE)]
for c in (LISTM, SETM, DICTM): method(c, '__init__', 'init', base=Init)

# ------------------------------------------------------------------ PersistentSet
class Compare(Method):
    """only with another PersistentSet"""
    def post(self, cx):
        x = cx.it.the_args[0]
        if isinstance(x, Obj): return Method.post(self, cx)
        if self.op in ('eq', 'ne'): return [('not equal to anything else', to_bool(cx.result) == z3.BoolVal(self.op == 'ne')), ('no change is registered', self.untouched(cx))]
        return [('not comparable with anything else', FALSE)]
    def post_exc(self, cx):
        x = cx.it.the_args[0]
        if isinstance(x, Obj): return Method.post_exc(self, cx)
        return [('not comparable with anything else', z3.BoolVal(self.op not in ('eq', 'ne') and cx.it.exc_is(cx.exc, TypeError))), ('no change is registered', self.untouched(cx))]
for m in ('lt', 'le', 'eq', 'ne', 'gt', 'ge'): method(SETM, '__%s__' % m, m, (OTHER,), base=Compare)
for m in ('and', 'or', 'sub', 'xor'): method(SETM, '__%s__' % m, m, (OTHER,))
for m in ('rand', 'ror', 'rsub', 'rxor'): method(SETM, '__%s__' % m, m, (('box', 'any'),))
for m in ('iand', 'ior', 'isub', 'ixor'): method(SETM, '__%s__' % m, m, (OTHER,), result_kind='self')
method(SETM, '__contains__', 'in', ('item',))
method(SETM, '__len__', 'len')
for m in ('add', 'discard', 'remove'): method(SETM, m, m, ('item',))
for m in ('clear', 'pop', 'copy'): method(SETM, m, m)
for m in ('difference', 'issubset', 'issuperset', 'difference_update', 'symmetric_difference_update'): method(SETM, m, m, (OTHER,))
class Many(Method):
    """with any number of arguments (up to two here: they are handed on)"""
    def setup(self, it):
        n = it.ctx.choose([None] * 3, 'arguments')
        it.args_ = [OTHER, ('same', 'any')][:n]
        a, k = Method.setup(self, it)
        it.the_args = [self.arg(it, it.the_self, x) for x in it.args_]
        return a + it.the_args, k
for m in ('intersection', 'intersection_update', 'symmetric_difference', 'union', 'update'): method(SETM, m, m, base=Many)

# ------------------------------------------------------------------ PersistentDict
method(DICTM, '__len__', 'len')
for m in ('__contains__', 'has_key'): method(DICTM, m, 'in', ('item',))
class Getitem(Method):
    def setup(self, it):
        a, k = Method.setup(self, it)
        me = it.the_self
        if it.ctx.choose([None, None], '__missing__'):
            me.cls = ClassVal('Derived', [me.cls], {'__missing__': Builtin('__missing__', lambda it, a, k: gives('missing', a[1]))}, me.cls.module)
        return a, k
    def has(self, cx): return cx.it.the_self.cls.name == 'Derived'
    def post(self, cx):
        me, x = self.me(cx), self.terms(cx)[0]
        assume_about(cx.ctx, 'dict', 'getitem', me.v, [x])
        no = And(Not(raises('dict.in', me.v, x)), raises('dict.getitem', me.v, x)) if self.has(cx) else FALSE
        return [('the result of dict, or of __missing__', And(Or(no, Not(raises('dict.getitem', me.v, x))), cx.result == If(no, gives('missing', x), gives('dict.getitem', me.v, x)))),
                ('the contents of the dict', self.contents(cx) == me.v), ('no change is registered', self.untouched(cx))]
    def post_exc(self, cx):
        out = Method.post_exc(self, cx)
        return out + [('', raises('dict.in', self.me(cx).v, self.terms(cx)[0]))] if self.has(cx) else out
method(DICTM, '__getitem__', 'getitem', ('item',), base=Getitem)
method(DICTM, '__setitem__', 'setitem', ('item', 'item'))
method(DICTM, '__delitem__', 'delitem', ('item',))
for m in ('keys', 'items', 'values'): method(DICTM, m, m, result_kind='list')
method(DICTM, 'clear', 'clear')
method(DICTM, 'get', 'get', ('item', 'item'))
method(DICTM, 'setdefault', 'setdefault', ('item', 'item'))
method(DICTM, 'popitem', 'popitem')

class DictEq(Method):
    """only to another PersistentDict"""
    def post(self, cx):
        x = cx.it.the_args[0]
        me = self.me(cx)
        if not isinstance(x, Obj): return [('not equal to anything else', to_bool(cx.result) == z3.BoolVal(self.op == 'ne')), ('no change is registered', self.untouched(cx))]
        t = self.terms(cx)[0]
        assume_about(cx.ctx, 'dict', 'eq', me.v, [t])
        same = to_bool(cx.result) == (holds('dict.eq', me.v, t) == z3.BoolVal(self.op == 'eq'))
        return [('equal if the contents are', same), ('the contents of the dict', self.contents(cx) == me.v), ('no change is registered', self.untouched(cx))]
    def post_exc(self, cx):
        x = cx.it.the_args[0]
        return [('only where the contents cannot be compared', raises('dict.eq', self.me(cx).v, self.terms(cx)[0]) if isinstance(x, Obj) else FALSE), ('no change is registered', self.untouched(cx))]
for m in ('eq', 'ne'): method(DICTM, '__%s__' % m, m, (OTHER,), base=DictEq)

class Pop(Method):
    def setup(self, it):
        it.args_ = ['item'] * (1 + it.ctx.choose([None, None], 'default'))
        a, k = Method.setup(self, it)
        it.the_args = [self.arg(it, it.the_self, x) for x in it.args_]
        return a + it.the_args, k
method(DICTM, 'pop', 'pop', base=Pop)

# iteration gives the elements, in their order
class Iter(Method):
    """a generator over the contents, which registers no change"""
    what = 'elements'
    def view(self, cx):
        t = boxed_as[KINDS[self.cls_target]](self.me(cx).v)
        if self.elements is not None: return num('length of items', t), self.elements(t)
        return num('length of elements', t), seqs('elements', t)
    elements = None
    def on_yield(self, cx, y):
        n, a = self.view(cx)
        i = to_int(cx.yields.c['n'])
        return [('one for each element', i < n), ('the element', y == a[i])]
    def post(self, cx):
        n, a = self.view(cx)
        r = cx.result
        out = [('no change is registered', self.untouched(cx)), ('the contents stay', self.contents(cx) == self.me(cx).v)]
        if isinstance(r, ListIter): return out + [('an iterator over the elements', And(to_int(r.l.c['n']) == n, r.l.c['a0'] == a))]
        return out + [('all elements', to_int(cx.yields.c['n']) == n)]
    def post_exc(self, cx): return [('no error', FALSE)]
class IterLoop(object):
    def __call__(self, L):
        cx, me = L.it.cx, L.it.current_contract
        return [('', And(to_int(cx.yields.c['n']) == L.loop_i(0), me.untouched(cx), me.contents(cx) == me.me(cx).v))]
method(SETM, '__iter__', 'iter', base=Iter, loops={0: IterLoop()})
method(DICTM, '__iter__', 'iter', base=Iter)
method(DICTM, 'iterkeys', 'iter', base=Iter, loops={0: IterLoop()}, elements=staticmethod(key_at))
method(DICTM, 'itervalues', 'iter', base=Iter, loops={0: IterLoop()}, elements=staticmethod(val_at))

# update: what dict.update does with an object that has keys, and with pairs: it sets them one by one
part = z3.Function('contents after some items', Val, Val, I, Val)

class Update(Method):
    states = (0, 1)
    cost = 15
    def setup(self, it):
        it.how = it.ctx.choose([None] * 7, 'argument')
        a, k = Method.setup(self, it)
        it.the_args = [[], ['self'], ['same'], ['box'], ['mapping'], ['any'], ['any', 'any']][it.how]
        it.the_args = [self.arg(it, it.the_self, x) for x in it.the_args]
        it.kw_ = {'x': it.ctx.fresh_const(Val, 'x')} if it.how < 5 and it.ctx.choose([None, None], 'keywords') else {}
        return a + it.the_args, it.kw_
    def steps(self, cx):
        """-> the number of the items that are set one by one, their keys and values; when reading one raises"""
        t = cx.it.the_args[0].t
        j, v = z3.Int('j'), self.me(cx).v
        if cx.it.how == 4:
            n, k = num('length of keys', t), seqs('keys', t)
            x, bad = (lambda j: gives('item', t, k[j])), (lambda j: raises('item', t, k[j]))
        else:
            n, k = num('length of pairs', t), key_at(t)
            x, bad = (lambda j: val_at(t)[j]), (lambda j: FALSE)
        return n, k, x, bad
    def define(self, it, me, t, n, k, x):
        j = z3.Int('j')
        it.ctx.assume(part(me.v, t, 0) == me.v)
        it.ctx.assume(ForAll([j], Implies(j >= 0, part(me.v, t, j + 1) == leaves('dict.setitem', part(me.v, t, j), k[j], x(j))), patterns=[k[j]]))
    def pre(self, cx):
        if cx.it.how in (4, 5): self.define(cx.it, self.me(cx), cx.it.the_args[0].t, *self.steps(cx)[:3])
        return []
    def after(self, cx):
        """the contents after the argument"""
        it, v = cx.it, self.me(cx).v
        if it.how in (1, 2, 3): return leaves('dict.update', v, self.terms(cx)[0])
        if it.how in (4, 5): return part(v, it.the_args[0].t, self.steps(cx)[0])
        return v
    def post(self, cx):
        v = self.after(cx)
        for n in sorted(cx.it.kw_): v = leaves('dict.setitem', v, z3.Const('string ' + n, Val), cx.it.kw_[n])
        return [('one argument only', z3.BoolVal(cx.it.how != 6)), ('the contents that dict.update leaves', self.contents(cx) == v), ('a change is registered', Or(self.noted(cx), self.contents(cx) == self.me(cx).v)), ('', z3.BoolVal(cx.result is None))]
    def post_exc(self, cx):
        it, v, u = cx.it, self.me(cx).v, self.contents(cx)
        j = z3.Int('j')
        out = [('a change is registered', Or(self.noted(cx), u == v))]
        if it.how == 6: return out + [('more than one argument', And(u == v, z3.BoolVal(it.exc_is(cx.exc, TypeError))))]
        why = []
        if it.how in (1, 2, 3): why.append(And(raises('dict.update', v, self.terms(cx)[0]), u == leaves('dict.update', v, self.terms(cx)[0])))
        if it.how in (4, 5):
            n, k, x, bad = self.steps(cx)
            t = it.the_args[0].t
            why.append(z3.Exists([j], And(0 <= j, j < n, u == part(v, t, j), Or(bad(j), raises('dict.setitem', part(v, t, j), k[j], x(j)))), patterns=[k[j]]))
        w = self.after(cx)
        for m in sorted(it.kw_):
            s = z3.Const('string ' + m, Val)
            why.append(And(u == w, raises('dict.setitem', w, s, it.kw_[m])))
            w = leaves('dict.setitem', w, s, it.kw_[m])
        return out + [('an error, and contents, of dict.update', Or(*why) if why else FALSE)]
class UpdateLoop(object):
    def __call__(self, L):
        cx, me = L.it.cx, L.it.current_contract
        n, k, x, bad = me.steps(cx)
        i = L.loop_i(0) if cx.it.how == 4 else L.loop_i(1)
        return [('the items so far', And(0 <= i, i <= n, me.contents(cx) == part(me.me(cx).v, cx.it.the_args[0].t, i))), ('', me.noted(cx)), ('', Implies(i < n, k[i] == k[i]))]
method(DICTM, 'update', 'update', base=Update, loops={0: UpdateLoop(), 1: UpdateLoop()})
