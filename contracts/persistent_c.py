"""
Contracts of persistent.py (C12): the pure Python base classes, of one object with any attributes.

An object has the four _p_ fields, slots (of one of several classes: with a __dict__, with slots, with
both, with inherited slots) and a __dict__ of any strings and values.  Attribute names are arbitrary
strings.  The connection is what connection_c shows: load_state gives a ghost its state, or raises an
exception and leaves it a ghost; note_access and note_change do not change the object.
"""
from pyvc.engine import *
from pyvc.natives import *
from pyvc.interp import Contract
from pyvc.runner import contract

PM = 'durus.persistent:'
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
ForAll = z3.ForAll
AB, AV = z3.ArraySort(Bytes, B), z3.ArraySort(Bytes, Val)
PFIELDS = ('_p_status', '_p_serial', '_p_connection', '_p_oid')
SAFE = ('__repr__', '__class__', '__setstate__')
GHOST, SAVED, UNSAVED = -1, 0, 1
of_class = z3.Function('is an attribute of the class', Bytes, B)
class_value = z3.Function('the attribute of the class', Bytes, Val)

def T_(name): return TEXT.pack(name)[0]
def private(name):
    """name[:3] == '_p_'"""
    return sub(T_(name), z3.IntVal(0), If(blen(T_(name)) < 3, blen(T_(name)), z3.IntVal(3))) == T_('_p_')
def safe(name): return Or(*[T_(name) == T_(n) for n in SAFE])

class Missing(AttributeError):
    """there is no attribute of this name"""
    name = 'AttributeError'

class AttrObj(Obj):
    """an object whose attributes are not known"""
    def __init__(self, it, cls, name, slots, has_dict):
        Obj.__init__(self, it.ctx, cls, name)
        self.slots, self.has_dict = tuple(slots), has_dict
    def settle(self, it, name):
        """one of the names of the class, or a name for the __dict__"""
        if isinstance(name, TextV) and not getattr(name, 'settled', False):
            it.ctx._lits()
            for n in PFIELDS + self.slots + ('__class__',):
                f = T_(name) == T_(n)
                if it.ctx.branch(f): return n
        return name
    def raw_get(self, it, name):
        name = self.settle(it, name)
        if isinstance(name, str):
            if name in PFIELDS + self.slots:
                if name not in self.c: raise PyRaise(ExcInst(Missing))
                return self.c[name]
            if name == '__dict__' and self.has_dict: return self.c['dict']
            if name == '__class__': return self.c.get('__class__', self.cls)
            if name == '__weakref__': return None
            v, c = self.cls.lookup(name)
            if c is not None:
                if isinstance(v, (FuncVal, Builtin)): return Bound(v, self)
                raise Unsupported('class attribute')
            if name == '__dict__': raise PyRaise(ExcInst(Missing))
            raise Unsupported('attribute %s' % name)
        if self.has_dict and it.ctx.branch(self.c['dict'].c['dom'][T_(name)]): return self.c['dict'].c['v0'][T_(name)]
        if it.ctx.branch(of_class(T_(name))): return class_value(T_(name))
        raise PyRaise(ExcInst(Missing))
    def raw_set(self, it, name, v):
        name = self.settle(it, name)
        if isinstance(name, str):
            if name in PFIELDS + self.slots + ('__class__',):
                self.c[name] = v
                return
            raise Unsupported('attribute %s' % name)
        if not self.has_dict: raise PyRaise(ExcInst(Missing))
        d = self.c['dict']
        d.c['dom'], d.c['v0'] = z3.Store(d.c['dom'], T_(name), TRUE), z3.Store(d.c['v0'], T_(name), v)
    def raw_del(self, it, name):
        name = self.settle(it, name)
        if isinstance(name, str):
            if name in self.slots:
                if name not in self.c: raise PyRaise(ExcInst(Missing))
                del self.c[name]
                return
            raise Unsupported('del %s' % name)
        if self.has_dict and it.ctx.branch(self.c['dict'].c['dom'][T_(name)]):
            d = self.c['dict']
            d.c['dom'] = z3.Store(d.c['dom'], T_(name), FALSE)
            return
        raise PyRaise(ExcInst(Missing))
    # all attributes but the _p_ fields: which there are, and their values
    def view(self, c=None):
        c = self.c if c is None else c
        dom, val = (self.dict_cells(c)) if self.has_dict else (z3.K(Bytes, FALSE), self.none)
        for s in self.slots:
            dom = z3.Store(dom, T_(s), z3.BoolVal(s in c))
            if s in c: val = z3.Store(val, T_(s), c[s])
        return dom, val
    def dict_cells(self, c): return self.dicts(c['dict'])
    def fill(self, it, dom, val):
        """the attributes are these"""
        ctx = it.ctx
        for s in self.slots:
            self.c.pop(s, None)
            if ctx.branch(dom[T_(s)]): self.c[s] = val[T_(s)]
        if self.has_dict:
            d, v = dom, val
            for s in self.slots: d = z3.Store(d, T_(s), FALSE)
            self.c['dict'].c.update(dom=d, v0=v)

class Conn(Native):
    def __init__(self, it, dom, val):
        HeapObj.__init__(self, it.ctx, 'connection')
        self.c.update(noted=z3.IntVal(0), used=FALSE, serial=it.ctx.int('transaction_serial', lo=1), loads=z3.IntVal(0))
        self.dom, self.val = dom, val
    def truth(self, it): return True
    def attr(self, it, name):
        if name == 'transaction_serial': return self.c['serial']
        f = getattr(self, 'm_' + name, None)
        if f is None: raise Unsupported('connection.' + name)
        return Builtin(name, lambda it, a, k: f(it, *a))
    def m_load_state(self, it, o):
        it.ctx.prove(z3.BoolVal(o.c['_p_status'] == GHOST), 'only a ghost is loaded', getattr(it, 'line', None))
        self.c['loads'] = self.c['loads'] + 1
        if it.ctx.choose([None, None], 'load_state') == 1: raise PyRaise(ExcInst(LoadError))
        o.fill(it, self.dom, self.val)
        o.c['_p_status'] = SAVED
    def m_note_change(self, it, o):
        it.ctx.prove(z3.BoolVal(o is it.the_self), 'the object itself is registered', getattr(it, 'line', None))
        self.c['noted'] = self.c['noted'] + 1
    def m_note_access(self, it, o):
        it.ctx.prove(z3.BoolVal(o is it.the_self), 'the object itself is used', getattr(it, 'line', None))
        o.c['_p_serial'] = self.c['serial']
        self.c['used'] = TRUE
class LoadError(Exception):
    """load_state has failed"""

def good_names(dom, o):
    """attributes of an object: no names of the base class; without a __dict__ only slots"""
    x = z3.Const('x', Bytes)
    out = [ForAll([x], Implies(dom[x], And(Not(private(TextV(x))), Not(safe(TextV(x))))), patterns=[dom[x]])]
    if not o.has_dict: out.append(ForAll([x], Implies(dom[x], Or(*[x == T_(s) for s in o.slots])), patterns=[dom[x]]))
    return And(*out)

SHAPES = ('dict', 'both', 'inherited')
def make_object(it, base='PersistentObject', shapes=SHAPES, states=(0, 1, 2, 3)):
    ctx = it.ctx
    shape = shapes[ctx.choose([None] * len(shapes), 'class') if len(shapes) > 1 else 0]
    b = it.cls(PM + base)
    def cls(name, bases, slots=None):
        env = {} if slots is None else {'__slots__': ListV(ctx, 'slots', items=slots)}
        return ClassVal(name, bases, env, b.module)
    if shape == 'dict': c, slots = cls('D', [b]), ()
    if shape == 'slots': c, slots = cls('S', [b], ('a', 'b')), ('a', 'b')
    if shape == 'both': c, slots = cls('DS', [cls('S', [b], ('a', 'b'))]), ('a', 'b')
    if shape == 'inherited': c, slots = cls('SS', [cls('S', [b], ('a',))], ('b', '__weakref__')), ('a', 'b')
    if base == 'ComputedAttribute': c, slots, shape = b, ('value',), 'slots'
    o = AttrObj(it, c, 'object', slots, shape in ('dict', 'both'))
    o.none = ctx.fresh_const(AV, 'nothing')
    ctx._lits()
    for n in PFIELDS + SAFE + tuple(slots) + ('_p_',): T_(n)
    dom, val = ctx.fresh_const(AB, 'stored'), ctx.fresh_const(AV, 'stored values')
    ctx.assume(good_names(dom, o))
    conn = Conn(it, dom, val)
    dd = DictV(ctx, 'dict', TEXT, VAL, z3.K(Bytes, FALSE), [ctx.fresh_const(AV, 'values')])
    s = states[ctx.choose([None] * len(states), 'state') if len(states) > 1 else 0]
    o.c.update(_p_status=(GHOST, SAVED, UNSAVED, UNSAVED)[s], _p_serial=ctx.int('serial'), _p_connection=None if s == 3 else conn, _p_oid=None if s == 3 else ctx.bytes('oid', 8))
    if o.has_dict: o.c['dict'] = dd
    if s:
        d0, v0 = ctx.fresh_const(AB, 'attributes'), ctx.fresh_const(AV, 'values')
        ctx.assume(good_names(d0, o))
        o.fill(it, d0, v0)
    o.state0, o.conn, o.dd, o.shape = s, conn, dd, shape
    o.dicts = lambda d: (d.c['dom'], d.c['v0'])
    # the attributes that the object has once it is loaded
    o.loaded0 = (dom, val) if s == 0 else o.view()
    it.the_self = o
    return o

class ATT(Contract):
    props = ('C12',)
    base = 'PersistentObject'
    shapes = SHAPES
    states = (0, 1, 2, 3)
    hooks = True
    args = ()
    extra = True
    fields_too = True
    raises = (LoadError,)
    def setup(self, it):
        it.get_hooks = it.set_hooks = self.hooks
        o = make_object(it, self.base, self.shapes, self.states)
        return [o] + [self.arg(it, x) for x in self.args], {}
    def arg(self, it, x):
        if x == 'name':
            # a name: that of a field, a safe one, another internal one, that of a slot, or any other
            o, ctx = it.the_self, it.ctx
            names = [n for n in PFIELDS if self.fields_too] + ['__class__'] + list(o.slots)
            i = ctx.choose([None] * (len(names) + 2), 'name')
            if i < len(names):
                it.inner = names[i] not in o.slots
                return names[i]
            t = TextV(ctx.bytes('name'))
            ctx._lits()
            for n in ('__dict__', '__weakref__') + PFIELDS + o.slots + ('__class__',): ctx.assume(T_(t) != T_(n))
            it.inner = i == len(names)
            ctx.assume(Or(private(t), safe(t)) if it.inner else Not(Or(private(t), safe(t))))
            t.settled = True
            return t
        if x == 'value': return it.ctx.fresh_const(Val, 'value')
        raise ValueError(x)
    def modifies(self, cx):
        o = cx.it.the_self
        return [o, o.conn, o.dd]
    def same(self, a, b):
        """the same attributes with the same values"""
        x = z3.Const('x', Bytes)
        return ForAll([x], And(a[0][x] == b[0][x], Implies(a[0][x], a[1][x] == b[1][x])), patterns=[a[0][x], b[0][x]])
    # what can have happened to the status
    def status(self, cx, *s): return z3.BoolVal(cx.it.the_self.c['_p_status'] in s)
    def noted(self, cx, n): return cx.it.the_self.conn.c['noted'] == n
    def fields(self, cx, *but):
        o, c = cx.it.the_self, cx.old(cx.it.the_self).c
        return And(*[cx.it.truth_eq(o.c[n], c[n]) if False else z3.BoolVal(same_value(o.c[n], c[n])) for n in PFIELDS if n not in but])
    def nothing(self, cx):
        o = cx.it.the_self
        return [('nothing has happened to the object', And(self.fields(cx), self.noted(cx, 0), o.conn.c['loads'] == 0, Not(o.conn.c['used']))), ('', self.same_as_before(cx))]
    def same_as_before(self, cx):
        o = cx.it.the_self
        if o.state0 == 0: return self.empty(o)
        return self.same(o.view(), o.loaded0)
    def empty(self, o):
        x = z3.Const('x', Bytes)
        return ForAll([x], Not(o.view()[0][x]), patterns=[o.view()[0][x]])
    def have(self, cx): return self.same(cx.it.the_self.view(), cx.it.the_self.loaded0)
    def exactly_changed(self, cx):
        """registered with its connection, unless it was before, or never stored"""
        o = cx.it.the_self
        return And(self.status(cx, UNSAVED), self.noted(cx, 1 if o.state0 in (0, 1) else 0))
    def failed(self, cx):
        """loading failed: still a ghost, nothing is registered"""
        o = cx.it.the_self
        return [('only a ghost fails to load', z3.BoolVal(o.state0 == 0)), ('it is still a ghost', And(self.fields(cx), self.noted(cx, 0))), ('', self.empty(o))]

def isinstance_exc(cx, cls): return cx.exc.cls is cls
def same_value(a, b):
    return a is b or is_z(a) and is_z(b) and a.eq(b) or not is_z(a) and not is_z(b) and a == b

@contract
class getattribute(ATT):
    target = PM + 'PersistentBase.__getattribute__'
    args = ('name',)
    raises = (LoadError, AttributeError)
    def used(self, cx):
        o = cx.it.the_self
        if o.state0 == 3: return [('', And(Not(o.conn.c['used']), self.fields(cx)))]
        return [('it is used in this transaction', to_int(o.c['_p_serial']) == o.conn.c['serial'])]
    def done(self, cx):
        o = cx.it.the_self
        return [('the state is loaded, once', And(self.status(cx, (SAVED, SAVED, UNSAVED, UNSAVED)[o.state0]), o.conn.c['loads'] == (1 if o.state0 == 0 else 0))), ('', self.have(cx)),
                ('no change is registered', And(self.noted(cx, 0), self.fields(cx, '_p_status', '_p_serial')))] + self.used(cx)
    def post(self, cx):
        o, t, r = cx.it.the_self, T_(cx.name), cx.result
        inner = cx.it.inner
        if is_z(r) and r.sort() == Val:
            d, v = o.view()
            value = [('the value of the attribute', If(d[t], r == v[t], And(of_class(t), r == class_value(t))))]
        else: value = [('a field of the base class', z3.BoolVal(inner))]
        if inner: return value + self.nothing(cx)
        return value + self.done(cx)
    def post_exc(self, cx):
        o, t = cx.it.the_self, T_(cx.name)
        inner = cx.it.inner
        if isinstance_exc(cx, LoadError): return [('internal attributes do not load', z3.BoolVal(not inner))] + self.failed(cx)
        d, v = o.view()
        out = [('there is no such attribute', And(Not(d[t]), Or(Not(of_class(t)), *[t == T_(s) for s in o.slots])))]
        if inner: return out + self.nothing(cx)
        return out + self.done(cx)

@contract
class setattr_(ATT):
    target = PM + 'PersistentBase.__setattr__'
    args = ('name', 'value')
    raises = (LoadError, AttributeError)
    def post(self, cx):
        o, t = cx.it.the_self, T_(cx.name)
        d, v = o.loaded0
        if cx.it.inner:
            return [('internal attributes register nothing and load nothing', And(self.noted(cx, 0), o.conn.c['loads'] == 0, Not(o.conn.c['used'])))]
        return [('the attribute has the value, the others are kept', self.same(o.view(), (z3.Store(d, t, TRUE), z3.Store(v, t, cx.value)))), ('the change is registered', self.exactly_changed(cx))]
    def post_exc(self, cx):
        o = cx.it.the_self
        if isinstance_exc(cx, LoadError): return [('internal attributes do not load', z3.BoolVal(not cx.it.inner))] + self.failed(cx)
        out = [('only if the class has no place for it', z3.BoolVal(not o.has_dict)), ('', And(*[T_(cx.name) != T_(s) for s in o.slots + PFIELDS]))]
        if cx.it.inner: return out + self.nothing(cx)
        return out + [('the attributes are kept', self.have(cx))]

@contract
class delattr_(ATT):
    target = PM + 'PersistentObject.__delattr__'
    args = ('name',)
    raises = (LoadError, AttributeError)
    def pre(self, cx):
        return [('an attribute of the object', z3.BoolVal(not cx.it.inner))]
    def post(self, cx):
        o, t = cx.it.the_self, T_(cx.name)
        d, v = o.loaded0
        return [('there was one', d[t]), ('it is gone, the others are kept', self.same(o.view(), (z3.Store(d, t, FALSE), v))), ('the change is registered', self.exactly_changed(cx))]
    def post_exc(self, cx):
        if isinstance_exc(cx, LoadError): return self.failed(cx)
        return [('there is no such attribute', Not(cx.it.the_self.loaded0[0][T_(cx.name)])), ('the attributes are kept', self.have(cx))]

class PLAIN(ATT):
    """methods whose name begins with _p_: the hooks do not see their own name; what they use is"""
@contract
class p_load_state(ATT):
    target = PM + 'PersistentObject._p_load_state'
    asserts_raise = True
    states = (0,)
    def post(self, cx): return [('it has the current state', And(self.status(cx, SAVED), cx.it.the_self.conn.c['loads'] == 1)), ('', self.have(cx)), ('no change is registered', And(self.noted(cx, 0), self.fields(cx, '_p_status', '_p_serial')))]
    def post_exc(self, cx): return self.failed(cx)

@contract
class p_note_change(ATT):
    target = PM + 'PersistentObject._p_note_change'
    def post(self, cx): return [('the change is registered', self.exactly_changed(cx)), ('it has its state', self.have(cx)), ('', self.fields(cx, '_p_status', '_p_serial'))]
    def post_exc(self, cx): return self.failed(cx)

@contract
class p_set_status_ghost(ATT):
    target = PM + 'PersistentObject._p_set_status_ghost'
    raises = ()
    def post(self, cx): return [('a ghost', self.status(cx, GHOST)), ('with no attributes', self.empty(cx.it.the_self)), ('nothing is loaded or registered', And(self.noted(cx, 0), cx.it.the_self.conn.c['loads'] == 0, self.fields(cx, '_p_status')))]

@contract
class p_set_status_saved(ATT):
    target = PM + 'PersistentObject._p_set_status_saved'
    raises = ()
    def post(self, cx): return [('saved', self.status(cx, SAVED)), ('nothing else', And(self.fields(cx, '_p_status'), self.noted(cx, 0), cx.it.the_self.conn.c['loads'] == 0)), ('', self.same_as_before(cx))]

@contract
class p_set_status_unsaved(ATT):
    target = PM + 'PersistentObject._p_set_status_unsaved'
    def post(self, cx): return [('unsaved', And(self.status(cx, UNSAVED), self.fields(cx, '_p_status', '_p_serial'))), ('with its state', self.have(cx)), ('', self.noted(cx, 0))]
    def post_exc(self, cx): return self.failed(cx)

for n, s in (('ghost', GHOST), ('unsaved', UNSAVED), ('saved', SAVED)):
    def make(n, s):
        class is_status(ATT):
            target = PM + 'PersistentObject._p_is_' + n
            raises = ()
            def post(self, cx): return [('', to_bool(cx.result) == z3.BoolVal(cx.old(cx.it.the_self).c['_p_status'] == s))] + self.nothing(cx)
        is_status.__name__ = 'p_is_' + n
        contract(is_status)
    make(n, s)

@contract
class new_(ATT):
    target = PM + 'PersistentBase.__new__'
    raises = ()
    shapes, states = ('dict',), (3,)
    def setup(self, it):
        ATT.setup(self, it)
        return [it.the_self.cls], {}
    def post(self, cx):
        r = cx.result
        return [('a new object, never stored', z3.BoolVal(isinstance(r, Obj) and r.cls is cx.it.the_self.cls and [r.c.get(n, 'none') for n in PFIELDS] == [UNSAVED, 0, None, None]))]

@contract
class getstate_(ATT):
    target = PM + 'PersistentObject.__getstate__'
    def post(self, cx):
        r, o = cx.result, cx.it.the_self
        if not isinstance(r, DictV): return [('a dict', FALSE)]
        st = (z3.K(Bytes, FALSE), o.none) if r.c['dom'] is None else (r.c['dom'], r.c['v0'])
        return [('the attributes', self.same(st, o.loaded0)), ('of its own', z3.BoolVal(r is not o.dd)), ('the object has its state', self.have(cx)), ('no change is registered', And(self.noted(cx, 0), self.fields(cx, '_p_status', '_p_serial')))]
    def post_exc(self, cx): return self.failed(cx)

@contract
class setstate_(ATT):
    target = PM + 'PersistentObject.__setstate__'
    raises = ()
    def setup(self, it):
        a, k = ATT.setup(self, it)
        o = it.the_self
        it.how = it.ctx.choose([None] * 3, 'state')
        it.st = (z3.K(Bytes, FALSE), o.none) if it.how < 2 else (it.ctx.fresh_const(AB, 'new attributes'), it.ctx.fresh_const(AV, 'new values'))
        it.ctx.assume(good_names(it.st[0], o))
        st = [None, DictV(it.ctx, 'empty'), DictV(it.ctx, 'state', TEXT, VAL, it.st[0], [it.st[1]])][it.how]
        return a + [st], k
    def post(self, cx):
        return [('exactly the attributes of the state', self.same(cx.it.the_self.view(), cx.it.st)), ('nothing is loaded or registered', And(self.fields(cx), self.noted(cx, 0), cx.it.the_self.conn.c['loads'] == 0))]
    class L0(object):
        """(the slots whose names have been seen are set)"""
        def __call__(self, L):
            it = L.it
            o, seen = it.the_self, L.g.c['seen'] if 'seen' in L.g.c else z3.K(Bytes, FALSE)
            x = z3.Const('x', Bytes)
            d, v = o.view()
            f = And(d[x] == seen[x], Implies(seen[x], And(it.st[0][x], v[x] == it.st[1][x])))
            return [('', ForAll([x], f, patterns=[d[x], seen[x]])), ('', it.current_contract.fields(it.cx))]
    loops = {1: L0()}

# ---------------------------------------------------------------- Persistent

class PER(ATT):
    base = 'Persistent'
    shapes = ('dict',)

@contract
class persistent_getstate(PER):
    target = PM + 'Persistent.__getstate__'
    def post(self, cx):
        o = cx.it.the_self
        return [('the __dict__', z3.BoolVal(cx.result is o.dd)), ('loaded', And(self.have(cx), self.status(cx, (SAVED, SAVED, UNSAVED, UNSAVED)[o.state0]))), ('no change is registered', And(self.noted(cx, 0), self.fields(cx, '_p_status', '_p_serial')))]
    def post_exc(self, cx): return self.failed(cx)

@contract
class persistent_setstate(PER):
    target = PM + 'Persistent.__setstate__'
    raises = ()
    def setup(self, it):
        a, k = ATT.setup(self, it)
        o = it.the_self
        how = it.ctx.choose([None] * 2, 'state')
        it.st = (z3.K(Bytes, FALSE), o.none) if how < 1 else (it.ctx.fresh_const(AB, 'new attributes'), it.ctx.fresh_const(AV, 'new values'))
        it.ctx.assume(good_names(it.st[0], o))
        return a + [DictV(it.ctx, 'empty') if how < 1 else DictV(it.ctx, 'state', TEXT, VAL, it.st[0], [it.st[1]])], k
    def post(self, cx):
        return [('exactly the attributes of the state', self.same(cx.it.the_self.view(), cx.it.st)), ('nothing is loaded or registered', And(self.fields(cx), self.noted(cx, 0), cx.it.the_self.conn.c['loads'] == 0))]

# ---------------------------------------------------------------- ComputedAttribute

class ComputeError(Exception):
    """compute() has failed"""

class COMP(ATT):
    base = 'ComputedAttribute'
    shapes = ('slots',)
    def without_state(self, cx): return ('nothing is loaded from the storage', cx.it.the_self.conn.c['loads'] == 0)

@contract
class computed_getstate(COMP):
    target = PM + 'ComputedAttribute.__getstate__'
    raises = ()
    def post(self, cx): return [('no state', z3.BoolVal(cx.result is None))] + self.nothing(cx)

@contract
class computed_load(COMP):
    target = PM + 'ComputedAttribute._p_load_state'
    raises = ()
    states = (0,)
    def post(self, cx): return [('usable, without a value', And(self.status(cx, SAVED), self.empty(cx.it.the_self), self.fields(cx, '_p_status'))), ('no change', self.noted(cx, 0)), self.without_state(cx)]

@contract
class computed_invalidate(COMP):
    target = PM + 'ComputedAttribute.invalidate'
    raises = ()
    def post(self, cx):
        return [('the value is forgotten', self.empty(cx.it.the_self)), ('every other connection will hear of it', self.exactly_changed(cx)), self.without_state(cx), ('', self.fields(cx, '_p_status', '_p_serial'))]

@contract
class computed_get(COMP):
    target = PM + 'ComputedAttribute.get'
    raises = (ComputeError,)
    states = (1, 2, 3)
    def setup(self, it):
        a, k = ATT.setup(self, it)
        it.calls, it.computed = 0, it.ctx.fresh_const(Val, 'computed')
        def compute(it, a, k):
            it.calls += 1
            if it.ctx.choose([None, None], 'compute') == 1: raise PyRaise(ExcInst(ComputeError))
            return it.computed
        return a + [Builtin('compute', compute)], k
    def had(self, cx): return 'value' in cx.old(cx.it.the_self).c
    def post(self, cx):
        o, c = cx.it.the_self, cx.old(cx.it.the_self).c
        v = c['value'] if self.had(cx) else cx.it.computed
        return [('the value, computed once', And(cx.result == v, z3.BoolVal(cx.it.calls == (not self.had(cx)) * 1))), ('it is kept', z3.BoolVal(o.c.get('value') is not None) if o.c.get('value') is None else o.c['value'] == v),
                ('no change is registered', And(self.noted(cx, 0), self.fields(cx, '_p_serial'))), self.without_state(cx)]
    def post_exc(self, cx): return [('only if it is not known', z3.BoolVal(not self.had(cx) and 'value' not in cx.it.the_self.c)), ('', And(self.noted(cx, 0), self.fields(cx, '_p_serial')))]
