"""
pyvc: a deductive verifier for the Python of /repo/durus.

The functions are read from the current source (ast) on every run and executed symbolically,
statement by statement, over z3 terms.  A function under contract is verified against its
precondition, postcondition, the assertions of the code itself, and the invariants given for
its loops; a call of another function under contract is checked against that contract only;
functions without a contract are executed in place (so a helper extracted from a verified
function needs no contract).

The executor follows one path at a time: a decision (a branch on a symbolic condition, an
outcome of a call, the iteration or the exit of a loop) is recorded, and the path is executed
again from the start for the other alternatives.  A loop is cut at its head: the invariant is
proved on entry, everything that an iteration can change is replaced by arbitrary values, the
invariant is assumed, and either one arbitrary iteration is executed and the invariant proved
again, or the execution continues after the loop.  What an iteration can change is found by
executing it until no further location changes, so no modifies clauses are needed for loops.
"""
import ast
import os
import time
import z3
from pyvc import prelude as P
from pyvc.prelude import Bytes, I, B, blen, sub, wr, rep, be8, de8, be4, de4, be1, de1, empty

And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If

Val = z3.DeclareSort('Val')        # values about which nothing is known but equality


# ---------------------------------------------------------------- control

class PathEnd(Exception):
    pass

class Restart(Exception):
    pass

class Unsupported(Exception):
    """The code uses something that the verifier does not model."""

class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v

class BreakEx(Exception):
    pass

class ContinueEx(Exception):
    pass

class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc
    def __str__(self):
        return 'PyRaise(%s)' % self.exc


# ---------------------------------------------------------------- kinds

class Kind(object):
    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__
    def __ne__(self, o):
        return not self == o
    def __hash__(self):
        return hash(repr(self))
    def __repr__(self):
        return '%s%s' % (type(self).__name__, list(self.__dict__.values()) or '')

class KInt(Kind):
    sorts = property(lambda s: [I])
    def unpack(self, ctx, t): return t[0]
    def pack(self, v): return [to_int(v)]

class KBool(Kind):
    sorts = property(lambda s: [B])
    def unpack(self, ctx, t): return t[0]
    def pack(self, v): return [to_bool(v)]

class KBytes(Kind):
    sorts = property(lambda s: [Bytes])
    def unpack(self, ctx, t): return t[0]
    def pack(self, v): return [to_bytes(v)]

class KVal(Kind):
    sorts = property(lambda s: [Val])
    def unpack(self, ctx, t): return t[0]
    def pack(self, v):
        if is_z(v) and v.sort() == Val:
            return [v]
        if isinstance(v, (Opaque, HeapObj)) or v is None or isinstance(v, (str, tuple)):
            raise Unsupported('a %r as a Val' % (v,))
        raise Unsupported('a %r as a Val' % (v,))

class KOpaque(Kind):
    sorts = property(lambda s: [])
    def unpack(self, ctx, t): return Opaque('havoc')
    def pack(self, v): return []

class KNone(Kind):
    sorts = property(lambda s: [])
    def unpack(self, ctx, t): return None
    def pack(self, v):
        if v is not None:
            raise Unsupported('%r is not None' % (v,))
        return []

class KConst(Kind):
    def __init__(self, v): self.v = v
    sorts = property(lambda s: [])
    def unpack(self, ctx, t): return self.v
    def pack(self, v): return []

class KOpt(Kind):
    """None or a value of the inner kind."""
    def __init__(self, k): self.k = k
    sorts = property(lambda s: [B] + s.k.sorts)
    def unpack(self, ctx, t):
        if ctx.branch(t[0], 'optional'):
            return self.k.unpack(ctx, t[1:])
        return None
    def pack(self, v):
        if v is None:
            return [z3.BoolVal(False)] + [default_of(s) for s in self.k.sorts]
        return [z3.BoolVal(True)] + self.k.pack(v)

class KTuple(Kind):
    def __init__(self, *ks): self.ks = list(ks)
    sorts = property(lambda s: [x for k in s.ks for x in k.sorts])
    def unpack(self, ctx, t):
        out, i = [], 0
        for k in self.ks:
            n = len(k.sorts)
            out.append(k.unpack(ctx, t[i:i + n]))
            i += n
        return tuple(out)
    def pack(self, v):
        if not isinstance(v, tuple) or len(v) != len(self.ks):
            raise Unsupported('tuple of %d expected' % len(self.ks))
        return [x for k, y in zip(self.ks, v) for x in k.pack(y)]

class KRef(Kind):
    """A member of a family of objects."""
    def __init__(self, fam): self.fam = fam
    sorts = property(lambda s: [I])
    def unpack(self, ctx, t): return FamRef(ctx.fams[self.fam], t[0])
    def pack(self, v):
        if not isinstance(v, FamRef):
            raise Unsupported('reference expected, got %r' % (v,))
        return [v.t]

class KSetOf(Kind):
    """A set with elements of kind kk, as a field of the members of a family."""
    def __init__(self, kk): self.kk = kk
    sorts = property(lambda s: [z3.ArraySort(s.kk.sorts[0], B)])
    def unpack(self, ctx, t):
        raise Unsupported('a set that is not a field of an object')
    def pack(self, v):
        if isinstance(v, FamSetV):
            return [v.c['dom']]
        if isinstance(v, SetV):
            d = v.dom(self.kk.sorts[0])
            v.move()
            return [d]
        raise Unsupported('set expected, got %r' % (v,))

class SockId(object):
    """The identity of a socket."""
    def __init__(self, t): self.t = t

class KListOf(Kind):
    """A list, as a value in a dict."""
    def __init__(self, ek): self.ek = ek
    sorts = property(lambda s: [I] + [z3.ArraySort(I, x) for x in s.ek.sorts])
    def unpack(self, ctx, t):
        raise Unsupported('a list that is not in a dict')
    def pack(self, v):
        if isinstance(v, ListV):
            if v.concrete():
                l = ListV(v.ctx, 'list', items=v.c['items'])
                l.symbolize(self.ek)
            else:
                l = v
            if l.ek.sorts != self.ek.sorts: raise Unsupported('a list of %r' % l.ek)
            ts = [to_int(l.c['n'])] + l.arrs()
            v.move()
            return ts
        raise Unsupported('list expected, got %r' % (v,))

class Ident(object):
    """A value that is known by its identity only; its kind knows what it does."""
    def __init__(self, kind, t): self.kind, self.t = kind, t
    def __repr__(self): return '<%s %s>' % (type(self.kind).__name__, self.t)

class KIdent(Kind):
    """kind of Idents; subclasses give attr(it, o, name), call(it, o, args, kw)"""
    sorts = property(lambda s: [I])
    def unpack(self, ctx, t): return Ident(self, t[0])
    def pack(self, v):
        if isinstance(v, Ident) and v.kind == self: return [v.t]
        raise Unsupported('%r expected, got %r' % (self, v))
    def attr(self, it, o, name): raise Unsupported('%s of %r' % (name, o))
    def call(self, it, o, args, kw): raise Unsupported('call of %r' % o)
    def __hash__(self): return hash(type(self))

class KChoice(Kind):
    """One of these values."""
    def __init__(self, *values): self.values = values
    sorts = property(lambda s: [I])
    def __eq__(self, o): return type(o) is KChoice and len(o.values) == len(self.values) and all(a is b for a, b in zip(o.values, self.values))
    def __hash__(self): return hash(len(self.values))
    def index(self, v):
        for i, x in enumerate(self.values):
            if x is v: return i
        raise Unsupported('%r is none of %r' % (v, self.values))
    def unpack(self, ctx, t):
        ctx.assume(And(t[0] >= 0, t[0] < len(self.values)))
        return self.values[ctx.choose([t[0] == i for i in range(len(self.values))], 'value')]
    def pack(self, v): return [z3.IntVal(self.index(v))]

class TextV(object):
    """A string that is not known; t: a term of the sort of the byte strings (its encoding)."""
    def __init__(self, t): self.t = t
    def __repr__(self): return 'text %s' % self.t

class KText(Kind):
    sorts = property(lambda s: [Bytes])
    def unpack(self, ctx, t): return TextV(t[0])
    def pack(self, v):
        if isinstance(v, TextV): return [v.t]
        if isinstance(v, str): return [to_bytes(v.encode('utf-8'))]
        raise Unsupported('string expected, got %r' % (v,))
TEXT = KText()

class KSock(Kind):
    sorts = property(lambda s: [I])
    def unpack(self, ctx, t): return SockId(t[0])
    def pack(self, v):
        if isinstance(v, SockId): return [v.t]
        if hasattr(v, 'sid'): return [v.sid]
        raise Unsupported('socket expected, got %r' % (v,))

class KExc(Kind):
    """An exception of one of these classes."""
    def __init__(self, *classes): self.classes = list(classes)       # 'module:name', or Python classes
    sorts = property(lambda s: [])
    def unpack(self, ctx, t):
        c = self.classes[ctx.choose([None] * len(self.classes), 'exception')]
        return ExcInst(ctx.it.resolve(c) if isinstance(c, str) else c)
    def pack(self, v): return []

class KBad(Kind):
    """A value that cannot be made arbitrary; it may not be used."""
    sorts = property(lambda s: [])
    def unpack(self, ctx, t): return Unusable()
    def pack(self, v): return []

INT, BOOL, BYTES, VAL, OPAQUE, NONE, BAD = KInt(), KBool(), KBytes(), KVal(), KOpaque(), KNone(), KBad()
_defaults = {}
SORT_KINDS = {}            # kinds of sorts that a contract module declares

def default_of(s):
    if s == I: return z3.IntVal(0)
    if s == B: return z3.BoolVal(False)
    if s == Bytes: return empty
    if s.name() not in _defaults:
        _defaults[s.name()] = z3.Const('default_' + s.name(), s)
    return _defaults[s.name()]

def kind_of(v):
    if v is None: return NONE
    if isinstance(v, bool): return BOOL
    if isinstance(v, int): return INT
    if isinstance(v, bytes): return BYTES
    if is_z(v):
        s = v.sort()
        if s == I: return INT
        if s == B: return BOOL
        if s == Bytes: return BYTES
        if s == Val: return VAL
        if s.name() in SORT_KINDS: return SORT_KINDS[s.name()]
        raise Unsupported('kind of %s' % s)
    if isinstance(v, FamRef): return KRef(v.fam.name)
    if isinstance(v, Ident): return v.kind
    if isinstance(v, TextV): return TEXT
    if isinstance(v, SockId) or hasattr(v, 'sid'): return KSock()
    if isinstance(v, tuple): return KTuple(*[kind_of(x) for x in v])
    if isinstance(v, (Opaque, str, float)): return OPAQUE
    if isinstance(v, ExcInst): return KExc('%s:%s' % (v.cls.module.name, v.cls.name) if isinstance(v.cls, ClassVal) else v.cls)
    return BAD

def join_kind(a, b):
    if a == b: return a
    if a == TEXT and b == OPAQUE or a == OPAQUE and b == TEXT: return TEXT
    if isinstance(a, KConst) or isinstance(b, KConst): return BAD
    if a is None: return b
    if b is None: return a
    if a == NONE: return b if isinstance(b, KOpt) else (KOpt(b) if b != BAD else BAD)
    if b == NONE: return join_kind(b, a)
    if isinstance(a, KOpt) and isinstance(b, KOpt): return KOpt(join_kind(a.k, b.k))
    if isinstance(a, KOpt):
        j = join_kind(a.k, b); return KOpt(j) if j != BAD else BAD
    if isinstance(b, KOpt): return join_kind(b, a)
    if isinstance(a, KExc) and isinstance(b, KExc): return KExc(*sorted(set(a.classes) | set(b.classes), key=str))
    if isinstance(a, KTuple) and isinstance(b, KTuple) and len(a.ks) == len(b.ks):
        ks = [join_kind(x, y) for x, y in zip(a.ks, b.ks)]
        return BAD if BAD in ks else KTuple(*ks)
    return BAD


# ---------------------------------------------------------------- values

def is_z(v):
    return isinstance(v, z3.ExprRef)

def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (is_z(v) and v.sort() == I)

def is_boolv(v):
    return isinstance(v, bool) or (is_z(v) and v.sort() == B)

def is_bytes(v):
    return isinstance(v, bytes) or (is_z(v) and v.sort() == Bytes)

def to_int(v):
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if is_z(v) and v.sort() == I: return v
    if is_z(v) and v.sort() == B: return If(v, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('int expected, got %r' % (v,))

def to_bool(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if is_z(v) and v.sort() == B: return v
    raise Unsupported('bool expected, got %r' % (v,))

_lits = {}

def to_bytes(v):
    if isinstance(v, bytes):
        if v == b'': return empty
        if len(set(v)) == 1: return rep(v[0], len(v)) if len(v) != 1 else be1(z3.IntVal(v[0]))
        if v not in _lits:
            _lits[v] = z3.Const('lit_' + v.hex(), Bytes)
        return _lits[v]
    if is_z(v) and v.sort() == Bytes: return v
    raise Unsupported('bytes expected, got %r' % (v,))

def lit_axioms():
    return [blen(t) == len(v) for v, t in _lits.items()] + (
        [z3.Distinct(*_lits.values())] if len(_lits) > 1 else [])

def zlen(v):
    if isinstance(v, bytes): return len(v)
    return blen(v)

def simp(t):
    """Fold constants; give Python ints and bools back."""
    if not is_z(t): return t
    t = z3.simplify(t)
    if z3.is_int_value(t): return t.as_long()
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return t


class Opaque(object):
    """A value of which nothing is known (a message, a time, ...)."""
    def __init__(self, what=''): self.what = what
    def __repr__(self): return 'Opaque(%s)' % self.what

class Unusable(object):
    pass

class Unbound(object):
    pass
UNBOUND = Unbound()

class StrRep(object):
    """text repeated a symbolic number of times, after a prefix"""
    def __init__(self, pre, text, n): self.pre, self.text, self.n = pre, text, n

class HeapObj(object):
    """Anything with mutable cells."""
    def __init__(self, ctx, name):
        self.ctx = ctx
        self.c = {}
        ctx.register(self, name)
    def cell_kind(self, name):
        return kind_of(self.c[name])
    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, self.name)

class Frame(HeapObj):
    def __init__(self, ctx, name, func, parent, module):
        HeapObj.__init__(self, ctx, name)
        self.func, self.parent, self.module = func, parent, module
        self.globals_, self.nonlocals = set(), set()

class Obj(HeapObj):
    def __init__(self, ctx, cls, name, **fields):
        HeapObj.__init__(self, ctx, name)
        self.cls = cls
        self.c.update(fields)

class Native(HeapObj):
    """An object of a modelled (not interpreted) class; see natives.py"""

class ListV(HeapObj):
    """items: concrete list, or n, a0, a1, ... (arrays of the components of kind ek)"""
    def __init__(self, ctx, name, items=None, n=None, arrs=None, ek=None):
        HeapObj.__init__(self, ctx, name)
        self.ek = ek
        if items is not None:
            self.c['items'] = tuple(items)
        else:
            self.c['n'] = n
            for j, a in enumerate(arrs):
                self.c['a%d' % j] = a
    def concrete(self):
        return 'items' in self.c
    def length(self):
        return len(self.c['items']) if self.concrete() else self.c['n']
    def arrs(self):
        return [self.c['a%d' % j] for j in range(len(self.ek.sorts))]
    def at(self, i):
        """component terms at index i (symbolic lists)"""
        return [a[i] for a in self.arrs()]
    def setsym(self, n, arrs):
        self.c = {'n': n}
        for j, a in enumerate(arrs):
            self.c['a%d' % j] = a
    def symbolize(self, ek=None):
        if not self.concrete():
            return
        items = self.c['items']
        for x in items:
            ek = join_kind(ek, kind_of(x)) if ek is not None else kind_of(x)
        if ek is None:
            raise Unsupported('kind of the elements of an empty list')
        if ek == BAD:
            raise Unsupported('elements of a list that becomes symbolic')
        arrs = [z3.K(I, default_of(s)) for s in ek.sorts]
        for i, x in enumerate(items):
            arrs = [z3.Store(a, i, t) for a, t in zip(arrs, ek.pack(x))]
        self.ek = ek
        self.setsym(z3.IntVal(len(items)), arrs)

    def move(self):
        """the list belongs to a dict now; its old name is not used any more"""
        self.c = MovedList()

class MovedList(dict):
    def __getitem__(self, k): raise Unsupported('a list by two names')
    def __contains__(self, k): raise Unsupported('a list by two names')

class SlotList(ListV):
    """the list under a key of a dict: a view of it"""
    def __init__(self, ctx, d, t):
        self.__dict__.update(ctx=ctx, d=d, t=t, ek=d.vk.ek, name='%s[...]' % d.name)
    def __setattr__(self, n, v):
        if n == 'ek': return
        if n == 'c': raise Unsupported('replacing the contents of %s' % self.name)
        self.__dict__[n] = v
    @property
    def c(self):
        ts = [x[self.t] for x in self.d.vals()]
        r = {'n': ts[0]}
        for j, a in enumerate(ts[1:]): r['a%d' % j] = a
        return r
    def setsym(self, n, arrs):
        for j, x in enumerate([to_int(n)] + list(arrs)):
            self.d.c['v%d' % j] = z3.Store(self.d.c['v%d' % j], self.t, x)
    def move(self): raise Unsupported('a list by two names')

class DictV(HeapObj):
    """dom: Array K Bool, v0, v1 ...: components of the values.  kk, vk may be None while empty."""
    is_set = False
    def __init__(self, ctx, name, kk=None, vk=None, dom=None, vals=None):
        HeapObj.__init__(self, ctx, name)
        self.kk, self.vk = kk, vk
        self.c['dom'] = dom
        if vals is not None:
            for j, a in enumerate(vals):
                self.c['v%d' % j] = a
        self.c['size'] = None
    def ks(self):
        return self.kk.sorts[0]
    def settle(self, kk, vk):
        if self.kk is None or self.c['dom'] is None:
            if len(kk.sorts) != 1:
                raise Unsupported('dict keys of kind %r' % kk)
            self.kk = kk
            self.c['dom'] = z3.K(kk.sorts[0], z3.BoolVal(False))
        if not self.is_set and self.vk is None and vk is not None:
            if vk == BAD:
                raise Unsupported('dict values')
            self.vk = vk
            for j, s in enumerate(vk.sorts):
                self.c['v%d' % j] = z3.K(self.ks(), default_of(s))
    def vals(self):
        return [self.c['v%d' % j] for j in range(len(self.vk.sorts))]
    def has(self, k):
        if self.c['dom'] is None:
            return z3.BoolVal(False)
        return self.c['dom'][self.kk.pack(k)[0]]
    def dom(self, ks=None):
        if self.c['dom'] is None:
            return z3.K(ks, z3.BoolVal(False))
        return self.c['dom']

class SetV(DictV):
    is_set = True
    def __init__(self, ctx, name, kk=None, dom=None):
        DictV.__init__(self, ctx, name, kk, None, dom, None)

class Moved(dict):
    """The cells of a set that has become a field of a family member: it must
    not be used under another name."""
    def __missing__(self, k): raise Unsupported('two names for one set')

def _move(self):
    self.c = Moved()
SetV.move = _move

class ViewCells(object):
    def __init__(self, fam, f, t): self.fam, self.k, self.t = fam, f + '.0', t
    def __getitem__(self, n):
        if n == 'size': return None
        return simp_arr(self.fam.c[self.k][self.t])
    def __setitem__(self, n, v):
        if n == 'dom':
            self.fam.c[self.k] = z3.Store(self.fam.c[self.k], self.t, v)
    def __contains__(self, n): return n in ('dom', 'size')

def simp_arr(t): return t

class FamSetV(SetV):
    """The set in a field of a member of a family."""
    def __init__(self, fam, f, t, kk):
        self.__dict__.update(ctx=fam.ctx, fam=fam, kk=kk, vk=None, name='%s.%s' % (fam.name, f), f=f, t=t)
        self.__dict__['_c'] = ViewCells(fam, f, t)
    def __setattr__(self, n, v):
        if n == 'c':
            self._c['dom'] = v['dom']
        else:
            self.__dict__[n] = v
    c = property(lambda self: self._c)
    def move(self): raise Unsupported('two names for one set')
    def settle(self, kk, vk): pass

class Fam(HeapObj):
    """A family of objects of one class, of unknown number: each field is an array."""
    def __init__(self, ctx, name, cls, kinds):
        HeapObj.__init__(self, ctx, name)
        self.name, self.cls, self.kinds = name, cls, kinds
        ctx.fams[name] = self
        for f, k in kinds.items():
            for j, s in enumerate(k.sorts):
                self.c['%s.%d' % (f, j)] = ctx.fresh_const(z3.ArraySort(I, s), '%s_%s' % (name, f))
    def terms(self, f, t):
        return [self.c['%s.%d' % (f, j)][t] for j in range(len(self.kinds[f].sorts))]
    def store(self, f, t, v):
        for j, x in enumerate(self.kinds[f].pack(v)):
            k = '%s.%d' % (f, j)
            self.c[k] = z3.Store(self.c[k], t, x)

class FamRef(object):
    def __init__(self, fam, t): self.fam, self.t = fam, t
    def __repr__(self): return '<%s %s>' % (self.fam.name, self.t)

class ModuleVal(object):
    def __init__(self, name):
        self.name, self.env = name, {}

class ClassVal(object):
    def __init__(self, name, bases, env, module):
        self.name, self.bases, self.env, self.module = name, bases, env, module
    def mro(self):
        # C3 for the simple hierarchies here: depth first, keep the last occurrence
        out = []
        def go(c):
            out.append(c)
            if isinstance(c, ClassVal):
                for b in c.bases:
                    go(b)
        go(self)
        res = []
        for c in reversed(out):
            if c not in res:
                res.insert(0, c)
        return res
    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassVal):
                if name in c.env:
                    return c.env[name], c
            elif isinstance(c, NativeClass):
                if name in c.attrs:
                    return c.attrs[name], c
        return None, None
    def __repr__(self): return '<class %s>' % self.name

class NativeClass(object):
    """A class of the standard library that repo classes inherit from or instantiate."""
    def __init__(self, name, make=None, attrs=None):
        self.name, self.make, self.attrs = name, make, attrs or {}
    def __repr__(self): return '<native class %s>' % self.name

class FuncVal(object):
    def __init__(self, node, frame, module, qual, cls=None):
        self.node, self.frame, self.module, self.qual, self.cls = node, frame, module, qual, cls
        self.defaults = {}
        self.is_gen = is_generator(node)
    def __repr__(self): return '<function %s>' % self.qual

class Bound(object):
    def __init__(self, f, obj): self.f, self.obj = f, obj

class Builtin(object):
    def __init__(self, name, f): self.name, self.f = name, f
    def __repr__(self): return '<builtin %s>' % self.name

class StaticM(object):
    def __init__(self, f): self.f = f

class ClassM(object):
    def __init__(self, f): self.f = f

class PropM(object):
    def __init__(self, f): self.f = f

class ExcInst(object):
    """An exception.  cls: a Python exception class, or a ClassVal."""
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args
        self.fields = {}
    def __repr__(self):
        return '%s(%s)' % (getattr(self.cls, 'name', getattr(self.cls, '__name__', self.cls)),
                           ', '.join(map(str, self.args)))

class GenObj(object):
    """A running generator: a Python generator over the interpreter."""
    def __init__(self, it, name='gen'): self.it, self.name, self.done = it, name, False
    def next(self):
        return next(self.it)

class SymIter(object):
    """Iteration over something of symbolic size; see Interp.iterate"""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

def is_generator(node):
    class V(ast.NodeVisitor):
        found = False
        def visit_FunctionDef(self, n):
            if n is node: self.generic_visit(n)
        def visit_Lambda(self, n): pass
        def visit_GeneratorExp(self, n): pass
        def visit_Yield(self, n): self.found = True
        def visit_YieldFrom(self, n): self.found = True
    v = V(); v.visit(node)
    return v.found


# ---------------------------------------------------------------- path context

class Snapshot(object):
    def __init__(self, ctx):
        self.cells = dict((o, dict(o.c)) for o in ctx.heap)
    def c(self, obj):
        return self.cells[obj]
    def __call__(self, obj):
        """a read-only view of obj as it was"""
        v = object.__new__(type(obj))
        v.__dict__.update(obj.__dict__)
        v.c = dict(self.cells[obj])
        return v


class Session(object):
    """The verification of one function: all of its paths."""
    def __init__(self, name, timeout=15000, feas=150):
        self.name = name
        self.timeout, self.feas = timeout, feas
        self.obligations = []     # dicts
        self.mods = {}            # loop key -> {(object name, cell): kind}
        self.paths = 0
        self.completed = 0
        self.pruned = 0
        self.max_paths = 20000
        self.deadline = None
        self.proved_cache = {}
        self.solver_s = 0.0
        self.base = P.axioms()
        self.cover = set()
        self.reached = set()
        self.loops_seen = {}
        self.called_contracts = set()
        self.inlined = set()
        self._off = set()

    def cover_off(self):
        return self._off

    def explore(self, run):
        stack = [[]]
        while stack:
            prefix = stack.pop()
            ctx = Ctx(self, prefix)
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported('too many paths')
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit')
            try:
                run(ctx)
                self.completed += 1
            except PathEnd:
                pass
            except Restart as r:
                at = r.args[0]
                stack = [p for p in stack if p[:len(at)] != at]
                self.obligations = [o for o in self.obligations if o['prefix'][:len(at)] != at]
                # the alternatives of the choices before the loop are still to be explored
                stack.extend(p for p in ctx.pending if p[:len(at)] != at)
                stack.append(list(at))
                continue
            stack.extend(ctx.pending)

    def failed(self):
        return [o for o in self.obligations if o['status'] != 'proved']


def split_goal(ctx, g):
    """[alternatives]: g follows if, for each of them, one of the alternatives holds"""
    if z3.is_quantifier(g) and g.is_forall():
        vs = [ctx.fresh_const(g.var_sort(i), 'sk') for i in range(g.num_vars())]
        return split_goal(ctx, z3.substitute_vars(g.body(), *reversed(vs)))
    if z3.is_and(g): return [p for x in g.children() for p in split_goal(ctx, x)]
    if z3.is_implies(g): return split_goal(ctx, z3.Or(z3.Not(g.arg(0)), g.arg(1)))
    if z3.is_or(g):
        cs = g.children()
        for i, c in enumerate(cs):
            if z3.is_and(c) or z3.is_quantifier(c) or z3.is_implies(c):
                return [cs[:i] + cs[i + 1:] + p for p in split_goal(ctx, c)]
        return [cs]
    if z3.is_not(g) and z3.is_or(g.arg(0)): return [p for x in g.arg(0).children() for p in split_goal(ctx, simp_b(z3.Not(x)))]
    return [[g]]

def simp_b(f): return z3.simplify(f)

def conjuncts(f): return [g for x in f.children() for g in conjuncts(x)] if z3.is_and(f) else [f]

def ground(f, seen=None):
    if z3.is_quantifier(f): return False
    if seen is None: seen = set()
    if f.get_id() in seen: return True
    seen.add(f.get_id())
    return all(ground(x, seen) for x in f.children())


class By(object):
    """a formula that follows from some of the facts of the path (and from the path, if it does not)"""
    def __init__(self, goal, *hyps):
        self.goal, self.hyps = goal, list(hyps)


class Ctx(object):
    def __init__(self, session, prefix):
        self.s = session
        self.prefix = list(prefix)
        self.taken = []
        self.pending = []
        self.heap = []
        self.names = {}
        self.prefix_name = ''     # (of what is made while a module is loaded)
        self.byname = {}
        self.fams = {}
        self.n_fresh = 0
        self.solver = z3.Solver()
        self.solver.set('auto_config', False)
        self.solver.set('smt.mbqi', False)
        self.solver.set('timeout', session.feas)
        self.nlits = 0
        for a in session.base:
            self.solver.add(a)
        self.facts = []
        self.where = []           # call stack, for messages
        self.n_ob = 0
        self.ghost = {}
        self.active_loops = []

    # heap ------------------------------------------------------------
    def register(self, obj, name):
        name = self.prefix_name + name
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        obj.name = name if n == 0 else '%s#%d' % (name, n)
        self.byname[obj.name] = obj
        self.heap.append(obj)

    def snapshot(self):
        return Snapshot(self)

    # terms -------------------------------------------------------------
    def fresh_const(self, sort, hint='x'):
        self.n_fresh += 1
        return z3.Const('%s!%d' % (hint, self.n_fresh), sort)

    def fresh_terms(self, kind, hint='x'):
        return [self.fresh_const(s, hint) for s in kind.sorts]

    def fresh(self, kind, hint='x'):
        return kind.unpack(self, self.fresh_terms(kind, hint))

    def int(self, hint='i', lo=None, hi=None):
        v = self.fresh_const(I, hint)
        if lo is not None: self.assume(v >= lo)
        if hi is not None: self.assume(v < hi)
        return v

    def bytes(self, hint='b', n=None):
        v = self.fresh_const(Bytes, hint)
        if n is not None: self.assume(blen(v) == n)
        return v

    # logic -------------------------------------------------------------
    def _lits(self):
        if len(_lits) != self.nlits:
            for a in lit_axioms():
                self.solver.add(a)
            self.nlits = len(_lits)

    def assume(self, f):
        if f is True: return
        if f is False: raise PathEnd()
        if isinstance(f, (list, tuple)):
            for x in f: self.assume(x[1] if isinstance(x, tuple) else x)
            return
        self.facts.append(f)
        self.solver.add(f)

    def check(self, f, timeout=None):
        """is f consistent with the path?"""
        self._lits()
        t0 = time.time()
        self.solver.set('timeout', timeout or self.s.feas)
        r = self.solver.check(f)
        self.s.solver_s += time.time() - t0
        return r

    def entails(self, f, timeout=None):
        f = simp(f)
        if f is True: return True
        if f is False: return False
        return self.check(Not(f), timeout) == z3.unsat

    def prove(self, f, label, line=None):
        self.n_ob += 1
        key = (tuple(self.taken), self.n_ob)
        by = []
        if isinstance(f, By): f, by = f.goal, f.hyps
        f = simp(f)
        if key in self.s.proved_cache:
            self.assume(f)
            return
        status, model, t0 = 'proved', None, time.time()
        if f is False and self.check(z3.BoolVal(True), self.s.timeout) == z3.unsat:
            pass
        elif f is not True:
            self._lits()
            g = z3.BoolVal(False) if f is False else f
            parts = split_goal(self, g) if self.s.timeout > 4000 else []
            if by and self.alone(g, by): r = ('unsat', None)
            else: r = self.solve(Not(g)) if len(parts) < 2 else self.solve(Not(g), 4000)
            if r[0] == 'unknown' and len(parts) > 1:
                # part by part
                neg = [And(*[Not(x) for x in p]) for p in parts]
                if all(self.solve(x, 4000)[0] == 'unsat' or self.solve(x)[0] == 'unsat' for x in neg):
                    r = ('unsat', None)
                else:
                    r = self.solve(Not(g))
            if r[0] != 'unsat':
                status = 'failed' if r[0] == 'sat' or r[0] == 'unknown' else r[0]
                status, model = {'sat': 'refuted', 'unknown': 'not proved'}.get(r[0], r[0]), r[1]
        self.s.obligations.append(dict(label=label, status=status, prefix=list(self.taken),
            where=list(self.where), model=model, t=time.time() - t0, line=line,
            formula=None if status == 'proved' else str(f)[:1500]))
        self.s.proved_cache[key] = True
        if status != 'proved' and f is False:
            raise PathEnd()
        self.assume(f)

    def holds(self, h):
        g = simp(h)
        if g is True or g is False: return g
        fs = [f for f in self.facts if z3.is_expr(f)]
        return any(h.eq(f) or g.eq(f) for f in fs) or any(g.eq(z3.simplify(f)) for f in fs) or self.solve(Not(h), 4000)[0] == 'unsat'

    def alone(self, g, hyps):
        """do the hypotheses, which hold on this path, give g without the rest of the path?"""
        t0 = time.time()
        facts = list(hyps)
        def unsat(fs):
            s = z3.Solver()
            s.set('timeout', 10000)
            s.set('auto_config', False); s.set('smt.mbqi', False)
            s.add(facts); s.add(fs)
            return s.check() == z3.unsat
        parts = [[Not(x) for x in p] for p in split_goal(self, g)]
        parts = [p for p in parts if not unsat(p)]
        if parts:
            facts += list(self.s.base) + list(lit_axioms())
            facts += [g for f in self.facts if z3.is_expr(f) for g in conjuncts(f) if ground(g)]
            parts = [p for p in parts if not unsat(p)]
        r = not parts
        r = r and all(self.holds(h) for h in hyps)
        self.s.solver_s += time.time() - t0
        return r

    def solve(self, f, short=None):
        t0 = time.time()
        self.solver.set('timeout', short or self.s.timeout)
        self.solver.push()
        self.solver.add(f)
        r = self.solver.check()
        model = None
        if r != z3.unsat:
            reason = self.solver.reason_unknown() if r == z3.unknown else ''
            try:
                m = self.solver.model()
                model = '; '.join('%s=%s' % (d.name(), str(m[d])[:80]) for d in m.decls()
                                  if d.arity() == 0)[:3000]
            except z3.Z3Exception:
                pass
        self.solver.pop()
        if r == z3.unknown and not short:
            # once more from scratch, with another configuration
            for seed in (7, 23, 5):
                s = z3.Solver()
                s.set('timeout', self.s.timeout)
                s.set('auto_config', False); s.set('smt.mbqi', False)
                s.set('random_seed', seed); s.set('smt.arith.solver', 2 if seed == 7 else 6)
                if seed == 5: s.set('smt.qi.eager_threshold', 100.0); s.set('smt.qi.lazy_threshold', 1000.0)
                s.add(self.s.base); s.add(lit_axioms()); s.add(self.facts); s.add(f)
                r = s.check()
                if r == z3.unsat:
                    break
        self.s.solver_s += time.time() - t0
        if r == z3.unsat: return 'unsat', None
        if r == z3.sat: return 'sat', model
        return 'unknown', '%s: %s' % (reason, model)

    # decisions ---------------------------------------------------------
    def choose(self, alts, what=''):
        """alts: list of formulas (or None).  Take one; the others are explored later."""
        i = len(self.taken)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            ok = []
            for k, f in enumerate(alts):
                f = simp(f) if f is not None else None
                if f is False: continue
                if f is None or f is True or self.check(f) != z3.unsat:
                    ok.append(k)
            if not ok:
                self.s.pruned += 1
                raise PathEnd()
            k = ok[0]
            for other in reversed(ok[1:]):
                self.pending.append(self.taken + [other])
        self.taken = self.taken + [k]
        if alts[k] is not None:
            self.assume(alts[k])
        return k

    def branch(self, cond, what=''):
        cond = simp(cond)
        if cond is True or cond is False:
            return cond
        return self.choose([cond, Not(cond)], what) == 0
