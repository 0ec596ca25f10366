"""
The parts of Python and of its library that the verified code uses, as pyvc models them.
Everything here is part of the trusted base; self_test.py runs these models against CPython.
"""
import ast
from pyvc.engine import *
from pyvc import engine as E
from pyvc.prelude import Bytes, I, B, blen, sub, wr, rep, be8, de8, be4, de4, be1, de1, empty

PY = {}                        # marker objects for builtin types


def T(name):
    if name not in PY:
        PY[name] = NativeClass(name)
    return PY[name]


# uninterpreted library functions
zcompress = z3.Function('zlib_compress', Bytes, Bytes)
zdecompress = z3.Function('zlib_decompress', Bytes, Bytes)
zok = z3.Function('zlib_valid', Bytes, B)
catl = z3.Function('catl', z3.ArraySort(I, Bytes), I, Bytes)     # the first n strings, concatenated
_arr = z3.Const('arr', z3.ArraySort(I, Bytes))
_n, _i, _j = z3.Ints('n i j')
_x, _y = z3.Consts('x y', Bytes)

LIB_AXIOMS = [
    z3.ForAll([_x], And(zok(zcompress(_x)), zdecompress(zcompress(_x)) == _x, blen(zcompress(_x)) >= 1,
                        de1(sub(zcompress(_x), 0, 1)) == 0x78), patterns=[zcompress(_x)]),
    z3.ForAll([_arr], catl(_arr, 0) == empty, patterns=[catl(_arr, 0)]),
    z3.ForAll([_arr, _n, _x, _j], Implies(And(_n >= 0, _j == _n + 1),
              catl(z3.Store(_arr, _n, _x), _j) == wr(catl(_arr, _n), blen(catl(_arr, _n)), _x)),
              patterns=[catl(z3.Store(_arr, _n, _x), _j)]),
]


class KwDict(HeapObj):
    def __init__(self, ctx, d):
        HeapObj.__init__(self, ctx, 'kwargs')
        self.d = d

class SliceV(object):
    def __init__(self, lo, hi): self.start, self.stop, self.step = lo, hi, None


# ---------------------------------------------------------------- iteration

class Iteration(object):
    """A collection of symbolic size to iterate over."""
    def start(self, it): return {'i': z3.IntVal(0)}
    def more(self, it, g): raise NotImplementedError
    def element(self, it, g): raise NotImplementedError
    def advance(self, it, g): g.c['i'] = simp(to_int(g.c['i']) + 1)
    def at_exit(self, it, g): pass
    def always(self, it, g):
        """what holds whenever the next element is asked for (true by the definition of the iteration)"""
        return True

class ListIter(Iteration):
    def __init__(self, l):
        self.l = l
        self.n0 = to_int(l.length())
    def always(self, it, g):
        n = to_int(self.l.length())           # of a list that the loop does not change
        return And(to_int(g.c['i']) >= 0, Or(n < 0, to_int(g.c['i']) <= n)) if same_term(n, self.n0) else True
    def more(self, it, g): return to_int(g.c['i']) < to_int(self.l.length())
    def element(self, it, g):
        i = to_int(g.c['i'])
        it.ctx.assume(i >= 0)
        return self.l.ek.unpack(it.ctx, self.l.at(i))

def same_term(a, b): return a is b or a.eq(b)

class RangeIter(Iteration):
    def always(self, it, g):
        i = to_int(g.c['i'])
        return And(i >= 0, Or(i == 0, self.lo + i <= self.hi)) if self.step == 1 else True
    def __init__(self, lo, hi, step=1): self.lo, self.hi, self.step = to_int(lo), to_int(hi), step
    def more(self, it, g):
        v = self.lo + to_int(g.c['i']) * self.step
        return v < self.hi if self.step > 0 else v > self.hi
    def element(self, it, g):
        it.ctx.assume(to_int(g.c['i']) >= 0)
        return simp(self.lo + to_int(g.c['i']) * self.step)

class BytesIter(Iteration):
    def __init__(self, b): self.b = to_bytes(b)
    def more(self, it, g): return to_int(g.c['i']) < blen(self.b)
    def element(self, it, g):
        it.ctx.assume(to_int(g.c['i']) >= 0)
        return de1(sub(self.b, to_int(g.c['i']), z3.IntVal(1)))

class EnumIter(Iteration):
    def __init__(self, inner, first=0): self.inner, self.first = inner, first
    def start(self, it):
        g = self.inner.start(it)
        g['e'] = z3.IntVal(0) + self.first
        return g
    def more(self, it, g): return self.inner.more(it, g)
    def always(self, it, g):
        a = self.inner.always(it, g)
        if is_int(self.first) and 'i' in g.c: a = And(to_bool(a), to_int(g.c['e']) == to_int(g.c['i']) + to_int(self.first))
        return a
    def element(self, it, g):
        it.ctx.assume(to_int(g.c['e']) >= 0)
        return (g.c['e'], self.inner.element(it, g))
    def advance(self, it, g):
        self.inner.advance(it, g)
        g.c['e'] = simp(to_int(g.c['e']) + 1)
    def at_exit(self, it, g): self.inner.at_exit(it, g)

class DictIter(Iteration):
    """Some order of the keys that are there at the start; the dict must not change meanwhile."""
    def __init__(self, d, what='keys'):
        self.d, self.what = d, what
        self.dom0 = d.c['dom']
    def start(self, it):
        if self.dom0 is None:
            return {'i': z3.IntVal(0)}
        return {'i': z3.IntVal(0), 'seen': z3.K(self.d.ks(), z3.BoolVal(False))}
    def more(self, it, g):
        if self.dom0 is None: return False
        self.w = it.ctx.fresh_const(self.d.ks(), 'key')
        x = z3.Const('x', self.d.ks())
        self.all = z3.ForAll([x], Implies(self.dom0[x], g.c['seen'][x]), patterns=[self.dom0[x], g.c['seen'][x]])
        b = it.ctx.fresh_const(B, 'more')
        it.ctx.assume(Implies(b, And(self.dom0[self.w], Not(g.c['seen'][self.w]))))
        it.ctx.assume(Implies(Not(b), self.all))
        return b
    def element(self, it, g):
        k = self.d.kk.unpack(it.ctx, [self.w])
        if self.what == 'keys': return k
        v = self.d.vk.unpack(it.ctx, [a[self.w] for a in self.d.vals()])
        return (k, v) if self.what == 'items' else v
    def advance(self, it, g):
        if self.d.c['dom'] is not self.dom0 and not self.d.c['dom'].eq(self.dom0):
            it.ctx.prove(self.d.c['dom'] == self.dom0, 'the dict is not changed while it is iterated over')
        g.c['i'] = simp(to_int(g.c['i']) + 1)
        g.c['seen'] = z3.Store(g.c['seen'], self.w, z3.BoolVal(True))

class ReverseIter(Iteration):
    def __init__(self, l):
        self.l = l
        self.n0 = to_int(l.length())
    def more(self, it, g): return to_int(g.c['i']) < self.n0
    def always(self, it, g): return And(to_int(g.c['i']) >= 0, Or(self.n0 < 0, to_int(g.c['i']) <= self.n0))
    def element(self, it, g):
        i = self.n0 - 1 - to_int(g.c['i'])
        it.ctx.assume(to_int(g.c['i']) >= 0)
        return self.l.ek.unpack(it.ctx, self.l.at(i))


# ---------------------------------------------------------------- bytes

def clip(it, i, n, default):
    """a slice bound, as Python clips it"""
    ctx = it.ctx
    if i is None: return to_int(default)
    i = to_int(i)
    if ctx.branch(i < 0):
        i = simp(i + n)
        return to_int(i) if ctx.branch(to_int(i) >= 0) else z3.IntVal(0)
    return i if ctx.branch(i <= n) else n

def bytes_slice(it, b, s):
    if isinstance(b, bytes) and all(x is None or isinstance(x, int) for x in (s.start, s.stop)):
        return b[s.start:s.stop]
    t = to_bytes(b)
    n = blen(t)
    lo = clip(it, s.start, n, z3.IntVal(0))
    hi = clip(it, s.stop, n, n)
    if it.ctx.branch(lo >= hi):
        return b''
    return sub(t, lo, simp(hi - lo) if not isinstance(simp(hi - lo), int) else z3.IntVal(simp(hi - lo)))

def bytes_item(it, b, i):
    if isinstance(b, bytes) and isinstance(i, int):
        try: return b[i]
        except IndexError: it.raise_(IndexError)
    t, i = to_bytes(b), to_int(i)
    if it.ctx.branch(i < 0): i = simp(i + blen(t))
    if not it.ctx.branch(And(to_int(i) >= 0, to_int(i) < blen(t))):
        it.raise_(IndexError)
    return de1(sub(t, to_int(i), z3.IntVal(1)))

def join(it, sep, seq):
    if isinstance(sep, str):
        return Opaque('str')
    if sep != b'':
        raise Unsupported('join with a separator')
    g = None
    if isinstance(seq, DictV):
        if seq.c['dom'] is None: return b''
        g = DictIter(seq)
    elif isinstance(seq, DictIter): g = seq
    dom = None
    if g is not None:
        seq = dict_list(it, g)
        if g.what == 'keys': dom = g.d.c['dom']
    if isinstance(seq, ListV) and not seq.concrete():
        if seq.ek != BYTES: raise Unsupported('join of %r' % seq.ek)
        r = catl(seq.arrs()[0], to_int(seq.length()))
        it.ctx.ghost.setdefault('joins', []).append((r, to_int(seq.length()), dom if dom is not None else list_dom(it, seq)[1], seq.arrs()[0]))
        return r
    g = it.get_iter(seq)
    if isinstance(g, list):
        items = g
    elif isinstance(g, GenObj):
        acc = Obj(it.ctx, None, 'joined')       # (on the heap: the generator may have a loop of symbolic length)
        acc.c['v'] = b''
        while True:
            try: x = g.next()
            except StopIteration: return acc.c['v']
            if not is_bytes(x): it.raise_(TypeError)
            out = acc.c['v']
            acc.c['v'] = out + x if isinstance(out, bytes) and isinstance(x, bytes) else it.cat(out, x)
    else:
        raise Unsupported('join over a symbolic collection')
    out = b''
    for x in items:
        if not is_bytes(x):
            it.raise_(TypeError)
        out = it.cat(out, x) if not (isinstance(out, bytes) and isinstance(x, bytes)) else out + x
        if isinstance(out, z3.ExprRef):
            pass
    return out

def startswith(it, b, p):
    if isinstance(b, bytes) and isinstance(p, bytes): return b.startswith(p)
    t, q = to_bytes(b), to_bytes(p)
    return simp(And(blen(q) <= blen(t), sub(t, z3.IntVal(0), blen(q)) == q))

nbytes8 = z3.Function('nbytes8', I, I)      # bytes needed for a number below 2**64
def NB_DEF(v):
    v = to_int(v)
    r = z3.IntVal(8)
    for k in range(7, -1, -1):
        r = If(v < 256 ** k, z3.IntVal(k), r)
    return r

def lstrip(it, b, chars):
    """only for int8_to_str(n).lstrip(b'\\0')"""
    if isinstance(b, bytes): return b.lstrip(chars)
    if chars == b'\0' and it.ctx.entails(blen(b) == 8, 2000):
        k = it.ctx.int('nbytes')
        it.ctx.assume(k == NB_DEF(de8(b)))
        return sub(b, 8 - k, k)
    raise Unsupported('lstrip')

nparts = z3.Function('nparts', Bytes, Bytes, I)
part = z3.Function('part', Bytes, Bytes, I, I, Bytes)
def split(it, b, sep=None, most=None):
    if sep is None or not isinstance(most, int): return Opaque('split')
    sep, n = to_bytes(sep), nparts(b, to_bytes(sep))
    it.ctx.assume(n >= 1)
    k = it.ctx.choose([n == i for i in range(1, most + 1)] + [n > most], 'split')
    return ListV(it.ctx, 'split', items=[part(b, sep, n_int(most), n_int(i)) for i in range(k + 1)])

def n_int(i): return z3.IntVal(i)

def bytes_method(it, b, name):
    def m(f): return Builtin('bytes.' + name, f)
    if name == 'join': return m(lambda it, a, k: join(it, b, a[0]))
    if name == 'startswith': return m(lambda it, a, k: startswith(it, b, a[0]))
    if name == 'lstrip': return m(lambda it, a, k: lstrip(it, b, a[0]))
    if name == 'decode': return m(lambda it, a, k: Opaque('str'))
    if name == 'split': return m(lambda it, a, k: split(it, to_bytes(b), *a))
    if name == 'strip': return m(lambda it, a, k: Opaque('strip'))
    if name == '__class__': return T('bytes')
    if name in ('read', 'write', 'seek', 'encode', 'recv'): it.raise_(AttributeError)
    raise Unsupported('bytes.' + name)


# ---------------------------------------------------------------- lists

def list_method(it, l, name):
    def m(f): return Builtin('list.' + name, f)
    if name == 'append': return m(lambda it, a, k: list_append(it, l, a[0]))
    if name == 'extend': return m(lambda it, a, k: list_extend(it, l, a[0]))
    if name == 'pop': return m(lambda it, a, k: list_pop(it, l, *a))
    if name == 'insert': return m(lambda it, a, k: list_insert(it, l, a[0], a[1]))
    if name == 'sort': return m(lambda it, a, k: list_sort(it, l))
    if name == 'reverse': return m(lambda it, a, k: list_reverse(it, l))
    if name == 'remove': return m(lambda it, a, k: list_remove(it, l, a[0]))
    if name == 'clear': return m(lambda it, a, k: list_clear(it, l))
    if name == '__len__': return m(lambda it, a, k: l.length())
    if name == '__class__': return T('list')
    raise Unsupported('list.' + name)

def list_clear(it, l):
    if l.concrete(): l.c = {'items': ()}
    else: l.setsym(z3.IntVal(0), l.arrs())

def widen(l, j):
    """make l a list of what some kinds j of options can hold; whether that is done"""
    def conv(a, b, arrs):
        if a == b: return arrs
        if isinstance(b, KOpt) and a == NONE: return [z3.K(I, z3.BoolVal(False))] + [z3.K(I, default_of(s)) for s in b.k.sorts]
        if isinstance(b, KOpt) and a == b.k: return [z3.K(I, z3.BoolVal(True))] + arrs
        if isinstance(a, KTuple) and isinstance(b, KTuple) and len(a.ks) == len(b.ks):
            out = []
            for x, y in zip(a.ks, b.ks):
                r = conv(x, y, arrs[:len(x.sorts)])
                if r is None: return None
                out, arrs = out + r, arrs[len(x.sorts):]
            return out
        return None
    if j == BAD: return False
    r = conv(l.ek, j, l.arrs())
    if r is None: return False
    l.ek = j
    l.setsym(to_int(l.c['n']), r)
    return True

def list_append(it, l, x):
    if l.concrete() and not getattr(l, 'force', False):
        l.c['items'] = l.c['items'] + (x,)
        return
    n = to_int(l.c['n'])
    k = kind_of(x)
    if l.ek is not None and join_kind(l.ek, k) != l.ek and widen(l, join_kind(l.ek, k)):
        pass
    elif l.ek is not None and join_kind(l.ek, k) != l.ek and l.ek.sorts != k.sorts:
        raise Unsupported('append of %r to a list of %r' % (k, l.ek))
    ts = l.ek.pack(x)
    l.setsym(to_int(simp(n + 1)), [z3.Store(a, n, t) for a, t in zip(l.arrs(), ts)])

def list_extend(it, l, x):
    g = it.get_iter(x)
    if isinstance(g, list):
        for y in g: list_append(it, l, y)
        return
    if isinstance(g, GenObj):
        while True:
            try: y = g.next()
            except StopIteration: return
            list_append(it, l, y)
    if isinstance(g, ListIter):
        o = list_concat(it, l, g.l)
        l.ek = o.ek
        l.c = dict(o.c)
        return
    if isinstance(g, DictIter):
        keys = dict_list(it, g)
        o = list_concat(it, l, keys)
        l.ek = o.ek
        l.c = dict(o.c)
        return
    raise Unsupported('extend with %r' % (x,))

def list_concat(it, a, b):
    ctx = it.ctx
    if a.concrete() and b.concrete():
        return ListV(ctx, 'list', items=a.c['items'] + b.c['items'])
    a2, b2 = copy_list(it, a), copy_list(it, b)
    if a2.concrete() and not a2.c['items']: return b2
    if b2.concrete() and not b2.c['items']: return a2
    a2.symbolize(b2.ek); b2.symbolize(a2.ek)
    na, nb = to_int(a2.c['n']), to_int(b2.c['n'])
    arrs = []
    j = z3.Int('j')
    for x, y in zip(a2.arrs(), b2.arrs()):
        c = ctx.fresh_const(x.sort(), 'cat')
        ctx.assume(z3.ForAll([j], Implies(And(0 <= j, j < na), c[j] == x[j]), patterns=[c[j]]))
        ctx.assume(z3.ForAll([j], Implies(And(0 <= j, j < na), c[j] == x[j]), patterns=[x[j]]))
        ctx.assume(z3.ForAll([j], Implies(And(na <= j, j < na + nb), c[j] == y[j - na]), patterns=[c[j]]))
        ctx.assume(z3.ForAll([j], Implies(And(0 <= j, j < nb), c[j + na] == y[j]), patterns=[y[j]]))
        arrs.append(c)
    return ListV(ctx, 'list', n=simp_t(na + nb), arrs=arrs, ek=a2.ek)

def simp_t(t): return to_int(simp(t))

def copy_list(it, l):
    if l.concrete(): return ListV(it.ctx, 'list', items=l.c['items'])
    return ListV(it.ctx, 'list', n=l.c['n'], arrs=l.arrs(), ek=l.ek)

def list_index(it, l, i):
    """normalized index, or IndexError"""
    n = to_int(l.length())
    i = to_int(i)
    if it.ctx.branch(i < 0): i = to_int(simp(i + n))
    if not it.ctx.branch(And(i >= 0, i < n)):
        it.raise_(IndexError)
    return i

def list_pop(it, l, i=-1):
    if l.concrete() and isinstance(i, int):
        items = list(l.c['items'])
        if not -len(items) <= i < len(items): it.raise_(IndexError)
        x = items.pop(i)
        l.c['items'] = tuple(items)
        return x
    l.symbolize()
    j = list_index(it, l, i)
    x = l.ek.unpack(it.ctx, l.at(j))
    list_remove_at(it, l, j)
    return x

def list_remove_at(it, l, j):
    ctx = it.ctx
    n = to_int(l.c['n'])
    if ctx.entails(j == n - 1):
        l.setsym(simp_t(n - 1), l.arrs())
        return
    arrs = []
    k = z3.Int('k')
    for x in l.arrs():
        c = ctx.fresh_const(x.sort(), 'del')
        ctx.assume(z3.ForAll([k], Implies(k < j, c[k] == x[k]), patterns=[c[k]]))
        ctx.assume(z3.ForAll([k], Implies(k >= j, c[k] == x[k + 1]), patterns=[c[k]]))
        ctx.assume(z3.ForAll([k], Implies(k < j, c[k] == x[k]), patterns=[x[k]]))
        ctx.assume(z3.ForAll([k], Implies(k > j, c[k - 1] == x[k]), patterns=[x[k]]))
        arrs.append(c)
    l.setsym(simp_t(n - 1), arrs)

def list_insert(it, l, i, v):
    if l.concrete() and isinstance(i, int):
        items = list(l.c['items'])
        items.insert(i, v)
        l.c['items'] = tuple(items)
        return
    l.symbolize(kind_of(v))
    ctx = it.ctx
    n = to_int(l.c['n'])
    i = clip(it, i, n, 0)
    arrs = []
    k = z3.Int('k')
    for x, t in zip(l.arrs(), l.ek.pack(v)):
        c = ctx.fresh_const(x.sort(), 'ins')
        ctx.assume(c[i] == t)
        ctx.assume(z3.ForAll([k], Implies(k < i, c[k] == x[k]), patterns=[c[k]]))
        ctx.assume(z3.ForAll([k], Implies(k > i, c[k] == x[k - 1]), patterns=[c[k]]))
        ctx.assume(z3.ForAll([k], Implies(k < i, c[k] == x[k]), patterns=[x[k]]))
        ctx.assume(z3.ForAll([k], Implies(k >= i, c[k + 1] == x[k]), patterns=[x[k]]))
        arrs.append(c)
    l.setsym(simp_t(n + 1), arrs)

def list_sort(it, l):
    if l.concrete() and all(isinstance(x, int) for x in l.c['items']):
        l.c['items'] = tuple(sorted(l.c['items']))
        return
    l.symbolize()
    permute(it, l)

def permute(it, l):
    """The same elements in some order."""
    ctx = it.ctx
    n = to_int(l.c['n'])
    p = ctx.fresh_const(z3.ArraySort(I, I), 'perm')
    q = ctx.fresh_const(z3.ArraySort(I, I), 'permi')
    j = z3.Int('j')
    arrs = []
    for x in l.arrs():
        c = ctx.fresh_const(x.sort(), 'sorted')
        ctx.assume(z3.ForAll([j], Implies(And(0 <= j, j < n), And(0 <= p[j], p[j] < n, c[j] == x[p[j]])), patterns=[c[j]]))
        ctx.assume(z3.ForAll([j], Implies(And(0 <= j, j < n), And(0 <= q[j], q[j] < n, x[j] == c[q[j]])), patterns=[x[j]]))
        arrs.append(c)
    l.setsym(n, arrs)

def list_reverse(it, l):
    if l.concrete():
        l.c['items'] = tuple(reversed(l.c['items']))
        return
    ctx, n, j = it.ctx, to_int(l.c['n']), z3.Int('j')
    arrs = []
    for x in l.arrs():
        c = ctx.fresh_const(x.sort(), 'reversed')
        ctx.assume(z3.ForAll([j], c[j] == x[n - 1 - j], patterns=[c[j]]))
        ctx.assume(z3.ForAll([j], x[j] == c[n - 1 - j], patterns=[x[j]]))
        arrs.append(c)
    l.setsym(n, arrs)

def list_remove(it, l, x):
    if l.concrete():
        items = list(l.c['items'])
        for i, y in enumerate(items):
            if it.truth(it.eq(y, x)):
                del items[i]
                l.c['items'] = tuple(items)
                return
        it.raise_(ValueError)
    raise Unsupported('list.remove')

def dict_list(it, d):
    """the keys, values or items of d in some order, as a list"""
    ctx = it.ctx
    dv = d.d
    if dv.c['dom'] is None:
        return ListV(ctx, 'list', items=())
    n = card_axioms(it, dv.c['dom'])
    ka = ctx.fresh_const(z3.ArraySort(I, dv.ks()), 'keys')
    idx = ctx.fresh_const(z3.ArraySort(dv.ks(), I), 'keyidx')
    j, x = z3.Int('j'), z3.Const('x', dv.ks())
    dom = dv.c['dom']
    ctx.assume(z3.ForAll([j], Implies(And(0 <= j, j < n), And(dom[ka[j]], idx[ka[j]] == j)), patterns=[ka[j]]))
    ctx.assume(z3.ForAll([x], Implies(dom[x], And(0 <= idx[x], idx[x] < n, ka[idx[x]] == x)), patterns=[dom[x]]))
    ctx.assume(z3.ForAll([x], Implies(dom[x], And(0 <= idx[x], idx[x] < n, ka[idx[x]] == x)), patterns=[idx[x]]))
    if d.what == 'keys':
        return ListV(ctx, 'list', n=n, arrs=[ka], ek=dv.kk)
    va = []
    for a in dv.vals():
        c = ctx.fresh_const(z3.ArraySort(I, a.sort().range()), 'vals')
        ctx.assume(z3.ForAll([j], c[j] == a[ka[j]], patterns=[c[j]]))
        va.append(c)
    if d.what == 'values':
        return ListV(ctx, 'list', n=n, arrs=va, ek=dv.vk)
    return ListV(ctx, 'list', n=n, arrs=[ka] + va, ek=KTuple(dv.kk, dv.vk))


# ---------------------------------------------------------------- dicts and sets

def dict_method(it, d, name):
    def m(f): return Builtin('dict.' + name, f)
    t = {'get': dict_get, 'setdefault': dict_setdefault, 'update': dict_update, 'pop': dict_pop,
         'clear': dict_clear, 'copy': dict_copy, 'add': set_add, 'discard': set_discard,
         'remove': set_remove, 'difference_update': set_diffupdate}
    if d.is_set and name in ('get', 'setdefault') or not d.is_set and name in ('add', 'discard', 'remove'):
        it.raise_(AttributeError)
    if name in ('keys', 'values', 'items'):
        return m(lambda it, a, k: DictIter(d, name))
    if d.is_set:
        t = dict(t, update=set_inplace(s_or), difference_update=set_inplace(s_sub), intersection_update=set_andupdate,
                 symmetric_difference_update=set_xorupdate, union=set_union, intersection=set_intersection,
                 difference=set_difference, symmetric_difference=set_symdiff, issubset=set_issubset,
                 issuperset=set_issuperset, isdisjoint=set_isdisjoint, pop=set_pop)
    if name == 'iteritems': it.raise_(AttributeError)
    if name == '__len__': return m(lambda it, a, k: dict_len(it, d))
    if name in t: return m(lambda it, a, k: t[name](it, d, *a))
    if name == '__class__': return T('set' if d.is_set else 'dict')
    raise Unsupported('%s.%s' % ('set' if d.is_set else 'dict', name))

def dict_len(it, d):
    if d.c['dom'] is None: return 0
    return card_axioms(it, d.c['dom'])

def key_kind(k): return TEXT if isinstance(k, str) else kind_of(k)

def settle(it, d, k, v=None, has_v=False):
    d.settle(key_kind(k) if d.kk is None else d.kk, (kind_of(v) if d.vk is None else d.vk) if has_v else None)

def dict_get(it, d, k, default=None):
    if d.c['dom'] is None: return default
    if it.ctx.branch(d.has(k)):
        return dict_at(it, d, k)
    return default

def dict_at(it, d, k):
    t = d.kk.pack(k)[0]
    if isinstance(d.vk, KListOf): return SlotList(it.ctx, d, t)
    return d.vk.unpack(it.ctx, [a[t] for a in d.vals()])

def dict_set(it, d, k, v):
    if isinstance(k, Opaque): raise Unsupported('opaque key')
    vk = KListOf(v.ek or BYTES) if isinstance(v, ListV) else kind_of(v)
    d.settle(key_kind(k) if d.kk is None else d.kk, vk if d.vk is None else d.vk)
    t = d.kk.pack(k)[0]
    if d.vk != vk and d.vk.sorts != vk.sorts and not isinstance(d.vk, (KOpt, KOpaque)):
        raise Unsupported('dict of %r gets a %r' % (d.vk, vk))
    d.c['dom'] = z3.Store(d.c['dom'], t, z3.BoolVal(True))
    for j, x in enumerate(d.vk.pack(v)):
        d.c['v%d' % j] = z3.Store(d.c['v%d' % j], t, x)

def dict_del(it, d, k):
    if d.c['dom'] is None or not it.ctx.branch(d.has(k)):
        it.raise_(KeyError, k)
    d.c['dom'] = z3.Store(d.c['dom'], d.kk.pack(k)[0], z3.BoolVal(False))

_nodefault = object()
def dict_pop(it, d, k=_nodefault, default=_nodefault):
    if k is _nodefault:                      # set.pop()
        if d.c['dom'] is None or not it.truth(d): it.raise_(KeyError)
        w = it.ctx.fresh_const(d.ks(), 'popped')
        it.ctx.assume(d.c['dom'][w])
        d.c['dom'] = z3.Store(d.c['dom'], w, z3.BoolVal(False))
        return d.kk.unpack(it.ctx, [w])
    if d.c['dom'] is None or not it.ctx.branch(d.has(k)):
        if default is _nodefault: it.raise_(KeyError, k)
        return default
    v = dict_at(it, d, k)
    d.c['dom'] = z3.Store(d.c['dom'], d.kk.pack(k)[0], z3.BoolVal(False))
    return v

def dict_setdefault(it, d, k, default=None):
    if d.c['dom'] is not None and it.ctx.branch(d.has(k)):
        return dict_at(it, d, k)
    dict_set(it, d, k, default)
    return dict_at(it, d, k) if isinstance(default, ListV) else default

def dict_clear(it, d):
    if d.c['dom'] is not None:
        d.c['dom'] = z3.K(d.ks(), z3.BoolVal(False))

def dict_copy(it, d):
    if d.is_set:
        return SetV(it.ctx, 'set', d.kk, d.c['dom'])
    n = DictV(it.ctx, 'dict', d.kk, d.vk, d.c['dom'])
    n.c = dict(d.c)
    return n

def dict_update(it, d, o):
    ctx = it.ctx
    if isinstance(o, DictV):
        if o.c['dom'] is None: return
        settle(it, d, None) if d.kk is not None else None
        d.settle(o.kk, o.vk)
        x = z3.Const('x', d.ks())
        nd = ctx.fresh_const(d.c['dom'].sort(), 'dom')
        ctx.assume(z3.ForAll([x], nd[x] == Or(d.c['dom'][x], o.c['dom'][x]), patterns=[nd[x]]))
        ctx.assume(z3.ForAll([x], nd[x] == Or(d.c['dom'][x], o.c['dom'][x]), patterns=[d.c['dom'][x]]))
        ctx.assume(z3.ForAll([x], nd[x] == Or(d.c['dom'][x], o.c['dom'][x]), patterns=[o.c['dom'][x]]))
        vs = []
        for a, b in zip(d.vals(), o.vals()):
            v = ctx.fresh_const(a.sort(), 'val')
            ctx.assume(z3.ForAll([x], v[x] == If(o.c['dom'][x], b[x], a[x]), patterns=[v[x]]))
            vs.append(v)
        d.c['dom'] = nd
        for j, v in enumerate(vs): d.c['v%d' % j] = v
        return
    if isinstance(o, KwDict):
        for k, v in o.d.items(): dict_set(it, d, k, v)
        return
    raise Unsupported('update with %r' % (o,))

_elems = {}
def elems(arr, n):
    """the set of the first n elements of arr, as an array to bool"""
    return _elems_of(arr.sort().range())[0](arr, n)

def _elems_of(sort):
    k = sort.name()
    if k not in _elems:
        A = z3.ArraySort(I, sort)
        f = z3.Function('elems_' + k, A, I, z3.ArraySort(sort, B))
        w = z3.Function('where_' + k, A, I, sort, I)
        a, m, j, x = z3.Const('a', A), z3.Int('m'), z3.Int('j'), z3.Const('x', sort)
        _elems[k] = (f, w, [
            z3.ForAll([a], f(a, 0) == z3.K(sort, z3.BoolVal(False)), patterns=[f(a, 0)]),
            z3.ForAll([a, m, x, j], Implies(And(m >= 0, j == m + 1), f(z3.Store(a, m, x), j) == z3.Store(f(a, m), x, z3.BoolVal(True))), patterns=[f(z3.Store(a, m, x), j)]),
            z3.ForAll([a, m, x], Implies(f(a, m)[x], And(0 <= w(a, m, x), w(a, m, x) < m, a[w(a, m, x)] == x)), patterns=[f(a, m)[x]]),
            z3.ForAll([a, m, j], Implies(And(0 <= j, j < m), f(a, m)[a[j]]), patterns=[z3.MultiPattern(f(a, m), a[j])])])
    return _elems[k]

_twice = {}
def distinct_axioms(a, n):
    """the set of the first n elements of a has n elements if and only if they are distinct"""
    A = a.sort()
    k = A.range().name()
    if k not in _twice:
        _twice[k] = z3.Function('twice1_' + k, A, I, I), z3.Function('twice2_' + k, A, I, I)
    d1, d2 = _twice[k][0](a, n), _twice[k][1](a, n)
    j, l = z3.Int('j'), z3.Int('l')
    c = card(elems(a, n))
    return [c <= n, Or(c == n, And(0 <= d1, d1 < d2, d2 < n, a[d1] == a[d2])),
            Implies(c == n, z3.ForAll([j, l], Implies(And(0 <= j, j < l, l < n), a[j] != a[l]), patterns=[z3.MultiPattern(a[j], a[l])]))]

_cards = {}
def card(dom):
    """the number of elements of a set"""
    k = dom.sort().domain()
    if k.name() not in _cards:
        f = z3.Function('card_' + k.name(), dom.sort(), I)
        _cards[k.name()] = f
    return _cards[k.name()](dom)

def list_dom(it, l):
    """the set of the elements of a list, as a term"""
    if l.concrete():
        items = l.c['items']
        if not items: return None
        kk = l.ek or kind_of(items[0])
        dom = z3.K(kk.sorts[0], z3.BoolVal(False))
        for x in items: dom = z3.Store(dom, kk.pack(x)[0], z3.BoolVal(True))
        return kk, dom
    a = l.arrs()[0]
    for ax in distinct_axioms(a, to_int(l.c['n'])): it.ctx.assume(Implies(to_int(l.c['n']) >= 0, ax))
    for ax in _elems_of(a.sort().range())[2]:
        if ax.get_id() not in it.ctx.ghost.setdefault('elems axioms', set()):
            it.ctx.ghost['elems axioms'].add(ax.get_id())
            it.ctx.assume(ax)
    return l.ek, elems(a, to_int(l.c['n']))

def card_difference(it, b, a):
    """if a is a part of b, card(b) - card(a) is the number of elements of the difference"""
    x = z3.Const('x', b.sort().domain())
    c = combine(it, lambda p, q: And(p, Not(q)), b, a)
    it.ctx.assume(Implies(z3.ForAll([x], Implies(a[x], b[x]), patterns=[a[x]]), card(b) - card(a) == card(c)))
    card_axioms(it, c)
    return c

def card_axioms(it, dom):
    x, n = z3.Const('x', dom.sort().domain()), card(dom)
    w = it.ctx.fresh_const(dom.sort().domain(), 'w')
    it.ctx.assume(n >= 0)
    it.ctx.assume(Implies(n > 0, dom[w]))
    it.ctx.assume(Implies(n == 0, z3.ForAll([x], Not(dom[x]), patterns=[dom[x]])))
    return n

def set_new(f):
    """a method that gives a new set"""
    def m(it, s, *others):
        dom, kk = s.c['dom'], s.kk
        for o in others:
            r = as_dom(it, o)
            if kk is None and r is not None:
                kk = r[0]
            if kk is None: continue
            if dom is None: dom = z3.K(kk.sorts[0], z3.BoolVal(False))
            od = r[1] if r is not None else z3.K(kk.sorts[0], z3.BoolVal(False))
            dom = combine(it, f, dom, od)
        return SetV(it.ctx, 'set', kk, dom)
    return m

def set_inplace(f):
    def m(it, s, *others):
        for o in others:
            r = as_dom(it, o)
            if s.kk is None and r is not None: s.settle(r[0], None)
            if s.kk is None: continue
            od = r[1] if r is not None else z3.K(s.kk.sorts[0], z3.BoolVal(False))
            if s.c['dom'] is None: s.c['dom'] = z3.K(s.kk.sorts[0], z3.BoolVal(False))
            s.c['dom'] = combine(it, f, s.c['dom'], od)
    return m

def set_pred(f):
    def m(it, s, o):
        r = as_dom(it, o)
        kk = s.kk or (r and r[0])
        if not kk: return True
        e = z3.K(kk.sorts[0], z3.BoolVal(False))
        a, b = s.c['dom'] if s.c['dom'] is not None else e, r[1] if r is not None else e
        x = z3.Const('x', kk.sorts[0])
        w = it.ctx.fresh_const(kk.sorts[0], 'witness')
        return it.ctx.choose([Not(f(a[w], b[w])), z3.ForAll([x], f(a[x], b[x]), patterns=[a[x], b[x]])]) == 1
    return m

s_or, s_and, s_sub, s_xor = (lambda p, q: Or(p, q)), (lambda p, q: And(p, q)), (lambda p, q: And(p, Not(q))), (lambda p, q: p != q)
set_union, set_intersection, set_difference, set_symdiff = [set_new(f) for f in (s_or, s_and, s_sub, s_xor)]
set_andupdate, set_xorupdate = set_inplace(s_and), set_inplace(s_xor)
set_issubset = set_pred(lambda p, q: Implies(p, q))
set_issuperset = set_pred(lambda p, q: Implies(q, p))
set_isdisjoint = set_pred(lambda p, q: Not(And(p, q)))

def set_pop(it, s):
    if s.c['dom'] is None: it.raise_(KeyError)
    w = it.ctx.fresh_const(s.ks(), 'popped')
    x = z3.Const('x', s.ks())
    if it.ctx.choose([s.c['dom'][w], z3.ForAll([x], Not(s.c['dom'][x]), patterns=[s.c['dom'][x]])]) == 1: it.raise_(KeyError)
    s.c['dom'] = z3.Store(s.c['dom'], w, z3.BoolVal(False))
    return s.kk.unpack(it.ctx, [w])

def set_add(it, s, x):
    settle(it, s, x)
    s.c['dom'] = z3.Store(s.c['dom'], s.kk.pack(x)[0], z3.BoolVal(True))

def set_discard(it, s, x):
    if s.c['dom'] is not None:
        s.c['dom'] = z3.Store(s.c['dom'], s.kk.pack(x)[0], z3.BoolVal(False))

def set_remove(it, s, x):
    if s.c['dom'] is None or not it.ctx.branch(s.has(x)): it.raise_(KeyError, x)
    set_discard(it, s, x)

def as_dom(it, o):
    """(key kind, dom) of a collection, or None when it is empty"""
    if isinstance(o, DictV):
        return (o.kk, o.c['dom']) if o.c['dom'] is not None else None
    if isinstance(o, DictIter) and o.what == 'keys':
        return (o.d.kk, o.d.c['dom']) if o.d.c['dom'] is not None else None
    if isinstance(o, ListV):
        return list_dom(it, o)
    if isinstance(o, Native) and hasattr(o, 'as_dom'):
        return o.as_dom(it)
    g = it.get_iter(o)
    items = g if isinstance(g, list) else None
    if items is None and isinstance(g, GenObj):
        s = SetV(it.ctx, 'collected')           # (on the heap: the generator may have a loop of symbolic length)
        while True:
            try: set_add(it, s, g.next())
            except StopIteration: break
        return (s.kk, s.c['dom']) if s.c['dom'] is not None else None
    if items is None: raise Unsupported('a set of %r' % (o,))
    if not items: return None
    kk = kind_of(items[0])
    dom = z3.K(kk.sorts[0], z3.BoolVal(False))
    for x in items: dom = z3.Store(dom, kk.pack(x)[0], z3.BoolVal(True))
    return kk, dom

def combine(it, f, a, b):
    ctx = it.ctx
    x = z3.Const('x', a.sort().domain())
    c = ctx.fresh_const(a.sort(), 'dom')
    for p in (c[x], a[x], b[x]):
        ctx.assume(z3.ForAll([x], c[x] == f(a[x], b[x]), patterns=[p]))
    return c

def set_update(it, s, o):
    r = as_dom(it, o)
    if r is None: return
    s.settle(r[0], None)
    s.c['dom'] = combine(it, lambda p, q: Or(p, q), s.c['dom'], r[1])

def set_diffupdate(it, s, o):
    r = as_dom(it, o)
    if r is None or s.c['dom'] is None: return
    s.c['dom'] = combine(it, lambda p, q: And(p, Not(q)), s.c['dom'], r[1])

def set_binop(it, t, a, b):
    f = {ast.BitOr: lambda p, q: Or(p, q), ast.BitAnd: lambda p, q: And(p, q),
         ast.Sub: lambda p, q: And(p, Not(q)), ast.BitXor: lambda p, q: p != q}.get(t)
    if f is None: raise Unsupported('set operator')
    kk = a.kk or b.kk
    if kk is None: return SetV(it.ctx, 'set')
    da, db = a.dom(kk.sorts[0]), b.dom(kk.sorts[0])
    return SetV(it.ctx, 'set', kk, combine(it, f, da, db))


# ---------------------------------------------------------------- files and sockets

class FileV(Native):
    """An open file or a BytesIO: b (content), pos.  on_write(it, file, pos, data) is called before
    each write (crash points).  With fails, a write may fail after any part of it is done."""
    def __init__(self, ctx, name='file', b=None, pos=0, mode='r+b', fails=False, kind='file'):
        HeapObj.__init__(self, ctx, name)
        self.c['b'] = b if b is not None else empty
        self.c['pos'] = pos if is_z(pos) else z3.IntVal(pos)
        self.mode, self.fails, self.kind_ = mode, fails, kind
        self.on_write = None
        self.on_truncate = None

    def attr(self, it, name):
        m = getattr(self, 'm_' + name, None)
        if m is not None:
            return Builtin('file.' + name, lambda it, a, k: m(it, *a))
        if name == 'mode': return self.mode
        if name == 'name': return Opaque('filename')
        it.raise_(AttributeError)

    def truth(self, it): return True

    def m_tell(self, it): return simp(self.c['pos'])
    def m_flush(self, it): return None
    def m_fileno(self, it): return Opaque('fileno')
    def m_close(self, it): return None
    def m_getvalue(self, it): return self.c['b']

    def m_seek(self, it, n, whence=0):
        if whence == 0:
            if it.ctx.branch(to_int(n) < 0): it.raise_(ValueError)
            self.c['pos'] = to_int(n)
        elif whence == 2 and n == 0:
            self.c['pos'] = blen(self.c['b'])
        else:
            raise Unsupported('seek')
        return simp(self.c['pos'])

    def m_read(self, it, n=None):
        ctx = it.ctx
        b, p = self.c['b'], to_int(self.c['pos'])
        if n is not None and ctx.branch(to_int(n) < 0): n = None
        size = blen(b)
        if not ctx.branch(p <= size): return b''
        left = simp_t(size - p)
        if n is None or not ctx.branch(to_int(n) <= left):
            k = left
        else:
            k = to_int(n)
        self.c['pos'] = simp_t(p + k)
        r = sub(b, p, k)
        return r

    def m_write(self, it, s):
        ctx = it.ctx
        if not is_bytes(s): it.raise_(TypeError)
        s = to_bytes(s)
        ctx._lits()
        b, p = self.c['b'], to_int(self.c['pos'])
        if not ctx.branch(p <= blen(b)):
            b = wr(b, blen(b), rep(z3.IntVal(0), p - blen(b)))
        if self.on_write is not None:
            self.on_write(it, self, p, s)
        if self.fails and ctx.choose([None, None], 'write') == 1:
            k = ctx.int('part', lo=0)
            ctx.assume(k < blen(s))
            part = sub(s, z3.IntVal(0), k)
            self.c['b'] = wr(b, p, part)
            self.c['pos'] = simp_t(p + k)
            it.raise_(OSError)
        self.c['b'] = wr(b, p, s)
        self.c['pos'] = simp_t(p + blen(s))
        return blen(s)

    def m_truncate(self, it, n=None):
        b, p = self.c['b'], to_int(self.c['pos'])
        if n is not None: p = to_int(n)
        if it.ctx.branch(p <= blen(b)):
            self.c['b'] = sub(b, z3.IntVal(0), p)
        else:
            self.c['b'] = wr(b, blen(b), rep(z3.IntVal(0), p - blen(b)))
        if self.on_truncate is not None: self.on_truncate(it, self)

def make_bytesio(it, a, k):
    b = to_bytes(a[0]) if a else empty
    return FileV(it.ctx, 'BytesIO', b=b, kind='bytesio', mode=None)


class SockV(Native):
    """A connected socket: inb (everything that the peer will ever send), ipos, out (everything sent)."""
    def __init__(self, ctx, name='sock', fails=False):
        HeapObj.__init__(self, ctx, name)
        self.c['inb'] = ctx.bytes('inb')
        self.c['ipos'] = z3.IntVal(0)
        self.c['out'] = ctx.bytes('out')
        self.fails = fails
    def truth(self, it): return True
    def attr(self, it, name):
        m = getattr(self, 'm_' + name, None)
        if m is not None:
            return Builtin('socket.' + name, lambda it, a, k: m(it, *a))
        it.raise_(AttributeError)
    def m_recv(self, it, n):
        ctx = it.ctx
        if self.fails and ctx.choose([None, None], 'recv') == 1: it.raise_(OSError)
        k = ctx.int('got', lo=0)
        ctx.assume(And(k <= to_int(n), self.c['ipos'] + k <= blen(self.c['inb'])))
        r = sub(self.c['inb'], self.c['ipos'], k)
        self.c['ipos'] = simp_t(self.c['ipos'] + k)
        return r
    def m_send(self, it, s):
        ctx = it.ctx
        if self.fails and ctx.choose([None, None], 'send') == 1: it.raise_(OSError)
        s = to_bytes(s)
        k = ctx.int('sent', lo=0)
        ctx.assume(k <= blen(s))
        self.c['out'] = wr(self.c['out'], blen(self.c['out']), sub(s, z3.IntVal(0), k))
        return k
    def m_close(self, it): return None
    def m_fileno(self, it): return Opaque('fileno')


# ---------------------------------------------------------------- struct, heapq, ...

def struct_pack(it, a, k):
    fmt, v = a[0], a[1:]
    if len(v) != 1: raise Unsupported('struct.pack')
    v = v[0]
    enc, hi = {'>Q': (be8, 2 ** 64), '>L': (be4, 2 ** 32), '>I': (be4, 2 ** 32), 'B': (be1, 256),
               '>B': (be1, 256)}.get(fmt, (None, None))
    if enc is None: raise Unsupported('struct.pack(%r)' % (fmt,))
    if isinstance(v, Opaque): return it.ctx.bytes('packed')
    if not is_int(v) and not is_boolv(v):
        it.raise_(it.std_error('struct'))
    v = to_int(v)
    if not it.ctx.branch(And(v >= 0, v < hi)):
        it.raise_(it.std_error('struct'))
    return enc(v)

def struct_unpack(it, a, k):
    fmt, s = a
    if isinstance(fmt, StrRep) and fmt.text == '8s' and fmt.pre == '>':
        t, n = to_bytes(s), to_int(fmt.n)
        if not it.ctx.branch(And(n >= 0, blen(t) == 8 * n)): it.raise_(it.std_error('struct'))
        j = z3.Int('j')
        arr = it.ctx.fresh_const(z3.ArraySort(I, Bytes), 'words')
        it.ctx.assume(z3.ForAll([j], Implies(And(0 <= j, j < n), arr[j] == sub(t, 8 * j, z3.IntVal(8))),
                                patterns=[arr[j]]))
        return ListV(it.ctx, 'tuple', n=n, arrs=[arr], ek=BYTES)
    dec, w = {'>Q': (de8, 8), '>L': (de4, 4), '>I': (de4, 4), 'B': (de1, 1), '>B': (de1, 1)}.get(fmt, (None, None))
    if dec is None: raise Unsupported('struct.unpack(%r)' % (fmt,))
    if not is_bytes(s): it.raise_(TypeError)
    t = to_bytes(s)
    if not it.ctx.branch(blen(t) == w): it.raise_(it.std_error('struct'))
    return (dec(t),)

class StructError(Exception):
    pass

def heappush(it, a, k):
    l, x = a
    if l.concrete() and l.c['items'] == () or l.concrete():
        l.c['items'] = l.c['items'] + (x,)
    else:
        list_append(it, l, x)

def heappop(it, a, k):
    """removes some element (the order of a heap is not modelled)"""
    l = a[0]
    if l.concrete():
        if not l.c['items']: it.raise_(IndexError)
        i = it.ctx.choose([None] * len(l.c['items']), 'heappop')
        items = list(l.c['items'])
        x = items.pop(i)
        l.c['items'] = tuple(items)
        return x
    ctx, n = it.ctx, to_int(l.c['n'])
    if ctx.branch(n <= 0): it.raise_(IndexError)
    i = ctx.int('heap', lo=0)
    ctx.assume(i < n)
    x = l.ek.unpack(ctx, l.at(i))
    p, q = [ctx.fresh_const(z3.ArraySort(I, I), w) for w in ('heapto', 'heapfrom')]
    j, arrs = z3.Int('j'), []
    for r in l.arrs():
        c = ctx.fresh_const(r.sort(), 'heap')
        ctx.assume(z3.ForAll([j], Implies(And(0 <= j, j < n - 1), And(0 <= p[j], p[j] < n, p[j] != i, c[j] == r[p[j]])), patterns=[c[j]]))
        ctx.assume(z3.ForAll([j], Implies(And(0 <= j, j < n, j != i), And(0 <= q[j], q[j] < n - 1, c[q[j]] == r[j])), patterns=[r[j]]))
        arrs.append(c)
    l.setsym(simp_t(n - 1), arrs)
    return x


class StdModule(ModuleVal):
    pass

def opaque_fn(name):
    return Builtin(name, lambda it, a, k: Opaque(name))

def none_fn(name):
    return Builtin(name, lambda it, a, k: None)

def zlib_decompress(it, a, k):
    b = to_bytes(a[0])
    if not it.ctx.branch(zok(b)): it.raise_(it.std_error('zlib'))
    return zdecompress(b)

class ZlibError(Exception):
    pass

def std_module(it, name):
    cache = it.__dict__.setdefault('std_cache', {})
    if name in cache: return cache[name]
    m = StdModule(name)
    cache[name] = m
    e = m.env
    fill = {
        'struct': lambda: dict(pack=Builtin('pack', struct_pack), unpack=Builtin('unpack', struct_unpack),
                               error=StructError),
        'sys': lambda: dict(version='3.12', maxsize=2 ** 63 - 1, exc_info=Builtin('exc_info', exc_info),
                            stdout=Opaque('stdout'), stderr=Opaque('stderr'), platform='linux', argv=Opaque('argv'),
                            version_info=Opaque('version_info'), modules=Opaque('modules')),
        'io': lambda: dict(BytesIO=NativeClass('BytesIO', make_bytesio)),
        'heapq': lambda: dict(heappush=Builtin('heappush', heappush), heappop=Builtin('heappop', heappop)),
        'zlib': lambda: dict(compress=Builtin('compress', lambda it, a, k: zcompress(to_bytes(a[0]))),
                             decompress=Builtin('decompress', zlib_decompress), error=ZlibError),
        'builtins': lambda: dict((n, it.builtins[n]) for n in it.builtins),
        'os': lambda: dict(name='posix', fsync=none_fn('fsync'), path=Opaque('os.path'),
                           rename=none_fn('rename'), link=none_fn('link'), unlink=none_fn('unlink'),
                           stat=opaque_fn('stat')),
        'os.path': lambda: dict(exists=opaque_fn('exists'), join=opaque_fn('join')),
        'fcntl': lambda: dict(flock=Builtin('flock', flock), LOCK_EX=2, LOCK_NB=4, LOCK_UN=8),
        'socket': lambda: dict(error=OSError, timeout=TimeoutError),
        'select': lambda: dict(select=Builtin('select', lambda it, a, k: it.select(*a)), error=OSError),
        'datetime': lambda: dict(datetime=Opaque('datetime')),
        'time': lambda: dict(time=opaque_fn('time'), sleep=none_fn('sleep')),
        'itertools': lambda: dict(chain=Builtin('chain', chain), islice=Builtin('islice', islice)),
        'collections': lambda: dict(deque=NativeClass('deque', lambda it, a, k: make_list(it, a, k)), abc=it.module('collections.abc')),
        'weakref': lambda: dict(ref=Builtin('ref', weak_ref), KeyedRef=Builtin('KeyedRef', keyed_ref)),
        'functools': lambda: dict(partial=Builtin('partial', partial)),
        'types': lambda: dict(MethodType=Builtin('MethodType', partial)),
        'pickle': lambda: dict(dumps=Builtin('dumps', lambda it, a, k: it.ctx.bytes('pickled')),
                               loads=opaque_fn('loads'), **dict((n, it.module('models.pickle').env[n]) for n in ('Pickler', 'Unpickler'))),
        'errno': lambda: dict(EINTR=4),
    }.get(name)
    if fill: e.update(fill())
    return m

def partial(it, a, k):
    """functools.partial(f, x, ...), types.MethodType(f, x)"""
    f, xs = a[0], tuple(a[1:])
    return Builtin('partial', lambda it, a, k: it.call(f, list(xs) + list(a), k))

class KWeak(KIdent):
    """a weak reference to a member of a family that has a field 'gone'"""
    def __init__(self, fam): self.fam = fam
    def call(self, it, o, args, kw):
        ctx, fam = it.ctx, it.ctx.fams[self.fam]
        r = FamRef(fam, o.t)
        gone = fam.terms('gone', o.t)[0]
        # an object can be gone from any moment on at which nothing holds it
        strong = ctx.ghost['strong'](it, o.t) if 'strong' in ctx.ghost else z3.BoolVal(False)
        if ctx.choose([Not(gone), Or(gone, Not(strong))], 'weak reference') == 0:
            return r
        fam.c['gone.0'] = z3.Store(fam.c['gone.0'], o.t, z3.BoolVal(True))
        return None
    def attr(self, it, o, name):
        raise Unsupported('%s of a weak reference' % name)

def keyed_ref(it, a, k):
    v = a[0]
    if not isinstance(v, FamRef): raise Unsupported('weak reference to %r' % (v,))
    return Ident(KWeak(v.fam.name), v.t)

def weak_ref(it, a, k):
    v = a[0]
    return Builtin('weak reference', lambda it, a, k: v)

def b_id(it, a, k):
    return a[0].t if isinstance(a[0], FamRef) else Opaque('id')

def exc_info(it, a, k):
    h = getattr(it, 'handling', None)
    if not h: return (None, None, None)
    return (h[-1].cls, h[-1], Opaque('traceback'))

def chain(it, a, k):
    def go():
        for s in a:
            g = it.get_iter(s)
            if isinstance(g, list):
                for x in g: yield x
            elif isinstance(g, GenObj):
                while True:
                    try: x = g.next()
                    except StopIteration: break
                    yield x
            else:
                raise Unsupported('chain over a symbolic collection')
    return GenObj(go(), 'chain')

def islice(it, a, k):
    """Any of the elements, in their order (which ones is not modelled)."""
    def go():
        g = it.get_iter(a[0])
        if not isinstance(g, GenObj): raise Unsupported('islice of %r' % (a[0],))
        while True:
            try: x = g.next()
            except StopIteration: return
            c = it.ctx.choose([None, None, None], 'islice')
            if c == 0: yield x
            if c == 2: return
    return GenObj(go(), 'islice')

def flock(it, a, k):
    if it.ctx.ghost.get('flock_fails') and it.ctx.choose([None, None], 'flock') == 1:
        it.raise_(OSError)
    return None

def std_attr(it, module, name):
    if module == '__future__': return None
    m = std_module(it, module)
    if name in m.env: return m.env[name]
    return Opaque('%s.%s' % (module, name))

class DurusPkg(ModuleVal):
    def __init__(self, it):
        ModuleVal.__init__(self, 'durus')
        self.interp = it

def pre_module(it, m):
    if m.name == 'collections.abc':
        m.env['GenericAlias'] = m.env['sys'] = Opaque('')
        m.env['_check_methods'] = opaque_fn('check')

def post_module(it, m):
    if m.name == 'durus.logger':
        m.env['log'] = none_fn('log')
        m.env['is_logging'] = Builtin('is_logging', lambda it, a, k: it.ctx.choose([None, None], 'logging') == 1
                                      if it.ctx.ghost.get('logging') else False)


# ---------------------------------------------------------------- builtins

def b_len(it, a, k):
    v = a[0]
    if isinstance(v, (bytes, str, tuple)): return len(v)
    if is_bytes(v): return blen(v)
    if isinstance(v, ListV): return simp(v.length()) if is_z(v.length()) else v.length()
    if isinstance(v, DictV): return dict_len(it, v)
    if isinstance(v, (Obj, FamRef)):
        cls = v.cls if isinstance(v, Obj) else v.fam.cls
        f, _ = cls.lookup('__len__')
        if f is not None: return it.call(Bound(f, v), [])
    if isinstance(v, Native): return it.call(v.attr(it, '__len__'), [])
    if isinstance(v, Opaque): return it.ctx.int('len', lo=0)
    it.raise_(TypeError)

def type_of(it, v):
    if isinstance(v, Obj): return v.cls
    if isinstance(v, FamRef): return it.getattr(v, '__class__') if '__class__' in v.fam.fields else v.fam.cls
    if isinstance(v, ExcInst): return v.cls
    if v is None: return T('NoneType')
    if is_boolv(v): return T('bool')
    if is_int(v): return T('int')
    if is_bytes(v): return T('bytes')
    if isinstance(v, (str, TextV)): return T('str')
    if isinstance(v, float): return T('float')
    if isinstance(v, tuple): return T('tuple')
    if isinstance(v, SetV): return T('set')
    if isinstance(v, DictV): return T('dict')
    if isinstance(v, ListV): return T('list')
    if isinstance(v, SliceV): return T('slice')
    if isinstance(v, (ClassVal, NativeClass, type)): return T('type')
    if isinstance(v, OpV): return T(v.pytype)
    if isinstance(v, Native): return T(type(v).__name__)
    if isinstance(v, (FuncVal, Builtin)): return T('function')
    if isinstance(v, Bound): return T('method')
    raise Unsupported('type of %r' % (v,))

def isinst(it, v, cls):
    if isinstance(cls, tuple):
        return any(isinst(it, v, c) for c in cls)
    if isinstance(v, Opaque) or isinstance(cls, Opaque):
        return it.ctx.choose([None, None], 'isinstance') == 0
    if isinstance(v, ExcInst): return it.exc_is(v, cls)
    if isinstance(v, Native) and hasattr(v, 'isinst'): return v.isinst(it, cls)
    t = v.fam.cls if isinstance(v, FamRef) else type_of(it, v)
    if t is cls: return True
    if isinstance(t, ClassVal): return cls in t.mro() or cls is T('object')
    if t is T('bool') and cls is T('int'): return True
    return cls is T('object')

def b_isinstance(it, a, k): return isinst(it, a[0], a[1])

def b_hasattr(it, a, k):
    o, name = a
    if isinstance(o, StdModule): return name in o.env
    if isinstance(o, Opaque): return it.ctx.choose([None, None], 'hasattr') == 0
    if isinstance(o, (str, bytes)) : return hasattr(o, name)
    if is_bytes(o): return hasattr(b'', name)
    try:
        it.getattr(o, name)
        return True
    except PyRaise as e:
        if it.exc_is(e.exc, AttributeError): return False
        raise

def b_getattr(it, a, k):
    try:
        return it.getattr(a[0], a[1])
    except PyRaise as e:
        if len(a) > 2 and it.exc_is(e.exc, AttributeError): return a[2]
        raise

def b_int(it, a, k):
    if not a: return 0
    v = a[0]
    if isinstance(v, (int, float)): return int(v)
    if is_int(v) or is_boolv(v): return to_int(v)
    if isinstance(v, ScaledV): return v.floor(it)
    if isinstance(v, Opaque): return it.ctx.int('int')
    if isinstance(v, Obj):
        f, _ = v.cls.lookup('__int__')
        if f is not None: return it.call(Bound(f, v), [])
    raise Unsupported('int(%r)' % (v,))

class ScaledV(object):
    """an integer times a float: its floor is some integer"""
    def __init__(self, n, f): self.n, self.f = n, f
    def floor(self, it):
        # nothing but the sign is assumed about the rounding
        r = it.ctx.int('float_product')
        if self.f >= 0: it.ctx.assume(Implies(to_int(self.n) >= 0, r >= 0))
        return r

def minmax(name):
    def f(it, a, k):
        if len(a) == 1:
            g = it.get_iter(a[0])
            if not isinstance(g, list): raise Unsupported(name + ' of a symbolic collection')
            a = g
        if not a: it.raise_(ValueError)
        r = a[0]
        for x in a[1:]:
            if isinstance(r, (int, float)) and isinstance(x, (int, float)):
                r = max(r, x) if name == 'max' else min(r, x)
            else:
                p, q = to_int(r), to_int(x)
                r = simp(If(p >= q, p, q) if name == 'max' else If(p <= q, p, q))
        return r
    return f

def b_range(it, a, k):
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    lo, hi = simp(lo) if is_z(lo) else lo, simp(hi) if is_z(hi) else hi
    if isinstance(lo, int) and isinstance(hi, int):
        n = len(range(lo, hi, step))
        if n <= 300: return tuple(range(lo, hi, step))
    if not isinstance(step, int): raise Unsupported('range step')
    return RangeIter(lo, hi, step)

def b_enumerate(it, a, k):
    g = it.get_iter(a[0])
    first = a[1] if len(a) > 1 else 0
    if isinstance(g, list): return tuple((i + first, x) for i, x in enumerate(g))
    if isinstance(g, GenObj):
        class Counter(HeapObj): pass
        c = Obj(it.ctx, None, 'enumerate')
        c.c['n'] = z3.IntVal(first)
        def go():
            while True:
                try: x = g.next()
                except StopIteration: return
                n = c.c['n']
                yield (simp(n), x)
                c.c['n'] = simp_t(to_int(c.c['n']) + 1)
        return GenObj(go(), 'enumerate')
    return EnumIter(g, first)

def make_list(it, a, k):
    ctx = it.ctx
    if not a: return ListV(ctx, 'list', items=())
    v = a[0]
    if isinstance(v, ListV): return copy_list(it, v)
    if isinstance(v, DictIter): return dict_list(it, v)
    g = it.get_iter(v)
    if isinstance(g, list): return ListV(ctx, 'list', items=g)
    if isinstance(g, DictIter): return dict_list(it, g)
    if isinstance(g, ListIter): return copy_list(it, g.l)
    if isinstance(g, GenObj):
        out = ListV(ctx, 'list', items=())
        while True:
            try: x = g.next()
            except StopIteration: return out
            list_append(it, out, x)
    raise Unsupported('list(%r)' % (v,))

def boxed(kind, f):
    """(contracts can ask that lists, dicts and sets are values whose operations they define)"""
    def g(it, a, k):
        b = it.ctx.ghost.get('boxes')
        return b(it, kind, a, k) if b else f(it, a, k)
    return g

def b_tuple(it, a, k):
    l = make_list(it, a, k)
    return l.c['items'] if l.concrete() else l

def b_dict(it, a, k):
    d = DictV(it.ctx, 'dict')
    if a:
        v = a[0]
        if isinstance(v, DictV): return dict_copy(it, v)
        g = it.get_iter(v)
        if isinstance(g, list): seq = iter(g)
        elif isinstance(g, GenObj):
            def s():
                while True:
                    try: x = g.next()
                    except StopIteration: return
                    yield x
            seq = s()
        else: raise Unsupported('dict(%r)' % (v,))
        for x in seq:
            p, q = it.unpack_seq(x, 2)
            dict_set(it, d, p, q)
    for n, v in k.items(): dict_set(it, d, n, v)
    return d

def b_set(it, a, k):
    if not a: return SetV(it.ctx, 'set')
    r = as_dom(it, a[0])
    if r is None: return SetV(it.ctx, 'set')
    return SetV(it.ctx, 'set', r[0], r[1])

def b_sorted(it, a, k):
    l = make_list(it, a, {})
    list_sort(it, l)
    return l

def b_chr(it, a, k):
    if isinstance(a[0], int): return chr(a[0])
    codes = it.ctx.ghost.get('chars', [])
    v = to_int(a[0])
    j = it.ctx.choose([v == c for c in codes] + [And(*[v != c for c in codes])], 'chr')
    return chr(codes[j]) if j < len(codes) else Opaque('chr')

def b_reversed(it, a, k):
    v = a[0]
    if isinstance(v, (tuple, str)): return tuple(reversed(v))
    if isinstance(v, ListV):
        if v.concrete(): return tuple(reversed(v.c['items']))
        return ReverseIter(v)
    if isinstance(v, RangeIter):
        if v.step == 1: return RangeIter(v.hi - 1, v.lo - 1, -1)
    if isinstance(v, OpV): return v.reversed(it)
    if isinstance(v, Obj):
        f, _ = v.cls.lookup('__reversed__')
        if f is not None: return it.get_iter(it.call(Bound(f, v), []))
    raise Unsupported('reversed')

def b_next(it, a, k):
    g = a[0]
    if isinstance(g, GenObj):
        try: return g.next()
        except StopIteration:
            if len(a) > 1: return a[1]
            it.raise_(StopIteration)
    if isinstance(g, Opaque): return Opaque('next')
    raise Unsupported('next(%r)' % (g,))

def b_iter(it, a, k):
    v = a[0]
    if isinstance(v, (Obj, FamRef)):
        return it.get_iter(v)
    g = it.get_iter(v)
    if isinstance(g, list):
        return GenObj(iter(g), 'iter')
    return g

def b_ord(it, a, k):
    v = a[0]
    if isinstance(v, (bytes, str)): return ord(v)
    if is_bytes(v):
        if not it.ctx.branch(blen(v) == 1): it.raise_(TypeError)
        return de1(v)
    raise Unsupported('ord')

def b_divmod(it, a, k):
    return (it.binop(ast.FloorDiv(), a[0], a[1]), it.binop(ast.Mod(), a[0], a[1]))

def b_type(it, a, k):
    if isinstance(a[0], Opaque): return Opaque('type')
    return type_of(it, a[0])

def b_anyall(is_any):
    def f(it, a, k):
        g = it.get_iter(a[0])
        if isinstance(g, list):
            for x in g:
                if it.truth(x) == is_any: return is_any
            return not is_any
        if isinstance(g, GenObj):
            while True:
                try: x = g.next()
                except StopIteration: return not is_any
                if it.truth(x) == is_any: return is_any
        raise Unsupported('any/all')
    return f

def b_zip(it, a, k):
    gs = [it.get_iter(x) for x in a]
    if all(isinstance(g, list) for g in gs): return tuple(zip(*gs))
    raise Unsupported('zip')

def b_super(it, a, k): raise Unsupported('super')

def b_abs(it, a, k):
    x = to_int(a[0]); return simp(If(x >= 0, x, -x))

def b_bytes(it, a, k):
    if not a: return b''
    if is_bytes(a[0]): return a[0]
    raise Unsupported('bytes(%r)' % (a[0],))

def b_callable(it, a, k):
    return isinstance(a[0], (FuncVal, Builtin, Bound, ClassVal, NativeClass))

def b_setattr(it, a, k): it.setattr(*a)

def obj_setattr(it, a, k):
    o, n, v = a
    it.raw_setattr(o, n, v)
def obj_getattribute(it, a, k): return it.raw_getattr(a[0], a[1])
def obj_delattr(it, a, k): it.raw_delattr(a[0], a[1])
def obj_new(it, a, k): return Obj(it.ctx, a[0], a[0].name)

def make_builtins(it):
    b = {}
    def add(n, f): b[n] = Builtin(n, f)
    add('len', b_len); add('isinstance', b_isinstance); add('hasattr', b_hasattr); add('getattr', b_getattr)
    add('setattr', b_setattr); add('max', minmax('max')); add('min', minmax('min')); add('range', b_range)
    add('enumerate', b_enumerate); add('sorted', b_sorted); add('reversed', b_reversed); add('next', b_next)
    add('iter', b_iter); add('ord', b_ord); add('divmod', b_divmod); add('any', b_anyall(True))
    add('all', b_anyall(False)); add('zip', b_zip); add('super', b_super); add('abs', b_abs)
    add('callable', b_callable); add('id', b_id)
    for n in ('repr', 'str', 'hex', 'print', 'hash', 'vars', 'dir', 'format'): add(n, lambda it, a, k, n=n: Opaque(n))
    add('issubclass', lambda it, a, k: isinstance(a[0], ClassVal) and a[1] in a[0].mro())
    add('map', lambda it, a, k: Opaque('map'))
    add('chr', b_chr)
    add('sum', lambda it, a, k: Opaque('sum'))
    def typ(n, make):
        t = T(n)
        t.make = make
        b[n] = t
    typ('int', b_int); typ('list', boxed('list', make_list)); typ('tuple', b_tuple); typ('dict', boxed('dict', b_dict)); typ('set', boxed('set', b_set))
    typ('bytes', b_bytes); typ('bytearray', b_bytes); typ('bool', lambda it, a, k: it.truth(a[0]))
    typ('slice', None); typ('float', lambda it, a, k: Opaque('float')); typ('type', b_type); typ('frozenset', b_set)
    b['str'] = T('str'); T('str').make = lambda it, a, k: Opaque('str')
    o = T('object')
    o.attrs = {'__setattr__': Builtin('object.__setattr__', obj_setattr),
               '__getattribute__': Builtin('object.__getattribute__', obj_getattribute),
               '__delattr__': Builtin('object.__delattr__', obj_delattr),
               '__new__': Builtin('object.__new__', obj_new)}
    o.make = lambda it, a, k: Obj(it.ctx, None, 'object')
    b['object'] = o
    for n in ('property', 'staticmethod', 'classmethod'):
        add(n, lambda it, a, k, n=n: {'property': PropM, 'staticmethod': StaticM, 'classmethod': ClassM}[n](a[0]))
    b['NotImplemented'] = Opaque('NotImplemented')
    b['True'], b['False'], b['None'] = True, False, None
    def std_error(what): return StructError if what == 'struct' else ZlibError
    it.std_error = std_error
    return b


# ---------------------------------------------------------------- dispatch

class ObjDict(Native):
    """obj.__dict__"""
    def __init__(self, it, o):
        self.o = o
        HeapObj.__init__(self, it.ctx, 'dict of %s' % o.name)
    def truth(self, it): return bool(self.o.c)
    def attr(self, it, name):
        if name == 'get':
            return Builtin('get', lambda it, a, k: self.o.c.get(a[0], a[1] if len(a) > 1 else None))
        raise Unsupported('__dict__.' + name)
    def contains(self, it, x): return x in self.o.c

def native_getattr(it, o, name):
    if isinstance(o, ListV):
        if not hasattr(list, name): it.raise_(AttributeError)
        return list_method(it, o, name)
    if isinstance(o, DictV): return dict_method(it, o, name)
    if isinstance(o, Native): return o.attr(it, name)
    if isinstance(o, Ident): return o.kind.attr(it, o, name)
    if is_bytes(o): return bytes_method(it, o, name)
    if isinstance(o, str):
        if name == 'encode':
            return Builtin('encode', lambda it, a, k: o.encode(*a))
        if name == 'join': return Builtin('join', lambda it, a, k: Opaque('str'))
        if name in ('read', 'write', 'seek'): it.raise_(AttributeError)
        return Builtin('str.' + name, lambda it, a, k: getattr(o, name)(*a)
                       if all(isinstance(x, (str, int)) for x in a) else Opaque('str'))
    if isinstance(o, NativeClass):
        if name in o.attrs: return o.attrs[name]
        if name == '__name__': return o.name
        if name == '__slots__': it.raise_(AttributeError)
        raise Unsupported('%s.%s' % (o.name, name))
    if isinstance(o, type) and issubclass(o, BaseException):
        if name == '__init__': return none_fn('__init__')
        raise Unsupported('%s.%s' % (o.__name__, name))
    if isinstance(o, KwDict) and name in ('items', 'keys', 'values'):
        return Builtin(name, lambda it, a, k: tuple(getattr(o.d, name)()))
    if isinstance(o, SliceV):
        return {'start': o.start, 'stop': o.stop, 'step': o.step}[name]
    if isinstance(o, GenObj):
        if name in ('__next__', 'next'): return Builtin('next', lambda it, a, k: b_next(it, [o], {}))
        if name == 'close': return none_fn('close')
    if isinstance(o, FuncVal):
        if name == '__name__': return o.node.name
        if name == '__doc__': return None
    if isinstance(o, Bound) and name in ('__self__', '__func__'):
        return o.obj if name == '__self__' else o.f
    if isinstance(o, tuple) and name in ('index', 'count'): raise Unsupported('tuple.' + name)
    if is_int(o) or is_boolv(o) or o is None or isinstance(o, tuple):
        it.raise_(AttributeError)
    raise Unsupported('attribute %s of %r' % (name, o))

def native_getitem(it, o, i):
    if isinstance(o, OpV): return o.getitem(it, i)
    if isinstance(i, SliceV) and i.step is None:
        if is_bytes(o): return bytes_slice(it, o, i)
        if isinstance(o, (tuple, str)) and all(x is None or isinstance(x, int) for x in (i.start, i.stop)):
            return o[i.start:i.stop]
        if isinstance(o, ListV): return list_slice(it, o, i)
        if isinstance(o, TextV): return TextV(to_bytes(bytes_slice(it, o.t, i)))
        if isinstance(o, Opaque): return Opaque(o.what)
        raise Unsupported('slice of %r' % (o,))
    if is_bytes(o): return bytes_item(it, o, i)
    if isinstance(o, (tuple, str)):
        if isinstance(i, int):
            if not -len(o) <= i < len(o): it.raise_(IndexError)
            return o[i]
        if isinstance(o, tuple) and is_int(i):
            i = to_int(i)
            n = len(o)
            if o and all(is_bytes(x) for x in o) and all(isinstance(x, bytes) or (z3.is_app(x) and x.decl().name() == 'be1'
                    and simp(x.arg(0)) == k) for k, x in enumerate(o)) and n == 256:
                if not it.ctx.branch(And(i >= 0, i < 256)): raise Unsupported('index of all_bytes')
                return be1(i)
            if not it.ctx.branch(And(i >= -n, i < n)): it.raise_(IndexError)
            for k in range(n):
                if it.ctx.branch(Or(i == k, i == k - n)): return o[k]
            raise PathEnd()
    if isinstance(o, ListV):
        if isinstance(i, int) and o.concrete():
            n = len(o.c['items'])
            if not -n <= i < n: it.raise_(IndexError)
            return o.c['items'][i]
        if o.concrete():
            return native_getitem(it, o.c['items'], i)
        j = list_index(it, o, i)
        return o.ek.unpack(it.ctx, o.at(j))
    if isinstance(o, DictV):
        if o.c['dom'] is None or not it.ctx.branch(o.has(i)): it.raise_(KeyError, i)
        return dict_at(it, o, i)
    if isinstance(o, Opaque): return Opaque(o.what + '[]')
    if isinstance(o, KwDict):
        if i not in o.d: it.raise_(KeyError, i)
        return o.d[i]
    if isinstance(o, Native): return o.getitem(it, i)
    raise Unsupported('item of %r' % (o,))

def list_slice(it, l, s):
    if l.concrete() and all(x is None or isinstance(x, int) for x in (s.start, s.stop)):
        return ListV(it.ctx, 'list', items=l.c['items'][s.start:s.stop])
    ctx = it.ctx
    c = copy_list(it, l)
    c.symbolize()
    n = to_int(c.c['n'])
    lo, hi = clip(it, s.start, n, 0), clip(it, s.stop, n, n)
    if ctx.branch(lo >= hi):
        return ListV(ctx, 'list', n=z3.IntVal(0), arrs=c.arrs(), ek=c.ek)
    if ctx.entails(lo == 0):
        return ListV(ctx, 'list', n=hi, arrs=c.arrs(), ek=c.ek)
    arrs = []
    k = z3.Int('k')
    for x in c.arrs():
        y = ctx.fresh_const(x.sort(), 'slice')
        ctx.assume(z3.ForAll([k], y[k] == x[k + lo], patterns=[y[k]]))
        ctx.assume(z3.ForAll([k], y[k - lo] == x[k], patterns=[x[k]]))
        arrs.append(y)
    return ListV(ctx, 'list', n=simp_t(hi - lo), arrs=arrs, ek=c.ek)

def native_setitem(it, o, i, v):
    if isinstance(o, ListV):
        if isinstance(i, SliceV): raise Unsupported('slice assignment')
        if o.concrete() and isinstance(i, int):
            items = list(o.c['items'])
            if not -len(items) <= i < len(items): it.raise_(IndexError)
            items[i] = v
            o.c['items'] = tuple(items)
            return
        o.symbolize()
        j = list_index(it, o, i)
        o.setsym(o.c['n'], [z3.Store(a, j, t) for a, t in zip(o.arrs(), o.ek.pack(v))])
        return
    if isinstance(o, SetV): it.raise_(TypeError)
    if isinstance(o, DictV): return dict_set(it, o, i, v)
    if isinstance(o, Opaque): return
    if isinstance(o, KwDict):
        o.d[i] = v
        return
    if isinstance(o, FamRef):
        f, _ = o.fam.cls.lookup('__setitem__')
        return it.call(Bound(f, o), [i, v])
    if isinstance(o, Native): return o.setitem(it, i, v)
    if isinstance(o, tuple) or is_bytes(o): it.raise_(TypeError)
    raise Unsupported('item assignment to %r' % (o,))

def native_delitem(it, o, i):
    if isinstance(o, DictV) and not o.is_set: return dict_del(it, o, i)
    if isinstance(o, ListV):
        if isinstance(i, SliceV):
            n = to_int(o.length())
            if i.start is None and i.stop is None:
                return list_clear(it, o)
            if i.stop is None:
                o.symbolize()
                lo = clip(it, i.start, n, 0)
                o.setsym(lo, o.arrs())
                return
            raise Unsupported('slice deletion')
        list_pop(it, o, i)
        return
    if isinstance(o, FamRef):
        f, _ = o.fam.cls.lookup('__delitem__')
        return it.call(Bound(f, o), [i])
    if isinstance(o, KwDict):
        del o.d[i]
        return
    if isinstance(o, OpV): return o.delitem(it, i)
    raise Unsupported('item deletion of %r' % (o,))

class OpV(Native):
    """a value whose operations are defined by a contract: binop, inplace, compare, contains, getitem, ..."""
    pytype = 'object'
    def iter(self, it): raise Unsupported('iteration over %s' % self.name)

CMP = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}
FLIP = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}
OPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor'}

def compare_hook(it, op, a, b):
    n = CMP[type(op)]
    if isinstance(a, Ident) and hasattr(a.kind, 'compare'): return a.kind.compare(it, n, a, b)
    if isinstance(a, Obj):
        f, _ = a.cls.lookup('__%s__' % n)
        if f is not None: return it.call(Bound(f, a), [b])
    if isinstance(a, OpV):
        if isinstance(b, Obj):
            f, _ = b.cls.lookup('__%s__' % FLIP[n])
            if f is not None: return it.call(Bound(f, b), [a])
        return a.compare(it, n, b)
    if isinstance(b, OpV): return b.compare(it, FLIP[n], a)
    return None

def binop_hook(it, t, a, b):
    if isinstance(a, OpV) or isinstance(b, OpV) and not isinstance(a, Obj):
        n = OPS.get(t)
        if n is None: raise Unsupported('operator')
        if isinstance(b, Obj):
            f, _ = b.cls.lookup('__r%s__' % n)
            if f is None: it.raise_(TypeError)
            return it.call(Bound(f, b), [a])
        return a.binop(it, n, b) if isinstance(a, OpV) else b.binop(it, 'r' + n, a)
    if t is ast.Mult and ((is_int(a) and isinstance(b, float)) or (isinstance(a, float) and is_int(b))):
        n, f = (a, b) if is_int(a) else (b, a)
        if is_z(n): return ScaledV(n, f)
    return None

def obj_attr(it, o, name):
    if name in ('__getattribute__', '__setattr__', '__delattr__'):
        return Bound(T('object').attrs[name], o)
    if name == '__init__': return none_fn('__init__')
    return None
