"""
Contracts of btree.py (C09, C10, and C11 for its nodes).

A node and what is below it has a value, of the sort N: the keys in it (Has), the values of the keys (Val), its size, its
height, and its own items (IK, IV) and children (KD).  A method of a node is verified for every valid value of its node: the
keys in strict order, the keys of each child between the items around it, the children of one height and with t-1 to 2t-1
items, and the counts correct (or unknown, as in trees stored by old versions).  What a method calls is known by its contract
only, so the recursion goes down by induction on the height.  Keys are reals: what is proved of them uses nothing but that
they are totally ordered, and every countable total order is one of a set of reals.
"""
from pyvc.engine import *
from pyvc import natives as NA
from pyvc.natives import *
from pyvc.interp import Contract, same
from pyvc.runner import contract, CONTRACTS, ALL

MOD = 'durus.btree:'
ForAll, MP = z3.ForAll, z3.MultiPattern
Real = z3.RealSort()
N = z3.DeclareSort('Node')
Has = z3.Function('Has', N, Real, B)
ValOf = z3.Function('ValOf', N, Real, Val)
pos = z3.Function('pos', N, Real, I)
size, ht, nit, cnt = [z3.Function(x, N, I) for x in ('size', 'ht', 'nit', 'cnt')]
null = z3.Function('null', N, B)
IK = z3.Function('IK', N, z3.ArraySort(I, Real))
IV = z3.Function('IV', N, z3.ArraySort(I, Val))
KD = z3.Function('KD', N, z3.ArraySort(I, N))
PS = z3.Function('PS', z3.ArraySort(I, N), I, I)        # PS(a, m): sum of size(a[i]) for i < m
T = z3.Int('minimum_degree')
i_, j_ = z3.Ints('i j')
k_ = z3.Const('k', Real)

class KKey(KIdent):
    sorts = property(lambda s: [Real])
    def compare(self, it, n, a, b):
        if not (isinstance(b, Ident) and b.kind == a.kind): raise Unsupported('comparison with a key')
        return simp({'lt': a.t < b.t, 'le': a.t <= b.t, 'gt': a.t > b.t, 'ge': a.t >= b.t}[n])
KKEY = KKey()
KITEM = KTuple(KKEY, VAL)

class KRaw(Kind):
    sorts = property(lambda s: [N])
    def unpack(self, ctx, t): return t[0]
    def pack(self, v):
        if is_z(v) and v.sort() == N: return [v]
        raise Unsupported('node expected, got %r' % (v,))
KRAW = KRaw()
SORT_KINDS['Node'] = KRAW

def iterating(ctx): return any(w.startswith('in an iteration') for w in ctx.where)

# ------------------------------------------------------------ values

def known(v):
    """what is known of any valid value"""
    return [And(ht(v) >= 0, nit(v) >= 0, nit(v) <= 2 * T - 1, Implies(Not(null(v)), cnt(v) == size(v)))]

def ordered(ik, n):
    return ForAll([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < n), ik[i_] < ik[j_]), patterns=[MP(ik[i_], ik[j_])])

def kids_ok(kd, n, h):
    c = kd[i_]
    return ForAll([i_], Implies(And(0 <= i_, i_ <= n), And(ht(c) == h - 1, ht(c) >= 0, nit(c) >= T - 1, nit(c) <= 2 * T - 1,
        Implies(Not(null(c)), cnt(c) == size(c)))), patterns=[kd[i_]])

def between(ik, kd, n, Has=Has):
    return ForAll([i_, k_], Implies(And(0 <= i_, i_ <= n, Has(kd[i_], k_)), And(Or(i_ == 0, ik[i_ - 1] < k_), Or(i_ == n, k_ < ik[i_]))),
        patterns=[Has(kd[i_], k_)])

def content(v, ik, iv, kd, n, leaf):
    """the keys and the values of a node, by its items and children"""
    p = pos(v, k_)
    here = And(p < n, ik[p] == k_)
    return [ForAll([k_], And(0 <= p, p <= n, Or(p == 0, ik[p - 1] < k_), Or(p == n, k_ <= ik[p])), patterns=[p]),
            ForAll([k_], And(0 <= p, Has(v, k_) == Or(here, And(Not(leaf), Has(kd[p], k_)))), patterns=[Has(v, k_)]),
            ForAll([k_], ValOf(v, k_) == If(here, iv[p], ValOf(kd[p], k_)), patterns=[ValOf(v, k_)])]

def own(v, ik, n):
    """(follows from the order: a lemma)"""
    return lambda i: Implies(And(0 <= i, i < n), Has(v, ik[i]))

Own = z3.Function('Own', N, Real, B)     # is the key of one of the items of the node itself
def owns(v, ik, n): return ForAll([i_], Implies(And(0 <= i_, i_ < n), Own(v, ik[i_])), patterns=[ik[i_]])

Mention = z3.Function('Mention', B, B)      # (of no meaning: makes the solver look at a term)
MentionV = z3.Function('MentionV', Val, B)

def kids_in(v, kd, n):
    """(follows: a lemma)"""
    return ForAll([i_, k_], Implies(And(0 <= i_, i_ <= n, Has(kd[i_], k_)), Has(v, k_)), patterns=[Has(kd[i_], k_)])

def valid(v):
    ik, iv, kd, n, h = IK(v), IV(v), KD(v), nit(v), ht(v)
    leaf = h == 0
    return known(v) + content(v, ik, iv, kd, n, leaf) + [ordered(ik, n), owns(v, ik, n),
        size(v) == If(leaf, n, n + PS(kd, n + 1)),
        Implies(Not(leaf), And(kids_ok(kd, n, h), between(ik, kd, n), between(ik, kd, n, Own), kids_in(v, kd, n)))]

# ------------------------------------------------------------ objects

class CountV(OpV):
    """a count, or a _NullCount"""
    def __init__(self, ctx, isnull, t):
        HeapObj.__init__(self, ctx, 'count')
        self.isnull, self.t = isnull, t
    def binop(self, it, op, b):
        if isinstance(b, CountV): o, u = b.isnull, b.t
        else: o, u = z3.BoolVal(False), to_int(b)
        r = {'add': self.t + u, 'radd': self.t + u, 'sub': self.t - u, 'rsub': u - self.t}.get(op)
        if r is None: raise Unsupported('operator on a count')
        return CountV(it.ctx, simp_b(Or(self.isnull, o)), simp_t(r))
    def inplace(self, it, op, b): return self.binop(it, op, b)
    def isinst(self, it, cls):
        if cls is it.resolve(MOD + '_NullCount'): return it.ctx.branch(self.isnull)
        if cls is NA.T('int'): return not it.ctx.branch(self.isnull)
        raise Unsupported('type of a count')
    def number(self, it):
        if it.ctx.branch(self.isnull): it.raise_(TypeError)
        return self.t
    def compare(self, it, op, b):
        t = self.number(it)
        return it.compare({'eq': ast.Eq, 'ne': ast.NotEq, 'lt': ast.Lt, 'le': ast.LtE, 'gt': ast.Gt, 'ge': ast.GtE}[op](), t, b)
    def truth(self, it): return it.ctx.branch(Or(self.isnull, self.t != 0))

def simp_b(t): return to_bool(simp(t))

class ItemsV(ListV):
    """The items of a valid node, as long as they are not changed"""
    def at(self, i):
        if hasattr(self, 'v') and same(self.c['a0'], IK(self.v)): self.ctx.assume(own(self.v, IK(self.v), nit(self.v))(to_int(i)))
        return ListV.at(self, i)

class NodeObj(Obj):
    """A node, as the code has it; v: its value when it was last known as a whole (None: it is new)"""
    def __init__(self, it, v=None, name='node'):
        Obj.__init__(self, it.ctx, it.resolve(MOD + 'BNode'), name)
        self.it, self.dirty, self.pending, self.new = it, False, False, v is None
        it.ctx.ghost.setdefault('nodes', []).append(self)
        self.reset(v)
    def reset(self, v):
        self.v, self.items, self.nodes, self.opened = v, None, 'unknown', False
        if v is None:
            self.items, self.nodes, self.opened = self.newlist(), None, True
            self.c['null'], self.c['cnt'] = z3.BoolVal(False), z3.IntVal(0)
        else:
            self.c['null'], self.c['cnt'] = null(v), cnt(v)
    def newlist(self, l=None):
        l = l or ListV(self.ctx, 'items', items=())
        l.symbolize(KITEM)
        return l
    def open(self):
        if not self.opened:
            self.opened = True
            for f in valid(self.v): self.ctx.assume(f)
            self.items = ItemsV(self.ctx, 'items', n=nit(self.v), arrs=[IK(self.v), IV(self.v)], ek=KITEM)
            self.items.v = self.v
            self.ctx.ghost.setdefault('opened', []).append(self.v)
        return self
    def open_nodes(self):
        self.open()
        if self.nodes == 'unknown':
            if self.ctx.branch(ht(self.v) == 0): self.nodes = None
            else: self.nodes = KidsV(self.it, ListV(self.ctx, 'kids', n=simp_t(nit(self.v) + 1), arrs=[KD(self.v)], ek=KRAW), size(self.v) - nit(self.v))
        return self.nodes
    # attributes
    def raw_get(self, it, name):
        if name == 'items': return self.open().items
        if name == 'nodes': return self.open_nodes()
        if name == '_count': return CountV(it.ctx, self.c['null'], self.c['cnt'])
        if name == 'minimum_degree': return T
        if name == '__class__': return Builtin('node class', lambda it, a, k: new_node(it))
        if name == '_p_note_change': return Builtin(name, lambda it, a, k: self.note())
        v, c = self.cls.lookup(name)
        if isinstance(v, FuncVal): return Bound(v, self)
        raise Unsupported('attribute %s of a node' % name)
    def note(self): self.dirty = True
    def raw_set(self, it, name, v):
        self.dirty = True
        if name == '_count':
            if isinstance(v, CountV): self.c['null'], self.c['cnt'] = v.isnull, v.t
            else: self.c['null'], self.c['cnt'] = z3.BoolVal(False), to_int(v)
            return
        if iterating(it.ctx) and not self.new: raise Unsupported('change of a node in a loop')
        self.open_nodes()
        if name == 'items':
            if not isinstance(v, ListV): raise Unsupported('items: %r' % (v,))
            self.items = self.newlist(v)
        elif name == 'nodes':
            if isinstance(self.nodes, KidsV): self.nodes.single(it)
            if isinstance(v, ListV) and v.concrete() and all(isinstance(x, NodeObj) for x in v.c['items']) and v.c['items']:
                k = KidsV(it, ListV(it.ctx, 'kids', n=z3.IntVal(0), arrs=[it.ctx.fresh_const(z3.ArraySort(I, N), 'kids')], ek=KRAW), z3.IntVal(0))
                for x in v.c['items']: k.insert(it, k.l.c['n'], x)
                v = k
            if v is not None and not isinstance(v, KidsV): raise Unsupported('nodes: %r' % (v,))
            self.nodes = v
        else: raise Unsupported('attribute %s of a node is set' % name)
    # the value
    def structure_changed(self):
        if self.v is None: return True
        if not self.opened: return False
        if not same(self.items.c['n'], nit(self.v)) or not all(same(a, b) for a, b in zip(self.items.arrs(), (IK(self.v), IV(self.v)))): return True
        if self.nodes == 'unknown': return False
        if self.nodes is None: return False if self.was_leaf() else True
        l = self.nodes.l
        return not same(l.c['n'], simp_t(nit(self.v) + 1)) or not same(l.arrs()[0], KD(self.v))
    def was_leaf(self): return self.ctx.entails(ht(self.v) == 0)
    def below_changed(self): return isinstance(self.nodes, KidsV) and any(o.changed() for t, o in self.nodes.objs)
    def count_changed(self): return self.v is None or not same(self.c['null'], null(self.v)) or not same(self.c['cnt'], cnt(self.v))
    def changed(self): return self.structure_changed() or self.count_changed() or self.below_changed()
    def entry(self):
        """a value to stand for the node in the array of its parent"""
        if self.v is not None: return self.v
        if not hasattr(self, 'name_v'): self.name_v = self.ctx.fresh_const(N, 'entry')
        return self.name_v
    def value(self, why='valid node'):
        """The value; if the node has been changed, prove that it is valid."""
        ctx = self.ctx
        if not self.changed(): return self.v
        if self.structure_changed(): self.pending = True
        self.open_nodes()
        v = ctx.fresh_const(N, 'v')
        n, leaf = to_int(self.items.c['n']), self.nodes is None
        ctx.assume(And(nit(v) == n, IK(v) == self.items.arrs()[0], IV(v) == self.items.arrs()[1]))
        ik, iv, kd = IK(v), IV(v), KD(v)
        ctx.prove(n <= 2 * T - 1, why + ': not too many items')
        ctx.prove(ordered(ik, n), why + ': the keys are in order')
        if leaf:
            ctx.assume(And(ht(v) == 0, size(v) == n))
        else:
            arr, tot = self.nodes.folded(why)
            h = ctx.int('height')
            ctx.assume(And(kd == arr, h == ht(arr[0]) + 1, ht(v) == h, size(v) == n + tot, PS(kd, n + 1) == tot))
            ctx.prove(to_int(self.nodes.l.c['n']) == n + 1, why + ': one child more than items')
            ctx.prove(kids_ok(kd, n, h), why + ': the children have one height and t-1 to 2t-1 items')
            ctx.prove(between(ik, kd, n), why + ': the keys of a child are between the items around it')
        ctx.prove(Or(self.c['null'], self.c['cnt'] == size(v)), why + ': the count is right')
        ctx.assume(And(null(v) == self.c['null'], cnt(v) == self.c['cnt']))
        for f in content(v, ik, iv, kd, n, z3.BoolVal(leaf)): ctx.assume(f)
        for b in ctx.ghost.get('opened', ()): ctx.assume(ForAll([k_], Mention(Has(b, k_)), patterns=[Has(v, k_)]))
        for b in ctx.ghost.get('opened', ()): ctx.assume(ForAll([k_], MentionV(ValOf(b, k_)), patterns=[ValOf(v, k_)]))
        self.reset(v)
        return v
    def become(self, v):
        """after a method that is known by its contract"""
        if iterating(self.ctx) and not self.new: raise Unsupported('change of a node in a loop')
        for f in known(v): self.ctx.assume(f)
        self.reset(v)

def new_node(it):
    o = NodeObj(it, None, 'new node')
    f, _ = o.cls.lookup('__init__')
    it.call(Bound(f, o), [])
    return o

def registered(it):
    """Every node that was changed has been registered as changed (C11)."""
    bad = [o for o in it.ctx.ghost.get('nodes', []) if not o.new and not o.dirty and (o.pending or o.structure_changed())]
    return [('a node that is changed is registered as changed', z3.BoolVal(not bad))]

class KidsV(OpV):
    """The list of the children.  l: the values, where objs has no object that stands for the child."""
    pytype = 'list'
    def __init__(self, it, l, tot):
        HeapObj.__init__(self, it.ctx, 'children')
        self.l, self.tot, self.objs, self.given = l, simp_t(tot), [], []
        it.ctx.assume(PS(l.arrs()[0], 0) == 0)
    def check(self, it):
        if self.given: it.ctx.prove(z3.BoolVal(False), 'the children are not in the lists of two nodes')
    def n(self): return to_int(self.l.c['n'])
    def same_index(self, it, a, b):
        if it.ctx.entails(a == b, 1000): return True
        if it.ctx.entails(a != b, 1000): return False
        return it.ctx.branch(a == b)
    def find(self, it, j):
        for t, o in self.objs:
            if self.same_index(it, t, j): return o
    def borrow(self, it, j):
        self.check(it)
        o = self.find(it, j)
        if o is None:
            o = NodeObj(it, self.l.at(j)[0], 'child')
            self.objs.append((j, o))
        return o
    def attr(self, it, name):
        if name == '__len__': return Builtin(name, lambda it, a, k: simp(self.n()))
        if name == 'insert': return Builtin(name, lambda it, a, k: self.insert(it, a[0], a[1]))
        if name == 'append': return Builtin(name, lambda it, a, k: self.insert(it, self.n(), a[0]))
        if name == 'pop': return Builtin(name, lambda it, a, k: self.pop(it, *a))
        raise Unsupported('list.%s of children' % name)
    def truth(self, it): return it.ctx.branch(self.n() != 0)
    def getitem(self, it, i):
        if isinstance(i, SliceV): return self.slice(it, i)
        return self.borrow(it, list_index(it, self.l, i))
    def setitem(self, it, i, o):
        self.mutable(it)
        if isinstance(i, SliceV) or not isinstance(o, NodeObj): raise Unsupported('assignment to children')
        j = list_index(it, self.l, i)
        old = self.l.at(j)[0]
        self.objs = [(t, x) for t, x in self.objs if not self.same_index(it, t, j)]
        self.tot = simp_t(self.tot - size(old) + size(o.entry()))
        self.l.setsym(self.n(), [z3.Store(self.l.arrs()[0], j, o.entry())])
        self.objs.append((j, o))
    def mutable(self, it):
        self.check(it)
        if iterating(it.ctx): raise Unsupported('change of the children in a loop')
    def insert(self, it, i, o):
        self.mutable(it)
        if not isinstance(o, NodeObj): raise Unsupported('insertion of %r' % (o,))
        j = clip(it, i, self.n(), 0)
        self.tot = simp_t(self.tot + size(o.entry()))
        list_insert(it, self.l, j, o.entry())
        self.objs = [(t if it.ctx.entails(t < j, 1000) else simp_t(t + 1) if it.ctx.entails(t >= j, 1000) else
                      (t if it.ctx.branch(t < j) else simp_t(t + 1)), x) for t, x in self.objs] + [(j, o)]
    def remove_at(self, it, j):
        self.mutable(it)
        self.tot = simp_t(self.tot - size(self.l.at(j)[0]))
        objs = [(t, x) for t, x in self.objs if not self.same_index(it, t, j)]
        self.objs = [(t if it.ctx.entails(t < j, 1000) else simp_t(t - 1) if it.ctx.entails(t > j, 1000) else
                      (t if it.ctx.branch(t < j) else simp_t(t - 1)), x) for t, x in objs]
        list_remove_at(it, self.l, j)
    def delitem(self, it, i):
        if isinstance(i, SliceV): raise Unsupported('slice deletion of children')
        self.remove_at(it, list_index(it, self.l, i))
    def pop(self, it, i=-1):
        j = list_index(it, self.l, i)
        o = self.borrow(it, j)
        self.remove_at(it, j)
        return o
    def sums(self, it, *ms):
        a = self.l.arrs()[0]
        it.ctx.assume(And(PS(a, 0) == 0, PS(a, self.n()) == self.tot))
    def single(self, it):
        if it.ctx.entails(self.n() == 1, 1000): it.ctx.assume(self.tot == size(self.l.at(0)[0]))
    def slice(self, it, s):
        ctx, a, n = it.ctx, self.l.arrs()[0], self.n()
        lo, hi = clip(it, s.start, n, 0), clip(it, s.stop, n, n)
        if not ctx.branch(lo < hi): raise Unsupported('empty slice of children')
        for lo2, hi2 in self.given: ctx.prove(Or(hi <= lo2, hi2 <= lo), 'the children are not in the lists of two nodes')
        self.given.append((lo, hi))
        self.sums(it)
        r = KidsV(it, list_slice(it, self.l, s), PS(a, hi) - PS(a, lo))
        for t, o in self.objs:
            if ctx.branch(And(lo <= t, t < hi)): r.objs.append((simp_t(t - lo), o))
        return r
    def binop(self, it, op, b):
        if op != 'add' or not isinstance(b, KidsV): raise Unsupported('%s of children' % op)
        self.check(it); b.check(it)
        n = self.n()
        r = KidsV(it, list_concat(it, self.l, b.l), self.tot + b.tot)
        r.objs = list(self.objs) + [(simp_t(t + n), o) for t, o in b.objs]
        self.given.append((z3.IntVal(0), n)); b.given.append((z3.IntVal(0), b.n()))
        return r
    def inplace(self, it, op, b): raise Unsupported('%s= of children' % op)
    def iter(self, it): return KidsIter(self)
    def reversed(self, it): raise Unsupported('reversed children')
    def folded(self, why):
        """the values of the children, and the sum of their sizes"""
        it = self.ctx.it
        self.check(it)
        a, tot = self.l.arrs()[0], self.tot
        for t, o in list(self.objs):
            if not o.changed() and same(a[t], o.v): continue
            if not o.changed() and o.v is not None and self.ctx.entails(a[t] == o.v, 1000): continue
            old = o.entry() if o.v is None else a[t]
            v = o.value('child: ' + why)
            tot = tot - size(old) + size(v)
            a = z3.Store(a, t, v)
        return a, simp_t(tot)

class KidsIter(Iteration):
    def __init__(self, k): self.k, self.n0 = k, k.n()
    def more(self, it, g): return to_int(g.c['i']) < self.n0
    def always(self, it, g):
        i, a = to_int(g.c['i']), self.k.l.arrs()[0]
        if any(o.changed() for t, o in self.k.objs): raise Unsupported('iteration over children that were changed')
        return And(i >= 0, Or(self.n0 < 0, i <= self.n0), PS(a, 0) == 0, PS(a, self.n0) == self.k.tot, PS(a, i + 1) == PS(a, i) + size(a[i]))
    def element(self, it, g):
        return self.k.borrow(it, to_int(g.c['i']))

# ------------------------------------------------------------ contracts of nodes

def newv(ctx, name):
    v = ctx.fresh_const(N, name)
    for f in known(v): ctx.assume(f)
    return v

class NodeC(Contract):
    props = ['C09', 'C10']
    timeout, deadline, cost = 10000, 400, 20
    mutates = False
    key = None
    def setup(self, it):
        it.ctx.assume(T >= 2)
        it.v0 = newv(it.ctx, 'v0')
        args = [NodeObj(it, it.v0)]
        if self.key: args.append(Ident(KKEY, it.ctx.fresh_const(Real, 'key')))
        return args + self.more(it), {}
    def more(self, it): return []
    def verifying(self, cx): return cx.it.cx is cx if hasattr(cx.it, 'cx') else True
    def me(self, cx): return cx.a['self']
    def pre(self, cx):
        if cx.old is None and getattr(cx.it, 'cx', cx) is cx and not hasattr(cx, 'v0'): cx.v0 = cx.it.v0
        elif not hasattr(cx, 'v0'): cx.v0 = self.me(cx).value('before %s' % self.target.split('.')[-1])
        return self.requires(cx, cx.v0)
    def modifies(self, cx): return [self.me(cx)] if self.mutates and cx.it.cx is cx else []
    def requires(self, cx, v): return []
    def result(self, cx):
        if self.mutates:
            cx.v1 = cx.ctx.fresh_const(N, 'v1')
            self.me(cx).become(cx.v1)
        return self.returns(cx)
    def returns(self, cx): return None
    def post(self, cx):
        if getattr(cx.it, 'cx', None) is cx:
            cx.v1 = self.me(cx).value('at the end')
            return registered(cx.it) + ([] if self.mutates else [('the node is as it was', cx.v1 == cx.v0)]) + self.ensures(cx)
        return self.ensures(cx)
    def ensures(self, cx): return []

def keys_are(v1, f, *others):
    return ForAll([k_], Has(v1, k_) == f(k_), patterns=[Has(v1, k_)] + [Has(v, k_) for v in others])

@contract
class get_position(NodeC):
    target = MOD + 'BNode.get_position'
    key = True
    def pre(self, cx):
        # (of the items as they are now; the node need not be valid)
        l = self.me(cx).open().items
        cx.ik, cx.n = l.arrs()[0], to_int(l.c['n'])
        return [('the keys are in order', ordered(cx.ik, cx.n))]
    def returns(self, cx): return cx.ctx.int('position')
    def post(self, cx):
        r, k, l = to_int(cx.result), cx.a['key'].t, self.me(cx).items
        out = [('', And(0 <= r, r <= cx.n, Or(r == 0, cx.ik[r - 1] < k), Or(r == cx.n, k <= cx.ik[r])))]
        if cx.it.cx is cx: out += registered(cx.it) + [('the items are as they were', z3.BoolVal(not self.me(cx).changed()))]
        return out
    @staticmethod
    def inv(L):
        i, l = L.ghost_i(), L['self'].open().items
        return [('', And(i <= to_int(l.c['n']), ForAll([j_], Implies(And(0 <= j_, j_ < i), l.arrs()[0][j_] < L['key'].t), patterns=[l.arrs()[0][j_]])))]
    loops = {0: inv.__func__}

@contract
class search(NodeC):
    target = MOD + 'BNode.search'
    key = True
    def returns(self, cx):
        v, k = cx.v0, cx.a['key']
        if cx.ctx.branch(Has(v, k.t)): return (k, ValOf(v, k.t))
        return None
    def ensures(self, cx):
        v, k, r = cx.v0, cx.a['key'].t, cx.result
        if r is None: return [('None: there is no such key', Not(Has(v, k)))]
        return [('the item of the key', And(Has(v, k), r[0].t == k, r[1] == ValOf(v, k)))]

class Extreme(NodeC):
    def requires(self, cx, v): return [('the node is not empty', nit(v) >= 1)]
    def returns(self, cx):
        k = cx.ctx.fresh_const(Real, 'extreme')
        return (Ident(KKEY, k), ValOf(cx.v0, k))
    def ensures(self, cx):
        v, (k, w) = cx.v0, cx.result
        return [('an item of the node', And(Has(v, k.t), w == ValOf(v, k.t))),
                ('no other key is beyond it', ForAll([k_], Implies(Has(v, k_), self.le(k.t, k_)), patterns=[Has(v, k_)]))]

@contract
class get_min_item(Extreme):
    target = MOD + 'BNode.get_min_item'
    def le(self, a, b): return a <= b

@contract
class get_max_item(Extreme):
    target = MOD + 'BNode.get_max_item'
    def le(self, a, b): return a >= b

def counting(L):
    s = L['self']
    l = s.open_nodes()
    if l is None: return []
    i, a, n = L.ghost_i(), l.l.arrs()[0], to_int(s.items.c['n'])
    return [('', Or(s.c['null'], s.c['cnt'] == n + PS(a, i)))]

@contract
class update_count(NodeC):
    target = MOD + 'BNode._update_count'
    inline_only = True
    mutates = True
    def ensures(self, cx): return [('', And(size(cx.v1) == size(cx.v0), keys_are(cx.v1, lambda k: Has(cx.v0, k))))]
    loops = {0: counting}

@contract
class get_count(NodeC):
    target = MOD + 'BNode.get_count'
    def returns(self, cx): return cx.ctx.int('count')
    def ensures(self, cx): return [('the number of the items', to_int(cx.result) == size(cx.v0))]
    @staticmethod
    def inv(L):
        s = L['self']
        l = s.open_nodes()
        if l is None: return []
        return [('', to_int(L['result']) == to_int(s.items.c['n']) + PS(l.l.arrs()[0], L.ghost_i()))]
    loops = {0: inv.__func__}

@contract
class get_level(NodeC):
    target = MOD + 'BNode.get_level'
    def returns(self, cx): return cx.ctx.int('level')
    def ensures(self, cx): return [('', to_int(cx.result) == ht(cx.v0))]

def stored(v0, v1, k, w):
    return [('the keys are those before and the new one', keys_are(v1, lambda x: Or(Has(v0, x), x == k), v0)),
            ('the value of the key is the new one', ValOf(v1, k) == w),
            ('the values of the others are those before', ForAll([k_], Implies(And(Has(v0, k_), k_ != k), ValOf(v1, k_) == ValOf(v0, k_)), patterns=[ValOf(v1, k_)])),
            ('the size grows by one if the key is new', size(v1) == size(v0) + If(Has(v0, k), 0, 1))]

@contract
class insert_item(NodeC):
    target = MOD + 'BNode.insert_item'
    props = ['C09', 'C10', 'C11']
    mutates = True
    def more(self, it): return [(Ident(KKEY, it.ctx.fresh_const(Real, 'key')), it.ctx.fresh_const(Val, 'value'))]
    def requires(self, cx, v): return [('the node is not full', nit(v) < 2 * T - 1)]
    def ensures(self, cx):
        v0, v1, (k, w) = cx.v0, cx.v1, cx.a['item']
        return stored(v0, v1, k.t, w) + [('the height is the same', ht(v1) == ht(v0)),
            ('there is at most one item more in this node', And(nit(v0) <= nit(v1), nit(v1) <= nit(v0) + 1))]

@contract
class split_child(NodeC):
    target = MOD + 'BNode.split_child'
    props = ['C09', 'C10', 'C11']
    inline_only = True
    mutates = True
    def more(self, it):
        p = it.ctx.int('position', lo=0)
        n = it.v0
        it.ctx.assume(And(ht(n) > 0, p <= nit(n), nit(KD(n)[p]) == 2 * T - 1, nit(n) < 2 * T - 1))
        return [p]
    def modifies(self, cx): return None if cx.it.cx is cx else []
    def setup(self, it):
        (me, p), kw = NodeC.setup(self, it)
        return [me, p, me.open_nodes().borrow(it, p)], {}
    def ensures(self, cx):
        v0, v1 = cx.v0, cx.v1
        return [('the contents are the same', And(size(v1) == size(v0), keys_are(v1, lambda x: Has(v0, x), v0),
                    ForAll([k_], Implies(Has(v0, k_), ValOf(v1, k_) == ValOf(v0, k_)), patterns=[ValOf(v1, k_)]))),
                ('', And(ht(v1) == ht(v0), nit(v1) == nit(v0) + 1))]

@contract
class delete(NodeC):
    target = MOD + 'BNode.delete'
    props = ['C09', 'C10', 'C11']
    deadline, cost = 900, 200
    key = True
    mutates = True
    dead = ('raise KeyError(key)',)
    def requires(self, cx, v):
        return [('the key is there', Has(v, cx.a['key'].t)), ('a node that has children has items', Or(ht(v) == 0, nit(v) >= 1))]
    def ensures(self, cx):
        v0, v1, k = cx.v0, cx.v1, cx.a['key'].t
        return [('the keys are the others', keys_are(v1, lambda x: And(Has(v0, x), x != k), v0)),
                ('the values of the others are those before', ForAll([k_], Implies(And(Has(v0, k_), k_ != k), ValOf(v1, k_) == ValOf(v0, k_)), patterns=[ValOf(v1, k_)])),
                ('the size is one less', size(v1) == size(v0) - 1),
                ('at most one item less in this node', Implies(nit(v0) >= T, And(ht(v1) == ht(v0), nit(v1) >= nit(v0) - 1))),
                ('a node that has children has items', Or(ht(v1) == 0, nit(v1) >= 1)),
                ('the height is the same, or one less for the root', Or(ht(v1) == ht(v0), And(ht(v1) == ht(v0) - 1, nit(v0) == 1)))]

class NullCountC(Contract):
    """(CountV takes this for granted: what is computed with an unknown count is unknown)"""
    props = ['C09']
    def setup(self, it): return [Obj(it.ctx, it.resolve(MOD + '_NullCount'), 'unknown'), it.ctx.int('other')], {}
    def post(self, cx): return [('it stays unknown', z3.BoolVal(cx.result is cx.a['self']))]
for _n in ('__add__', '__sub__', '__radd__', '__rsub__'):
    contract(type('null_count' + _n, (NullCountC,), dict(target=MOD + '_NullCount.' + _n)))

# ------------------------------------------------------------ generators of a node

class KReal(KRaw):
    sorts = property(lambda s: [Real])
    def pack(self, v):
        if is_z(v) and v.sort() == Real: return [v]
        raise Unsupported('key expected, got %r' % (v,))
SORT_KINDS['Real'] = KReal()

class SeqV(ListV):
    """What a generator of items yields: ordered, in the range, with none left out"""

class GenC(NodeC):
    """A generator of the items whose keys are in a range, in one order.  Ghosts: any (something was yielded), last (its key)"""
    up = True
    item = True
    part = 'item'
    def lt(self, a, b): return a < b if self.up else b < a
    def le(self, a, b): return Not(self.lt(b, a))
    def within(self, cx, k): return z3.BoolVal(True)
    def ghosts(self, cx): return {'any': z3.BoolVal(False), 'last': z3.RealVal(0)}
    def keyof(self, y): return y[0].t if self.part == 'item' else y.t
    def on_yield(self, cx, y):
        g, v = cx.yields.c, self.value0(cx)
        any_, last = to_bool(g['any']), g['last']
        if self.part == 'value':
            # (the values alone: that of some key, with no key between the last one and it)
            l = cx.it.cur_loop.iterable.l
            k = getattr(l, 'keys', l.arrs()[0])[cx.it.cur_loop.ghost_i()]
            w = y
        elif self.part == 'key': k, w = y.t, None
        else: k, w = y[0].t, y[1]
        out = [('a key of it', Has(v, k)), ('a key in the range', self.within(cx, k)), ('beyond the last one', Implies(any_, self.lt(last, k))),
               ('none is left out', ForAll([k_], Implies(And(Has(v, k_), self.within(cx, k_), Or(Not(any_), self.lt(last, k_))), self.le(k, k_)), patterns=[Has(v, k_)]))]
        if w is not None: out.append(('its value', w == ValOf(v, k)))
        g['any'], g['last'] = z3.BoolVal(True), k
        return out
    def value0(self, cx): return cx.v0
    def returns(self, cx):
        ctx, v = cx.ctx, self.value0(cx)
        sk, sv = ctx.fresh_const(z3.ArraySort(I, Real), 'sk'), ctx.fresh_const(z3.ArraySort(I, Val), 'sv')
        m = ctx.int('m', lo=0)
        idx = ctx.fresh_const(z3.ArraySort(Real, I), 'idx')
        ctx.assume(ForAll([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < m), self.lt(sk[i_], sk[j_])), patterns=[MP(sk[i_], sk[j_])]))
        ctx.assume(ForAll([i_], Implies(And(0 <= i_, i_ < m), And(Has(v, sk[i_]), self.within(cx, sk[i_]), sv[i_] == ValOf(v, sk[i_]))), patterns=[sk[i_]]))
        ctx.assume(ForAll([k_], Implies(And(Has(v, k_), self.within(cx, k_)), And(0 <= idx[k_], idx[k_] < m, sk[idx[k_]] == k_)), patterns=[Has(v, k_)]))
        l = SeqV(ctx, 'sequence', n=m, arrs={'item': [sk, sv], 'key': [sk], 'value': [sv]}[self.part], ek={'item': KITEM, 'key': KKEY, 'value': VAL}[self.part])
        l.keys = sk
        ctx.ghost['sequence'] = l
        return l
    def ensures(self, cx):
        if cx.it.cx is not cx: return []
        g, v = cx.yields.c, self.value0(cx)
        return [('none is left', ForAll([k_], Implies(And(Has(v, k_), self.within(cx, k_)), And(to_bool(g['any']), self.le(k_, g['last']))), patterns=[Has(v, k_)]))]

def gstate(L): 
    g = L.it.yields.c
    return to_bool(g['any']), g['last']

def entry_state(L):
    g = L.entry(L.it.yields).c
    return to_bool(g['any']), g['last']

def in_node(L):
    """the loops of the generators of a node"""
    c, cx, x, i = L.it.current_contract, L.it.cx, L.iterable, L.ghost_i()
    any_, last = gstate(L)
    any0, last0 = entry_state(L)
    if isinstance(x, (ListIter, NA.ReverseIter)):
        a = x.l.arrs()[0]
        return [('', And(Implies(i == 0, And(any_ == any0, Implies(any_, last == last0))),
                         Implies(i > 0, And(any_, last == (a[i - 1] if isinstance(x, ListIter) else a[x.n0 - i])))))]
    v = cx.v0
    ik, n = IK(v), nit(v)
    def done(k):
        if isinstance(x, NA.EnumIter): return And(i > 0, k <= ik[i - 1])
        p = x.lo + i * x.step
        if x.step > 0: return Or(p >= n, k < ik[p])
        return Or(p < 0, k > ik[p])
    return [('what was yielded so far', ForAll([k_], Implies(And(Has(v, k_), c.within(cx, k_)), And(any_, c.le(k_, last)) == done(k_)), patterns=[Has(v, k_)])),
            ('the last one', Implies(any_, And(Has(v, last), c.within(cx, last))))]

def gen_loops(target, spec): return {(target + ' yield from', k): spec for k in range(4)}

class NodeGen(GenC):
    pass

def node_gen(name, up, ranged=False, nloops=4):
    def within(self, cx, k):
        if not ranged: return z3.BoolVal(True)
        return k >= cx.a['key'].t if up else k < cx.a['key'].t
    d = dict(target=MOD + 'BNode.' + name, up=up, key=ranged, within=within, props=['C10'],
        loops={k: in_node for k in range(nloops)}, other_loops=gen_loops(MOD + 'BNode.' + name, in_node))
    return contract(type('node_' + name, (NodeGen,), d))

node_gen('__iter__', True, nloops=1)
node_gen('__reversed__', False)
node_gen('iter_from', True, True)
node_gen('iter_backward_from', False, True)

# ------------------------------------------------------------ the tree

class TreeObj(Obj):
    """A BTree: the value of its root, or the root as the code has it"""
    def __init__(self, it, v, name='tree'):
        Obj.__init__(self, it.ctx, it.resolve(MOD + 'BTree'), name)
        self.it, self.v, self.root, self.dirty = it, v, None, False
        self.c['v'] = v
        it.ctx.ghost.setdefault('trees', []).append(self)
    def raw_get(self, it, name):
        if name == 'root':
            if self.root is None or self.base is not None and not same(self.c['v'], self.base):
                self.base = self.c['v']
                self.root = NodeObj(it, self.base, 'root')
            return self.root
        if name == '_p_note_change': return Builtin(name, lambda it, a, k: self.note())
        v, c = self.cls.lookup(name)
        if isinstance(v, FuncVal): return Bound(v, self)
        raise Unsupported('attribute %s of a tree' % name)
    def note(self): self.dirty = True
    def raw_set(self, it, name, v):
        if name != 'root' or not isinstance(v, NodeObj): raise Unsupported('attribute %s of a tree is set' % name)
        if iterating(it.ctx): raise Unsupported('change of a tree in a loop')
        self.dirty = True
        self.root, self.base = v, None
    def value(self, why='valid tree'):
        if self.root is None or self.base is not None and not same(self.c['v'], self.base): return self.c['v']
        v = self.root.value(why)
        self.c['v'] = v
        if self.base is not None: self.base = v
        return v
    def become(self, v):
        for f in known(v) + [root_ok(v)]: self.ctx.assume(f)
        self.c['v'] = v
        self.root = None

def root_ok(v): return Or(ht(v) == 0, nit(v) >= 1)

class TreeC(NodeC):
    props = ['C09']
    def setup(self, it):
        it.ctx.assume(T >= 2)
        it.v0 = newv(it.ctx, 'v0')
        it.ctx.assume(root_ok(it.v0))
        args = [TreeObj(it, it.v0)]
        if self.key: args.append(Ident(KKEY, it.ctx.fresh_const(Real, 'key')))
        return args + self.more(it), {}
    def modifies(self, cx): return [self.me(cx)] if self.mutates else []
    def post(self, cx):
        if cx.it.cx is not cx: return self.ensures(cx)
        cx.v1 = self.me(cx).value('at the end')
        return registered(cx.it) + [('a root that has children has items', root_ok(cx.v1))] + \
            ([] if self.mutates else [('the tree is as it was', cx.v1 == cx.v0)]) + self.ensures(cx)
    def post_exc(self, cx):
        return [('the tree is as it was', self.me(cx).value('at the exception') == cx.v0)] + registered(cx.it) + self.ensures_exc(cx)
    def ensures_exc(self, cx): return []

def val(it, name): return it.ctx.fresh_const(Val, name)
def key(it, name): return Ident(KKEY, it.ctx.fresh_const(Real, name))

@contract
class tree_add(TreeC):
    target = MOD + 'BTree.add'
    props = ['C09', 'C11']
    key, mutates = True, True
    def more(self, it): return [val(it, 'value')]
    def ensures(self, cx): return stored(cx.v0, cx.v1, cx.a['key'].t, cx.a['value'])

@contract
class tree_setitem(tree_add):
    target = MOD + 'BTree.__setitem__'

@contract
class tree_getitem(TreeC):
    target = MOD + 'BTree.__getitem__'
    key = True
    raises = (KeyError,)
    def returns(self, cx):
        return ValOf(cx.v0, cx.a['key'].t)
    def ensures(self, cx):
        k = cx.a['key'].t
        return [('the value of the key', And(Has(cx.v0, k), cx.result == ValOf(cx.v0, k)))]
    def ensures_exc(self, cx): return [('there is no such key', Not(Has(cx.v0, cx.a['key'].t)))]

@contract
class tree_get(TreeC):
    target = MOD + 'BTree.get'
    key = True
    def more(self, it): return [val(it, 'default')]
    def returns(self, cx): return cx.ctx.fresh_const(Val, 'got')
    def ensures(self, cx):
        k = cx.a['key'].t
        return [('the value of the key, or the default', cx.result == If(Has(cx.v0, k), ValOf(cx.v0, k), cx.a['default']))]

class Membership(TreeC):
    key = True
    def returns(self, cx): return cx.ctx.fresh(BOOL, 'present')
    def ensures(self, cx): return [('whether the key is there', to_bool(cx.result) == Has(cx.v0, cx.a['key'].t))]

@contract
class tree_contains(Membership): target = MOD + 'BTree.__contains__'
@contract
class tree_has_key(Membership): target = MOD + 'BTree.has_key'

@contract
class tree_delitem(TreeC):
    target = MOD + 'BTree.__delitem__'
    props = ['C09', 'C11']
    key, mutates = True, True
    raises = (KeyError,)
    def ensures(self, cx):
        v0, v1, k = cx.v0, cx.v1, cx.a['key'].t
        return [('the key was there', Has(v0, k)), ('the keys are the others', keys_are(v1, lambda x: And(Has(v0, x), x != k), v0)),
                ('the values of the others are those before', ForAll([k_], Implies(And(Has(v0, k_), k_ != k), ValOf(v1, k_) == ValOf(v0, k_)), patterns=[ValOf(v1, k_)])),
                ('the size is one less', size(v1) == size(v0) - 1)]
    def ensures_exc(self, cx): return [('there is no such key', Not(Has(cx.v0, cx.a['key'].t)))]

@contract
class tree_setdefault(TreeC):
    target = MOD + 'BTree.setdefault'
    props = ['C09', 'C11']
    key, mutates = True, True
    def more(self, it): return [val(it, 'value')]
    def returns(self, cx): return cx.ctx.fresh_const(Val, 'got')
    def ensures(self, cx):
        v0, v1, k, w = cx.v0, cx.v1, cx.a['key'].t, cx.a['value']
        return [('the value of the key, or the new one', cx.result == If(Has(v0, k), ValOf(v0, k), w)),
                ('the keys are those before and this one', keys_are(v1, lambda x: Or(Has(v0, x), x == k), v0)),
                ('its value', ValOf(v1, k) == If(Has(v0, k), ValOf(v0, k), w)),
                ('the values of the others are those before', ForAll([k_], Implies(And(Has(v0, k_), k_ != k), ValOf(v1, k_) == ValOf(v0, k_)), patterns=[ValOf(v1, k_)])),
                ('the size', size(v1) == size(v0) + If(Has(v0, k), 0, 1))]

@contract
class tree_clear(TreeC):
    target = MOD + 'BTree.clear'
    props = ['C09', 'C11']
    mutates = True
    def ensures(self, cx):
        return [('there is no key', ForAll([k_], Not(Has(cx.v1, k_)), patterns=[Has(cx.v1, k_)])), ('the size is zero', size(cx.v1) == 0)]

@contract
class tree_len(TreeC):
    target = MOD + 'BTree.__len__'
    def returns(self, cx): return cx.ctx.int('len')
    def ensures(self, cx):
        r = cx.result
        if isinstance(r, CountV): return [('it is a number', Not(r.isnull)), ('the number of the items', r.t == size(cx.v0))]
        return [('the number of the items', to_int(r) == size(cx.v0))]

@contract
class tree_bool(TreeC):
    target = MOD + 'BTree.__nonzero__'
    def returns(self, cx):
        b = cx.ctx.fresh(BOOL, 'nonempty')
        cx.w = cx.ctx.fresh_const(Real, 'some')
        return b
    def ensures(self, cx):
        v, r = cx.v0, to_bool(cx.result)
        none = Implies(Not(r), ForAll([k_], Not(Has(v, k_)), patterns=[Has(v, k_)]))
        if cx.it.cx is not cx: return [('', And(none, r == (nit(v) >= 1), Implies(r, Has(v, cx.w))))]
        return [('no key if False', none), ('some key if True', Implies(r, Has(v, IK(v)[0]))), ('', r == (nit(v) >= 1))]

class TreeExtreme(TreeC):
    """(for an empty tree, an AssertionError)"""
    asserts_raise = True
    raises = (AssertionError,)
    returns = Extreme.returns
    ensures = Extreme.ensures
    def ensures_exc(self, cx): return [('the tree is empty', ForAll([k_], Not(Has(cx.v0, k_)), patterns=[Has(cx.v0, k_)]))]

@contract
class tree_get_min_item(TreeExtreme):
    target = MOD + 'BTree.get_min_item'
    le = get_min_item.le

@contract
class tree_get_max_item(TreeExtreme):
    target = MOD + 'BTree.get_max_item'
    le = get_max_item.le

@contract
class tree_depth(TreeC):
    target = MOD + 'BTree.get_depth'
    def returns(self, cx): return cx.ctx.int('depth')
    def ensures(self, cx): return [('', to_int(cx.result) == ht(cx.v0) + 1)]

@contract
class tree_note_change(TreeC):
    target = MOD + 'BTree.note_change_of_bnode_containing_key'
    props = ['C09', 'C11']
    key, mutates = True, True
    raises = (KeyError,)
    def ensures(self, cx):
        v0, v1, k = cx.v0, cx.v1, cx.a['key'].t
        return [('the contents are the same', And(Has(v0, k), size(v1) == size(v0), keys_are(v1, lambda x: Has(v0, x), v0),
                    ForAll([k_], Implies(Has(v0, k_), ValOf(v1, k_) == ValOf(v0, k_)), patterns=[ValOf(v1, k_)])))]
    def ensures_exc(self, cx): return [('there is no such key', Not(Has(cx.v0, cx.a['key'].t)))]

# generators of a tree

def in_tree(L):
    """a loop of a generator of a tree over a sequence that covers the range"""
    c, cx, x, i = L.it.current_contract, L.it.cx, L.iterable, L.ghost_i()
    any_, last = gstate(L)
    any0, last0 = entry_state(L)
    a = x.l.keys
    return [('', And(Implies(i == 0, And(any_ == any0, Implies(any_, last == last0))),
                     Implies(And(i > 0, any_), c.le(last, a[i - 1])),
                     Implies(any0, And(any_, c.le(last0, last))),
                     ForAll([j_], Implies(And(0 <= j_, j_ < i, c.within(cx, a[j_])), And(any_, c.le(a[j_], last))), patterns=[a[j_]])))]

class TreeGen(TreeC, GenC):
    props = ['C10']
    loops = {0: in_tree}
    returns, ensures, on_yield = GenC.returns, GenC.ensures, GenC.on_yield

def tree_gen(name, up, part='item', **kw):
    d = dict(target=MOD + 'BTree.' + name, up=up, part=part, other_loops=gen_loops(MOD + 'BTree.' + name, in_tree))
    d.update(kw)
    return contract(type('tree_' + name, (TreeGen,), d))

def flag(it, name): return it.ctx.fresh(BOOL, name)
tree_gen('iteritems', True)
tree_gen('iterkeys', True, 'key')
tree_gen('itervalues', True, 'value')
tree_gen('__iter__', True, 'key')
tree_gen('__reversed__', False, 'key')
tree_gen('items_backward', False)
def _from(self, cx, k): return Or(k > cx.a['key'].t, And(to_bool(cx.a['closed']), k == cx.a['key'].t))
def _until(self, cx, k): return Or(k < cx.a['key'].t, And(to_bool(cx.a['closed']), k == cx.a['key'].t))
tree_gen('items_from', True, key=True, within=_from, more=lambda self, it: [flag(it, 'closed')])
tree_gen('items_backward_from', False, key=True, within=_until, more=lambda self, it: [flag(it, 'closed')])

@contract
class tree_items_range(TreeGen):
    target = MOD + 'BTree.items_range'
    def more(self, it): return [key(it, 'start'), key(it, 'end'), flag(it, 'closed_start'), flag(it, 'closed_end')]
    def pre(self, cx):
        out = TreeGen.pre(self, cx)
        cx.up = cx.ctx.branch(cx.a['start'].t <= cx.a['end'].t)
        self.cx = cx
        return out
    def lt(self, a, b):
        return a < b if self.cx.up else b < a
    def within(self, cx, k):
        s, e, cs, ce = cx.a['start'].t, cx.a['end'].t, to_bool(cx.a['closed_start']), to_bool(cx.a['closed_end'])
        if cx.up: return And(Or(s < k, And(cs, s == k)), Or(k < e, And(ce, k == e)))
        return And(Or(s > k, And(cs, s == k)), Or(k > e, And(ce, k == e)))
    loops = {0: in_tree, 1: in_tree}
    other_loops = gen_loops(target, in_tree)

class Listing(TreeGen):
    """the list of what a generator yields"""
    loops = {}
    props = ['C10']
    def post(self, cx): return TreeC.post(self, cx)
    def ensures(self, cx):
        v, l = cx.v0, cx.result
        if cx.it.cx is not cx: return []
        n, a = to_int(l.length()), l.arrs()
        sk = a[0] if self.part != 'value' else cx.ctx.ghost['sequence'].keys
        out = [('in order', ForAll([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < n), sk[i_] < sk[j_]), patterns=[MP(sk[i_], sk[j_])])),
               ('keys of the tree', ForAll([i_], Implies(And(0 <= i_, i_ < n), Has(v, sk[i_])), patterns=[sk[i_]])),
               ('all of them', ForAll([k_], Implies(Has(v, k_), z3.Exists([i_], And(0 <= i_, i_ < n, sk[i_] == k_))), patterns=[Has(v, k_)]))]
        if self.part != 'key': out.append(('their values', ForAll([i_], Implies(And(0 <= i_, i_ < n), a[-1][i_] == ValOf(v, sk[i_])), patterns=[sk[i_]])))
        return out

for _n, _p in (('items', 'item'), ('keys', 'key'), ('values', 'value')):
    contract(type('tree_' + _n, (Listing,), dict(target=MOD + 'BTree.' + _n, part=_p)))

class MappingV(OpV):
    """something that has items()"""
    def __init__(self, ctx, l):
        HeapObj.__init__(self, ctx, 'mapping')
        self.l = l
    def attr(self, it, name):
        if name == 'items': return Builtin(name, lambda it, a, k: self.l)
        it.raise_(AttributeError)

@contract
class tree_update(TreeC):
    """with a sequence of pairs, a mapping, or another tree"""
    dead = ('self[key] = value',)
    assumes = ['update: keyword arguments are not covered']
    target = MOD + 'BTree.update'
    props = ['C09', 'C11']
    mutates = True
    raises = (TypeError,)
    def more(self, it):
        it.case = it.ctx.choose([None] * 5, 'the arguments')
        if it.case == 0: return []
        if it.case in (1, 4):
            it.seq = ListV(it.ctx, 'pairs', n=it.ctx.int('n', lo=0), arrs=[it.ctx.fresh_const(z3.ArraySort(I, Real), 'pk'), it.ctx.fresh_const(z3.ArraySort(I, Val), 'pv')], ek=KITEM)
            return [it.seq if it.case == 1 else MappingV(it.ctx, it.seq)]
        v = newv(it.ctx, 'other')
        it.ctx.assume(root_ok(v))
        it.other = v
        return [TreeObj(it, v, 'other')] * (it.case - 1)
    def ensures(self, cx):
        v0, v1, it = cx.v0, cx.v1, cx.it
        if it.case == 0: return [('nothing changes', v1 == v0)]
        if it.case == 3: return [('no second argument', z3.BoolVal(False))]
        if it.case == 2:
            v = it.other
            return [('the keys of both', keys_are(v1, lambda k: Or(Has(v0, k), Has(v, k)), v0, v)),
                    ('the values of the other, where it has the key', ForAll([k_], Implies(Has(v1, k_), ValOf(v1, k_) == If(Has(v, k_), ValOf(v, k_), ValOf(v0, k_))), patterns=[ValOf(v1, k_)]))]
        n, (pk, pv) = to_int(it.seq.length()), it.seq.arrs()
        li = it.li
        last = And(li[k_] < n, li[k_] >= -1, Implies(li[k_] >= 0, pk[li[k_]] == k_), ForAll([j_], Implies(And(0 <= j_, j_ < n, pk[j_] == k_), j_ <= li[k_]), patterns=[pk[j_]]))
        return [('(the last pair of each key)', ForAll([k_], last, patterns=[li[k_]])),
                ('the keys are those before and those of the pairs', keys_are(v1, lambda k: Or(Has(v0, k), li[k] >= 0), v0)),
                ('the value of a key is that of its last pair', ForAll([k_], Implies(Has(v1, k_), ValOf(v1, k_) == If(li[k_] >= 0, pv[li[k_]], ValOf(v0, k_))), patterns=[ValOf(v1, k_)]))]
    def ensures_exc(self, cx): return [('only for a second argument', z3.BoolVal(cx.it.case == 3))]
    class L0(object):
        def ghosts(self, L): return {'li': z3.K(Real, z3.IntVal(-1))}
        def step(self, L):
            L.g.c['li'] = z3.Store(L.g.c['li'], L.iterable.l.arrs()[0][L.ghost_i() - 1], L.ghost_i() - 1)
        def __call__(self, L):
            if not isinstance(L.iterable, ListIter): return []
            li, i = L.g.c['li'], L.ghost_i()
            L.it.li = li
            me = L['self']
            v0, v = L.it.cx.v0, me.value()
            pk, pv = L.iterable.l.arrs()
            return [('the last pairs so far', ForAll([k_], And(li[k_] < i, li[k_] >= -1, Implies(li[k_] >= 0, pk[li[k_]] == k_)), patterns=[li[k_]])),
                    ('', ForAll([j_], Implies(And(0 <= j_, j_ < i), j_ <= li[pk[j_]]), patterns=[pk[j_]])),
                    ('the keys', keys_are(v, lambda k: Or(Has(v0, k), li[k] >= 0), v0)),
                    ('the values', ForAll([k_], Implies(Has(v, k_), ValOf(v, k_) == If(li[k_] >= 0, pv[li[k_]], ValOf(v0, k_))), patterns=[ValOf(v, k_)])),
                    ('a valid tree', And(root_ok(v), *known(v)))]
    loops = {0: L0(), 1: L0()}

LEMMA_PROPS = ('C09', 'C10')
def lemmas():
    v, n, m, h = z3.Const('v', N), z3.Int('n'), z3.Int('m'), z3.Int('h')
    ik, iv, kd = IK(v), IV(v), KD(v)
    out = []
    i = z3.Int('i0')
    out.append(('the keys of its items are keys of a node', content(v, ik, iv, kd, n, h == 0) + [ordered(ik, n), pos(v, ik[i]) == pos(v, ik[i])],
                Implies(And(0 <= i, i < n), Has(v, ik[i]))))
    k = z3.Const('k0', Real)
    out.append(('the keys of its children are keys of a node', content(v, ik, iv, kd, n, h == 0) + [ordered(ik, n), between(ik, kd, n), h > 0, n >= 0, Has(kd[i], k), 0 <= i, i <= n],
                Has(v, k)))
    return out
