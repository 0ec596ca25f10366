"""
Contracts of durus/storage.py: the traversal and the queries, and MemoryStorage.

A storage is a set of oids that have a record, a record for each (StoreV), with the property that a
successful history gives it (C17): every record is well formed, has its own oid, and refers only to
oids that have a record.
"""
from pyvc.engine import *
from pyvc.natives import *
from pyvc.runner import contract
from pyvc.interp import Contract
import contracts.utils_c as U
import contracts.serialize_c as S
from contracts.utils_c import as_b

M = 'durus.storage:'
i0, n_ = z3.IntVal(0), z3.IntVal
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
ForAll = z3.ForAll
AB, ABB = z3.ArraySort(Bytes, B), z3.ArraySort(Bytes, Bytes)
EMPTY = z3.K(Bytes, FALSE)
r_, x_, j_ = z3.Const('r', Bytes), z3.Const('x', Bytes), z3.Int('j')

# the references in a record
nrefs = z3.Function('nrefs', Bytes, I)
refat = z3.Function('refat', Bytes, I, Bytes)
refs = z3.Function('refs', Bytes, Bytes)
p_ = z3.Int('p')
REFS = [
    ForAll([r_], refs(r_) == S.rec_refs(r_), patterns=[refs(r_)]),
    ForAll([r_], 8 * nrefs(r_) == blen(refs(r_)), patterns=[nrefs(r_)]),
    ForAll([r_, j_], refat(r_, j_) == sub(refs(r_), 8 * j_, n_(8)), patterns=[refat(r_, j_)]),
    ForAll([r_, p_], Implies(And(p_ >= 0, p_ % 8 == 0), refat(r_, p_ / 8) == sub(refs(r_), p_, n_(8))), patterns=[sub(refs(r_), p_, n_(8))]),
]
def rec_good(x, r):
    return And(S.rec_ok(r), S.rec_oid(r) == x, blen(refs(r)) % 8 == 0, nrefs(r) >= 0)

class StoreV(Native):
    """any storage: the records that it has now"""
    def __init__(self, ctx, name='storage'):
        HeapObj.__init__(self, ctx, name)
        self.c['has'] = ctx.fresh_const(AB, 'has')
        self.c['val'] = ctx.fresh_const(ABB, 'val')
    def truth(self, it): return True
    def attr(self, it, name):
        m = getattr(self, 'm_' + name, None)
        if m is None: raise Unsupported('storage.' + name)
        return Builtin('storage.' + name, lambda it, a, k: m(it, *a, **k))
    def m_gen_oid_record(self, it):
        """by the contract of Storage.gen_oid_record: a walk"""
        ctx = it.ctx
        w = it.walk = ListV(ctx, 'walk', n=ctx.int('walk_n', lo=0), ek=KTuple(BYTES, BYTES),
                            arrs=[ctx.fresh_const(z3.ArraySort(I, Bytes), a) for a in ('walk_oid', 'walk_record')])
        o, r, n, x = w.c['a0'], w.c['a1'], w.c['n'], x_
        j, k = z3.Ints('j k')
        ctx.assume(ForAll([j], Implies(And(0 <= j, j < n), And(self.c['has'][o[j]], r[j] == self.c['val'][o[j]], rec_good(o[j], r[j]))), patterns=[o[j]]))
        ctx.assume(ForAll([j], Implies(And(0 <= j, j < n), And(self.c['has'][o[j]], r[j] == self.c['val'][o[j]], rec_good(o[j], r[j]))), patterns=[r[j]]))
        ctx.assume(ForAll([j, k], Implies(And(0 <= j, j < k, k < n), o[j] != o[k]), patterns=[z3.MultiPattern(o[j], o[k])]))
        return w

def closed(has, val):
    """every record is well formed and refers only to oids that are there"""
    return And(ForAll([x_], Implies(has[x_], rec_good(x_, val[x_])), patterns=[val[x_]]),
               ForAll([x_, j_], Implies(And(has[x_], 0 <= j_, j_ < nrefs(val[x_])), has[refat(val[x_], j_)]), patterns=[refat(val[x_], j_)]))

class STORAGE(Contract):
    props = ('C20',)
    theory = [REFS]

def a_storage(it):
    """an object of the class Storage whose records are it.st"""
    ctx = it.ctx
    it.st = StoreV(ctx)
    def load(it, a, k):
        x = to_bytes(a[0])
        if it.ctx.choose([it.st.c['has'][x], Not(it.st.c['has'][x])], 'load') == 1: it.raise_(KeyError, x)
        return it.st.c['val'][x]
    return Obj(ctx, it.cls(M + 'Storage'), 'self', load=Builtin('load', load))

def oid_list(it, name='oids'):
    return ListV(it.ctx, name, n=it.ctx.int('n_' + name, lo=0), arrs=[it.ctx.fresh_const(z3.ArraySort(I, Bytes), name)], ek=BYTES)

def arr(l):
    if l.concrete():
        items, a = l.c['items'], z3.K(I, empty)
        for j, x in enumerate(items): a = z3.Store(a, j, to_bytes(x))
        return n_(len(items)), a
    return to_int(l.c['n']), l.arrs()[0]

@contract
class bulk_load(STORAGE):
    target = M + 'Storage.bulk_load'
    props = ('C20', 'C02')
    def setup(self, it): return [a_storage(it), oid_list(it)], {}
    def pre(self, cx):
        n, a = arr(cx.oids)
        has = cx.it.st.c['has']
        return [('the oids have records', ForAll([j_], Implies(And(0 <= j_, j_ < n), has[a[j_]]), patterns=[a[j_]]))]
    def result(self, cx):
        """(at a call) the records, in order"""
        n, a = arr(cx.oids)
        return ListV(cx.ctx, 'records', n=n, arrs=[cx.ctx.fresh_const(z3.ArraySort(I, Bytes), 'records')], ek=BYTES)
    def on_yield(self, cx, y):
        n, a = arr(cx.oids)
        i = to_int(cx.yields.c['n'])
        return [('one for each oid', And(0 <= i, i < n)), ('the record of this oid', to_bytes(y) == cx.it.st.c['val'][a[i]])]
    def post(self, cx):
        n, a = arr(cx.oids)
        if cx.it.cx is cx:
            return [('one for each oid', to_int(cx.yields.c['n']) == n)]
        r = cx.result.arrs()[0]
        v = cx.it.st.c['val']
        return [('', ForAll([j_], Implies(And(0 <= j_, j_ < n), r[j_] == v[a[j_]]), patterns=[r[j_]])),
                ('', ForAll([j_], Implies(And(0 <= j_, j_ < n), r[j_] == v[a[j_]]), patterns=[a[j_]]))]
    class L0(object):
        def __call__(self, L): return [('one for each oid', to_int(L.it.yields.c['n']) == L.ghost_i())]
    loops = {0: L0()}


class gen(object):
    """the state of a traversal"""
    def __init__(self, L):
        self.L, self.it = L, L.it
        self.has, self.val = L.it.st.c['has'], L.it.st.c['val']
        self.Y = L.it.yields.c['Y']              # what has been yielded
        self.start = to_bytes(L.it.start)
        self.R = L.it.R
        s = L['seen'].c['dom']
        self.seen = s if s is not None else EMPTY
        self.T = self.set(L['todo'])
    def set(self, l):
        d = list_dom(self.it, l)
        return d[1] if d is not None else EMPTY
    def covered(self, done, seen=None):
        """the references of the records that are done are seen or still to do"""
        y, j, s, T = x_, j_, self.seen if seen is None else seen, self.T
        e = refat(self.val[y], j)
        return ForAll([y, j], Implies(And(done[y], 0 <= j, j < nrefs(self.val[y])), Or(s[e], T[e])), patterns=[e])
    def known(self):
        """only what is reachable from the start"""
        x, s, T = x_, self.seen, self.T
        return And(ForAll([x], Implies(Or(s[x], T[x]), And(self.R[x], self.has[x])), patterns=[s[x], T[x]]), Or(s[self.start], T[self.start]))
    def batch(self):
        return arr(self.L['batch'])

@contract
class gen_oid_record(STORAGE):
    """each object reachable from the start, once, with its record.  R is any set that has the start
    and, with an oid, all that its record refers to: nothing outside of it is visited."""
    target = M + 'Storage.gen_oid_record'
    props = ('C20', 'C05', 'C06')
    timeout = 20000
    deadline = 400
    cost = 20
    def setup(self, it):
        ctx = it.ctx
        o = a_storage(it)
        start = None if ctx.choose([None, None], 'start') == 0 else ctx.bytes('start', 8)
        it.R = ctx.fresh_const(AB, 'R')
        it.start = to_bytes(it.resolve('durus.connection:ROOT_OID')) if start is None else start
        return [o, start, ctx.int('batch_size', lo=1)], {}
    def ghosts(self, cx): return {'Y': EMPTY}
    def pre(self, cx):
        st, R, v = cx.it.st, cx.it.R, cx.it.st.c['val']
        return [('the records are there', closed(st.c['has'], v)), ('', st.c['has'][cx.it.start]), ('', R[cx.it.start]),
                ('', ForAll([x_, j_], Implies(And(R[x_], 0 <= j_, j_ < nrefs(v[x_])), R[refat(v[x_], j_)]), patterns=[refat(v[x_], j_)]))]
    def on_yield(self, cx, y):
        oid, record = y
        oid, Y = to_bytes(oid), cx.yields.c['Y']
        cx.yields.c['Y'] = z3.Store(Y, oid, TRUE)
        return [('it has a record', cx.it.st.c['has'][oid]), ('the record', to_bytes(record) == cx.it.st.c['val'][oid]),
                ('not twice', Not(Y[oid])), ('only what is reachable', cx.it.R[oid])]
    def post(self, cx):
        Y, v = cx.yields.c['Y'], cx.it.st.c['val']
        return [('the start', Y[cx.it.start]),
                ('and all that is reachable', ForAll([x_, j_], Implies(And(Y[x_], 0 <= j_, j_ < nrefs(v[x_])), Y[refat(v[x_], j_)]), patterns=[refat(v[x_], j_)]))]
    class L0(object):
        def __call__(self, L):
            g = gen(L)
            return [('what is seen has been yielded', ForAll([x_], g.seen[x_] == g.Y[x_], patterns=[g.seen[x_], g.Y[x_]])),
                    ('only what is reachable', g.known()), ('what it refers to', g.covered(g.Y))]
    class L1(object):
        """the batch is filled"""
        def __call__(self, L):
            g = gen(L)
            n, b = g.batch()
            D = g.set(L['batch'])
            j, k = z3.Ints('j k')
            return [('the batch is what is seen and not yielded', And(n >= 0, ForAll([x_], And(g.seen[x_] == Or(g.Y[x_], D[x_]), Not(And(g.Y[x_], D[x_]))), patterns=[g.seen[x_], g.Y[x_], D[x_]]))),
                    ('no oid twice', ForAll([j, k], Implies(And(0 <= j, j < k, k < n), b[j] != b[k]), patterns=[z3.MultiPattern(b[j], b[k])])),
                    ('only what is reachable', g.known()), ('what it refers to', g.covered(g.Y))]
    class L2(object):
        """the records of the batch"""
        def __call__(self, L):
            g = gen(L)
            n, b = g.batch()
            i = L.ghost_i()
            Y0 = L.entry(L.it.yields).c['Y']
            D = g.set(L['batch'])
            D2 = elems(b, i)
            return [('those before have been yielded', ForAll([x_], g.Y[x_] == Or(Y0[x_], D2[x_]), patterns=[g.Y[x_], Y0[x_], D2[x_]])),
                    ('only what is reachable', g.known()), ('what it refers to', g.covered(g.Y))]
    class L3(object):
        """the references of a record"""
        def __call__(self, L):
            g = gen(L)
            i = L.ghost_i()
            oid = to_bytes(L['oid'])
            e = refat(g.val[oid], j_)
            # (the premise is true; it mentions the reference that was just handled)
            return [('only what is reachable', Implies(blen(refat(g.val[oid], i - 1)) >= 0, g.known())), ('what the others refer to', ForAll([x_, j_], Implies(And(g.Y[x_], x_ != oid, 0 <= j_, j_ < nrefs(g.val[x_])),
                        Or(g.seen[refat(g.val[x_], j_)], g.T[refat(g.val[x_], j_)])), patterns=[refat(g.val[x_], j_)])),
                    ('the references before', ForAll([j_], Implies(And(0 <= j_, j_ < i), Or(g.seen[e], g.T[e])), patterns=[e]))]
    loops = {0: L0(), 1: L1(), 2: L2(), 3: L3()}


# ------------------------------------------------------------------ the queries

def walk(L_or_cx):
    w = L_or_cx.it.walk
    return to_int(w.c['n']), w.c['a0'], w.c['a1']

def there(a):
    """every reference of every object of the walk: the bytes in the record, at a position"""
    return a

class QUERY(STORAGE):
    def old_storage(self, cx): return cx.old(cx.storage)
    def setup(self, it): return [StoreV(it.ctx)], {}
    def post_exc(self, cx): return []

@contract
class gen_referring_oid_record(QUERY):
    """P is any set that has the oid of every object of the walk that has the reference"""
    target = M + 'gen_referring_oid_record'
    def setup(self, it):
        it.P = it.ctx.fresh_const(AB, 'P')
        return [StoreV(it.ctx), it.ctx.bytes('referred', 8)], {}
    def ghosts(self, cx): return {'Y': EMPTY}
    def refers(self, cx, k, j):
        n, o, r = walk(cx)
        return And(0 <= k, k < n, 0 <= j, j < nrefs(r[k]), refat(r[k], j) == to_bytes(cx.referred_oid))
    def on_yield(self, cx, y):
        n, o, r = walk(cx)
        k, j = z3.Ints('k j')
        oid, Y = to_bytes(y[0]), cx.yields.c['Y']
        cx.yields.c['Y'] = z3.Store(Y, oid, TRUE)
        every = ForAll([k, j], Implies(self.refers(cx, k, j), cx.it.P[o[k]]), patterns=[refat(r[k], j)])
        return [('it has the reference', Implies(every, cx.it.P[oid])), ('not twice', Not(Y[oid])), ('the record', to_bytes(y[1]) == cx.storage.c['val'][oid])]
    def post(self, cx):
        n, o, r = walk(cx)
        k, j = z3.Ints('k j')
        return [('all that have the reference', ForAll([k, j], Implies(self.refers(cx, k, j), cx.yields.c['Y'][o[k]]), patterns=[refat(r[k], j)]))]
    class L0(object):
        def __call__(self, L):
            n, o, r = walk(L)
            k, j, Y = z3.Int('k'), z3.Int('j'), L.it.yields.c['Y']
            i = L.ghost_i()
            widx = z3.Function('widx', Bytes, I)
            return [('those before', ForAll([k, j], Implies(And(0 <= k, k < i, 0 <= j, j < nrefs(r[k]), refat(r[k], j) == to_bytes(L['referred_oid'])), Y[o[k]]), patterns=[refat(r[k], j)])),
                    ('no others', ForAll([k], Implies(And(i <= k, k < n), Not(Y[o[k]])), patterns=[o[k]]))]
    loops = {0: L0()}

class CLASSES(object):
    """(the names of the classes that are asked for)"""

@contract
class gen_oid_class(QUERY):
    target = M + 'gen_oid_class'
    def setup(self, it):
        ctx = it.ctx
        it.classes = [ctx.bytes('class%d' % k) for k in range(ctx.choose([None] * 3, 'classes'))]
        return [StoreV(ctx)] + it.classes, {}
    def wanted(self, it, c): return Or(z3.BoolVal(not it.classes), *[c == x for x in it.classes])
    def result(self, cx):
        if cx.classes: raise Unsupported('a call with classes')
        cx.storage.m_gen_oid_record(cx.it)
        n, o, r = walk(cx)
        return ListV(cx.ctx, 'classes', n=n, arrs=[o, cx.ctx.fresh_const(z3.ArraySort(I, Bytes), 'class_names')], ek=KTuple(BYTES, BYTES))
    def ghosts(self, cx): return {'Y': EMPTY}
    def on_yield(self, cx, y):
        oid, c = to_bytes(y[0]), to_bytes(y[1])
        Y = cx.yields.c['Y']
        cx.yields.c['Y'] = z3.Store(Y, oid, TRUE)
        n, o, r = walk(cx)
        m = to_int(cx.yields.c['n'])
        order = [] if cx.it.classes else [('in the order of the walk', And(m < n, oid == o[m]))]
        return order + [('its class', c == S.class_name(cx.storage.c['val'][oid])), ('a class that was asked for', self.wanted(cx.it, c)), ('not twice', Not(Y[oid]))]
    def post(self, cx):
        n, o, r = walk(cx)
        k = z3.Int('k')
        if cx.it.cx is not cx:
            c = cx.result.c['a1']
            return [('', ForAll([k], Implies(And(0 <= k, k < n), c[k] == S.class_name(r[k])), patterns=[c[k]]))]
        every = [] if cx.it.classes else [('one for each object', to_int(cx.yields.c['n']) == n)]
        return every + [('all of these classes', ForAll([k], Implies(And(0 <= k, k < n), cx.yields.c['Y'][o[k]] == self.wanted(cx.it, S.class_name(r[k]))), patterns=[o[k]]))]
    class L0(object):
        def __call__(self, L):
            n, o, r = walk(L)
            k, Y, i, me = z3.Int('k'), L.it.yields.c['Y'], L.ghost_i(), L.it.current_contract
            every = [] if L.it.classes else [('one for each object', to_int(L.it.yields.c['n']) == i)]
            return every + [('those before', ForAll([k], Implies(And(0 <= k, k < n), Y[o[k]] == And(k < i, me.wanted(L.it, S.class_name(r[k])))), patterns=[o[k]]))]
    loops = {0: L0()}

# how many of the first i records of a walk are of the class c
times = z3.Function('times', z3.ArraySort(I, Bytes), I, Bytes, I)
_a, _i, _e, _c = z3.Const('a', z3.ArraySort(I, Bytes)), z3.Int('i'), z3.Int('e'), z3.Const('c', Bytes)
TIMES = [ForAll([_a, _c], times(_a, 0, _c) == 0, patterns=[times(_a, 0, _c)]),
         ForAll([_a, _i, _e, _c], Implies(And(_i >= 0, _e == _i + 1), times(_a, _e, _c) == times(_a, _i, _c) + If(S.class_name(_a[_i]) == _c, 1, 0)),
                patterns=[z3.MultiPattern(times(_a, _i, _c), times(_a, _e, _c))])]
COUNTS = [ForAll([_a, _i, _c], Implies(_i >= 0, times(_a, _i, _c) >= 0), patterns=[times(_a, _i, _c)])]      # (proved in lemmas)

LEMMA_PROPS = ('C20',)
def lemmas():
    a, i, c = z3.Const('A', z3.ArraySort(I, Bytes)), z3.Int('N'), z3.Const('C', Bytes)
    return [('counts are not negative: base', TIMES, times(a, 0, c) >= 0),
            ('counts are not negative: step', TIMES + [i >= 0, times(a, i, c) >= 0], times(a, i + 1, c) >= 0)]

@contract
class get_census(QUERY):
    target = M + 'get_census'
    theory = [REFS, TIMES, COUNTS]
    def post(self, cx):
        n, o, r = walk(cx)
        d = cx.result
        if d.c['dom'] is None: return [('nothing', n == 0)]
        t = times(r, n, _c)
        return [('the number of each class', ForAll([_c], And(d.c['dom'][_c] == (t > 0), Implies(t > 0, d.c['v0'][_c] == t)), patterns=[t]))]
    class L0(object):
        def __call__(self, L):
            n, o, r = walk(L)
            i, d = L.ghost_i(), L['result']
            if d.c['dom'] is None: return [('nothing yet', i == 0)]
            t = times(r, i, _c)
            ps = [t, d.c['dom'][_c], d.c['v0'][_c]]
            return [('the classes so far', ForAll([_c], d.c['dom'][_c] == (t > 0), patterns=ps)),
                    ('the number of each class', ForAll([_c], Implies(t > 0, d.c['v0'][_c] == t), patterns=ps))]
    loops = {0: L0()}

@contract
class get_reference_index(QUERY):
    """P(x, y) is any relation in which every object of the walk stands to each of its references"""
    target = M + 'get_reference_index'
    def lists(self, d):
        if d.c['dom'] is None: return EMPTY, z3.K(Bytes, i0), z3.K(Bytes, z3.K(I, empty))
        return d.c['dom'], d.c['v0'], d.c['v1']
    def facts(self, it, d, upto, last=None):
        """upto: the number of the objects that are done; last: (index, references done) of the current one"""
        w = it.walk
        n, o, r = to_int(w.c['n']), w.c['a0'], w.c['a1']
        dom, ln, ls = self.lists(d)
        k, j, x = z3.Int('k'), z3.Int('j'), x_
        def done(k, j): 
            b = And(0 <= k, k < upto, 0 <= j, j < nrefs(r[k]))
            return b if last is None else Or(b, And(k == last[0], 0 <= j, j < last[1]))
        e = refat(r[k], j)
        P = it.P
        every = ForAll([k, j], Implies(And(0 <= k, k < n, 0 <= j, j < nrefs(r[k])), P(o[k], e)), patterns=[e])
        return [('every reference is listed', ForAll([k, j], Implies(done(k, j), And(dom[e], elems(ls[e], ln[e])[o[k]])), patterns=[e])),
                ('only references are listed', Implies(every, ForAll([x, j], Implies(And(dom[x], 0 <= j, j < ln[x]), P(ls[x][j], x)), patterns=[ls[x][j]]))),
                ('', ForAll([x], Implies(dom[x], ln[x] >= 1), patterns=[ln[x]]))]
    def setup(self, it):
        it.P = z3.Function('P', Bytes, Bytes, B)
        return [StoreV(it.ctx)], {}
    def post(self, cx):
        n, o, r = walk(cx)
        list_dom(cx.it, cx.it.walk)
        return self.facts(cx.it, cx.result, n)
    class L0(object):
        def __call__(self, L):
            list_dom(L.it, L.it.walk)
            return L.it.current_contract.facts(L.it, L['result'], L.ghost_i())
    class L1(object):
        def __call__(self, L):
            k = L.loop_i(0)
            list_dom(L.it, L.it.walk)
            return L.it.current_contract.facts(L.it, L['result'], k, (k, L.ghost_i()))
    loops = {0: L0(), 1: L1()}


# ------------------------------------------------------------------ MemoryStorage

def a_memory(it, committing=None):
    """committing: whether begin() has been called (None: either)"""
    ctx = it.ctx
    def d(name): return DictV(ctx, name, BYTES, BYTES, ctx.fresh_const(AB, name), [ctx.fresh_const(ABB, name + '_val')])
    t = None
    if committing or committing is None and ctx.choose([None, None], 'committing') == 1: t = d('transaction')
    o = Obj(ctx, it.cls(M + 'MemoryStorage'), 'memory', records=d('records'), transaction=t, oid=ctx.int('oid'))
    return o

class MEMORY(Contract):
    props = ('C02', 'C04')
    committing = None
    def setup(self, it): return [a_memory(it, self.committing)], {}
    def kept(self, cx, what):
        d, o = cx.self.c[what], cx.old(cx.self).c[what]
        d0 = cx.old(o)
        return And(d.c['dom'] == d0.c['dom'], d.c['v0'] == d0.c['v0'])

@contract
class MemoryStorage_load(MEMORY):
    target = M + 'MemoryStorage.load'
    raises = (KeyError,)
    def setup(self, it): return [a_memory(it), it.ctx.bytes('oid')], {}
    def post(self, cx):
        d = cx.self.c['records']
        return [('the record of the oid', And(d.c['dom'][cx.oid], to_bytes(cx.result) == d.c['v0'][cx.oid]))]
    def post_exc(self, cx): return [('only without a record', Not(cx.self.c['records'].c['dom'][cx.oid]))]

@contract
class MemoryStorage_begin(MEMORY):
    """what was stored before, without an end, is forgotten"""
    target = M + 'MemoryStorage.begin'
    def modifies(self, cx): return [(cx.self, 'transaction')]
    def post(self, cx):
        t = cx.self.c['transaction']
        return [('nothing in it yet', z3.BoolVal(isinstance(t, DictV)) if t.c['dom'] is None else t.c['dom'] == EMPTY), ('', self.kept(cx, 'records'))]

@contract
class MemoryStorage_store(MEMORY):
    target = M + 'MemoryStorage.store'
    def setup(self, it): return [a_memory(it, True), it.ctx.bytes('oid'), it.ctx.bytes('record')], {}
    def modifies(self, cx): return [cx.self.c['transaction']]
    def post(self, cx):
        t, t0 = cx.self.c['transaction'], cx.old(cx.self.c['transaction'])
        return [('it is in the transaction', And(t.c['dom'] == z3.Store(t0.c['dom'], cx.oid, TRUE), t.c['v0'] == z3.Store(t0.c['v0'], cx.oid, cx.record))),
                ('nothing is committed', self.kept(cx, 'records'))]

@contract
class MemoryStorage_end(MEMORY):
    target = M + 'MemoryStorage.end'
    props = ('C02', 'C04', 'C13')
    committing = True
    def modifies(self, cx): return [(cx.self, 'transaction'), cx.self.c['records']]
    def post(self, cx):
        r, r0, t = cx.self.c['records'], cx.old(cx.self.c['records']), cx.old(cx.old(cx.self).c['transaction'])
        return [('all of the transaction', ForAll([x_], And(r.c['dom'][x_] == Or(r0.c['dom'][x_], t.c['dom'][x_]),
                                                         Implies(r.c['dom'][x_], r.c['v0'][x_] == If(t.c['dom'][x_], t.c['v0'][x_], r0.c['v0'][x_]))), patterns=[r.c['dom'][x_]])),
                ('once', z3.BoolVal(cx.self.c['transaction'] is None))]

@contract
class MemoryStorage_new_oid(MEMORY):
    """the k-th oid (from 0) is the number k, so no oid is given out twice"""
    target = M + 'MemoryStorage.new_oid'
    props = ('C07',)
    def pre(self, cx): return [('', And(to_int(cx.self.c['oid']) >= -1, to_int(cx.self.c['oid']) < 2 ** 64 - 1))]
    def modifies(self, cx): return [(cx.self, 'oid')]
    def result(self, cx): return cx.ctx.bytes('oid')
    def post(self, cx):
        k, k0, j = to_int(cx.self.c['oid']), to_int(cx.old(cx.self).c['oid']), z3.Int('j')
        r = to_bytes(cx.result)
        return [('the number', r == be8(k)), ('8 bytes', blen(r) == 8),
                ('it was not given out before', And(k > k0, ForAll([j], Implies(And(0 <= j, j <= k0), r != be8(j)), patterns=[be8(j)])))]

@contract
class MemoryStorage_sync(MEMORY):
    target = M + 'MemoryStorage.sync'
    props = ('C06',)
    def post(self, cx): return [('nobody else changes anything', z3.BoolVal(cx.result.concrete() and not cx.result.c['items']))]
