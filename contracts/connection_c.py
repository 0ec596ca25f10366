"""
Contracts of durus/connection.py (and of persistent_load in serialize.py), over the model of objects.py.
"""
from contracts.objects import *
from pyvc.runner import contract
import contracts.utils_c as U
import contracts.serialize_c as S

n_ = z3.IntVal

class CONN(Contract):
    """contracts whose self is a part of the world"""
    what = 'conn'
    args = ()
    def setup(self, it):
        w = World(it)
        return [getattr(w, self.what)] + [self.arg(it, w, x) for x in self.args], {}
    def arg(self, it, w, x):
        if x == 'key': return it.ctx.bytes('key', 8)
        if x == 'obj': return w.any('obj')
        if x == 'conn': return w.conn
        if x == 'cls': return Ident(KCls(), it.ctx.int('cls'))
        if x == 'serial': return to_int(w.conn.c['transaction_serial'])
        raise ValueError(x)
    def w(self, cx): return cx.it.world
    def now(self, cx): return self.w(cx).now()
    def was(self, cx): return self.w(cx).was(cx)
    def gone(self, cx): return (self.w(cx).fam, 'gone.0')
    def is_exc(self, cx, q): return cx.it.exc_is(cx.exc, cx.it.resolve(q) if isinstance(q, str) else q)

def only_gone(cx, c, but=None):
    """objects may have disappeared; nothing that is held"""
    a, b, t, w = c.was(cx), c.now(cx), z3.Int('t'), c.w(cx)
    lost = And(Not(w.strong(t)), but(t)) if but is not None else Not(w.strong(t))
    return [('what has disappeared stays so', ForAll([t], Implies(a.gone(t), b.gone(t)), patterns=[a.gone(t), b.gone(t)])),
            ('only what nothing holds disappears', ForAll([t], Implies(And(b.gone(t), Not(a.gone(t))), lost), patterns=[b.gone(t)]))]

# ------------------------------------------------------------------ ObjectDictionary

class OD(CONN):
    props = ('C18',)
    what = 'objects'

@contract
class OD_get(OD):
    target = CM + 'ObjectDictionary.get'
    args = ('key',)
    def modifies(self, cx): return [self.gone(cx)]
    def result(self, cx):
        if cx.ctx.choose([None, None], 'get') == 0: return FamRef(self.w(cx).fam, cx.ctx.int('found'))
        return None
    def post(self, cx):
        a, b, k = self.was(cx), self.now(cx), to_bytes(cx.key)
        if cx.result is None:
            return only_gone(cx, self, lambda t: And(a.map(k), t == a.obj(k))) + [('only when there is no such object', Not(b.vis(k)))]
        return [('the object of the key', And(a.vis(k), cx.result.t == a.obj(k))), ('', b.fam['gone.0'] == a.fam['gone.0'])]

@contract
class OD_setitem(OD):
    target = CM + 'ObjectDictionary.__setitem__'
    args = ('key', 'obj')
    def modifies(self, cx): return [self.w(cx).mapping, self.w(cx).dead]
    def post(self, cx):
        a, b, k = self.was(cx), self.now(cx), to_bytes(cx.key)
        return [('the object is kept under the key', And(b.there(k), b.obj(k) == cx.value.t)),
                ('the other keys', And(b.M_ == z3.Store(a.M_, k, TRUE), b.m_ == z3.Store(a.m_, k, cx.value.t), b.dead_ == z3.Store(a.dead_, k, FALSE)))]

@contract
class OD_delitem(OD):
    target = CM + 'ObjectDictionary.__delitem__'
    args = ('key',)
    def modifies(self, cx): return [self.w(cx).dead]
    def post(self, cx):
        a, b, k = self.was(cx), self.now(cx), to_bytes(cx.key)
        return [('the key is gone, the others are kept', b.dead_ == z3.Store(a.dead_, k, TRUE))]

@contract
class OD_contains(OD):
    target = CM + 'ObjectDictionary.__contains__'
    args = ('key',)
    def modifies(self, cx): return [self.gone(cx)]
    def result(self, cx): return cx.ctx.fresh_const(B, 'contains')
    def post(self, cx):
        a, b, k = self.was(cx), self.now(cx), to_bytes(cx.key)
        return [('whether there is such an object', to_bool(cx.result) == b.vis(k))] + only_gone(cx, self, lambda t: And(a.map(k), t == a.obj(k)))

@contract
class OD_clear_dead(OD):
    target = CM + 'ObjectDictionary.clear_dead'
    def modifies(self, cx): return [self.w(cx).mapping, self.w(cx).dead]
    def post(self, cx):
        a, b, k = self.was(cx), self.now(cx), z3.Const('k', Bytes)
        return [('no dead keys', ForAll([k], Not(b.dead(k)), patterns=[b.dead(k)])), ('the objects are kept', And(b.m_ == a.m_,
                ForAll([k], b.map(k) == a.there(k), patterns=[a.map(k)]), ForAll([k], b.map(k) == a.there(k), patterns=[b.map(k)])))]
    class L0(object):
        def __call__(self, L):
            w = L.it.world
            a, b, k = w.at(L.entry), w.now(), z3.Const('k', Bytes)
            return [('', And(b.m_ == a.m_, ForAll([k], And(Implies(b.there(k), a.there(k)), Implies(a.there(k), b.there(k)), Implies(b.map(k), a.map(k)), Implies(b.dead(k), a.dead(k))), patterns=[b.map(k)]),
                     ForAll([k], And(Implies(b.there(k), a.there(k)), Implies(a.there(k), b.there(k)), Implies(b.dead(k), a.dead(k)), Implies(And(b.map(k), a.dead(k)), b.dead(k))), patterns=[b.dead(k), a.map(k)])))]
    loops = {0: L0()}

def no_there(w):
    k = z3.Const('k', Bytes)
    return ForAll([k], Not(w.there(k)), patterns=[w.map(k)])

@contract
class OD_len(OD):
    target = CM + 'ObjectDictionary.__len__'
    def setup(self, it):
        a, k = OD.setup(self, it)
        card_difference(it, it.world.mapping.c['dom'], it.world.dead.c['dom'])
        return a, k
    def pre(self, cx):
        w, k = self.now(cx), z3.Const('k', Bytes)
        return [('the dead keys are keys', ForAll([k], Implies(w.dead(k), w.map(k)), patterns=[w.dead(k)]))]
    def result(self, cx): return cx.ctx.int('len')
    def post(self, cx):
        w, k, n = self.now(cx), z3.Const('k', Bytes), to_int(cx.result)
        return [('the number of the objects', And(n >= 0, Implies(n == 0, no_there(w)))),
                ('', And(*[Implies(w.there(x), n > 0) for x in (ROOT,)]))]

# ------------------------------------------------------------------ ReferenceContainer

class RC(CONN):
    props = ('C13', 'C18')
    what = 'recent'

@contract
class RC_add(RC):
    target = CM + 'ReferenceContainer.add'
    args = ('obj',)
    def modifies(self, cx): return [self.w(cx).recent_map]
    def post(self, cx):
        a, b = self.was(cx), self.now(cx)
        return [('it is held', And(b.R_ == z3.Store(a.R_, cx.x.t, TRUE), b.r_ == z3.Store(a.r_, cx.x.t, cx.x.t)))]

@contract
class RC_discard(RC):
    target = CM + 'ReferenceContainer.discard'
    args = ('obj',)
    def modifies(self, cx): return [self.w(cx).recent_map]
    def post(self, cx):
        a, b = self.was(cx), self.now(cx)
        return [('it is not held, the others are', And(b.R_ == z3.Store(a.R_, cx.x.t, FALSE), b.r_ == a.r_))]

# ------------------------------------------------------------------ Cache

def heap_arrs(it, l):
    if l.concrete():
        if not l.c['items']: return n_(0), None, None
        l = copy_list(it, l)
        l.symbolize()
    a = l.arrs()
    return to_int(l.c['n']), a[0], a[1]

def heap_ok(w, l):
    """the objects in the heap have not been used in this transaction"""
    n, s, o = heap_arrs(w.w.it, l)
    if o is None: return TRUE
    j = z3.Int('j')
    return And(n >= 0, ForAll([j], Implies(And(0 <= j, j < n), And(w.map(o[j]), Not(w.used(w.obj(o[j]))))), patterns=[o[j]]))

def same_there(a, b):
    k = z3.Const('k', Bytes)
    f = And(b.there(k) == a.there(k), Implies(b.map(k), a.map(k)))
    return And(b.m_ == a.m_, ForAll([k], f, patterns=[b.map(k)]), ForAll([k], f, patterns=[a.map(k)]))

class CACHE(CONN):
    props = ('C18',)
    what = 'cache'
    def inv(self, cx): return self.now(cx).inv_parts()

@contract
class build_heap(CACHE):
    target = CM + 'Cache._build_heap'
    args = ('serial',)
    def modifies(self, cx): return [self.gone(cx), self.w(cx).mapping, self.w(cx).dead, (self.w(cx).cache, 'finger')]
    def pre(self, cx): return self.inv(cx) + [('the serial of the transaction', to_int(cx.transaction_serial) == self.now(cx).ts)]
    def result(self, cx):
        a = [cx.ctx.fresh_const(z3.ArraySort(I, s), 'heap') for s in (I, Bytes)]
        return ListV(cx.ctx, 'heap', n=cx.ctx.int('n_heap', lo=0), arrs=a, ek=KTuple(INT, BYTES))
    def post(self, cx):
        a, b = self.was(cx), self.now(cx)
        return [('objects that have not been used in this transaction', heap_ok(b, cx.result)), ('the objects are kept', same_there(a, b)),
                ('dead keys are keys', b.inv_parts()[2][1])] + only_gone(cx, self)
    class L0(object):
        def __call__(self, L):
            w = L.it.world
            a, b = w.was(L.it.cx), w.now()
            heap = L.ctx.byname[build_heap.target].c['heap']
            return [('', And(heap_ok(b, heap), same_there(a, b)))] + [(l, f) for l, f in only_gone(L.it.cx, build_heap_i())] + [(l, f) for l, f in b.inv_parts()]
    loops = {}
    other_loops = {(CM + 'ObjectDictionary.__iter__', 0): L0()}

def build_heap_i():
    from pyvc.runner import CONTRACTS
    return CONTRACTS[build_heap.target]

def evicted(a, b):
    """the only change of objects: saved ones that were not used in this transaction have become ghosts"""
    t = z3.Int('t')
    return [('only saved objects, not used in this transaction, are evicted', ForAll([t], Implies(b.status(t) != a.status(t),
                And(a.status(t) == SAVED, b.status(t) == GHOST, Not(a.used(t)))), patterns=[b.status(t)])),
            ('no other state is dropped', ForAll([t], Implies(b.state(t) != a.state(t), And(a.status(t) == SAVED, b.status(t) == GHOST)), patterns=[b.state(t)])),
            ('what was used in this transaction stays recent', ForAll([t], And(Implies(And(a.recent(t), a.used(t)), b.recent(t)), Implies(b.recent(t), And(a.recent(t), b.r_[t] == a.r_[t]))), patterns=[b.recent(t)])),
            ('', ForAll([t], Implies(And(a.recent(t), a.used(t)), b.recent(t)), patterns=[a.recent(t)]))]

def there_parts(a, b):
    k = z3.Const('k', Bytes)
    return [('the objects are kept', same_there(a, b))]

class SHRINK(CACHE):
    def mods(self, cx):
        w = self.w(cx)
        return [self.gone(cx), w.mapping, w.dead, (w.cache, 'finger'), (w.fam, '_p_status.0'), (w.fam, 'state.0'), w.recent_map]
    def did(self, cx):
        a, b = self.was(cx), self.now(cx)
        return evicted(a, b) + there_parts(a, b) + only_gone(cx, self, lambda t: Not(And(a.own(t), a.used(t), Not(a.fresh(a.oid(t)))))) + b.inv_parts()

@contract
class shrink(SHRINK):
    target = CM + 'Cache.shrink'
    args = ('conn',)
    def pre(self, cx): return self.inv(cx)
    def modifies(self, cx): return self.mods(cx)
    def post(self, cx): return self.did(cx)
    class L0(object):
        def __call__(self, L):
            w = L.it.world
            return [('', heap_ok(w.now(), L['heap']))] + shrink_i().did(L.it.cx)
    loops = {0: L0()}

def shrink_i():
    from pyvc.runner import CONTRACTS
    return CONTRACTS[shrink.target]

@contract
class cache_delitem(CACHE):
    target = CM + 'Cache.__delitem__'
    args = ('key',)
    asserts_raise = True
    raises = (AssertionError,)
    def modifies(self, cx): return [self.gone(cx), self.w(cx).dead, self.w(cx).recent_map]
    def post(self, cx):
        a, b, k = self.was(cx), self.now(cx), to_bytes(cx.key)
        q, t = z3.Const('q', Bytes), z3.Int('t')
        return [('there is no such object any more', Not(b.vis(k))), ('the other keys are kept', ForAll([q], Implies(q != k, b.dead(q) == a.dead(q)), patterns=[b.dead(q)])),
                ('only keys', Implies(Not(a.map(k)), b.dead(k) == a.dead(k))), ('', Implies(a.dead(k), b.dead(k))),
                ('only an object without an oid is removed', Implies(a.vis(k), Or(Not(a.has(a.obj(k))), b.gone(a.obj(k))))),
                ('nothing else is forgotten', ForAll([t], b.recent(t) == And(a.recent(t), Not(And(a.vis(k), t == a.obj(k), Not(b.gone(t))))), patterns=[b.recent(t)])), ('', b.r_ == a.r_)
                ] + only_gone(cx, self, lambda t: And(a.map(k), t == a.obj(k)))
    def post_exc(self, cx):
        a, k = self.was(cx), to_bytes(cx.key)
        return [('only for an object that has an oid', And(a.vis(k), a.has(a.obj(k))))] + only_gone(cx, self)

# ------------------------------------------------------------------ persistent_load

def grew(a, b):
    """ghosts have been added to the cache; objects that are there are the same, and as they were"""
    t, k = z3.Int('t'), z3.Const('k', Bytes)
    same = And(b.alloc(t), *[f(t) == g(t) for f, g in ((a.status, b.status), (a.serial, b.serial), (a.has, b.has), (a.oid, b.oid), (a.connection, b.connection), (a.cls, b.cls), (a.state, b.state))])
    return [('objects stay as they are', ForAll([t], Implies(a.alloc(t), same), patterns=[b.alloc(t), a.alloc(t)])),
            ('new objects are ghosts', ForAll([t], Implies(And(b.alloc(t), Not(a.alloc(t))), And(b.status(t) == GHOST, b.has(t), b.mine(t), b.serial(t) == 0)), patterns=[b.alloc(t)])),
            ('the oids that are loaded are in use', ForAll([k], Implies(a.map(k), b.map(k)), patterns=[b.map(k)])),
            ('what is alive is kept under its oid', ForAll([k], Implies(And(a.vis(k), Not(b.gone(a.obj(k)))), And(b.there(k), b.obj(k) == a.obj(k))), patterns=[b.map(k)]))]

@contract
class persistent_load(CONN):
    target = SM + 'persistent_load'
    props = ('C18', 'C12')
    def setup(self, it):
        w = World(it)
        return [w.conn, w.objects, (it.ctx.bytes('oid', 8), Ident(KCls(), it.ctx.int('cls')))], {}
    def modifies(self, cx): return [self.gone(cx), self.w(cx).mapping, self.w(cx).dead] + [(self.w(cx).fam, f) for f in sorted(self.w(cx).fam.c) if f != 'gone.0']
    def result(self, cx): return FamRef(self.w(cx).fam, cx.ctx.int('loaded'))
    def post(self, cx):
        a, b = self.was(cx), self.now(cx)
        oid, cls = cx.oid_class
        k, r = to_bytes(oid), cx.result.t
        t = z3.Int('t')
        old = And(a.vis(k), a.cls(a.obj(k)) == cls.t, Not(b.gone(a.obj(k))))
        same = And(b.alloc(t), *[f(t) == g(t) for f, g in ((a.status, b.status), (a.serial, b.serial), (a.has, b.has), (a.oid, b.oid), (a.connection, b.connection), (a.cls, b.cls), (a.state, b.state))])
        return [('the object of the oid, if it is alive', Implies(old, And(r == a.obj(k), b.alloc(r) == a.alloc(r)))),
                ('else a new ghost', Implies(Not(old), And(Not(a.alloc(r)), b.alloc(r), b.status(r) == GHOST, b.has(r), b.oid(r) == k, b.mine(r), b.serial(r) == 0))),
                ('of that class', b.cls(r) == cls.t), ('alive, kept under its oid', And(b.vis(k), b.obj(k) == r)),
                ('the other oids', And(*[f == z3.Store(g, k, x) for f, g, x in ((b.M_, a.M_, TRUE), (b.m_, a.m_, r))])),
                ('', b.dead_ == z3.Store(a.dead_, k, FALSE)),
                ('nothing else changes', ForAll([t], Implies(t != r, And(b.alloc(t) == a.alloc(t), Implies(a.alloc(t), same))), patterns=[b.alloc(t), a.alloc(t)])), ('', Implies(a.alloc(r), z3.substitute(same, (t, r))))
                ] + only_gone(cx, self, lambda t: And(a.map(k), t == a.obj(k)))

# ------------------------------------------------------------------ Connection

class CON(CONN):
    what = 'conn'
    props = ('C13', 'C14')
    def pre(self, cx): return self.now(cx).inv_parts()
    def st(self, cx): return (self.w(cx).fam, '_p_status.0'), (self.w(cx).fam, 'state.0')

@contract
class note_access(CON):
    target = CM + 'Connection.note_access'
    args = ('obj',)
    def pre(self, cx):
        w = self.now(cx)
        return [('an object of the connection', And(w.mine(cx.obj.t), w.has(cx.obj.t), Not(w.gone(cx.obj.t))))]
    def modifies(self, cx): return [(self.w(cx).fam, '_p_serial.0'), self.w(cx).recent_map]
    def post(self, cx):
        a, b, t = self.was(cx), self.now(cx), cx.obj.t
        return [('it counts as used in the transaction', b.fam['_p_serial.0'] == z3.Store(a.fam['_p_serial.0'], t, a.ts)),
                ('and is held', And(b.R_ == z3.Store(a.R_, t, TRUE), b.r_ == z3.Store(a.r_, t, t)))]

@contract
class note_change(CON):
    target = CM + 'Connection.note_change'
    args = ('obj',)
    props = ('C12', 'C17')
    def pre(self, cx): return [('it has an oid', self.now(cx).has(cx.obj.t))]
    def modifies(self, cx): return [self.w(cx).changed]
    def post(self, cx):
        a, b, t = self.was(cx), self.now(cx), cx.obj.t
        return [('it is registered as changed', And(b.C_ == z3.Store(a.C_, a.oid(t), TRUE), b.c_ == z3.Store(a.c_, a.oid(t), t)))]

def dropped(a, b, recent=True):
    """states of saved objects that were not used in this transaction have been dropped, nothing else"""
    t = z3.Int('t')
    out = [('only saved objects, not used in this transaction, become ghosts', ForAll([t], Implies(b.status(t) != a.status(t),
                And(a.status(t) == SAVED, b.status(t) == GHOST, Not(And(a.own(t), a.used(t))))), patterns=[b.status(t)])),
            ('no other state is dropped', ForAll([t], Implies(b.state(t) != a.state(t), And(a.status(t) == SAVED, b.status(t) == GHOST)), patterns=[b.state(t)]))]
    return out

def hit(w, k):
    """the object of this oid was used or changed in the transaction"""
    return Or(w.chg(k), And(w.vis(k), w.used(w.obj(k))))

@contract
class handle_invalidations(CON):
    target = CM + 'Connection._handle_invalidations'
    raises = ('durus.error:ReadConflictError', 'durus.error:WriteConflictError')
    def setup(self, it):
        w = World(it)
        it.N_ = it.ctx.fresh_const(AB, 'oids')
        rd = it.ctx.choose([None, None], 'read_oid')
        return [w.conn, SetV(it.ctx, 'oids', BYTES, it.N_)], ({'read_oid': it.ctx.bytes('read_oid', 8)} if rd else {})
    def N(self, cx): return cx.oids.c['dom']
    def pre(self, cx):
        k, w, N = z3.Const('k', Bytes), self.now(cx), self.N(cx)
        return w.inv_parts(N) + [('not of oids that are new in the commit', ForAll([k], Implies(N[k], Not(w.fresh(k))), patterns=[N[k]]))]
    def modifies(self, cx):
        w = self.w(cx)
        return [self.gone(cx), w.invalid] + list(self.st(cx))
    def did(self, cx, stale):
        return dropped(self.was(cx), self.now(cx)) + only_gone(cx, self) + self.now(cx).inv_parts(stale)
    def post(self, cx):
        a, b, k, N = self.was(cx), self.now(cx), z3.Const('k', Bytes), self.N(cx)
        return [('nothing of it was used or changed in this transaction', ForAll([k], Implies(N[k], Not(hit(a, k))), patterns=[N[k]])),
                ('', b.inv_ == a.inv_)] + self.did(cx, EMPTY)
    def post_exc(self, cx):
        a, b, k, N = self.was(cx), self.now(cx), z3.Const('k', Bytes), self.N(cx)
        r = cx.read_oid is not None
        return [('a read conflict when reading, else a write conflict', z3.BoolVal(self.is_exc(cx, 'durus.error:ReadConflictError' if r else 'durus.error:WriteConflictError'))),
                ('only if something was used or changed', z3.Exists([k], And(N[k], hit(a, k)))),
                ('the conflicts are remembered until abort', ForAll([k], Implies(b.inv(k), Or(a.inv(k), And(N[k], hit(a, k)))), patterns=[b.inv(k)])),
                ('', ForAll([k], Implies(a.inv(k), b.inv(k)), patterns=[a.inv(k)])),
                ('some', z3.Exists([k], b.inv(k)))] + self.did(cx, EMPTY)
    class L0(object):
        def __call__(self, L):
            me, cx = handle_invalidations_i(), L.it.cx
            a, b, k, N = me.was(cx), me.now(cx), z3.Const('k', Bytes), me.N(cx)
            seen = L.g.c['seen']
            stale = combine(L.it, lambda p, q: And(p, Not(q)), N, seen)
            n, c = list_arr(L['conflicts'])
            j = z3.Int('j')
            return me.did(cx, stale) + [
                ('i1', And(n >= 0, ForAll([j], Implies(And(0 <= j, j < n), And(N[c[j]], hit(a, c[j]), b.inv(c[j]))), patterns=[c[j]]))),
                ('i2', Implies(n > 0, And(N[c[0]], hit(a, c[0])))),
                ('i3', ForAll([k], Implies(b.inv(k), Or(a.inv(k), And(N[k], hit(a, k), n > 0))), patterns=[b.inv(k)])),
                ('i4', ForAll([k], Implies(a.inv(k), b.inv(k)), patterns=[a.inv(k)])),
                ('i5', ForAll([k], Implies(seen[k], N[k]), patterns=[seen[k]])),
                ('i6', Implies(n == 0, And(b.inv_ == a.inv_, ForAll([k], Implies(seen[k], Not(hit(a, k))), patterns=[seen[k]]))))]
    loops = {0: L0()}

def list_arr(l):
    if l.concrete():
        a = z3.K(I, empty)
        for j, x in enumerate(l.c['items']): a = z3.Store(a, j, to_bytes(x))
        return n_(len(l.c['items'])), a
    return to_int(l.c['n']), l.arrs()[0]

def handle_invalidations_i():
    from pyvc.runner import CONTRACTS
    return CONTRACTS[handle_invalidations.target]

@contract
class reader_get_state(CON):
    """(what unpickling does: see ObjectReader_get_state)"""
    target = SM + 'ObjectReader.get_state'
    props = ('C17', 'C18')
    raises = (Exception,)
    theory = [PICKLE]
    def setup(self, it):
        w = World(it)
        return [w.reader, it.ctx.bytes('data')] + [[], [True], [False]][it.ctx.choose([None, None, None], 'load')], {}
    def pre(self, cx): return self.now(cx).inv_parts() + [('a class and a state', whole(to_bytes(cx.data)))]
    def modifies(self, cx):
        w = self.w(cx)
        return [self.gone(cx), w.mapping, w.dead, (w.reader, 'load_count')] + [(w.fam, f) for f in sorted(w.fam.c) if f != 'gone.0']
    def result(self, cx): return cx.ctx.bytes('pickle') if cx.load is False else cx.ctx.fresh_const(Val, 'state')
    def did(self, cx):
        a, b = self.was(cx), self.now(cx)
        return grew(a, b) + only_gone(cx, self) + b.inv_parts(self.stale(cx))
    def stale(self, cx): return EMPTY
    class L0(object):
        def __call__(self, L): return rgs_i().did(L.it.cx)
    other_loops = {('models.pickle:Unpickler.load', 0): L0()}
    def post(self, cx):
        d = to_bytes(cx.data)
        if cx.load is False: return [('the pickle of the state', to_bytes(cx.result) == If(zed(d), zdecompress(rest(d)), rest(d)))] + self.did(cx)
        return [('the state', cx.result == loaded(d))] + self.did(cx)
    def post_exc(self, cx): return self.did(cx)

def rgs_i():
    from pyvc.runner import CONTRACTS
    return CONTRACTS[reader_get_state.target]

@contract
class get_stored_pickle(CON):
    target = CM + 'Connection.get_stored_pickle'
    raises = ('durus.error:ReadConflictError', 'durus.error:DurusKeyError', OSError, AssertionError)
    asserts_raise = True
    args = ('key',)
    def modifies(self, cx):
        w = self.w(cx)
        return [self.gone(cx), w.invalid, w.store] + list(self.st(cx))
    def result(self, cx): return cx.ctx.bytes('pickle')
    def did(self, cx):
        a, b, k = self.was(cx), self.now(cx), z3.Const('k', Bytes)
        g = ForAll([k], Implies(a.store['given'][k], b.store['given'][k]), patterns=[b.store['given'][k]])
        return dropped(a, b) + only_gone(cx, self) + b.inv_parts() + [('what is in use stays in use', g), ('', And(*[b.store[x] == a.store[x] for x in ('pend', 'prec', 'fresh', 'open')] + [to_int(b.store['stamp']) == to_int(a.store['stamp'])]))]
    def post(self, cx):
        a, b, key = self.was(cx), self.now(cx), to_bytes(cx.oid)
        k = z3.Const('k', Bytes)
        return [('the current data of the oid', And(b.store['D'][key], to_bytes(cx.result) == rec_data(b.store['T'][key]))),
                ('what was used or changed is not affected', ForAll([k], Implies(hit(a, k), And(b.store['T'][k] == a.store['T'][k], b.store['D'][k] == a.store['D'][k])), patterns=[b.store['T'][k]])),
                ('no conflict is left', And(Not(b.inv(key)), b.inv_ == a.inv_))] + self.did(cx)
    def post_exc(self, cx):
        a, b = self.was(cx), self.now(cx)
        if self.is_exc(cx, AssertionError): return [('only for an oid with a conflict', a.inv(to_bytes(cx.oid)))] + self.did(cx)
        if self.is_exc(cx, 'durus.error:DurusKeyError'): return [('only for an oid that is not stored', Not(b.store['D'][to_bytes(cx.oid)]))] + self.did(cx)
        return self.did(cx)

def store_kept(a, b, *cells):
    """what happens to the storage when others may do something"""
    k = z3.Const('k', Bytes)
    out = [('what is in use stays in use', ForAll([k], Implies(a.store['given'][k], b.store['given'][k]), patterns=[b.store['given'][k]]))]
    out += [('', And(*[to_int(b.store[x]) == to_int(a.store[x]) if x == 'stamp' else b.store[x] == a.store[x] for x in cells]))]
    return out
COMMIT_CELLS = ('pend', 'prec', 'fresh', 'open', 'stamp')

@contract
class shrink_cache(SHRINK):
    target = CM + 'Connection.shrink_cache'
    what = 'conn'
    def pre(self, cx): return self.inv(cx)
    def modifies(self, cx): return self.mods(cx)
    def post(self, cx): return self.did(cx)

@contract
class sync_(CON):
    target = CM + 'Connection._sync'
    raises = (OSError,)
    def pre(self, cx):
        w, k = self.now(cx), z3.Const('k', Bytes)
        return w.inv_parts() + [('nothing is changed', ForAll([k], Not(w.chg(k)), patterns=[w.chg(k)]))]
    def modifies(self, cx):
        w = self.w(cx)
        return [self.gone(cx), w.invalid, w.store] + list(self.st(cx))
    def did(self, cx, stale=EMPTY):
        a, b, t = self.was(cx), self.now(cx), z3.Int('t')
        return [('states are dropped only of saved objects', ForAll([t], Implies(Or(b.state(t) != a.state(t), b.status(t) != a.status(t)), And(a.status(t) != UNSAVED, b.status(t) == GHOST)), patterns=[b.state(t), b.status(t)])),
                ('', ForAll([t], Implies(Or(b.state(t) != a.state(t), b.status(t) != a.status(t)), And(a.status(t) != UNSAVED, b.status(t) == GHOST)), patterns=[b.status(t)]))
                ] + only_gone(cx, self) + b.inv_parts(stale) + store_kept(a, b, *COMMIT_CELLS)
    def post(self, cx):
        b, k = self.now(cx), z3.Const('k', Bytes)
        return [('no conflict is left', ForAll([k], Not(b.inv(k)), patterns=[b.inv(k)]))] + self.did(cx)
    def post_exc(self, cx): return self.did(cx)
    class L0(object):
        def __call__(self, L):
            cx, me = L.it.cx, sync_i()
            stale = combine(L.it, lambda p, q: And(p, Not(q)), me.now(cx).inv_, L.g.c['seen'])
            a, b = L.it.world.at(L.entry), me.now(cx)
            k = z3.Const('k', Bytes)
            return [('', And(b.inv_ == a.inv_, b.C_ == a.C_, b.store['T'] == a.store['T'], b.store['D'] == a.store['D'])),
                    ('those before are ghosts', ForAll([k], Implies(And(L.g.c['seen'][k], b.vis(k)), b.status(b.obj(k)) == GHOST), patterns=[b.map(k), L.g.c['seen'][k]]))] + me.did(cx, stale)
    loops = {0: L0()}
def sync_i():
    from pyvc.runner import CONTRACTS
    return CONTRACTS[sync_.target]

def serial_next(a, b): return ('another transaction begins', b.ts == a.ts + 1)

@contract
class abort(CON):
    target = CM + 'Connection.abort'
    props = ('C04', 'C12', 'C13', 'C14', 'C18')
    raises = (OSError,)
    def modifies(self, cx):
        w = self.w(cx)
        return [self.gone(cx), w.invalid, w.store, w.changed, w.mapping, w.dead, (w.cache, 'finger'), w.recent_map, (w.conn, 'transaction_serial')] + list(self.st(cx))
    def post(self, cx):
        a, b, k, t = self.was(cx), self.now(cx), z3.Const('k', Bytes), z3.Int('t')
        return [('nothing is changed, no conflict is left', ForAll([k], And(Not(b.chg(k)), Not(b.inv(k))), patterns=[b.chg(k), b.inv(k)])), serial_next(a, b),
                ('what was changed has no state now', ForAll([k], Implies(a.chg(k), b.status(a.chgobj(k)) == GHOST), patterns=[a.chg(k)])),
                ('a state in memory is that of the latest commit', ForAll([k], Implies(And(b.vis(k), b.status(b.obj(k)) != GHOST),
                    And(b.status(b.obj(k)) == SAVED, b.store['D'][k], b.state(b.obj(k)) == loaded(rec_data(b.store['T'][k])))), patterns=[b.map(k)]))
                ] + b.inv_parts()
    def post_exc(self, cx):
        b, k = self.now(cx), z3.Const('k', Bytes)
        return [('nothing is changed', ForAll([k], Not(b.chg(k)), patterns=[b.chg(k)]))] + b.inv_parts()
    class L0(object):
        def __call__(self, L):
            w = L.it.world
            a, b = w.was(L.it.cx), w.now()
            k, t, seen = z3.Const('k', Bytes), z3.Int('t'), L.g.c['seen']
            reset = And(a.chg(a.oid(t)), a.chgobj(a.oid(t)) == t, seen[a.oid(t)])
            return [('the changed objects become ghosts', ForAll([t], And(b.status(t) == If(reset, GHOST, a.status(t)), Implies(Not(reset), b.state(t) == a.state(t))), patterns=[b.status(t)])),
                    ('', ForAll([t], Implies(Not(reset), b.state(t) == a.state(t)), patterns=[b.state(t)]))]
    loops = {0: L0()}

class LOADS(CON):
    """functions that load states"""
    raises = ('durus.error:ReadConflictError', OSError, AssertionError, Exception)
    asserts_raise = True
    def modifies(self, cx):
        w = self.w(cx)
        return [self.gone(cx), w.invalid, w.store, w.mapping, w.dead, (w.reader, 'load_count')] + [(w.fam, f) for f in sorted(w.fam.c) if f != 'gone.0']
    def kept(self, cx, but=None):
        """objects that exist: but for ghosts and dropped states they stay as they were"""
        a, b, t, k = self.was(cx), self.now(cx), z3.Int('t'), z3.Const('k', Bytes)
        here = t == but if but is not None else FALSE
        same = And(b.alloc(t), *[f(t) == g(t) for f, g in ((a.serial, b.serial), (a.has, b.has), (a.oid, b.oid), (a.connection, b.connection), (a.cls, b.cls))])
        was = Or(here, And(b.status(t) == a.status(t), b.state(t) == a.state(t)), And(a.status(t) == SAVED, b.status(t) == GHOST, Or(b.gone(t), Not(And(a.own(t), a.used(t))))))
        return [('objects stay the same', ForAll([t], Implies(a.alloc(t), And(same, was)), patterns=[b.alloc(t)])), ('', ForAll([t], Implies(a.alloc(t), And(same, was)), patterns=[a.alloc(t)])),
                ('', And(b.C_ == a.C_, b.ts == a.ts, b.R_ == a.R_)),
                ('new objects are new in memory only', ForAll([t], Implies(And(b.alloc(t), Not(a.alloc(t))), And(b.status(t) != UNSAVED, b.has(t), b.mine(t))), patterns=[b.alloc(t)])),
                ('one object per oid, as long as it is alive', ForAll([k], Implies(And(a.vis(k), Not(b.gone(a.obj(k)))), And(b.there(k), b.obj(k) == a.obj(k))), patterns=[b.map(k)]))
                ] + b.inv_parts() + only_gone(cx, self) + store_kept(a, b, *COMMIT_CELLS)
    def kept_exc(self, cx, but=None): return self.kept(cx, but)
    def current(self, cx, t):
        b = self.now(cx)
        k = b.oid(t)
        return And(b.status(t) == SAVED, b.store['D'][k], b.state(t) == loaded(rec_data(b.store['T'][k])))
    def snapshot(self, cx):
        """C14: what was used or changed before is not affected by what has been loaded"""
        a, b, k = self.was(cx), self.now(cx), z3.Const('k', Bytes)
        return [('what was used or changed in the transaction is of the same state of the database', ForAll([k], Implies(And(hit(a, k), Not(a.fresh(k))), And(b.store['T'][k] == a.store['T'][k], b.store['D'][k] == a.store['D'][k])), patterns=[b.store['T'][k]]))]

@contract
class load_state(LOADS):
    target = CM + 'Connection.load_state'
    props = ('C12', 'C13', 'C14')
    args = ('obj',)
    def pre(self, cx):
        w, t = self.now(cx), cx.obj.t
        return w.inv_parts() + [('a ghost of the connection', And(w.mine(t), w.has(t), w.alloc(t), Not(w.gone(t)), w.status(t) == GHOST, blen(w.oid(t)) == 8))]
    def post(self, cx):
        return [('it has the current state', self.current(cx, cx.obj.t))] + self.kept(cx, cx.obj.t) + self.snapshot(cx)
    def post_exc(self, cx):
        b, t = self.now(cx), cx.obj.t
        return [('it is still a ghost', b.status(t) == GHOST)] + self.kept_exc(cx)

@contract
class conn_get(LOADS):
    target = CM + 'Connection.get'
    props = ('C13', 'C14', 'C18')
    raises = LOADS.raises + (StructError,)
    def setup(self, it):
        w = World(it)
        return [w.conn, it.ctx.bytes('oid', 8) if it.ctx.choose([None, None], 'oid') == 0 else it.ctx.int('oid', lo=0, hi=2 ** 64)], {}
    def key(self, cx): return to_bytes(cx.oid) if is_bytes(cx.oid) else be8(to_int(cx.oid))
    def result(self, cx):
        if cx.ctx.choose([None, None], 'get') == 0: return FamRef(self.w(cx).fam, cx.ctx.int('got'))
        return None
    def post(self, cx):
        a, b, k = self.was(cx), self.now(cx), self.key(cx)
        if cx.result is None: return [('only when it is neither in memory nor stored', And(Not(b.vis(k)), Not(b.store['D'][k])))] + self.kept(cx)
        r = cx.result.t
        return [('the object of the oid', And(b.vis(k), b.obj(k) == r, b.oid(r) == k)), ('the one in memory, if there is one', Implies(a.vis(k), Or(r == a.obj(k), b.gone(a.obj(k))))),
                ('else the current state', Implies(Not(a.vis(k)), self.current(cx, r)))] + self.kept(cx) + self.snapshot(cx)
    def post_exc(self, cx): return self.kept_exc(cx)
