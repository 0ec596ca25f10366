"""
The model that the contracts of connection.py, persistent.py and serialize.py share: persistent
objects of any number (a family, whose fields are arrays over the identities of the objects), weak
references to them, one Connection with its Cache, and the storage of the connection.

Assumptions stated by the model:
 - __getstate__ and __setstate__ of a class read and replace the state of the object and do nothing
   else (persistent_c and containers_c show it of the classes of Durus);
 - an object that nothing holds can disappear at any moment; what the connection holds (recent
   objects, changed objects, the root) does not.  The callback of a weak reference has no other
   effect than to mark a key whose object is gone, so it is not modelled separately;
 - the storage (StoreM) is what the contracts of client_c, server_c and storage_c say: load answers
   for the state of the last sync, refuses what has been changed since, sync and end first report
   what has been changed, and a failing end stores nothing.
"""
from pyvc.engine import *
from pyvc.natives import *
from pyvc.interp import Contract
from contracts.serialize_c import rec_ok, rec_oid, rec_data, rec_refs

PM, CM, SM = 'durus.persistent:', 'durus.connection:', 'durus.serialize:'
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
ForAll = z3.ForAll
AB = z3.ArraySort(Bytes, B)
ABB = z3.ArraySort(Bytes, Bytes)
EMPTY = z3.K(Bytes, FALSE)
GHOST, SAVED, UNSAVED = z3.IntVal(-1), z3.IntVal(0), z3.IntVal(1)
NO_STATE = z3.Const('no_state', Val)
nref = z3.Function('nref', Val, I)                     # the references in a state:
refobj = z3.Function('refobj', Val, z3.ArraySort(I, I))   # the objects, in the order in which they are pickled
ROOT = be8(z3.IntVal(0))

# What pickle makes and reads (assumed): the pickle of a class; of a state, after that of the class
# with the same memo; the length of the first pickle in some data, the class in it; the value of a
# state's pickle
cpickle = z3.Function('cpickle', I, Bytes)
spickle = z3.Function('spickle', I, Val, Bytes)
plen = z3.Function('plen', Bytes, I)
class_in = z3.Function('class_in', Bytes, I)
pval = z3.Function('pval', I, Bytes, Val)
noids = z3.Function('noids', Val, I)                   # the references in a state that is loaded
oidat = z3.Function('oidat', Val, z3.ArraySort(I, Bytes))
clsat = z3.Function('clsat', Val, z3.ArraySort(I, I))
loaded = z3.Function('loaded', Bytes, Val)             # the state in the data of a record
_d, _c, _s = z3.Const('d', Bytes), z3.Int('c'), z3.Const('s', Val)
def rest(d): return sub(d, plen(d), blen(d) - plen(d))
def zed(d): return And(de1(sub(rest(d), 0, 1)) == 0x78, zok(rest(d)))
def whole(d): return And(plen(d) > 0, plen(d) < blen(d))
PICKLE = [
    ForAll([_c, _d], And(plen(wr(cpickle(_c), blen(cpickle(_c)), _d)) == blen(cpickle(_c)), class_in(wr(cpickle(_c), blen(cpickle(_c)), _d)) == _c),
           patterns=[wr(cpickle(_c), blen(cpickle(_c)), _d)]),
    ForAll([_c], blen(cpickle(_c)) > 0, patterns=[cpickle(_c)]),
    ForAll([_c, _s], And(pval(_c, spickle(_c, _s)) == _s, blen(spickle(_c, _s)) >= 1, de1(sub(spickle(_c, _s), 0, 1)) == 0x80), patterns=[spickle(_c, _s)]),
    ForAll([_d], loaded(_d) == pval(class_in(_d), If(zed(_d), zdecompress(rest(_d)), rest(_d))), patterns=[loaded(_d)]),
]

class KCls(KIdent):
    """the class of a persistent object"""
    def attr(self, it, o, name):
        if name == '__new__': return Builtin('__new__', lambda it, a, k: new_object(it, a[0]))
        if name == '__name__': return Opaque('name')
        raise Unsupported('%s of a class' % name)
    def call(self, it, o, args, kw): raise Unsupported('call of a class')

class StoreM(Native):
    """The storage of a connection.  T/D: the records, and which there are, in the state of the last
    sync; U: the oids that have been changed by others since; pend/prec: the records of the commit;
    given: every oid that is or was in use; news: what the last sync or end reported."""
    def __init__(self, ctx, name='storage'):
        HeapObj.__init__(self, ctx, name)
        f = ctx.fresh_const
        self.c.update(T=f(ABB, 'T'), D=f(AB, 'D'), U=f(AB, 'U'), pend=f(AB, 'pend'), prec=f(ABB, 'prec'), fresh=f(AB, 'fresh'), stamp=ctx.int('stamp'), given=f(AB, 'given'), news=f(AB, 'news'), open=ctx.fresh_const(B, 'begun'))
        ctx.assume(self.wf())
    def wf(self):
        k, c = z3.Const('k', Bytes), self.c
        return And(ForAll([k], Implies(c['D'][k], And(rec_ok(c['T'][k]), rec_oid(c['T'][k]) == k, c['given'][k], whole(rec_data(c['T'][k])))), patterns=[c['D'][k]]))
    def attr(self, it, name):
        m = getattr(self, 'm_' + name, None)
        if m is None: raise Unsupported('storage.' + name)
        return Builtin('storage.' + name, lambda it, a, k: m(it, *a, **k))
    def truth(self, it): return True
    def fails(self, it, what):
        if it.ctx.choose([None, None], what + ' fails') == 1: it.raise_(OSError)
    def others(self, it):
        """others commit"""
        ctx, x = it.ctx, z3.Const('x', Bytes)
        u, u0 = ctx.fresh_const(AB, 'U'), self.c['U']
        ctx.assume(ForAll([x], Implies(u0[x], u[x]), patterns=[u0[x], u[x]]))
        self.c['U'] = u
        g, g0 = ctx.fresh_const(AB, 'given'), self.c['given']
        ctx.assume(ForAll([x], Implies(g0[x], g[x]), patterns=[g0[x], g[x]]))
        self.c['given'] = g
    def m_load(self, it, oid):
        ctx, k = it.ctx, to_bytes(oid)
        self.fails(it, 'load')
        self.others(it)
        c = self.c
        o = ctx.choose([And(Not(c['U'][k]), c['D'][k]), c['U'][k], And(Not(c['U'][k]), Not(c['D'][k]))], 'load')
        if o == 1: raise PyRaise(ExcInst(it.resolve('durus.error:ReadConflictError')))
        if o == 2: raise PyRaise(ExcInst(it.resolve('durus.error:DurusKeyError')))
        return c['T'][k]
    def news(self, it):
        """-> the oids that others have changed since the last time"""
        self.others(it)
        ctx, c, x = it.ctx, self.c, z3.Const('x', Bytes)
        n, t, d, t0, d0 = c['U'], ctx.fresh_const(ABB, 'T'), ctx.fresh_const(AB, 'D'), c['T'], c['D']
        for p in (t[x], t0[x], d[x], d0[x]):
            ctx.assume(ForAll([x], Implies(Not(n[x]), And(t[x] == t0[x], d[x] == d0[x])), patterns=[p]))
        ctx.assume(ForAll([x], Implies(n[x], Not(c['fresh'][x])), patterns=[n[x]]))      # C07: nobody else has them
        c.update(T=t, D=d, U=EMPTY, news=n)
        ctx.assume(self.wf())
        return SetV(ctx, 'news', BYTES, n)
    def m_sync(self, it):
        self.fails(it, 'sync')
        return self.news(it)
    def m_begin(self, it):
        self.c['pend'] = self.c['fresh'] = EMPTY
        self.c['stamp'] = to_int(it.world.conn.c['transaction_serial'])
        self.c['open'] = TRUE
    def m_new_oid(self, it):
        self.fails(it, 'new_oid')
        self.others(it)
        x = it.ctx.bytes('new_oid', 8)
        it.ctx.assume(Not(self.c['given'][x]))
        self.c['given'] = z3.Store(self.c['given'], x, TRUE)
        self.c['fresh'] = z3.Store(self.c['fresh'], x, TRUE)
        return x
    def m_store(self, it, oid, record):
        k, r, line = to_bytes(oid), to_bytes(record), getattr(it, 'line', None)
        it.ctx.prove(self.c['open'], 'a record is stored after begin()', line)
        it.ctx.prove(blen(k) == 8, 'what is stored has an oid', line)
        it.ctx.prove(Not(self.c['pend'][k]), 'no oid is stored twice', line)
        it.ctx.prove(And(rec_ok(r), rec_oid(r) == k, self.c['given'][k], whole(rec_data(r))), 'what is stored is a record of the oid', line)
        self.fails(it, 'store')
        self.c['pend'] = z3.Store(self.c['pend'], k, TRUE)
        self.c['prec'] = z3.Store(self.c['prec'], k, r)
    def m_end(self, it, handle_invalidations=None):
        self.fails(it, 'end')
        self.c['open'] = FALSE
        l = self.news(it)
        it.call(handle_invalidations, [l])
        o = it.ctx.choose([None, None, None], 'end')
        if o == 1: raise PyRaise(ExcInst(it.resolve('durus.error:WriteConflictError')))
        if o == 2: it.raise_(OSError)
        ctx, c, x = it.ctx, self.c, z3.Const('x', Bytes)
        t, t0, p, r = ctx.fresh_const(ABB, 'T'), c['T'], c['pend'], c['prec']
        for q in (t[x], t0[x], p[x]):
            ctx.assume(ForAll([x], t[x] == If(p[x], r[x], t0[x]), patterns=[q]))
        c['T'], c['D'] = t, combine(it, lambda p, q: Or(p, q), c['D'], p)
        ctx.assume(self.wf())            # (of both parts)
    def m_pack(self, it):
        self.fails(it, 'pack')
        self.others(it)

def new_object(it, cls):
    """what PersistentBase.__new__ does"""
    ctx, fam = it.ctx, it.ctx.fams['objs']
    t = ctx.int('object')
    ctx.assume(And(Not(fam.c['alloc.0'][t]), Not(fam.c['gone.0'][t])))
    r = FamRef(fam, t)
    for f, v in (('alloc', TRUE), ('_p_status', UNSAVED), ('_p_serial', 0), ('_p_connection', None), ('_p_oid', None), ('__class__', cls), ('state', NO_STATE)):
        fam.store(f, t, v)
    return r

def getstate(it, a, k):
    fam, t = a[0].fam, a[0].t
    it.ctx.prove(fam.terms('_p_status', t)[0] != GHOST, 'the state is taken of an object that has it', getattr(it, 'line', None))
    w = it.world
    if w.fam is fam:
        # (looking up __getstate__ counts as using the object)
        o = w.now()
        mine = And(o.mine(t), o.serial(t) != o.ts)
        fam.store('_p_serial', t, If(o.mine(t), o.ts, o.serial(t)))
        w.recent_map.c['dom'] = If(mine, z3.Store(o.R_, t, TRUE), o.R_)
        w.recent_map.c['v0'] = If(mine, z3.Store(o.r_, t, t), o.r_)
    return fam.terms('state', t)[0]

def setstate(it, a, k):
    v = a[1]
    if isinstance(v, (DictV, KwDict)) and (isinstance(v, KwDict) and not v.d or isinstance(v, DictV) and v.c['dom'] is None): v = NO_STATE
    a[0].fam.store('state', a[0].t, v)

def pickle_model(it):
    env, ctx = it.module('models.pickle').env, it.ctx
    def may_fail(it, a, k):
        if ctx.choose([None, None], 'pickle') == 1: it.raise_(Exception)
    def references(it, a, k):
        if isinstance(a[0], Ident): return ListV(ctx, 'references', items=())
        ctx.assume(nref(a[0]) >= 0)
        return ListV(ctx, 'references', n=nref(a[0]), arrs=[refobj(a[0])], ek=KRef('objs'))
    def pickled(it, a, k):
        p, x = a
        if isinstance(x, Ident):
            ctx.prove(z3.BoolVal(p.c['memo'] is None), 'a class is pickled with an empty memo', getattr(it, 'line', None))
            p.c['memo'] = x
            return cpickle(x.t)
        m = p.c['memo']
        ctx.prove(z3.BoolVal(isinstance(m, Ident)), 'the state is pickled after the class', getattr(it, 'line', None))
        return spickle(m.t, x)
    def left(f):
        b, p = f.c['b'], to_int(f.c['pos'])
        return sub(b, p, blen(b) - p)
    def load_class(it, a, k):
        f = a[0]
        d = left(f)
        f.c['pos'] = simp_t(to_int(f.c['pos']) + plen(d))
        return Ident(KCls(), class_in(d))
    def load_state(it, a, k):
        f = a[0]
        v = pval(a[1].t, left(f))
        f.c['pos'] = blen(f.c['b'])
        return v
    def references_in(it, a, k):
        ctx.assume(noids(a[0]) >= 0)
        j = z3.Int('j')
        o = oidat(a[0])
        ctx.assume(ForAll([j], Implies(And(0 <= j, j < noids(a[0])), And(blen(o[j]) == 8, it.world.store.c['given'][o[j]])), patterns=[o[j]]))
        return ListV(ctx, 'references', n=noids(a[0]), arrs=[o, clsat(a[0])], ek=KTuple(BYTES, KCls()))
    def same_class(it, a, k):
        w, (oid, cls) = it.world.now(), a[0]
        x = to_bytes(oid)
        ctx.assume(Implies(w.vis(x), w.cls(w.obj(x)) == cls.t))
    for n, f in (('_may_fail', may_fail), ('_references', references), ('_pickled', pickled), ('_load_class', load_class),
                 ('_load_state', load_state), ('_references_in', references_in), ('_same_class', same_class)):
        env[n] = Builtin(n, f)

class World(object):
    """a connection, its objects, its storage"""
    def __init__(self, it, mapped=True):
        ctx = self.ctx = it.ctx
        f = ctx.fresh_const
        it.world = self
        self.it = it
        base = it.cls(PM + 'PersistentObject')
        self.cls = ClassVal('AnyPersistent', [base], {'__setstate__': Builtin('__setstate__', setstate), '__getstate__': Builtin('__getstate__', getstate)}, base.module)
        self.conn = Obj(ctx, it.cls(CM + 'Connection'), 'connection')
        self.other = Opaque('another connection')
        self.fam = Fam(ctx, 'objs', self.cls, {'_p_status': INT, '_p_serial': INT, '_p_oid': KOpt(BYTES), '_p_connection': KChoice(None, self.conn, self.other),
                                               '__class__': KCls(), 'state': VAL, 'gone': BOOL, 'alloc': BOOL})
        self.store = StoreM(ctx)
        self.mapping = DictV(ctx, 'mapping', BYTES, KWeak('objs'), f(AB, 'mapping'), [f(z3.ArraySort(Bytes, I), 'mapped')])
        self.dead = SetV(ctx, 'dead', BYTES, f(AB, 'dead'))
        self.objects = Obj(ctx, it.cls(CM + 'ObjectDictionary'), 'objects', mapping=self.mapping, dead=self.dead, callback=Opaque('callback'))
        self.recent_map = DictV(ctx, 'recent', INT, KRef('objs'), f(z3.ArraySort(I, B), 'recent'), [f(z3.ArraySort(I, I), 'recents')])
        self.recent = Obj(ctx, it.cls(CM + 'ReferenceContainer'), 'recent_objects', map=self.recent_map)
        self.cache = Obj(ctx, it.cls(CM + 'Cache'), 'cache', objects=self.objects, recent_objects=self.recent, size=ctx.int('size', lo=1), finger=ctx.int('finger', lo=0))
        self.reader = Obj(ctx, it.cls(SM + 'ObjectReader'), 'reader', connection=self.conn, load_count=ctx.int('load_count', lo=0))
        self.changed = DictV(ctx, 'changed', BYTES, KRef('objs'), f(AB, 'changed'), [f(z3.ArraySort(Bytes, I), 'changed_obj')])
        self.invalid = SetV(ctx, 'invalid_oids', BYTES, f(AB, 'invalid'))
        self.root = ctx.int('root')
        st = self.store
        self.conn.c.update(storage=st, reader=self.reader, changed=self.changed, invalid_oids=self.invalid, new_oid=Builtin('new_oid', lambda it, a, k: st.m_new_oid(it)),
                           cache=self.cache, root=FamRef(self.fam, self.root), transaction_serial=ctx.int('serial', lo=1))
        lo = Builtin('loads', lambda it, a, k: Ident(KCls(), class_in(to_bytes(a[0]))))
        for m in ('durus.connection', 'durus.serialize'):
            it.module(m).env['loads'] = lo
        pickle_model(it)
        ctx.ghost['strong'] = lambda it, t: self.strong(t)

    # the state, now or (with old) before
    def now(self): return W(self, lambda o: o.c)
    def was(self, cx): return W(self, lambda o: cx.old(o).c)
    def at(self, snap): return W(self, lambda o: snap.c(o))
    def strong(self, t):
        w = self.now()
        return Or(w.recent(t), And(w.has(t), w.chg(w.oid(t)), w.chgobj(w.oid(t)) == t), t == self.root, *[t == x for x in self.it.held()])
    def any(self, name='any'):
        """some object that is alive"""
        t = self.ctx.int(name)
        w = self.now()
        self.ctx.assume(And(w.alloc(t), Not(w.gone(t))))
        return FamRef(self.fam, t)

class W(object):
    """the cells of a World at one moment, as functions"""
    def __init__(self, w, cells):
        self.w = w
        fam, c = cells(w.fam), cells
        self.fam = fam
        self.M_, self.m_ = c(w.mapping)['dom'], c(w.mapping)['v0']
        self.dead_ = c(w.dead)['dom']
        self.R_, self.r_ = c(w.recent_map)['dom'], c(w.recent_map)['v0']
        self.C_, self.c_ = c(w.changed)['dom'], c(w.changed)['v0']
        self.inv_ = c(w.invalid)['dom']
        self.ts = to_int(c(w.conn)['transaction_serial'])
        self.store = c(w.store)
    def status(self, t): return self.fam['_p_status.0'][t]
    def serial(self, t): return self.fam['_p_serial.0'][t]
    def has(self, t): return self.fam['_p_oid.0'][t]
    def oid(self, t): return self.fam['_p_oid.1'][t]
    def mine(self, t): return self.fam['_p_connection.0'][t] == 1
    def connection(self, t): return self.fam['_p_connection.0'][t]
    def cls(self, t): return self.fam['__class__.0'][t]
    def state(self, t): return self.fam['state.0'][t]
    def gone(self, t): return self.fam['gone.0'][t]
    def alloc(self, t): return self.fam['alloc.0'][t]
    def map(self, k): return self.M_[k]
    def obj(self, k): return self.m_[k]
    def dead(self, k): return self.dead_[k]
    def recent(self, t): return self.R_[t]
    def chg(self, k): return self.C_[k]
    def chgobj(self, k): return self.c_[k]
    def inv(self, k): return self.inv_[k]
    def there(self, k): return And(self.M_[k], Not(self.dead_[k]))
    def vis(self, k): return And(self.M_[k], Not(self.dead_[k]), Not(self.gone(self.m_[k])))
    def own(self, t):
        """t is the object of its oid in this connection"""
        return And(self.alloc(t), Not(self.gone(t)), self.has(t), self.mine(t), self.there(self.oid(t)), self.obj(self.oid(t)) == t)
    def unsaved_or_used(self, t): return Or(self.status(t) == UNSAVED, And(self.status(t) == SAVED, self.used(t)))
    def fresh(self, k):
        """new in the commit that is going on"""
        return And(to_int(self.store['stamp']) == self.ts, self.store['fresh'][k])
    def used(self, t): return self.serial(t) == self.ts

    # the invariant of a connection
    def inv_parts(self, stale=EMPTY):
        k, t = z3.Const('k', Bytes), z3.Int('t')
        o = self.obj(k)
        s = self.store
        return [
            ('the cache: an object is kept under its oid', ForAll([k], Implies(self.vis(k), And(self.alloc(o), self.has(o), self.oid(o) == k, self.mine(o))), patterns=[self.map(k)])),
            ('the cache: only oids in use, of objects', ForAll([k], Implies(self.map(k), And(s['given'][k], self.alloc(o))), patterns=[self.map(k)])),
            ('the dead keys are keys', ForAll([k], Implies(self.dead(k), self.map(k)), patterns=[self.dead(k)])),
            ('a changed object is in memory and in the cache', ForAll([k], Implies(self.chg(k), And(self.own(self.chgobj(k)), self.oid(self.chgobj(k)) == k, self.unsaved_or_used(self.chgobj(k)), blen(k) == 8)), patterns=[self.chg(k)])),
            ('an object that is not saved is a changed one', ForAll([k], Implies(And(self.vis(k), self.status(o) == UNSAVED), And(self.chg(k), self.chgobj(k) == o)), patterns=[self.map(k)])),
            ('the recent objects are alive', ForAll([t], Implies(self.recent(t), And(self.r_[t] == t, self.alloc(t), Not(self.gone(t)))), patterns=[self.recent(t)])),
            ('what was used in this transaction is recent', ForAll([t], Implies(And(self.own(t), self.used(t)), Or(self.recent(t), self.fresh(self.oid(t)))), patterns=[self.serial(t)])),
            ('serials', And(self.ts >= 1, ForAll([t], Implies(self.alloc(t), self.serial(t) <= self.ts), patterns=[self.serial(t)]))),
            ('the status is one of three', ForAll([t], Implies(self.alloc(t), And(self.status(t) >= GHOST, self.status(t) <= UNSAVED)), patterns=[self.status(t)])),
            ('a state in memory is that of the last sync', ForAll([k], Implies(And(self.vis(k), self.status(o) == SAVED, Not(self.inv(k)), Not(self.chg(k)), Not(stale[k])),
                And(s['D'][k], self.state(o) == loaded(rec_data(s['T'][k])))), patterns=[self.map(k)])),
            ('the root is there', self.root_ok()),
            ('what is stored are records of oids in use', ForAll([k], Implies(s['D'][k], And(rec_ok(s['T'][k]), rec_oid(s['T'][k]) == k, s['given'][k], whole(rec_data(s['T'][k])))), patterns=[s['D'][k]])),
        ]
    def root_ok(self):
        r = self.w.root
        return And(self.alloc(r), Not(self.gone(r)), self.has(r), self.oid(r) == ROOT, self.mine(r), self.map(ROOT), Not(self.dead(ROOT)), self.obj(ROOT) == r)
    def inv_all(self): return And(*[f for _, f in self.inv_parts()])

def gone_only(a, b, keep=()):
    """from a to b objects have disappeared, and nothing else (of the fields of objects) happened"""
    t = z3.Int('t')
    return ForAll([t], Implies(a.gone(t), b.gone(t)), patterns=[a.gone(t), b.gone(t)])
