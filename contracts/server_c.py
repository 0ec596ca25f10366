"""
Contracts of durus/storage_server.py.

The clients are a family of objects (any number of them); a client's `invalid` and
`unused_oids` are sets of arbitrary content.  The storage behind the server is used through an
interface contract only (class StorageV): what it says of load, store, end, sync, new_oid is what
storage_c.py, file_storage_c.py ... show of the storages themselves.

Spec functions over the data t of a commit message:
  cb(t, i)         chunks (4-byte length, oid, record) end exactly at i
  cdom, cval       the oids in them, and the record of each oid
"""
from pyvc.engine import *
from pyvc.natives import *
from pyvc.runner import contract
from pyvc.interp import Contract
import contracts.utils_c as U
import contracts.serialize_c as S

M = 'durus.storage_server:'
i0, n_ = z3.IntVal(0), z3.IntVal
AB, ABB = z3.ArraySort(Bytes, B), z3.ArraySort(Bytes, Bytes)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
EMPTY = z3.K(Bytes, FALSE)
ForAll = z3.ForAll
cb = z3.Function('cb', Bytes, I, B)
cdom = z3.Function('cdom', Bytes, I, AB)
cval = z3.Function('cval', Bytes, I, ABB)
t_, (i_, e_) = z3.Const('t', Bytes), z3.Ints('i e')

def chunk_end(t, i): return i + 4 + de4(sub(t, i, n_(4)))
def chunk_oid(t, i): return sub(t, i + 4, n_(8))
def chunk_rec(t, i): return sub(t, i + 12, de4(sub(t, i, n_(4))) - 8)

CHUNKS = [
    ForAll([t_], And(cb(t_, 0), cdom(t_, 0) == EMPTY), patterns=[cb(t_, 0)]),
    ForAll([t_], And(cb(t_, 0), cdom(t_, 0) == EMPTY), patterns=[cdom(t_, 0)]),
    ForAll([t_, i_], Implies(And(cb(t_, i_), 0 <= i_, i_ + 12 <= blen(t_), chunk_end(t_, i_) <= blen(t_), de4(sub(t_, i_, n_(4))) >= 8),
        And(cb(t_, chunk_end(t_, i_)),
            cdom(t_, chunk_end(t_, i_)) == z3.Store(cdom(t_, i_), chunk_oid(t_, i_), TRUE),
            cval(t_, chunk_end(t_, i_)) == z3.Store(cval(t_, i_), chunk_oid(t_, i_), chunk_rec(t_, i_)))),
        patterns=[z3.MultiPattern(cb(t_, i_), sub(t_, i_, n_(4)))]),
]

def rec_wf(oid, r):
    """the record of this oid, with whole references"""
    d = de4(sub(r, n_(8), n_(4)))
    return And(blen(oid) == 8, blen(r) >= 12, sub(r, i0, n_(8)) == oid, 12 + d <= blen(r), (blen(r) - 12 - d) % 8 == 0)


# ------------------------------------------------------------------ the storage, by its interface

class StorageV(Native):
    """rec, val: what is stored; pend, pval: what the transaction holds; alloc: the oids given out;
    told1, told2: the oids reported as changed by others, before and within end()."""
    def __init__(self, ctx, name='storage'):
        HeapObj.__init__(self, ctx, name)
        for c in ('rec', 'pend', 'alloc', 'told1', 'told2'):
            self.c[c] = ctx.fresh_const(AB, c)
        self.c['told1'] = self.c['told2'] = EMPTY
        self.c['val'] = ctx.fresh_const(ABB, 'val')
        self.c['pval'] = ctx.fresh_const(ABB, 'pval')
        self.c['committed'] = z3.BoolVal(False)
        self.c['synced'] = z3.BoolVal(False)
    def truth(self, it): return True
    def attr(self, it, name):
        m = getattr(self, 'm_' + name, None)
        if m is not None: return Builtin('storage.' + name, lambda it, a, k: m(it, *a, **k))
        it.raise_(AttributeError)
    def oids(self, it, told):
        """some oids that others have changed"""
        l = ListV(it.ctx, 'changed', n=it.ctx.int('n_changed', lo=0), arrs=[it.ctx.fresh_const(z3.ArraySort(I, Bytes), 'changed')], ek=BYTES)
        dom = list_dom(it, l)[1]
        self.c[told] = combine(it, lambda p, q: Or(p, q), self.c[told], dom)
        return l
    def m_sync(self, it):
        self.c['synced'] = z3.BoolVal(True)
        return self.oids(it, 'told1')
    def m_load(self, it, oid):
        k = it.ctx.choose([self.c['rec'][oid], Not(self.c['rec'][oid]), None], 'load')
        if k == 1: it.raise_(KeyError, oid)
        if k == 2: raise PyRaise(ExcInst(it.resolve('durus.error:ReadConflictError')))
        r = self.c['val'][oid]
        it.ctx.assume(And(blen(r) >= 12, blen(r) < 2 ** 32))
        return r
    def m_begin(self, it):
        self.c['pend'] = EMPTY
    def m_store(self, it, oid, record):
        oid, record = to_bytes(oid), to_bytes(record)
        it.ctx.prove(rec_wf(oid, record), 'what is given to the storage is the record of the oid', getattr(it, 'line', None))
        if it.ctx.choose([None, None], 'store') == 1: it.raise_(ValueError)
        self.c['pend'] = z3.Store(self.c['pend'], oid, TRUE)
        self.c['pval'] = z3.Store(self.c['pval'], oid, record)
    def m_end(self, it, handle_invalidations=None):
        if it.ctx.choose([None, None], 'end: news') == 1:
            it.call(handle_invalidations, [self.oids(it, 'told2')])
        k = it.ctx.choose([None, None, None], 'end')
        if k == 1: raise PyRaise(ExcInst(it.resolve('durus.error:ConflictError')))
        if k == 2: it.raise_(OSError)
        self.c['rec'] = combine(it, lambda p, q: Or(p, q), self.c['rec'], self.c['pend'])
        v, x = it.ctx.fresh_const(ABB, 'val'), z3.Const('x', Bytes)
        it.ctx.assume(ForAll([x], v[x] == If(self.c['pend'][x], self.c['pval'][x], self.c['val'][x]), patterns=[v[x]]))
        self.c['val'] = v
        self.c['pend'] = EMPTY
        self.c['committed'] = z3.BoolVal(True)
    def m_new_oid(self, it):
        x = it.ctx.bytes('oid', 8)
        it.ctx.assume(Not(self.c['alloc'][x]))
        self.c['alloc'] = z3.Store(self.c['alloc'], x, TRUE)
        return x
    def m_get_packer(self, it):
        return None if it.ctx.choose([None, None], 'packer') == 0 else Opaque('packer')
    def m_pack(self, it): return None
    def m_close(self, it): return None


# ------------------------------------------------------------------ the server

class Clients(object):
    """the family, the list of the clients that are connected, and the client of the socket"""
    def __init__(self, it):
        ctx = it.ctx
        self.fam = Fam(ctx, 'client', it.cls(M + '_Client'), {'s': KSock(), 'addr': OPAQUE, 'invalid': KSetOf(BYTES), 'unused_oids': KSetOf(BYTES)})
        self.n = ctx.int('n_clients', lo=0)
        self.arr = ctx.fresh_const(z3.ArraySort(I, I), 'clients')
        self.idx = z3.Function('client_index', I, I)
        self.sidx = z3.Function('socket_index', I, I)
        j = z3.Int('j')
        ctx.assume(ForAll([j], Implies(And(0 <= j, j < self.n), And(self.idx(self.arr[j]) == j, self.sidx(self.fam.c['s.0'][self.arr[j]]) == j)), patterns=[self.arr[j]]))
        self.list = ListV(ctx, 'clients', n=self.n, arrs=[self.arr], ek=KRef('client'))
        self.sock = SockV(ctx, fails=True)
        self.sock.sid = ctx.int('sid')
        self.own = ctx.int('own', lo=0)
        ctx.assume(And(self.own < self.n, self.fam.c['s.0'][self.arr[self.own]] == self.sock.sid))
        self.t = self.arr[self.own]
        # a set of 2**32 oids does not fit in memory
        d = z3.Const('d', AB)
        ctx.assume(ForAll([d], card(d) < 2 ** 32, patterns=[card(d)]))
    def there(self, t):
        return And(0 <= self.idx(t), self.idx(t) < self.n, self.arr[self.idx(t)] == t)

def a_server(it):
    ctx = it.ctx
    ctx.ghost['logging'] = True      # (or not: both are considered)
    C = it.clients = Clients(it)
    st = StorageV(ctx)
    o = Obj(ctx, it.cls(M + 'StorageServer'), 'server', storage=st, clients=C.list, sockets=Opaque('sockets'),
            packer=None if ctx.choose([None, None], 'packing') == 0 else Opaque('packer'), address=Opaque('address'),
            load_record=DictV(ctx, 'load_record', BYTES, INT, ctx.fresh_const(AB, 'classes'), [ctx.fresh_const(z3.ArraySort(Bytes, I), 'loads')]), bytes_since_pack=ctx.int('since', lo=0), gcbytes=ctx.int('gcbytes'))
    return o

def inv_of(c, t): return c.c['invalid.0'][t]
def unused_of(c, t): return c.c['unused_oids.0'][t]

def told(cx_or_L, which, C, st, old_fam, fam, but=None):
    """every client has been told of the oids in `which`"""
    t, x = z3.Int('t'), z3.Const('x', Bytes)
    new, old = fam.c['invalid.0'][t][x], old_fam.c['invalid.0'][t][x]
    f = new == Or(old, And(C.there(t), which[x]))
    if but is not None: f = Implies(t != but, f)
    return ForAll([t, x], f, patterns=[new, old])

def own(cx):
    """whether this is the function that is being verified (the bytes of a reply are no part of
    what a caller relies on)"""
    return cx.it.cx is cx

class SERVER(Contract):
    props = ('C15',)
    theory = [CHUNKS]
    ERR = (M + 'ClientError', OSError, 'durus.utils:ShortRead')
    def fam(self, cx): return cx.it.clients.fam
    def C(self, cx): return cx.it.clients

@contract
class find_client(SERVER):
    target = M + 'StorageServer._find_client'
    props = ('C15', 'C16')
    def setup(self, it):
        o = a_server(it)
        return [o, it.clients.sock], {}
    def pre(self, cx): return [('the socket of a client', z3.BoolVal(cx.s is cx.it.clients.sock))]
    def result(self, cx): return FamRef(self.fam(cx), self.C(cx).t)
    def post(self, cx):
        return [('the client of the socket', cx.result.t == self.C(cx).t)]
    dead = ('assert 0',)
    class L0(object):
        def __call__(self, L):
            C, k = L.it.clients, z3.Int('k')
            return [('not yet', And(L.ghost_i() >= 0, ForAll([k], Implies(And(0 <= k, k < L.ghost_i()), C.fam.c['s.0'][C.arr[k]] != C.sock.sid), patterns=[C.arr[k]])))]
    loops = {0: L0()}

def some_oids(it):
    l = ListV(it.ctx, 'oids', n=it.ctx.int('n_oids', lo=0), arrs=[it.ctx.fresh_const(z3.ArraySort(I, Bytes), 'oids')], ek=BYTES)
    return l

@contract
class handle_invalidations(SERVER):
    target = M + 'StorageServer._handle_invalidations'
    props = ('C07', 'C15')
    def setup(self, it):
        o = a_server(it)
        return [o, some_oids(it)], {}
    def modifies(self, cx): return [(self.fam(cx), 'invalid.0')]
    def post(self, cx):
        d = list_dom(cx.it, cx.oids)
        return [('every client is told of them', told(cx, d[1] if d else EMPTY, self.C(cx), None, cx.old(self.fam(cx)), self.fam(cx)))]
    class L0(object):
        def __call__(self, L):
            C, t, x = L.it.clients, z3.Int('t'), z3.Const('x', Bytes)
            d = list_dom(L.it, L['oids'])[1]
            new, old = C.fam.c['invalid.0'][t][x], L.entry(C.fam).c['invalid.0'][t][x]
            return [('the clients before', And(L.ghost_i() >= 0, ForAll([t, x], new == Or(old, And(C.there(t), C.idx(t) < L.ghost_i(), d[x])), patterns=[new, old])))]
    loops = {0: L0()}

def reply_of(cx, C, before):
    """the oids in the invalidations that are sent, and the bytes: count, then each of them once"""
    joins = [e for e in cx.ctx.ghost.get('joins', []) if e[2] is not None]
    return joins

@contract
class handle_S(SERVER):
    target = M + 'StorageServer.handle_S'
    props = ('C07', 'C15', 'C16')
    raises = (OSError,)
    def setup(self, it):
        o = a_server(it)
        return [o, it.clients.sock], {}
    def modifies(self, cx):
        return [(self.fam(cx), 'invalid.0'), (cx.s, 'out'), cx.self.c['storage'], cx.self.c['load_record']]
    def common(self, cx):
        C, st = self.C(cx), cx.self.c['storage']
        return [('the others are told of what has changed', told(cx, st.c['told1'], C, st, cx.old(C.fam), C.fam, but=C.t)),
                ('nothing is stored', And(st.c['rec'] == cx.old(st).c['rec'], st.c['val'] == cx.old(st).c['val']))]
    def post(self, cx):
        if not own(cx): return self.common(cx)
        C, st = self.C(cx), cx.self.c['storage']
        x = z3.Const('x', Bytes)
        f, n, dom = sent_set(cx, cx.old(cx.s).c['out'])
        mine = inv_of(cx.old(C.fam), C.t)
        return self.common(cx) + [
            ('the client is sent the oids that it does not know to be invalid', And(cx.s.c['out'] == f,
                ForAll([x], dom[x] == Or(mine[x], st.c['told1'][x]), patterns=[dom[x], mine[x]]))),
            ('the storage was asked for what others changed', to_bool(st.c['synced'])),
            ('it has been told', inv_of(C.fam, C.t) == EMPTY)]
    def post_exc(self, cx): return self.common(cx)

def sent_set(cx, out0):
    """what is sent: a count and that many oids, from a set that is also given; for a list of
    oids sent with join(), the obligation that it lists the set without repetition is that of dict_list"""
    joins = cx.ctx.ghost.get('joins', [])
    if not joins: raise Unsupported('the reply is not made with join()')
    r, n, dom, arr = joins[-1]
    return S.cat(out0, be4(n), r) if False else wr(out0, blen(out0), wr(be4(n), n_(4), r)), n, dom

@contract
class new_oids(SERVER):
    target = M + 'StorageServer._new_oids'
    props = ('C16', 'C18')
    timeout = 20000
    def setup(self, it):
        o = a_server(it)
        return [o, it.clients.sock, it.ctx.int('count', lo=0)], {}
    def modifies(self, cx): return [(self.fam(cx), 'unused_oids.0'), (cx.self.c['storage'], 'alloc')]
    def result(self, cx): return some_oids(cx.it)
    def facts(self, it, l, alloc0, alloc1):
        C, j, k, t, x = it.clients, z3.Int('j'), z3.Int('k'), z3.Int('t'), z3.Const('x', Bytes)
        more = [('what was given out stays so', ForAll([x], Implies(alloc0[x], alloc1[x]), patterns=[alloc0[x], alloc1[x]]))]
        if l.concrete() and not l.c['items']: return more
        l2 = copy_list(it, l)
        l2.symbolize()
        n, a = to_int(l2.c['n']), l2.arrs()[0]
        return more + [
            ('new oids', ForAll([j], Implies(And(0 <= j, j < n), And(blen(a[j]) == 8, Not(alloc0[a[j]]), alloc1[a[j]])), patterns=[a[j]])),
            ('no oid twice', ForAll([j, k], Implies(And(0 <= j, j < k, k < n), a[j] != a[k]), patterns=[z3.MultiPattern(a[j], a[k])])),
            ('none that a client may still hold an object of', ForAll([j, k], Implies(And(0 <= j, j < n, 0 <= k, k < C.n),
                Not(C.fam.c['invalid.0'][C.arr[k]][a[j]])), patterns=[z3.MultiPattern(a[j], C.arr[k])]))]
    def post(self, cx):
        C, st, l = self.C(cx), cx.self.c['storage'], cx.result
        t, x = z3.Int('t'), z3.Const('x', Bytes)
        d = list_dom(cx.it, l)
        dom = d[1] if d else EMPTY
        new, old = C.fam.c['unused_oids.0'][t][x], cx.old(C.fam).c['unused_oids.0'][t][x]
        return [('as many as asked for', to_int(l.length()) == to_int(cx.count))] + \
            self.facts(cx.it, l, cx.old(st).c['alloc'], st.c['alloc']) + [
            ('they belong to this client', ForAll([t, x], new == Or(old, And(t == C.t, dom[x])), patterns=[new, old]))]
    class L0(object):
        def __call__(self, L):
            st = L['self'].c['storage']
            l = L['oids']
            return [('so far', And(to_int(l.length()) >= 0, to_int(l.length()) <= to_int(L['count'])))] + \
                new_oids_facts(L.it, l, L.entry(st).c['alloc'], st.c['alloc'])
    class L1(object):
        def __call__(self, L):
            C, k = L.it.clients, z3.Int('k')
            return [('not invalid', And(L.ghost_i() >= 0, ForAll([k], Implies(And(0 <= k, k < L.ghost_i()), Not(C.fam.c['invalid.0'][C.arr[k]][to_bytes(L['oid'])])), patterns=[C.arr[k]])))]
    loops = {0: L0(), 1: L1()}

def new_oids_facts(it, l, a0, a1): return new_oids().facts(it, l, a0, a1)

# ------------------------------------------------------------------ commit

def message(s):
    """the commit data in what the client has sent"""
    b, p = s.c['inb'], to_int(s.c['ipos'])
    k = de4(sub(b, p, n_(4)))
    return k, sub(b, p + 4, k), And(p + 4 + k <= blen(b))

@contract
class handle_C(SERVER):
    target = M + 'StorageServer.handle_C'
    props = ('C15', 'C16', 'C07', 'C23')
    timeout = 20000
    deadline = 400
    cost = 30
    raises = SERVER.ERR
    def setup(self, it):
        o = a_server(it)
        return [o, it.clients.sock], {}
    def pre(self, cx): return [('', And(cx.s.c['ipos'] >= 0, cx.s.c['ipos'] <= blen(cx.s.c['inb'])))]
    def modifies(self, cx):
        return [(self.fam(cx), 'invalid.0'), (self.fam(cx), 'unused_oids.0'), (cx.s, 'out'), (cx.s, 'ipos'), cx.self.c['storage'],
                (cx.self, 'bytes_since_pack'), cx.self.c['load_record']]
    def common(self, cx):
        """what holds however the command ends"""
        C, st, o = self.C(cx), cx.self.c['storage'], cx.old(cx.self.c['storage'])
        t, x = z3.Int('t'), z3.Const('x', Bytes)
        k, data, whole = message(cx.old(cx.s))
        new, old = C.fam.c['invalid.0'][t][x], cx.old(C.fam).c['invalid.0'][t][x]
        done = And(to_bool(st.c['committed']), Not(to_bool(o.c['committed'])))
        un, uo = C.fam.c['unused_oids.0'][t][x], cx.old(C.fam).c['unused_oids.0'][t][x]
        r, r0, v, v0 = st.c['rec'], o.c['rec'], st.c['val'], o.c['val']
        return [
            ('the other clients are told of what has changed', ForAll([t, x], Implies(t != C.t, new == Or(old, And(C.there(t),
                Or(st.c['told1'][x], st.c['told2'][x], And(done, cdom(data, k)[x]))))), patterns=[new, old])),
            ('a client keeps the oids given to it, until it uses them', ForAll([t, x], un == And(uo, Not(And(done, t == C.t, cdom(data, k)[x]))), patterns=[un, uo])),
            ('all of the records are stored, or none', Or(And(Not(done), r == r0, v == v0), And(done, whole, cb(data, k),
                ForAll([x], And(r[x] == Or(r0[x], cdom(data, k)[x]), Implies(r[x], v[x] == If(cdom(data, k)[x], cval(data, k)[x], v0[x]))), patterns=[r[x], r0[x], v[x]])))),
            ('no oid that was given to another client is stored', Implies(done, ForAll([t, x],
                Implies(And(C.there(t), t != C.t, cdom(data, k)[x]), Not(uo)), patterns=[uo])))]
    def post(self, cx):
        if not own(cx): return self.common(cx)
        C, st = self.C(cx), cx.self.c['storage']
        x = z3.Const('x', Bytes)
        k, data, whole = message(cx.old(cx.s))
        f, n, dom = sent_set(cx, cx.old(cx.s).c['out'])
        mine, mine0 = inv_of(C.fam, C.t), inv_of(cx.old(C.fam), C.t)
        done = to_bool(st.c['committed'])
        o = cx.s.c['out']
        ok, bad = to_bytes(b'O'), to_bytes(b'I')
        return self.common(cx) + [
            ('the client is sent the oids that it does not know to be invalid', ForAll([x], dom[x] == Or(mine0[x], st.c['told1'][x]), patterns=[dom[x], mine0[x]])),
            ('it has been told', ForAll([x], mine[x] == st.c['told2'][x], patterns=[mine[x]])),
            ('the storage was asked for what others changed', to_bool(st.c['synced'])),
            ('the reply', o == If(k == 0, f, If(done, wr(f, blen(f), ok), wr(f, blen(f), bad)))),
            ('nothing is stored without data', Implies(k == 0, Not(done))),
            ('the message is read', And(whole, to_int(cx.s.c['ipos']) == to_int(cx.old(cx.s).c['ipos']) + 4 + k))]
    def post_exc(self, cx): return self.common(cx)
    class L0(object):
        """the records of the message"""
        def __call__(self, L):
            t, i, st, l = to_bytes(L['tdata']), to_int(L['i']), L['self'].c['storage'], L['oids']
            x = z3.Const('x', Bytes)
            d = list_dom(L.it, l)
            dom = d[1] if d else EMPTY
            return [('so far', And(i >= 0, Or(i > blen(t), And(cb(t, i),
                ForAll([x], And(st.c['pend'][x] == cdom(t, i)[x], dom[x] == cdom(t, i)[x], Implies(dom[x], st.c['pval'][x] == cval(t, i)[x])),
                       patterns=[st.c['pend'][x], dom[x], cdom(t, i)[x]]))))), ]
    class L1(object):
        """the other clients, before the records are stored"""
        def __call__(self, L):
            C, k, x = L.it.clients, z3.Int('k'), z3.Const('x', Bytes)
            d = list_dom(L.it, L['oids'])
            dom = d[1] if d else EMPTY
            u = C.fam.c['unused_oids.0'][C.arr[k]][x]
            return [('none of their oids', And(L.ghost_i() >= 0, ForAll([k, x], Implies(And(0 <= k, k < L.ghost_i(), C.arr[k] != C.t, dom[x]), Not(u)), patterns=[u])))]
    class L2(object):
        """the other clients, after that"""
        def __call__(self, L):
            C, t, x = L.it.clients, z3.Int('t'), z3.Const('x', Bytes)
            d = list_dom(L.it, L['oids'])
            dom = d[1] if d else EMPTY
            new, old = C.fam.c['invalid.0'][t][x], L.entry(C.fam).c['invalid.0'][t][x]
            return [('the clients before', And(L.ghost_i() >= 0, ForAll([t, x], new == Or(old, And(t != C.t, C.there(t), C.idx(t) < L.ghost_i(), dom[x])), patterns=[new, old])))]
    loops = {0: L0(), 1: L1(), 2: L2()}


# ------------------------------------------------------------------ loads, oids, the rest

def load_reply(out0, C, st, oid, out, inval):
    """one response to a load"""
    ok = to_bytes(b'O')
    r = st.c['val'][oid]
    good = wr(out0, blen(out0), wr(wr(ok, 1, be4(blen(r))), 5, r))
    return And(Implies(inval[oid], out == wr(out0, blen(out0), to_bytes(b'I'))),
               Implies(Not(inval[oid]), Or(
                   And(Not(st.c['rec'][oid]), out == wr(out0, blen(out0), to_bytes(b'K'))),
                   out == wr(out0, blen(out0), to_bytes(b'I')),
                   And(st.c['rec'][oid], out == good))))

class LOADS(SERVER):
    props = ('C15', 'C16')
    raises = (OSError,)
    def kept(self, cx):
        st, o = cx.self.c['storage'], cx.old(cx.self.c['storage'])
        return [('the storage is not changed', And(*[st.c[k] == o.c[k] for k in ('rec', 'val', 'pend', 'pval', 'alloc')]))]
    def post_exc(self, cx): return self.kept(cx)

@contract
class send_load_response(LOADS):
    target = M + 'StorageServer._send_load_response'
    def setup(self, it):
        o = a_server(it)
        return [o, it.clients.sock, it.ctx.bytes('oid', 8)], {}
    def modifies(self, cx): return [(cx.s, 'out'), cx.self.c['load_record']]
    def post(self, cx):
        C, st = self.C(cx), cx.self.c['storage']
        return self.kept(cx) + [('invalid, missing, or the record', load_reply(cx.old(cx.s).c['out'], C, st, to_bytes(cx.oid), cx.s.c['out'], inv_of(C.fam, C.t)))]

@contract
class handle_L(LOADS):
    target = M + 'StorageServer.handle_L'
    raises = (OSError, 'durus.utils:ShortRead')
    def setup(self, it):
        o = a_server(it)
        return [o, it.clients.sock], {}
    def pre(self, cx): return [('', And(cx.s.c['ipos'] >= 0, cx.s.c['ipos'] <= blen(cx.s.c['inb'])))]
    def modifies(self, cx): return [(cx.s, 'out'), (cx.s, 'ipos'), cx.self.c['load_record']]
    def post(self, cx):
        C, st, s0 = self.C(cx), cx.self.c['storage'], cx.old(cx.s)
        oid = sub(s0.c['inb'], to_int(s0.c['ipos']), n_(8))
        return self.kept(cx) + [('the reply for the oid that was sent', load_reply(s0.c['out'], C, st, oid, cx.s.c['out'], inv_of(C.fam, C.t))),
                                ('the message is read', to_int(cx.s.c['ipos']) == to_int(s0.c['ipos']) + 8)]

# the replies to the first i oids of a bulk load: replies(out0, oids, i, out)
replies = z3.Function('replies', Bytes, Bytes, I, Bytes, B)

@contract
class handle_B(LOADS):
    target = M + 'StorageServer.handle_B'
    raises = (OSError, 'durus.utils:ShortRead')
    setup = handle_L.setup
    pre = handle_L.pre
    modifies = handle_L.modifies
    def post(self, cx):
        s0 = cx.old(cx.s)
        b, p = s0.c['inb'], to_int(s0.c['ipos'])
        k = de4(sub(b, p, n_(4)))
        return self.kept(cx) + [
            ('the message is read', And(to_int(cx.s.c['ipos']) == p + 4 + 8 * k, p + 4 + 8 * k <= blen(b))),
            ('one reply for each oid, in order', Implies(self.defs(cx), replies(s0.c['out'], sub(b, p + 4, 8 * k), k, cx.s.c['out'])))]
    def defs(self, cx):
        return replies_defs(self.C(cx), cx.self.c['storage'])
    class L0(object):
        def __call__(self, L):
            it = L.it
            o = it.cx.self if hasattr(it.cx, 'self') else L['self']
            s = L['s']
            s0 = it.old(s)
            b, p = s0.c['inb'], to_int(s0.c['ipos'])
            k = de4(sub(b, p, n_(4)))
            return [('so far', And(L.ghost_i() >= 0, L.ghost_i() <= k, Implies(replies_defs(it.clients, o.c['storage']),
                       replies(s0.c['out'], sub(b, p + 4, 8 * k), L.ghost_i(), s.c['out']))))]
    loops = {0: L0()}

def replies_defs(C, st):
    a, oids, c, d, i = z3.Const('a', Bytes), z3.Const('oids', Bytes), z3.Const('c', Bytes), z3.Const('d', Bytes), z3.Int('i')
    return And(ForAll([a, oids], replies(a, oids, 0, a), patterns=[replies(a, oids, 0, a)]),
               ForAll([a, oids, i, c, d], Implies(And(replies(a, oids, i, c), 0 <= i, 8 * i + 8 <= blen(oids),
                   load_reply(c, C, st, sub(oids, 8 * i, n_(8)), d, inv_of(C.fam, C.t))), replies(a, oids, i + 1, d)),
                   patterns=[z3.MultiPattern(replies(a, oids, i, c), replies(a, oids, i + 1, d))]))

@contract
class handle_N(SERVER):
    target = M + 'StorageServer.handle_N'
    props = ('C16', 'C18')
    raises = (OSError,)
    setup = handle_L.setup
    def modifies(self, cx): return [(self.fam(cx), 'unused_oids.0'), (cx.self.c['storage'], 'alloc'), (cx.s, 'out')]
    def post(self, cx):
        C, st, s0 = self.C(cx), cx.self.c['storage'], cx.old(cx.s)
        out0 = s0.c['out']
        oid = sub(cx.s.c['out'], blen(out0), n_(8))
        j = z3.Int('j')
        return [('a new oid is sent', And(blen(cx.s.c['out']) == blen(out0) + 8, Not(cx.old(st).c['alloc'][oid]), st.c['alloc'][oid])),
                ('none that a client may still hold an object of', ForAll([j], Implies(And(0 <= j, j < C.n), Not(inv_of(C.fam, C.arr[j])[oid])), patterns=[C.arr[j]])),
                ('it belongs to this client', unused_of(C.fam, C.t)[oid])]

@contract
class handle_M(SERVER):
    target = M + 'StorageServer.handle_M'
    props = ('C16', 'C18')
    raises = (OSError, 'durus.utils:ShortRead')
    setup = handle_L.setup
    pre = handle_L.pre
    def modifies(self, cx): return [(self.fam(cx), 'unused_oids.0'), (cx.self.c['storage'], 'alloc'), (cx.s, 'out'), (cx.s, 'ipos')]
    def post(self, cx):
        C, st, s0 = self.C(cx), cx.self.c['storage'], cx.old(cx.s)
        if not own(cx): return []
        joins = cx.ctx.ghost.get('joins', [])
        if not joins: raise Unsupported('the reply is not made with join()')
        r, n, dom, arr = joins[-1]
        count = de1(sub(s0.c['inb'], to_int(s0.c['ipos']), n_(1)))
        j, k = z3.Int('j'), z3.Int('k')
        return [('that many oids are sent', And(n == count, cx.s.c['out'] == wr(s0.c['out'], blen(s0.c['out']), r))),
                ('new oids', ForAll([j], Implies(And(0 <= j, j < n), And(blen(arr[j]) == 8, Not(cx.old(st).c['alloc'][arr[j]]), st.c['alloc'][arr[j]],
                    unused_of(C.fam, C.t)[arr[j]])), patterns=[arr[j]])),
                ('no oid twice', ForAll([j, k], Implies(And(0 <= j, j < k, k < n), arr[j] != arr[k]), patterns=[z3.MultiPattern(arr[j], arr[k])])),
                ('none that a client may still hold an object of', ForAll([j, k], Implies(And(0 <= j, j < n, 0 <= k, k < C.n),
                    Not(inv_of(C.fam, C.arr[k])[arr[j]])), patterns=[z3.MultiPattern(arr[j], C.arr[k])]))]

@contract
class handle_V(SERVER):
    target = M + 'StorageServer.handle_V'
    props = ('C16',)
    raises = (M + 'ClientError', OSError, 'durus.utils:ShortRead')
    setup = handle_L.setup
    pre = handle_L.pre
    def modifies(self, cx): return [(cx.s, 'out'), (cx.s, 'ipos')]
    def post(self, cx):
        s0 = cx.old(cx.s)
        return [('the client has the same protocol', sub(s0.c['inb'], to_int(s0.c['ipos']), n_(4)) == be4(n_(1))),
                ('it is sent the protocol', cx.s.c['out'] == wr(s0.c['out'], blen(s0.c['out']), be4(n_(1))))]

@contract
class handle_P(SERVER):
    target = M + 'StorageServer.handle_P'
    props = ('C16', 'C22')
    raises = (OSError,)
    setup = handle_L.setup
    def modifies(self, cx): return [(cx.s, 'out'), (cx.self, 'packer', OPAQUE), cx.self.c['load_record']]
    def post(self, cx):
        s0 = cx.old(cx.s)
        return [('it is answered', cx.s.c['out'] == wr(s0.c['out'], blen(s0.c['out']), to_bytes(b'O'))),
                ('a pack in progress goes on', z3.BoolVal(cx.old(cx.self).c['packer'] is None or cx.self.c['packer'] is cx.old(cx.self).c['packer']))]

@contract
class handle(SERVER):
    target = M + 'StorageServer.handle'
    dead = ('command_code = command_byte',)      # Python 2
    props = ('C15', 'C16')
    raises = (M + 'ClientError', OSError, 'durus.utils:ShortRead', SystemExit)
    CODES = 'NMLCSPBQV'
    def setup(self, it):
        o = a_server(it)
        it.ctx.ghost['chars'] = [ord(c) for c in self.CODES]
        return [o, it.clients.sock], {}
    pre = handle_L.pre
    def modifies(self, cx):
        return handle_C.modifies(self, cx) + [(cx.self, 'packer')]
    def byte(self, cx):
        s0 = cx.old(cx.s)
        return de1(sub(s0.c['inb'], to_int(s0.c['ipos']), n_(1)))
    def post(self, cx):
        return [('only for a command that exists', Or(*[self.byte(cx) == ord(c) for c in self.CODES]))]
    def post_exc(self, cx):
        st, o = cx.self.c['storage'], cx.old(cx.self.c['storage'])
        s = cx.s
        out = []
        if cx.exc.cls is not SystemExit:
            out = [('no record of a failed commit is left', Or(to_int(s.c['ipos']) <= to_int(cx.old(s).c['ipos']) + 1, st.c['pend'] == EMPTY))]
        else:
            out = [('only for a quit', self.byte(cx) == ord('Q'))]
        return out
