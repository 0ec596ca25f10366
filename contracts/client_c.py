"""
Contracts of durus/client_storage.py.

The server is what the socket will deliver (SockV.inb, arbitrary bytes); everything is stated in
terms of the bytes that are read and sent, so that the contracts of storage_server.py (server_c),
which state the same of the other end, are about the same messages: the commit message that end()
sends satisfies the spec functions cb, cdom, cval that handle_C's contract reads it with.

Spec function:
  rend(b, p, i)    where the i-th response of a bulk load begins, when the first is at p
"""
from pyvc.engine import *
from pyvc.natives import *
from pyvc.runner import contract
from pyvc.interp import Contract
import contracts.utils_c as U
import contracts.serialize_c as S
from contracts.server_c import cb, cdom, cval, CHUNKS, EMPTY, ABB, chunk_end, chunk_oid, chunk_rec
from contracts.utils_c import as_b

M = 'durus.client_storage:'
i0, n_ = z3.IntVal(0), z3.IntVal
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
ForAll = z3.ForAll
b_, p_, i_, e_ = z3.Const('b', Bytes), z3.Int('p'), z3.Int('i'), z3.Int('e')
t_, s_, x_ = z3.Const('t', Bytes), z3.Const('s', Bytes), z3.Const('x', Bytes)

# ------------------------------------------------------------------ theory

rend = z3.Function('rend', Bytes, I, I, I)
def ok_at(b, q): return sub(b, q, n_(1)) == be1(n_(ord('O')))
def next_response(b, q): return If(ok_at(b, q), q + 5 + de4(sub(b, q + 1, n_(4))), q + 1)
RESPONSES = [
    ForAll([b_, p_], rend(b_, p_, 0) == p_, patterns=[rend(b_, p_, 0)]),
    ForAll([b_, p_, i_, e_], Implies(And(i_ >= 0, e_ == i_ + 1), rend(b_, p_, e_) == next_response(b_, rend(b_, p_, i_))),
           patterns=[z3.MultiPattern(rend(b_, p_, i_), rend(b_, p_, e_))]),
]

def kept(t, i, t2):
    return And(cb(t2, i), cdom(t2, i) == cdom(t, i),
               ForAll([x_], Implies(cdom(t, i)[x_], cval(t2, i)[x_] == cval(t, i)[x_]), patterns=[cval(t2, i)[x_]]))
# what is appended to a message does not change the chunks before it
APPEND = ForAll([t_, s_, i_], Implies(And(cb(t_, i_), 0 <= i_, i_ <= blen(t_)), And(kept(t_, i_, wr(t_, blen(t_), s_)),
                Implies(blen(s_) >= 4, sub(wr(t_, blen(t_), s_), blen(t_), n_(4)) == sub(s_, 0, n_(4))))),
                patterns=[z3.MultiPattern(cb(t_, i_), wr(t_, blen(t_), s_))])

_a, _n, _j = z3.Const('a', z3.ArraySort(I, Bytes)), z3.Int('n'), z3.Int('j')
CATDEF = ForAll([_a, _n, e_], Implies(And(_n >= 0, e_ == _n + 1), catl(_a, e_) == wr(catl(_a, _n), blen(catl(_a, _n)), _a[_n])),
                patterns=[z3.MultiPattern(catl(_a, _n), catl(_a, e_))])
def words8(a, n): return ForAll([_j], Implies(And(0 <= _j, _j < n), blen(a[_j]) == 8), patterns=[a[_j]])
def cat8(a, n): return And(blen(catl(a, n)) == 8 * n,
    ForAll([_j], Implies(And(0 <= _j, _j < n), sub(catl(a, n), 8 * _j, n_(8)) == a[_j]), patterns=[sub(catl(a, n), 8 * _j, n_(8)), a[_j]]))
def CAT8(a, n): return Implies(And(n >= 0, words8(a, n)), cat8(a, n))

hint = z3.Function('hint', Bytes, B)        # (only there to mention a term)

LEMMA_PROPS = ('C16',)
def lemmas():
    t, s, a = z3.Const('T', Bytes), z3.Const('S', Bytes), z3.Const('A', z3.ArraySort(I, Bytes))
    i, n = z3.Int('Q'), z3.Int('N')
    t2, e, rec = wr(t, blen(t), s), chunk_end(t, i), i + 12 <= blen(t)
    return [
        ('append: base', CHUNKS, And(cb(t, 0), cb(t2, 0), cdom(t2, 0) == cdom(t, 0))),
        ('append: step', CHUNKS + [cb(t, i), 0 <= i, i + 12 <= blen(t), e <= blen(t), de4(sub(t, i, n_(4))) >= 8, hint(sub(t2, i, n_(4))), kept(t, i, t2)], kept(t, e, t2)),
        ('words: base', LIB_AXIOMS, And(blen(catl(a, n_(0))) == 0)),
        ('words: step', [CATDEF, n >= 0, words8(a, n + 1), cat8(a, n)], cat8(a, n + 1)),
    ]


# ------------------------------------------------------------------ the client

def some_list(it, name):
    l = ListV(it.ctx, name, n=it.ctx.int('n_' + name, lo=0), arrs=[it.ctx.fresh_const(z3.ArraySort(I, Bytes), name)], ek=BYTES)
    return l

def a_client(it):
    ctx = it.ctx
    s = SockV(ctx, fails=True)
    s.c['ipos'] = ctx.int('ipos', lo=0)
    d = DictV(ctx, 'records', BYTES, BYTES, ctx.fresh_const(z3.ArraySort(Bytes, B), 'stored'), [ctx.fresh_const(ABB, 'record')])
    ctx.assume(s.c['ipos'] <= blen(s.c['inb']))
    return Obj(ctx, it.cls(M + 'ClientStorage'), 'client', address=Opaque('address'), s=s, oid_pool=some_list(it, 'pool'), oid_pool_size=32,
               records=d, transaction_new_oids=some_list(it, 'given'))

def arr_of(it, l):
    if l.concrete():
        l = copy_list(it, l)
        if not l.c['items']: return n_(0), z3.K(I, empty)
        l.symbolize()
    return to_int(l.c['n']), l.arrs()[0]

def distinct(it, l):
    n, a = arr_of(it, l)
    j, k = z3.Ints('j k')
    return ForAll([j, k], Implies(And(0 <= j, j < k, k < n), a[j] != a[k]), patterns=[z3.MultiPattern(a[j], a[k])])

def apart(it, l, m):
    (n, a), (k, b) = arr_of(it, l), arr_of(it, m)
    i, j = z3.Ints('i j')
    return ForAll([i, j], Implies(And(0 <= i, i < n, 0 <= j, j < k), a[i] != b[j]), patterns=[z3.MultiPattern(a[i], b[j])])

def inv_oids(it, o):
    p, g = o.c['oid_pool'], o.c['transaction_new_oids']
    return And(distinct(it, p), distinct(it, g), apart(it, p, g))

def cat(*xs):
    r = as_b(xs[0])
    for x in xs[1:]: r = wr(r, blen(r), as_b(x))
    return r

def sent(s, s0, *xs):
    return s.c['out'] == wr(s0.c['out'], blen(s0.c['out']), cat(*xs))

class CLIENT(Contract):
    props = ('C16',)
    SHORT = (OSError, 'durus.utils:ShortRead')
    raises = SHORT
    theory = [CHUNKS, [APPEND], RESPONSES]
    def at(self, cx): return cx.old(cx.self.c['s']).c['inb'], to_int(cx.old(cx.self.c['s']).c['ipos'])
    def pos(self, cx): return to_int(cx.self.c['s'].c['ipos'])
    def ok(self, cx):
        s = cx.self.c['s']
        return [('the position in what the server sends', And(self.pos(cx) >= 0, self.pos(cx) <= blen(s.c['inb'])))]
    def is_exc(self, cx, q): return cx.it.exc_is(cx.exc, cx.it.resolve(q))
    def io(self, cx): return isinstance(cx.exc.cls, type) or self.is_exc(cx, 'durus.utils:ShortRead')
    def pre(self, cx):
        s = cx.self.c['s']
        return [('', And(to_int(s.c['ipos']) >= 0, to_int(s.c['ipos']) <= blen(s.c['inb'])))]

@contract
class get_load_response(CLIENT):
    target = M + 'ClientStorage._get_load_response'
    raises = CLIENT.SHORT + ('durus.error:ReadConflictError', 'durus.error:DurusKeyError', 'durus.error:ProtocolError')
    def setup(self, it): return [a_client(it), it.ctx.bytes('oid', 8)], {}
    def modifies(self, cx): return [(cx.self.c['s'], 'ipos')]
    def result(self, cx): return cx.ctx.bytes('record')
    def status(self, cx):
        b, p = self.at(cx)
        return sub(b, p, n_(1))
    def post(self, cx):
        b, p = self.at(cx)
        k = de4(sub(b, p + 1, n_(4)))
        return [('the status', self.status(cx) == to_bytes(b'O')), ('the record', And(to_bytes(cx.result) == sub(b, p + 5, k), blen(to_bytes(cx.result)) == k)),
                ('the response is read', self.pos(cx) == p + 5 + k)] + self.ok(cx)
    def post_exc(self, cx):
        b, p = self.at(cx)
        read = self.pos(cx) == p + 1
        for name, code in (('ReadConflictError', b'I'), ('DurusKeyError', b'K')):
            if self.is_exc(cx, 'durus.error:' + name):
                return [('for its status only', self.status(cx) == to_bytes(code)), ('the response is read', read)] + self.ok(cx)
        if self.is_exc(cx, 'durus.error:ProtocolError'):
            return [('for another status', And(*[self.status(cx) != to_bytes(c) for c in (b'O', b'I', b'K')]))] + self.ok(cx)
        return [('not after the whole response', self.pos(cx) >= p)]

@contract
class load(get_load_response):
    target = M + 'ClientStorage.load'
    def modifies(self, cx): return [(cx.self.c['s'], 'ipos'), (cx.self.c['s'], 'out')]
    def request(self, cx):
        s = cx.self.c['s']
        return [('the request', sent(s, cx.old(s), b'L', cx.oid))]
    def post(self, cx): return get_load_response.post(self, cx) + self.request(cx)
    def post_exc(self, cx):
        return [] if self.io(cx) else get_load_response.post_exc(self, cx) + self.request(cx)

@contract
class bulk_load(CLIENT):
    target = M + 'ClientStorage.bulk_load'
    raises = load.raises
    timeout = 20000
    def setup(self, it):
        l = some_list(it, 'oids')
        n, a = arr_of(it, l)
        it.ctx.assume(words8(a, n))
        it.ctx.assume(CAT8(a, n))                         # proved in lemmas()
        it.ctx.assume(n < 2 ** 32)
        return [a_client(it), l], {}
    def modifies(self, cx): return [(cx.self.c['s'], 'ipos'), (cx.self.c['s'], 'out')]
    def ghosts(self, cx): return {}
    def record(self, cx, i):
        b, p = self.at(cx)
        q = rend(b, p, i)
        return ok_at(b, q), sub(b, q + 5, de4(sub(b, q + 1, n_(4))))
    def on_yield(self, cx, y):
        i = to_int(cx.yields.c['n'])
        ok, r = self.record(cx, i)
        return [('the record in the response for this oid', And(ok, to_bytes(y) == r)), ('one for each oid', i < arr_of(cx.it, cx.oids)[0])]
    def all_read(self, cx):
        b, p = self.at(cx)
        s = cx.self.c['s']
        n, a = arr_of(cx.it, cx.oids)
        return [('every response is read', self.pos(cx) == rend(b, p, n)), ('the request', sent(s, cx.old(s), b'B', be4(n), catl(a, n)))]
    def post(self, cx):
        return self.all_read(cx) + [('a record for each oid', to_int(cx.yields.c['n']) == arr_of(cx.it, cx.oids)[0])]
    def post_exc(self, cx):
        if self.io(cx) or self.is_exc(cx, 'durus.error:ProtocolError'): return []
        b, p = self.at(cx)
        i = z3.Int('i')
        n, a = arr_of(cx.it, cx.oids)
        return self.all_read(cx) + [('nothing is yielded before the error', to_int(cx.yields.c['n']) == 0)]
    class L0(object):
        """the responses"""
        def __call__(self, L):
            it = L.it
            o = it.cx.self
            b, p = bulk_load_at(it)
            i, j = L.ghost_i(), z3.Int('j')
            l = L['records']
            n, a = arr_of(it, l)
            q = rend(b, p, j)
            f = [('', And(i >= 0, to_int(o.c['s'].c['ipos']) == rend(b, p, i), to_int(o.c['s'].c['ipos']) >= 0, to_int(o.c['s'].c['ipos']) <= blen(b)))]
            if L['error'] is None:
                f.append(('all of them are records', And(n == i, ForAll([j], Implies(And(0 <= j, j < i),
                    And(ok_at(b, q), a[j] == sub(b, q + 5, de4(sub(b, q + 1, n_(4)))))), patterns=[a[j], q]))))
            else:
                f.append(('', n >= 0))
            return f
    class L1(object):
        """what is yielded"""
        def __call__(self, L):
            return [('', And(L.ghost_i() >= 0, to_int(L.it.yields.c['n']) == L.ghost_i()))]
    loops = {0: L0(), 1: L1()}

def bulk_load_at(it):
    s = it.old(it.cx.self.c['s'])
    return s.c['inb'], to_int(s.c['ipos'])

@contract
class begin(CLIENT):
    target = M + 'ClientStorage.begin'
    raises = ()
    inline_only = True
    def setup(self, it): return [a_client(it)], {}
    def modifies(self, cx): return [(cx.self, 'records'), (cx.self, 'transaction_new_oids')]
    def post(self, cx):
        r = cx.self.c['records']
        return [('no records', r.dom(Bytes) == EMPTY), ('no new oids', to_int(cx.self.c['transaction_new_oids'].length()) == 0)]

@contract
class store(CLIENT):
    target = M + 'ClientStorage.store'
    raises = (AssertionError,)
    asserts_raise = True
    def setup(self, it): return [a_client(it), it.ctx.bytes('oid'), it.ctx.bytes('record')], {}
    def modifies(self, cx): return [cx.self.c['records']]
    def post(self, cx):
        r, r0 = cx.self.c['records'], cx.old(cx.self.c['records'])
        k = to_bytes(cx.oid)
        return [('an oid', blen(k) == 8), ('the records', And(r.c['dom'] == z3.Store(r0.c['dom'], k, TRUE), r.c['v0'] == z3.Store(r0.c['v0'], k, to_bytes(cx.record)))),
                ('once', Not(r0.c['dom'][k]))]
    def post_exc(self, cx):
        r, r0 = cx.self.c['records'], cx.old(cx.self.c['records'])
        return [('the records are kept', And(r.c['dom'] == r0.c['dom'], r.c['v0'] == r0.c['v0'])),
                ('only for a bad oid or the same oid again', Or(blen(to_bytes(cx.oid)) != 8, r0.c['dom'][to_bytes(cx.oid)]))]

@contract
class new_oid(CLIENT):
    target = M + 'ClientStorage.new_oid'
    props = ('C18', 'C16')
    timeout = 20000
    def setup(self, it): return [a_client(it)], {}
    def pre(self, cx):
        b, p = self.cur(cx)
        it, o = cx.it, cx.self
        j, k = z3.Ints('j k')
        n, a = arr_of(it, o.c['transaction_new_oids'])
        w, in_ = lambda j: sub(b, j, n_(8)), lambda j: And(p <= j, j < p + 256, (j - p) % 8 == 0)
        return CLIENT.pre(self, cx) + [
            ('the oids in the pool are new', inv_oids(it, o)),
            ('the reply of the server', And(
                ForAll([j, k], Implies(And(in_(j), in_(k), j < k), w(j) != w(k)), patterns=[z3.MultiPattern(w(j), w(k))]),
                ForAll([j, k], Implies(And(in_(j), 0 <= k, k < n), w(j) != a[k]), patterns=[z3.MultiPattern(w(j), a[k])])))]
    def cur(self, cx):
        s = cx.self.c['s']
        return s.c['inb'], to_int(s.c['ipos'])
    def modifies(self, cx):
        s = cx.self.c['s']
        return [(s, 'ipos'), (s, 'out'), (cx.self, 'oid_pool'), cx.self.c['oid_pool'], cx.self.c['transaction_new_oids']]
    def post(self, cx):
        it, o = cx.it, cx.self
        s = o.c['s']
        r = to_bytes(cx.result)
        n0, a0 = arr_of(it, cx.old(o.c['transaction_new_oids']))
        n, a = arr_of(it, o.c['transaction_new_oids'])
        j = z3.Int('j')
        np, ap = arr_of(it, cx.old(cx.old(o).c['oid_pool']))
        b, p = self.at(cx)
        return [('an oid that this transaction has not used', ForAll([j], Implies(And(0 <= j, j < n0), a0[j] != r), patterns=[a0[j]])),
                ('it is noted', And(n == n0 + 1, a[n0] == r, ForAll([j], Implies(And(0 <= j, j < n0), a[j] == a0[j]), patterns=[a[j]]))),
                ('the oids in the pool are new', inv_oids(it, o)),
                ('from the pool, or from the server', If(np > 0, And(r == ap[np - 1], s.c['out'] == cx.old(s).c['out'], self.pos(cx) == p),
                    And(r == sub(b, p, n_(8)), sent(s, cx.old(s), b'M '), self.pos(cx) == p + 256)))]
    def post_exc(self, cx):
        it, o = cx.it, cx.self
        n0, a0 = arr_of(it, cx.old(o.c['transaction_new_oids']))
        n, a = arr_of(it, o.c['transaction_new_oids'])
        return [('none is given', n == n0), ('the pool was empty', arr_of(it, cx.old(cx.old(o).c['oid_pool']))[0] == 0), ('the oids in the pool are new', inv_oids(it, o))]


# ------------------------------------------------------------------ commit

def a_handler(it):
    """what the connection does with the invalidations: any outcome"""
    it.told = None
    def f(it, a, k):
        it.told = a[0]
        if it.ctx.choose([None, None], 'handle_invalidations') == 1:
            raise PyRaise(ExcInst(it.resolve('durus.error:ConflictError')))
        return None
    return Builtin('handle_invalidations', f)

@contract
class end(CLIENT):
    target = M + 'ClientStorage.end'
    props = ('C16', 'C15', 'C07', 'C18')
    timeout = 20000
    cost = 20
    raises = CLIENT.SHORT + (StructError, 'durus.error:ConflictError', 'durus.error:WriteConflictError', 'durus.error:ProtocolError')
    def setup(self, it): return [a_client(it), a_handler(it)], {}
    def pre(self, cx):
        d = cx.self.c['records']
        return CLIENT.pre(self, cx) + [('the oids in the pool are new', inv_oids(cx.it, cx.self)),
            ('oids of 8 bytes', ForAll([x_], Implies(d.c['dom'][x_], blen(x_) == 8), patterns=[d.c['dom'][x_]]))]
    def modifies(self, cx):
        s = cx.self.c['s']
        return [(s, 'ipos'), (s, 'out'), cx.self.c['records'], (cx.self, 'records'), (cx.self, 'transaction_new_oids'), cx.self.c['oid_pool'], cx.old(cx.self).c['transaction_new_oids']]
    def news(self, cx):
        """the invalidations that the server has sent: how many, where they begin, where they end"""
        b, p = self.at(cx)
        n = de4(sub(b, p, n_(4)))
        return n, p + 4, p + 4 + 8 * n
    def told(self, cx):
        b, p = self.at(cx)
        n, q, e = self.news(cx)
        told = cx.it.told
        if told is None: return [('the invalidations are passed on', n == 0)]
        k, a = arr_of(cx.it, told)
        j = z3.Int('j')
        return [('the invalidations are passed on', And(k == n, ForAll([j], Implies(And(0 <= j, j < n), a[j] == sub(b, q + 8 * j, n_(8))), patterns=[a[j]])))]
    def message(self, cx):
        """the records are sent, in a form that the server understands"""
        s, s0 = cx.self.c['s'], cx.old(cx.self.c['s'])
        d = cx.old(cx.old(cx.self).c['records'])
        joins = cx.ctx.ghost.get('joins', [])
        if not joins: raise Unsupported('the message is not made with join()')
        J = joins[-1][0]
        # exhibit the data: it is in the message
        k = blen(J)
        out0 = s0.c['out']
        return [('the message', s.c['out'] == wr(out0, blen(out0), cat(b'C', be4(k), J))),
                ('all of the records, and no others', And(cb(J, k), cdom(J, k) == d.c['dom'],
                    ForAll([x_], Implies(d.c['dom'][x_], cval(J, k)[x_] == d.c['v0'][x_]), patterns=[d.c['dom'][x_]])))], k
    def post(self, cx):
        b, p = self.at(cx)
        n, q, e = self.news(cx)
        m, k = self.message(cx)
        return self.told(cx) + m + self.ok(cx) + [
            ('the server has accepted it', If(k == 0, self.pos(cx) == e, And(sub(b, e, n_(1)) == to_bytes(b'O'), self.pos(cx) == e + 1))),
            ('no record is left', cx.self.c['records'].dom(Bytes) == EMPTY),
            ('the oids in the pool are new', inv_oids(cx.it, cx.self))]
    def post_exc(self, cx):
        it, o = cx.it, cx.self
        b, p = self.at(cx)
        n, q, e = self.news(cx)
        if self.is_exc(cx, 'durus.error:WriteConflictError'):
            m, k = self.message(cx)
            return self.told(cx) + m + self.ok(cx) + [
                ('the server has refused it', And(k > 0, sub(b, e, n_(1)) == to_bytes(b'I'), self.pos(cx) == e + 1)),
                ('no record is left', o.c['records'].dom(Bytes) == EMPTY)]
        if self.is_exc(cx, 'durus.error:ConflictError'):
            s, s0 = o.c['s'], cx.old(o.c['s'])
            out0 = s0.c['out']
            n0, a0 = arr_of(it, cx.old(cx.old(o).c['transaction_new_oids']))
            n1, a1 = arr_of(it, o.c['oid_pool'])
            n2, a2 = arr_of(it, cx.old(o.c['oid_pool']))
            j = z3.Int('j')
            return self.told(cx) + self.ok(cx) + [
                ('nothing is committed', s.c['out'] == wr(out0, blen(out0), cat(b'C', be4(n_(0))))),
                ('the invalidations are read', self.pos(cx) == e),
                ('no record is left', o.c['records'].dom(Bytes) == EMPTY), ('no oid is held', to_int(o.c['transaction_new_oids'].length()) == 0),
                ('the new oids are kept for the next transaction', And(n1 == n2 + n0,
                    ForAll([j], Implies(And(0 <= j, j < n0), a1[n2 + n0 - 1 - j] == a0[j]), patterns=[a0[j]]))),
                ('the oids in the pool are new', inv_oids(it, o))]
        return []
    class L0(object):
        """the records"""
        def __call__(self, L):
            it, g = L.it, L.g
            d = L.entry(it.cx.self.c['records'])
            l = L['tdata']
            J = to_bytes(join(it, b'', l)) if not l.concrete() or l.c['items'] else empty
            k = blen(J)
            seen = g.c['seen']
            f = And(cb(J, k), ForAll([x_], cdom(J, k)[x_] == seen[x_], patterns=[cdom(J, k)[x_], seen[x_]]),
                    ForAll([x_], Implies(seen[x_], And(d.c['dom'][x_], cval(J, k)[x_] == d.c['v0'][x_])), patterns=[cval(J, k)[x_], seen[x_]]))
            return [('the message so far', And(to_int(l.length()) >= 0, L.ghost_i() >= 0, f))]
    loops = {0: L0()}

@contract
class sync(CLIENT):
    target = M + 'ClientStorage.sync'
    props = ('C16', 'C07')
    def setup(self, it): return [a_client(it)], {}
    def modifies(self, cx): return [(cx.self.c['s'], 'ipos'), (cx.self.c['s'], 'out')]
    def post(self, cx):
        b, p = self.at(cx)
        n = de4(sub(b, p, n_(4)))
        k, a = arr_of(cx.it, cx.result)
        j = z3.Int('j')
        s = cx.self.c['s']
        return self.ok(cx) + [('the request', sent(s, cx.old(s), b'S')), ('the response is read', self.pos(cx) == p + 4 + 8 * n),
            ('every oid that the server names', And(k == n, ForAll([j], Implies(And(0 <= j, j < n), a[j] == sub(b, p + 4 + 8 * j, n_(8))), patterns=[a[j]])))]

@contract
class pack(CLIENT):
    target = M + 'ClientStorage.pack'
    props = ('C16', 'C22')
    raises = CLIENT.SHORT + ('durus.error:ProtocolError',)
    def setup(self, it): return [a_client(it)], {}
    def modifies(self, cx): return [(cx.self.c['s'], 'ipos'), (cx.self.c['s'], 'out')]
    def post(self, cx):
        b, p = self.at(cx)
        s = cx.self.c['s']
        return self.ok(cx) + [('the request', sent(s, cx.old(s), b'P')), ('the response', And(sub(b, p, n_(1)) == to_bytes(b'O'), self.pos(cx) == p + 1))]
    def post_exc(self, cx):
        b, p = self.at(cx)
        return [] if self.io(cx) else [('another response', And(sub(b, p, n_(1)) != to_bytes(b'O'), self.pos(cx) == p + 1))]
