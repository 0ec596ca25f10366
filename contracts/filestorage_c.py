"""
Contracts of durus/file_storage.py: FileStorage over the contracts of Shelf.

The records of the storage are the values of its shelf: has8(x) and value(x) below.
"""
from pyvc.engine import *
from pyvc.natives import *
from pyvc.prelude import PADDED
from pyvc.runner import contract
from pyvc.interp import Contract
import contracts.shelf_c as H
import ast
from contracts.shelf_c import (AB, AI, ABY, AIB, EMPTY, ForAll, TRUE, FALSE, has_name, pos_of, rec_value, inv_shelf, inv_shelf_, to_end, linked,
                               sdom, sval, seq_step, WORDS, HOLES, SHELF, mi_parts)

M = 'durus.file_storage:'
n = z3.IntVal
ABB = z3.ArraySort(Bytes, Bytes)
x_ = z3.Const('x', Bytes)

def a_file_storage(it):
    ctx = it.ctx
    sh = H.a_shelf(it)
    sh.c['file'].c['synced'] = ctx.bytes('synced')
    def names(name): return SetV(ctx, name, BYTES, ctx.fresh_const(AB, name))
    extra = None if ctx.choose([None, None], 'packing') == 0 else names('pack_extra')
    pending = DictV(ctx, 'pending', BYTES, BYTES, ctx.fresh_const(AB, 'pending'), [ctx.fresh_const(ABB, 'pending_val')])
    return Obj(ctx, it.cls(M + 'FileStorage'), 'storage', shelf=sh, pending_records=pending, allocated_unused_oids=names('allocated'), pack_extra=extra, invalid=names('invalid'))

def dom_of(s): return EMPTY if s.c['dom'] is None else s.c['dom']
def inv_fs(o):
    """the shelf; and no oid that is allocated and unused has a record"""
    sh, d = o.c['shelf'], dom_of(o.c['allocated_unused_oids'])
    return inv_shelf(sh) + [('', And(to_end(sh), linked(sh.c['offset_map']))),
            ('the allocated oids are unused', ForAll([x_], Implies(d[x_], And(blen(x_) == 8, Not(has_name(sh, x_)))), patterns=[d[x_]]))]
def value(sh, x): return rec_value(sh.c['file'].c['b'], pos_of(sh, x))

# LEMMAS (by induction on the length of a sequence)
SEQ_NAMES = 'SEQ_NAMES'
def of_dict(A, V, i, dom, val):
    """the first i items of the sequence are items of this dict"""
    j = z3.Int('j')
    return ForAll([j], Implies(And(0 <= j, j < i), And(dom[A[j]], V[j] == val[A[j]])), patterns=[A[j], V[j]])
def seq_of_dict(A, V, i, dom, val):
    return ForAll([x_], Implies(sdom(A, i)[x_], And(dom[x_], sval(A, V, i)[x_] == val[x_])), patterns=[sdom(A, i)[x_]])
def seq_all(A, i):
    j = z3.Int('j')
    return ForAll([j], Implies(And(0 <= j, j < i), sdom(A, i)[A[j]]), patterns=[A[j]])
LEMMA_PROPS = ('C02', 'C04')
def lemmas():
    A, V, dom, val, i = z3.Const('A', AIB), z3.Const('V', AIB), z3.Const('D', AB), z3.Const('VAL', ABB), z3.Int('N')
    base, step = [seq_step(A, V, n(-1))], [seq_step(A, V, i), i >= 0]
    return [('SEQ_OF_DICT base', base, seq_of_dict(A, V, n(0), dom, val)),
            ('SEQ_OF_DICT step', step + [of_dict(A, V, i + 1, dom, val), Implies(of_dict(A, V, i, dom, val), seq_of_dict(A, V, i, dom, val))], seq_of_dict(A, V, i + 1, dom, val)),
            ('SEQ_ALL base', base, seq_all(A, n(0))),
            ('SEQ_ALL step', step + [seq_all(A, i)], seq_all(A, i + 1))]

class FS(Contract):
    props = ('C02', 'C04')
    theory = [WORDS, PADDED, SHELF, HOLES]
    timeout = 8000
    def setup(self, it): return [a_file_storage(it)] + self.more(it), {}
    def more(self, it): return []
    def pre(self, cx): return inv_fs(cx.self) + self.requires(cx)
    def requires(self, cx): return []
    def file(self, cx): return cx.self.c['shelf'].c['file']
    def modifies(self, cx): return [(self.file(cx), 'pos')]
    def post(self, cx): return inv_fs(cx.self) + self.ensures(cx)
    def post_exc(self, cx): return inv_fs(cx.self) + self.ensures_exc(cx)
    def ensures(self, cx): return []
    def ensures_exc(self, cx): return []
    def same_file(self, cx): return self.file(cx).c['b'] == cx.old(self.file(cx)).c['b']

@contract
class FileStorage_load(FS):
    target = M + 'FileStorage.load'
    raises = (KeyError, ValueError)
    def more(self, it): return [it.ctx.bytes('oid')]
    def result(self, cx): return cx.ctx.bytes('record')
    def ensures(self, cx):
        sh, x = cx.self.c['shelf'], to_bytes(cx.oid)
        return [('the last record of the oid', And(has_name(sh, x), to_bytes(cx.result) == value(sh, x)))]
    def ensures_exc(self, cx):
        sh, x = cx.self.c['shelf'], to_bytes(cx.oid)
        return [('only without a record', Or(Not(has_name(sh, x)), blen(x) != 8))]

@contract
class FileStorage_begin(FS):
    target = M + 'FileStorage.begin'
    def modifies(self, cx): return [cx.self.c['pending_records']]
    def ensures(self, cx): return [('nothing is pending', dom_of(cx.self.c['pending_records']) == EMPTY)]

@contract
class FileStorage_store(FS):
    """C23: an oid that was not allocated is refused, and with it all that was to be committed"""
    target = M + 'FileStorage.store'
    props = ('C02', 'C04', 'C07', 'C23')
    raises = (ValueError,)
    def more(self, it): return [it.ctx.bytes('oid'), it.ctx.bytes('record')]
    def modifies(self, cx): return [(self.file(cx), 'pos'), cx.self.c['pending_records']]
    def known(self, cx):
        x = to_bytes(cx.oid)
        return Or(dom_of(cx.self.c['allocated_unused_oids'])[x], has_name(cx.self.c['shelf'], x), x == rep(n(0), n(8)))
    def ensures(self, cx):
        p, p0 = cx.self.c['pending_records'], cx.old(cx.self.c['pending_records'])
        return [('it is pending', And(p.c['dom'] == z3.Store(p0.c['dom'], cx.oid, TRUE), p.c['v0'] == z3.Store(p0.c['v0'], cx.oid, cx.record))),
                ('only an oid that was allocated or has a record', self.known(cx)), ('8 bytes', blen(to_bytes(cx.oid)) == 8)]
    def ensures_exc(self, cx):
        x = to_bytes(cx.oid)
        return [('only what is no known oid', Or(Not(self.known(cx)), blen(x) != 8)), ('nothing is pending', Or(blen(x) != 8, dom_of(cx.self.c['pending_records']) == EMPTY))]

@contract
class FileStorage_end(FS):
    """all of the pending records are stored, or nothing is"""
    target = M + 'FileStorage.end'
    props = ('C02', 'C04', 'C03', 'C13')
    raises = (OSError, ValueError, StructError)
    assumes = ('flush and fsync do not fail (what a failing one leaves is not known)',)
    def modifies(self, cx):
        o = cx.self
        sh, f, e = o.c['shelf'], self.file(cx), o.c['pack_extra']
        return [(f, 'pos'), (f, 'b'), (f, 'synced'), sh.c['memory_index'], (sh, '#end'), o.c['pending_records'], o.c['allocated_unused_oids']] + ([e] if e is not None else [])
    inline = (M + 'FileStorage.begin',)
    def setup(self, it):
        it.ctx.ghost['logging'] = True
        return FS.setup(self, it)
    def post(self, cx):
        o, ctx = cx.self, cx.ctx
        p, l = cx.old(o.c['pending_records']), cx.it.stored
        A, V = l.arrs()
        k = to_int(l.length())
        facts = of_dict(A, V, k, p.c['dom'], p.c['v0'])
        ctx.assume(Implies(facts, seq_of_dict(A, V, k, p.c['dom'], p.c['v0'])))
        ctx.assume(seq_all(A, k))
        return [('the items are those that were pending', facts), ('all of them', ForAll([x_], sdom(A, k)[x_] == p.c['dom'][x_], patterns=[sdom(A, k)[x_], p.c['dom'][x_]]))] + FS.post(self, cx)
    def ensures(self, cx):
        o, old, ctx = cx.self, cx.old, cx.ctx
        sh, f = o.c['shelf'], self.file(cx)
        p = old(o.c['pending_records'])
        dom, val = p.c['dom'], p.c['v0']
        l = cx.it.stored
        A, V = l.arrs()
        k = to_int(l.length())
        has0, val0 = was(cx, sh)
        x = ctx.fresh_const(Bytes, 'x')
        ctx.assume(blen(x) == 8)
        e, a = o.c['pack_extra'], dom_of(o.c['allocated_unused_oids'])
        out = [('records', has_name(sh, x) == Or(has0(x), dom[x])),
               ('the records', Implies(has_name(sh, x), value(sh, x) == If(dom[x], val[x], val0(x)))),
               ('they are on the disk', f.c['synced'] == f.c['b']),
               ('nothing is pending', dom_of(o.c['pending_records']) == EMPTY),
               ('they are not unused any more', a[x] == And(dom_of(old(o.c['allocated_unused_oids']))[x], Not(dom[x])))]
        if e is not None: out.append(('a pack is told', dom_of(e)[x] == Or(dom_of(old(e))[x], dom[x])))
        return out
    def ensures_exc(self, cx):
        o = cx.self
        p, p0 = o.c['pending_records'], cx.old(o.c['pending_records'])
        return [('nothing is stored', self.same_file(cx)),
                ('no oid is lost', dom_of(o.c['allocated_unused_oids']) == dom_of(cx.old(o.c['allocated_unused_oids'])))]

def was(cx, sh):
    """(whether x had a record, the record) before"""
    b0 = cx.old(sh.c['file']).c['b']
    dom, pos = H.mi_was(sh, cx.old)
    om = sh.c['offset_map']
    return (lambda x: Or(dom[x], H.om_has(om, de8(x), cx.old)),
            lambda x: rec_value(b0, If(dom[x], pos[x], H.om_val(om, de8(x), cx.old))))

@contract
class FileStorage_sync(FS):
    target = M + 'FileStorage.sync'
    props = ('C06', 'C13')
    def modifies(self, cx): return [cx.self.c['invalid']]
    def ensures(self, cx):
        r, d = cx.result, cx.old(cx.self.c['invalid']).c['dom']
        ld = list_dom(cx.it, r)
        return [('what packs have removed', (ld[1] if ld is not None else EMPTY) == d), ('told once', dom_of(cx.self.c['invalid']) == EMPTY)]

@contract
class FileStorage_new_oid(FS):
    """C07: an oid that has no record, is not allocated to anybody, and was not removed since the last sync"""
    target = M + 'FileStorage.new_oid'
    props = ('C07', 'C06')
    raises = (StructError,)
    assumes = ('a name is found some time',)
    def modifies(self, cx): return [(self.file(cx), 'pos'), cx.self.c['allocated_unused_oids']]
    def result(self, cx): return cx.ctx.bytes('oid')
    def ensures(self, cx):
        o, x, a, a0 = cx.self, to_bytes(cx.result), dom_of(cx.self.c['allocated_unused_oids']), dom_of(cx.old(cx.self.c['allocated_unused_oids']))
        return [('8 bytes', blen(x) == 8), ('it has no record', Not(has_name(o.c['shelf'], x))), ('it was not allocated', Not(a0[x])),
                ('it was not removed since the last sync', Not(dom_of(o.c['invalid'])[x])), ('now it is', a == z3.Store(a0, x, TRUE))]
    def ensures_exc(self, cx): return [('no oid is allocated', dom_of(cx.self.c['allocated_unused_oids']) == dom_of(cx.old(cx.self.c['allocated_unused_oids'])))]
    class L0(object):
        def __call__(self, L):
            o = L['self']
            a, a0 = dom_of(o.c['allocated_unused_oids']), dom_of(L.old(o.c['allocated_unused_oids']))
            return [('', And(*[g for _, g in inv_fs(o)])), ('', a == a0)]
    loops = {0: L0()}


# ------------------------------------------------------------------ the traversal and the pack
#
# The shelves are ShelfV here: the names and values, by the contracts of shelf_c.  Between two steps of the pack anything may be
# committed (environment), as FileStorage.end does it: what is committed is in pack_extra.

from contracts.storage_c import REFS, nrefs, refat, rec_good, closed
j_ = z3.Int('j')
AIBool = z3.ArraySort(I, B)
ROOT = be8(n(0))

class NamesIter(Iteration):
    """(by the contract of Shelf.__iter__, while more is stored) each name that was there at the start, only names that are there, none twice"""
    def __init__(self, sh, items=False): self.sh, self.items = sh, items
    def start(self, it): return {'i': n(0), 'seen': EMPTY, 'first': self.sh.c['has']}
    def more(self, it, g):
        self.w = it.ctx.fresh_const(Bytes, 'name')
        b = it.ctx.fresh_const(B, 'more')
        it.ctx.assume(Implies(b, And(self.sh.c['has'][self.w], Not(g.c['seen'][self.w]))))
        it.ctx.assume(Implies(Not(b), ForAll([x_], Implies(g.c['first'][x_], g.c['seen'][x_]), patterns=[g.c['first'][x_], g.c['seen'][x_]])))
        return b
    def element(self, it, g): return (self.w, self.sh.c['val'][self.w]) if self.items else self.w
    def advance(self, it, g):
        Iteration.advance(self, it, g)
        g.c['seen'] = z3.Store(g.c['seen'], self.w, TRUE)

class HolesIter(Iteration):
    """(by the contract of OffsetMap.gen_holes) each number below the size of the map that it does not have, once"""
    def __init__(self, sh): self.sh = sh
    def start(self, it): return {'i': n(0), 'seen': z3.K(I, FALSE)}
    def hole(self, w): return And(0 <= w, w < to_int(self.sh.c['k']), Not(self.sh.c['map'][be8(w)]))
    def more(self, it, g):
        self.w = it.ctx.int('hole')
        b = it.ctx.fresh_const(B, 'more')
        it.ctx.assume(Implies(b, And(self.hole(self.w), Not(g.c['seen'][self.w]))))
        it.ctx.assume(Implies(Not(b), ForAll([x_], Implies(And(blen(x_) == 8, self.hole(de8(x_))), g.c['seen'][de8(x_)]), patterns=[de8(x_)])))
        return b
    def element(self, it, g): return self.w
    def advance(self, it, g):
        Iteration.advance(self, it, g)
        g.c['seen'] = z3.Store(g.c['seen'], self.w, TRUE)

class Methods(Native):
    def truth(self, it): return True
    def attr(self, it, name):
        m = getattr(self, 'm_' + name, None)
        if m is None: raise Unsupported('%s.%s' % (self.name, name))
        return Builtin(name, lambda it, a, k: m(it, *a, **k))

class MapV(Methods):
    def __init__(self, ctx, sh):
        HeapObj.__init__(self, ctx, 'offset_map_of_' + sh.name)
        self.sh = sh
    def m_gen_holes(self, it): return HolesIter(self.sh)
    def m_get_array_size(self, it): return self.sh.c['k']

class ShelfV(Methods):
    """a Shelf by its contracts: has, val; map and k: the names of its offset map and its size"""
    def __init__(self, ctx, name, file, new=False):
        HeapObj.__init__(self, ctx, name)
        self.file = file
        self.c['has'] = EMPTY if new else ctx.fresh_const(AB, name + '_has')
        self.c['val'] = ctx.fresh_const(ABB, name + '_val')
        self.c['map'] = EMPTY if new else ctx.fresh_const(AB, name + '_map')
        self.c['k'] = ctx.int(name + '_k', lo=0)
        ctx.assume(self.c['k'] < 2 ** 64)
        self.om = MapV(ctx, self)
    def m_get_file(self, it): return self.file
    def m_get_offset_map(self, it): return self.om
    def m_get_value(self, it, x):
        x = to_bytes(x)
        if it.ctx.choose([self.c['has'][x], Not(self.c['has'][x])], 'get_value') == 1: return None
        return self.c['val'][x]
    def m_get_position(self, it, x):
        x = to_bytes(x)
        if it.ctx.choose([self.c['has'][x], Not(self.c['has'][x])], 'get_position') == 1: return None
        return it.ctx.int('position', lo=0)
    def contains(self, it, x): return self.c['has'][to_bytes(x)]
    def iterate(self, it): return NamesIter(self)
    def m_iteritems(self, it): return NamesIter(self, True)
    m_items = m_iteritems
    def record(self, x):
        name, val = to_bytes(x[0]), to_bytes(x[1])
        self.c['has'] = z3.Store(self.c['has'], name, TRUE)
        self.c['val'] = z3.Store(self.c['val'], name, val)
        self.file.c['synced'] = FALSE
    def m_store(self, it, items):
        it.phase = 'extra'
        g = it.get_iter(items)
        if isinstance(g, list):
            for x in g: self.record(x)
            return Opaque('stored')
        if not isinstance(g, GenObj): raise Unsupported('store(%r)' % (items,))
        while True:
            try: x = g.next()
            except StopIteration: break
            self.record(x)
        return Opaque('stored')

class PackFile(Methods):
    def __init__(self, ctx, name, it):
        HeapObj.__init__(self, ctx, name)
        self.c['synced'] = FALSE
        self.c['size'] = ctx.int(name + '_size', lo=0)
    def m_get_name(self, it): return Opaque(self.name)
    def m_is_temporary(self, it): return it.ctx.choose([None, None], 'temporary') == 1
    def m_is_readonly(self, it): return it.ctx.choose([None, None], 'readonly') == 1
    def m_truncate(self, it): self.c['size'] = n(0)
    def m_tell(self, it): return self.c['size']
    def m_flush(self, it): return None
    def m_fsync(self, it): self.c['synced'] = TRUE
    def m_close(self, it): return None
    def m_link(self, it, path): return None
    def m_rename(self, it, path):
        it.ctx.prove(And(self.c['synced'], z3.BoolVal(it.whole)), 'what takes the place of the old file is complete and on the disk')

class IntSetV(Methods):
    """an IntSet by its contracts (utils_c)"""
    def __init__(self, ctx):
        HeapObj.__init__(self, ctx, 'intset')
        self.c['s'] = z3.K(I, FALSE)
    def m_add(self, it, k): self.c['s'] = z3.Store(self.c['s'], to_int(k), TRUE)
    def m_discard(self, it, k): self.c['s'] = z3.Store(self.c['s'], to_int(k), FALSE)
    def contains(self, it, k): return self.c['s'][to_int(k)]

def generate_shelf(it, a, k):
    """Shelf.generate_shelf: a shelf with these items (the last of each name), in steps"""
    file, items = a[-2:] if not k else (k['file'], k['items'])
    ctx = it.ctx
    base = it.base = ShelfV(ctx, 'base', file, new=True)
    ctx.prove(file.c['size'] == 0, 'the new file is empty')
    def go():
        while True:
            try: x = items.next()
            except StopIteration: break
            base.record(x)
            yield ctx.int('step')
        base.c['map'] = base.c['has']
        ctx.assume(ForAll([x_], Implies(base.c['has'][x_], de8(x_) < to_int(base.c['k'])), patterns=[base.c['has'][x_]]))
        it.whole = True
        yield ctx.int('step')
    return GenObj(go())

def a_packed_storage(it):
    ctx = it.ctx
    it.phase, it.whole, it.switched = 'base', False, False
    it.old_file, it.pack_file = PackFile(ctx, 'the_file', it), PackFile(ctx, 'pack_file', it)
    it.cur = ShelfV(ctx, 'shelf', it.old_file)
    it.R = ctx.fresh_const(AB, 'R')
    env = it.module('durus.file_storage').env
    def new_shelf(it, a, k):
        if a[0] is not it.pack_file: raise Unsupported('Shelf(%r)' % (a[0],))
        it.ctx.prove(z3.BoolVal(it.whole), 'the shelf is opened when it is complete')
        return it.base
    env['Shelf'] = NativeClass('Shelf', new_shelf, {'generate_shelf': Builtin('generate_shelf', generate_shelf)})
    env['File'] = NativeClass('File', lambda it, a, k: it.pack_file)
    env['IntSet'] = NativeClass('IntSet', lambda it, a, k: IntSetV(it.ctx))
    def names(name): return SetV(ctx, name, BYTES, ctx.fresh_const(AB, name))
    pending = DictV(ctx, 'pending', BYTES, BYTES, ctx.fresh_const(AB, 'pending'), [ctx.fresh_const(ABB, 'pending_val')])
    extra = None if ctx.choose([None, None], 'packing') == 0 else names('pack_extra')
    return Obj(ctx, it.cls(M + 'FileStorage'), 'storage', shelf=it.cur, pending_records=pending, allocated_unused_oids=names('allocated'), pack_extra=extra, invalid=names('invalid'))

def env_ok(it):
    """what is true of the records whenever nothing is being stored: C17, and that R has what is reachable from the root"""
    h, v, R = it.cur.c['has'], it.cur.c['val'], it.R
    e = refat(v[x_], j_)
    return And(closed(h, v), h[ROOT], R[ROOT], ForAll([x_], Implies(h[x_], blen(x_) == 8), patterns=[h[x_]]),
               ForAll([x_, j_], Implies(And(h[x_], R[x_], 0 <= j_, j_ < nrefs(v[x_])), R[e]), patterns=[e]))
def extra_ok(it, P):
    h, R = it.cur.c['has'], it.R
    return ForAll([x_], Implies(P[x_], And(h[x_], R[x_])), patterns=[P[x_]])

class Pk(object):
    """the state of a pack"""
    def __init__(self, L):
        it = self.it = L.it
        self.L, self.ctx = L, L.ctx
        o = it.cx.self
        self.h, self.v, self.R = it.cur.c['has'], it.cur.c['val'], it.R
        b = getattr(it, 'base', None)
        self.h2, self.v2 = (b.c['has'], b.c['val']) if b is not None else (EMPTY, None)
        p = o.c['pack_extra']
        self.P = dom_of(p) if p is not None else EMPTY
    def seen(self): return self.L['seen'].c['s']
    def env(self): return [('the records', And(env_ok(self.it), extra_ok(self.it, self.P)))]
    def copied(self):
        """what is in the new shelf"""
        return [('what is copied', ForAll([x_], Implies(self.h2[x_], And(blen(x_) == 8, self.h[x_], self.R[x_], Or(self.P[x_], self.v2[x_] == self.v[x_]))), patterns=[self.h2[x_]]))]
    def base(self, T=None, but=None):
        S, h2, P, v = self.seen(), self.h2, self.P, self.v
        e = refat(v[x_], j_)
        t = T[e] if T is not None else FALSE
        return self.env() + self.copied() + [
            ('what is seen is copied', ForAll([x_], Implies(And(blen(x_) == 8, S[de8(x_)]), Or(h2[x_], x_ == but) if but is not None else h2[x_]), patterns=[S[de8(x_)]])),
            ('what is copied is seen', ForAll([x_], Implies(h2[x_], S[de8(x_)]), patterns=[h2[x_]])),
            ('what it refers to is seen, or to be done', ForAll([x_, j_], Implies(And(h2[x_], Not(P[x_]), 0 <= j_, j_ < nrefs(v[x_])), Or(S[de8(e)], t)), patterns=[e]))]
    def extra(self, T=None, but=None, done=None):
        S, h2, P, v, v2 = self.seen(), self.h2, self.P, self.v, self.v2
        e = refat(v[x_], j_)
        t = T[e] if T is not None else FALSE
        this = x_ == but if but is not None else FALSE
        return self.env() + self.copied() + [
            ('what is seen is copied as it is now', ForAll([x_], Implies(And(blen(x_) == 8, S[de8(x_)]), Or(And(h2[x_], v2[x_] == v[x_]), this)), patterns=[S[de8(x_)]])),
            ('what is not seen was committed', ForAll([x_], Implies(h2[x_], Or(S[de8(x_)], P[x_])), patterns=[h2[x_]])),
            ('what it refers to is seen, was committed, or is to be done', ForAll([x_, j_], Implies(And(self.h[x_], S[de8(x_)], Not(this), 0 <= j_, j_ < nrefs(v[x_])), Or(S[de8(e)], t, P[e])), patterns=[e])),
            ('what was committed and is done', ForAll([x_], Implies(done[x_], S[de8(x_)]), patterns=[done[x_]])),
            ('the root', self.h2[ROOT])]
    def same(self):
        """nothing is committed meanwhile"""
        cur, p, inv = self.it.cur, self.it.cx.self.c['pack_extra'], self.it.cx.self.c['invalid']
        c0 = self.L.entry(cur).c
        h0 = self.L.entry(self.it.base).c['has']
        return [('what is copied stays', ForAll([x_], Implies(h0[x_], self.h2[x_]), patterns=[h0[x_], self.h2[x_]])), ('nothing is committed meanwhile', And(cur.c['has'] == c0['has'], cur.c['val'] == c0['val'], self.P == dom_of(self.L.entry(p)), dom_of(inv) == dom_of(self.L.entry(inv))))]
    def todo(self, T):
        return [('what is to be done has a record', ForAll([x_], Implies(T[x_], And(self.h[x_], self.R[x_])), patterns=[T[x_]]))]
    def done(self):
        g = getattr(self.it, 'extra_loop', None)
        return g.c.get('seen', EMPTY) if g is not None else EMPTY

PACKER = M + 'FileStorage.get_packer.packer'
def T_of(L):
    d = list_dom(L.it, L['todo'])
    return d[1] if d is not None else EMPTY

class GEN0(object):
    """over all the records (a pack has no use for it)"""
    def __call__(self, L): return Pk(L).env()
class GEN1(object):
    """over what is to be done"""
    def __call__(self, L):
        k, T, S = Pk(L), T_of(L), L['seen'].c['s']
        s = to_bytes(L['start_oid'])
        own = k.base(T) if L.it.phase == 'base' else k.same() + k.extra(T, done=k.done())
        return own + k.todo(T) + [('the start', Or(S[de8(s)], T[s]))]
class GEN2(object):
    """over the references of a record"""
    def __call__(self, L):
        k, T, S = Pk(L), T_of(L), L['seen'].c['s']
        s, oid, i = to_bytes(L['start_oid']), to_bytes(L['oid']), L.ghost_i()
        e = refat(k.v[oid], j_)
        own = k.base(T, oid) if L.it.phase == 'base' else k.same() + k.extra(T, oid, done=k.done())
        return own + [('what is to be done has a record', Implies(blen(refat(k.v[oid], i - 1)) >= 0, k.todo(T)[0][1])),
                      ('this one', And(S[de8(oid)], k.h[oid], k.R[oid])), ('the start', Or(S[de8(s)], T[s])),
                      ('its references before', ForAll([j_], Implies(And(0 <= j_, j_ < i), Or(S[de8(e)], T[e])), patterns=[e]))]

@contract
class FileStorage_get_packer(Contract):
    """C05: whatever is committed between the steps of a pack, the new file has the current record of each object that is reachable
    from the root, and of no object twice; C06: it has nothing but what was reachable or committed, and what is gone is in
    `invalid`; C22: the new file takes the place of the old one when it is complete and on the disk."""
    target = M + 'FileStorage.get_packer'
    props = ('C05', 'C06', 'C22', 'C07')
    theory = [REFS]
    timeout, deadline, cost = 5000, 300, 30
    extra = True
    inline = (M + 'FileStorage.load', M + 'FileStorage.gen_oid_record')
    assumes = ('the graph of records is closed (C17)', 'Shelf.generate_shelf makes a shelf with exactly the given items (bounded)', 'writing the new file does not fail', 'FileStorage.end adds what it stores to pack_extra (its contract)')
    def setup(self, it): return [a_packed_storage(it)], {}
    def pre(self, cx):
        return [('the records', env_ok(cx.it))]
    def modifies(self, cx): return None
    def environment(self, it, o):
        """anything may be committed"""
        ctx, cur, p = it.ctx, it.cur, o.c['pack_extra']
        h, v, P = cur.c['has'], cur.c['val'], dom_of(p)
        D = ctx.fresh_const(AB, 'committed')
        h1, v1, P1 = ctx.fresh_const(AB, 'has'), ctx.fresh_const(ABB, 'val'), ctx.fresh_const(AB, 'extra')
        ctx.assume(ForAll([x_], h1[x_] == Or(h[x_], D[x_]), patterns=[h1[x_], h[x_]]))
        ctx.assume(ForAll([x_], Implies(Not(D[x_]), v1[x_] == v[x_]), patterns=[v1[x_], v[x_]]))
        ctx.assume(ForAll([x_], P1[x_] == Or(P[x_], D[x_]), patterns=[P1[x_], P[x_], D[x_]]))
        ctx.assume(ForAll([x_], Implies(D[x_], it.R[x_]), patterns=[D[x_]]))
        cur.c['has'], cur.c['val'] = h1, v1
        p.kk, p.c['dom'] = BYTES, P1
        ctx.assume(env_ok(it))
        inv, i1 = o.c['invalid'], ctx.fresh_const(AB, 'invalid')
        if inv.c['dom'] is not None:
            ctx.assume(ForAll([x_], Implies(i1[x_], inv.c['dom'][x_]), patterns=[i1[x_]]))      # (sync)
            inv.c['dom'] = i1
        it.before = dom_of(inv)
    def body(self, it, f, cx):
        ctx, o = it.ctx, cx.self
        g = it.call_body(f, [o], {})
        if not isinstance(g, GenObj): raise Unsupported('not a generator')
        first = True
        while True:
            if o.c['shelf'] is it.cur and o.c['pack_extra'] is not None: self.environment(it, o)
            try: g.next()
            except StopIteration: break
            first = False
            if o.c['shelf'] is not it.cur and not it.switched: self.switch(it, o)
            ctx.prove(z3.BoolVal(o.c['shelf'] is not it.cur) if it.switched else z3.BoolVal(o.c['pack_extra'] is not None), 'at yield: what is committed meanwhile is noted')
        ctx.prove(z3.BoolVal(it.switched or first), 'the pack is done')
        return None
    def switch(self, it, o):
        ctx, new, cur = it.ctx, o.c['shelf'], it.cur
        it.switched = True
        ctx.prove(z3.BoolVal(new is it.base and o.c['pack_extra'] is None), 'the new shelf, and the pack is over')
        h, v, h2, v2, inv = cur.c['has'], cur.c['val'], new.c['has'], new.c['val'], dom_of(o.c['invalid'])
        x, j = ctx.fresh_const(Bytes, 'x'), ctx.int('j', lo=0)
        ctx.prove(h2[ROOT], 'the root is in the new file')
        ctx.prove(Implies(h2[x], And(h[x], v2[x] == v[x])), 'each record of the new file is the current one')
        ctx.prove(Implies(And(h2[x], j < nrefs(v[x])), h2[refat(v[x], j)]), 'what it refers to is in the new file')
        ctx.prove(Implies(h2[x], it.R[x]), 'only what was reachable or committed is in the new file')
        ctx.prove(Implies(And(h[x], Not(h2[x])), inv[x]), 'what is gone is invalid')
        ctx.prove(Implies(And(inv[x], h2[x]), it.before[x]), 'what is there is not')
    def post(self, cx): return []
    def removed(L, k):
        r = L['removed']
        d = dom_of(r)
        return d, [('only what has a record is removed', ForAll([x_], Implies(d[x_], And(blen(x_) == 8, k.h[x_])), patterns=[d[x_]]))]
    class HOLES_(object):
        def __call__(self, L):
            k = Pk(L)
            d, out = FileStorage_get_packer.removed(L, k)
            s = L.g.c['seen']
            return k.base() + out + [('the root', k.h2[ROOT]), ('the holes before', ForAll([x_], Implies(And(blen(x_) == 8, s[de8(x_)], k.h[x_], Not(k.P[x_])), d[x_]), patterns=[k.h[x_]]))]
    class NAMES_(object):
        def __call__(self, L):
            k = Pk(L)
            d, out = FileStorage_get_packer.removed(L, k)
            s, b = L.g.c['seen'], L.it.base
            return k.base() + out + [('the root', k.h2[ROOT]), ('the holes', ForAll([x_], Implies(And(k.h[x_], Not(k.P[x_]), Not(k.h2[x_]), de8(x_) < to_int(b.c['k'])), d[x_]), patterns=[k.h[x_]])),
                                     ('the names at the start', ForAll([x_], Implies(And(k.h[x_], Not(k.P[x_])), L.g.c['first'][x_]), patterns=[k.h[x_]])),
                                     ('those before', ForAll([x_], Implies(And(s[x_], de8(x_) >= to_int(b.c['k'])), d[x_]), patterns=[s[x_]]))]
    class DISCARD(object):
        def __call__(self, L):
            S, S0, g = L['seen'].c['s'], L.entry(L['seen']).c['s'], L.g.c.get('seen', EMPTY)
            k = Pk(L)
            return [('no more are seen', ForAll([x_], Implies(S[de8(x_)], S0[de8(x_)]), patterns=[S[de8(x_)]])),
                    ('only what was committed is not', ForAll([x_], Implies(And(blen(x_) == 8, S0[de8(x_)]), Or(S[de8(x_)], k.P[x_])), patterns=[S[de8(x_)], S0[de8(x_)]])),
                    ('those before', ForAll([x_], Implies(g[x_], Not(S[de8(x_)])), patterns=[g[x_]]))]
    class EXTRA(object):
        def __call__(self, L):
            k = Pk(L)
            L.it.extra_loop = L.g
            return k.same() + k.extra(done=L.g.c.get('seen', EMPTY))
    class GONE(object):
        def __call__(self, L):
            k = Pk(L)
            c, g = L.ctx.byname['collected'], L.g.c.get('seen', EMPTY)
            d = dom_of(c)
            return [('those before', ForAll([x_], d[x_] == And(g[x_], Not(k.h2[x_])), patterns=[d[x_], g[x_]]))]
    class LOOP(object):
        """a loop of the packer: by what it goes over, and whether it stores"""
        def __call__(self, L):
            me, it = FileStorage_get_packer, L.iterable
            if isinstance(it, HolesIter): return me.HOLES_()(L)
            if isinstance(it, NamesIter): return me.NAMES_()(L)
            if isinstance(it, DictIter) and not isinstance(L.node, ast.comprehension):
                stores = any(isinstance(x, ast.Attribute) and x.attr == 'store' for x in ast.walk(L.node))
                return me.EXTRA()(L) if stores else me.DISCARD()(L)
            return Pk(L).env()
    other_loops = {(M + 'FileStorage.gen_oid_record', 0): GEN0(), (M + 'FileStorage.gen_oid_record', 1): GEN1(), (M + 'FileStorage.gen_oid_record', 2): GEN2(),
                   (PACKER + '(comprehension)', 0): GONE()}
    for i in range(8): other_loops[PACKER, i] = LOOP()

@contract
class FileStorage_gen_oid_record(Contract):
    """C20: without a start every record, once; with a start each object that is reachable from it (and was not seen before), once,
    with its record.  R is any set that has the start and, with an oid, all that its record refers to."""
    target = M + 'FileStorage.gen_oid_record'
    props = ('C20', 'C05', 'C06')
    theory = [REFS]
    timeout, deadline = 8000, 200
    inline_only = True
    inline = (M + 'FileStorage.load',)
    assumes = ('the graph of records is closed (C17)', 'nothing is stored meanwhile (a pack allows for it: FileStorage_get_packer)')
    def setup(self, it):
        o = a_packed_storage(it)
        ctx = it.ctx
        it.start = None if ctx.choose([None, None], 'start') == 0 else ctx.bytes('start', 8)
        seen = None
        if it.start is not None and ctx.choose([None, None], 'seen') == 1:
            seen = IntSetV(ctx)
            seen.c['s'] = ctx.fresh_const(AIBool, 'seen')
        it.seen0 = seen.c['s'] if seen is not None else z3.K(I, FALSE)
        return [o, it.start, seen], {}
    def ghosts(self, cx): return {'Y': EMPTY}
    def pre(self, cx):
        it = cx.it
        h, v, R, s = it.cur.c['has'], it.cur.c['val'], it.R, it.start
        e = refat(v[x_], j_)
        return [('the records', And(closed(h, v), ForAll([x_], Implies(h[x_], blen(x_) == 8), patterns=[h[x_]]))),
                ('', TRUE if s is None else And(h[s], R[s], ForAll([x_, j_], Implies(And(h[x_], R[x_], 0 <= j_, j_ < nrefs(v[x_])), R[e]), patterns=[e])))]
    def modifies(self, cx): return [cx.seen] if cx.seen is not None else []
    def on_yield(self, cx, y):
        it = cx.it
        x, Y = to_bytes(y[0]), cx.yields.c['Y']
        cx.yields.c['Y'] = z3.Store(Y, x, TRUE)
        out = [('it has a record', it.cur.c['has'][x]), ('the record', to_bytes(y[1]) == it.cur.c['val'][x]), ('not twice', Not(Y[x]))]
        if it.start is not None: out += [('only what is reachable', it.R[x]), ('not what was seen before', Not(it.seen0[de8(x)]))]
        return out
    def post(self, cx):
        it = cx.it
        Y, h, v, s0 = cx.yields.c['Y'], it.cur.c['has'], it.cur.c['val'], it.seen0
        if it.start is None: return [('every record', ForAll([x_], Implies(h[x_], Y[x_]), patterns=[h[x_]]))]
        e = refat(v[x_], j_)
        return [('the start', Or(Y[it.start], s0[de8(it.start)])),
                ('and all that is reachable', ForAll([x_, j_], Implies(And(Y[x_], 0 <= j_, j_ < nrefs(v[x_])), Or(Y[e], s0[de8(e)])), patterns=[e]))]
    class L0(object):
        def __call__(self, L):
            Y, g = L.it.yields.c['Y'], L.g.c['seen']
            return [('those before', ForAll([x_], Y[x_] == g[x_], patterns=[Y[x_], g[x_]])), ('', L.g.c['first'] == L.it.cur.c['has'])]
    class L1(object):
        def __call__(self, L, but=None):
            it = L.it
            Y, h, v, S, s0, T, R = it.yields.c['Y'], it.cur.c['has'], it.cur.c['val'], L['seen'].c['s'], it.seen0, T_of(L), it.R
            s, e = to_bytes(L['start_oid']), refat(v[x_], j_)
            y = And(Y[x_], x_ != but) if but is not None else Y[x_]
            todo = ForAll([x_], Implies(T[x_], And(h[x_], R[x_])), patterns=[T[x_]])
            if but is not None: todo = Implies(blen(refat(v[but], L.ghost_i() - 1)) >= 0, todo)
            this = x_ == but if but is not None else FALSE
            return [('what is seen', ForAll([x_], Implies(blen(x_) == 8, S[de8(x_)] == Or(s0[de8(x_)], Y[x_], this)), patterns=[S[de8(x_)], Y[x_]])),
                    ('', ForAll([x_], Implies(Y[x_], And(h[x_], R[x_], Not(s0[de8(x_)]))), patterns=[Y[x_]])),
                    ('what is to be done has a record', todo), ('the start', Or(S[de8(s)], T[s])),
                    ('what it refers to', ForAll([x_, j_], Implies(And(Y[x_], 0 <= j_, j_ < nrefs(v[x_])), Or(S[de8(e)], T[e])), patterns=[e]))]
    class L2(L1):
        def __call__(self, L):
            v, S, T, oid, i = L.it.cur.c['val'], L['seen'].c['s'], T_of(L), to_bytes(L['oid']), L.ghost_i()
            e = refat(v[oid], j_)
            return FileStorage_gen_oid_record.L1.__call__(self, L, oid) + [
                ('this one', And(S[de8(oid)], L.it.cur.c['has'][oid], L.it.R[oid], Not(L.it.yields.c['Y'][oid]), Not(L.it.seen0[de8(oid)]))),
                ('its references before', ForAll([j_], Implies(And(0 <= j_, j_ < i), Or(S[de8(e)], T[e])), patterns=[e]))]
    loops = {0: L0(), 1: L1(), 2: L2()}
