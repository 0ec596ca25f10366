"""Contracts of the record functions of durus/serialize.py."""
from pyvc.engine import *
from pyvc.natives import *
from pyvc.runner import contract
from pyvc.interp import Contract
import contracts.utils_c as U

M = 'durus.serialize:'
i0 = z3.IntVal(0)
n = z3.IntVal

def cat(*xs):
    r = to_bytes(xs[0])
    for x in xs[1:]:
        r = wr(r, blen(r), to_bytes(x))
    return r

def rec_ok(r): return And(blen(r) >= 12, 12 + de4(sub(r, n(8), n(4))) <= blen(r))
def rec_oid(r): return sub(r, i0, n(8))
def rec_data(r): return sub(r, n(12), de4(sub(r, n(8), n(4))))
def rec_refs(r):
    e = 12 + de4(sub(r, n(8), n(4)))
    return sub(r, e, blen(r) - e)

def class_name(r):
    nl = to_bytes(b'\n')
    return If(nparts(rec_data(r), nl) > 1, part(rec_data(r), nl, n(2), n(1)), to_bytes(b'?'))

@contract
class pack_record(Contract):
    target = M + 'pack_record'
    props = ('C01',)
    raises = (StructError,)
    def setup(self, it): return [it.ctx.bytes('oid'), it.ctx.bytes('data'), it.ctx.bytes('refs')], {}
    def result(self, cx): return cx.ctx.bytes('record')
    def post(self, cx):
        d = to_bytes(cx.data)
        return [('oid, length, data, refs', to_bytes(cx.result) == cat(cx.oid, be4(blen(d)), d, cx.refs)), ('', blen(d) < 2 ** 32)]
    def post_exc(self, cx): return [('only for 4 GB of data', blen(to_bytes(cx.data)) >= 2 ** 32)]

@contract
class unpack_record(Contract):
    target = M + 'unpack_record'
    props = ('C01',)
    raises = (StructError,)
    def setup(self, it): return [it.ctx.bytes('record')], {}
    def result(self, cx): return (cx.ctx.bytes('oid'), cx.ctx.bytes('data'), cx.ctx.bytes('refs'))
    def post(self, cx):
        r = to_bytes(cx.record)
        oid, data, refs = [to_bytes(x) for x in cx.result]
        return [('a header', blen(r) >= 12), ('the oid', oid == rec_oid(r)),
                ('the data', Implies(rec_ok(r), data == rec_data(r))), ('the refs', Implies(rec_ok(r), refs == rec_refs(r)))]
    def post_exc(self, cx): return [('only without a header', blen(to_bytes(cx.record)) < 12)]

@contract
class extract_class_name(Contract):
    """the second line of the state; it must not fail"""
    target = M + 'extract_class_name'
    props = ('C20', 'C23')
    def setup(self, it): return [it.ctx.bytes('record')], {}
    def pre(self, cx): return [('a header', blen(to_bytes(cx.record)) >= 12)]
    def result(self, cx): return cx.ctx.bytes('class_name')
    def post(self, cx): return [('the second line of the data', Implies(rec_ok(to_bytes(cx.record)), to_bytes(cx.result) == class_name(to_bytes(cx.record))))]

@contract
class record_round_trip(Contract):
    """unpack_record(pack_record(oid, data, refs)) == (oid, data, refs)"""
    target = M + 'unpack_record'
    extra = True
    props = ('C01',)
    def setup(self, it): return [it.ctx.bytes('oid', 8), it.ctx.bytes('data'), it.ctx.bytes('refs')], {}
    def setup(self, it):
        it.args = [it.ctx.bytes('oid', 8), it.ctx.bytes('data'), it.ctx.bytes('refs')]
        it.ctx.assume(blen(it.args[1]) < 2 ** 32)
        return [it.ctx.bytes('unused')], {}
    def body(self, it, f, cx):
        return it.call(f, [it.call(it.resolve(M + 'pack_record'), it.args)])
    def post(self, cx):
        return [('the same %s' % w, to_bytes(x) == y) for w, x, y in zip(('oid', 'data', 'refs'), cx.result, cx.it.args)]

def words_of(l, s):
    """the list l holds the 8-byte pieces of s"""
    s = U.as_b(s)
    if l.concrete():
        if l.c['items'] == (): return blen(s) == 0
        return And(blen(s) == 8 * len(l.c['items']), *[to_bytes(x) == sub(s, n(8 * k), n(8)) for k, x in enumerate(l.c['items'])])
    j, p = z3.Int('j'), z3.Int('p')
    a = l.arrs()[0]
    return And(8 * to_int(l.length()) == blen(s), z3.ForAll([p], Implies(And(0 <= p, p < blen(s), p % 8 == 0), a[p / 8] == sub(s, p, n(8))), patterns=[sub(s, p, n(8))]), z3.ForAll([j], Implies(And(0 <= j, j < to_int(l.length())),
               a[j] == sub(s, 8 * j, n(8))), patterns=[a[j]]))

@contract
class split_oids(Contract):
    target = M + 'split_oids'
    props = ('C01',)
    raises = (AssertionError,)
    asserts_raise = True
    def setup(self, it): return [it.ctx.bytes('s')], {}
    def result(self, cx):
        return ListV(cx.ctx, 'oids', n=cx.ctx.int('n', lo=0), arrs=[cx.ctx.fresh_const(z3.ArraySort(I, Bytes), 'oids')], ek=BYTES)
    def post(self, cx):
        return [('the 8-byte pieces in order', words_of(cx.result, cx.s)), ('whole pieces', blen(U.as_b(cx.s)) % 8 == 0)]
    def post_exc(self, cx): return [('only for part of an oid', blen(U.as_b(cx.s)) % 8 != 0)]
