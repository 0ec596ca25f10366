"""Contracts of durus/utils.py."""
from pyvc.engine import *
from pyvc.natives import *
from pyvc.runner import contract
from pyvc.interp import Contract

M = 'durus.utils:'
i0 = z3.IntVal(0)


# ------------------------------------------------------------------ integers

@contract
class int8_to_str(Contract):
    target = M + 'int8_to_str'
    props = ('C01',)
    raises = (StructError,)
    def setup(self, it): return [it.ctx.int('n')], {}
    def result(self, cx): return cx.ctx.bytes('r')
    def post(self, cx):
        n = to_int(cx.n)
        return [('it is the 8-byte big-endian encoding', to_bytes(cx.result) == be8(n)),
                ('n is in range', And(0 <= n, n < 2 ** 64))]
    def post_exc(self, cx):
        return [('only when n is out of range', Not(And(0 <= to_int(cx.n), to_int(cx.n) < 2 ** 64)))]

@contract
class str_to_int8(Contract):
    target = M + 'str_to_int8'
    props = ('C01',)
    raises = (StructError,)
    def setup(self, it): return [it.ctx.bytes('s')], {}
    def result(self, cx): return cx.ctx.int('r')
    def post(self, cx):
        return [('it is the decoded number', to_int(cx.result) == de8(to_bytes(cx.s))), ('8 bytes', blen(to_bytes(cx.s)) == 8)]
    def post_exc(self, cx):
        return [('only when there are not 8 bytes', blen(to_bytes(cx.s)) != 8)]

@contract
class int4_to_str(int8_to_str):
    target = M + 'int4_to_str'
    def setup(self, it): return [it.ctx.int('v')], {}
    def post(self, cx):
        n = to_int(cx.v)
        return [('it is the 4-byte big-endian encoding', to_bytes(cx.result) == be4(n)),
                ('v is in range', And(0 <= n, n < 2 ** 32))]
    def post_exc(self, cx):
        return [('only when v is out of range', Not(And(0 <= to_int(cx.v), to_int(cx.v) < 2 ** 32)))]

@contract
class str_to_int4(Contract):
    target = M + 'str_to_int4'
    props = ('C01',)
    raises = (StructError,)
    def setup(self, it): return [it.ctx.bytes('v')], {}
    def result(self, cx): return cx.ctx.int('r')
    def post(self, cx):
        return [('it is the decoded number', to_int(cx.result) == de4(to_bytes(cx.v))), ('4 bytes', blen(to_bytes(cx.v)) == 4)]
    def post_exc(self, cx):
        return [('only when there are not 4 bytes', blen(to_bytes(cx.v)) != 4)]


# ------------------------------------------------------------------ reading and writing

def some_channel(it, ctx, fails=False):
    """a file or a socket"""
    if ctx.choose([None, None], 'channel') == 0:
        return a_file(ctx, fails=fails)
    return SockV(ctx, fails=fails)

def a_file(ctx, name='file', fails=False):
    f = FileV(ctx, name, b=ctx.bytes(name + '_b'), pos=ctx.int(name + '_pos', lo=0), fails=fails)
    return f

def is_file(f): return isinstance(f, FileV)

def avail(old):
    """(content, position) of what can be read"""
    if isinstance(old, SockV): return old.c['inb'], old.c['ipos']
    return old.c['b'], old.c['pos']

@contract
class read(Contract):
    target = M + 'read'
    dead = ("sys.stdout.write('read(%r, %r)' % (f, n))", "sys.stdout.write('-> %r\\n' % result)")      # if TRACE
    props = ('C01', 'C16')
    raises = (M + 'ShortRead',)
    def setup(self, it): return [some_channel(it, it.ctx), it.ctx.int('n')], {}
    def pre(self, cx):
        out = [('n is not negative', to_int(cx.n) >= 0)]
        if is_file(cx.f): out.append(('the position is in the file', And(cx.f.c['pos'] >= 0)))
        else: out.append(('', And(cx.f.c['ipos'] >= 0, cx.f.c['ipos'] <= blen(cx.f.c['inb']))))
        return out
    def modifies(self, cx): return [(cx.f, 'pos' if is_file(cx.f) else 'ipos')]
    def result(self, cx): return cx.ctx.bytes('r')
    def post(self, cx):
        b, p = avail(cx.old(cx.f))
        p, n = to_int(p), to_int(cx.n)
        p1 = to_int(avail(cx.f)[1])
        return [('exactly n bytes', blen(to_bytes(cx.result)) == n),
                ('the n bytes at the position', Or(n == 0, And(p + n <= blen(b), to_bytes(cx.result) == sub(b, p, n)))),
                ('the position is moved by n', p1 == p + n)]
    def post_exc(self, cx):
        b, p = avail(cx.old(cx.f))
        p1 = to_int(avail(cx.f)[1])
        out = [('fewer bytes are consumed', And(p1 >= to_int(p), p1 < to_int(p) + to_int(cx.n)))]
        if is_file(cx.f):
            out.append(('only at the end', to_int(p) + to_int(cx.n) > blen(b)))
            out.append(('what is left is consumed', p1 == If(to_int(p) <= blen(b), blen(b), to_int(p))))
        return out
    class L0(object):
        def __call__(self, L):
            f, n = L['f'], to_int(L['n'])
            d = L['data']
            p0 = L.old(f).c['ipos']
            got = to_int(f.c['ipos']) - p0
            if d.concrete():
                j = join(L.it, b'', d) if len(d.c['items']) else b''
            else:
                j = catl(d.arrs()[0], to_int(d.length()))
            return [('what is left', And(to_int(L['remaining']) == n - got, got >= 0, got <= n, to_int(f.c['ipos']) <= blen(f.c['inb']))),
                    ('what is there', And(to_bytes(j) == sub(f.c['inb'], p0, got), to_int(d.length()) >= 0))]
    loops = {0: L0()}

def as_b(v): return to_bytes(v.encode('latin1') if isinstance(v, str) else v)

@contract
class write(Contract):
    target = M + 'write'
    dead = ("sys.stdout.write('write(%r, %r)\\n' % (f, s_bytes))",)      # if TRACE
    props = ('C01', 'C16')
    raises = (IOError,)
    def setup(self, it): return [some_channel(it, it.ctx), it.ctx.bytes('s')], {}
    def pre(self, cx):
        if is_file(cx.f): return [('the position is in the file', And(cx.f.c['pos'] >= 0, cx.f.c['pos'] <= blen(cx.f.c['b'])))]
        return []
    def modifies(self, cx): return [(cx.f, 'b'), (cx.f, 'pos')] if is_file(cx.f) else [(cx.f, 'out')]
    def post(self, cx):
        o = cx.old(cx.f)
        s = as_b(cx.s)
        if is_file(cx.f):
            return [('s is written at the position', cx.f.c['b'] == wr(o.c['b'], o.c['pos'], s)),
                    ('the position is moved', to_int(cx.f.c['pos']) == o.c['pos'] + blen(s))]
        return [('all of s is sent', cx.f.c['out'] == wr(o.c['out'], blen(o.c['out']), s))]
    def post_exc(self, cx):
        if is_file(cx.f): return [('not for a file', z3.BoolVal(False))]
        o = cx.old(cx.f)
        k = cx.ctx.int('k')
        return []
    class L0(object):
        def __call__(self, L):
            f, s = L['f'], to_bytes(L.entry.c(L.fr)['s_bytes'])
            left = to_bytes(L['s_bytes'])
            sent = blen(s) - blen(left)
            o = L.old(f).c['out']
            return [('sent so far', And(sent >= 0, left == sub(s, sent, blen(left)),
                                        f.c['out'] == wr(o, blen(o), sub(s, i0, sent))))]
    loops = {0: L0()}


# ------------------------------------------------------------------ ByteArray

def inv_ba(o, c=None):
    """representation invariant of a ByteArray; c maps objects to their cells (for old states)"""
    f = o.c['file']
    return And(to_int(o.c['start']) >= 0, to_int(o.c['size']) >= 0, to_int(o.c['start']) + to_int(o.c['size']) <= blen(f.c['b']),
               to_int(f.c['pos']) >= 0)

def a_bytearray(it, name='ba', f=None):
    ctx = it.ctx
    return Obj(ctx, it.cls(M + 'ByteArray'), name, file=f or a_file(ctx), start=ctx.int('start'), size=ctx.int('size'))

class BA(Contract):
    props = ('C08',)
    def pre(self, cx): return [('the array is well formed', inv_ba(cx.self))]
    def modifies(self, cx): return [(cx.self.c['file'], 'pos')]

def a_pos(ctx, hint):
    return ctx.int(hint) if ctx.choose([None, None], 'bound') == 0 else None

@contract
class ByteArray_getitem(BA):
    target = M + 'ByteArray.__getitem__'
    raises = (IndexError, TypeError)
    def setup(self, it):
        ba = a_bytearray(it)
        if it.ctx.choose([None, None], 'index or slice') == 0:
            return [ba, it.ctx.int('j')], {}
        sl = SliceV(a_pos(it.ctx, 'lo'), a_pos(it.ctx, 'hi'))
        if it.ctx.choose([None, None], 'step') == 1:
            sl.step = it.ctx.int('step')
            it.ctx.assume(sl.step != 1)
        return [ba, sl], {}
    def result(self, cx): return cx.ctx.bytes('r')
    def rng(self, cx):
        j = cx.j
        if isinstance(j, SliceV):
            if j.step is not None: return i0, i0, z3.BoolVal(False)
            if j.start is None or j.stop is None: return None
            return to_int(j.start), to_int(j.stop), And(0 <= to_int(j.start), to_int(j.start) < to_int(j.stop), to_int(j.stop) <= to_int(cx.self.c['size']))
        j = to_int(j)
        return j, j + 1, And(0 <= j, j < to_int(cx.self.c['size']))
    def post(self, cx):
        f, s = cx.old(cx.self.c['file']), to_int(cx.self.c['start'])
        r = self.rng(cx)
        if r is None: return [('bounds are required', z3.BoolVal(False))]
        lo, hi, ok = r
        return [('the index is in range', ok), ('the bytes there', to_bytes(cx.result) == sub(f.c['b'], s + lo, hi - lo)),
                ('as many as asked for', blen(to_bytes(cx.result)) == hi - lo),
                ('the position is valid', to_int(cx.self.c['file'].c['pos']) >= 0)]
    def post_exc(self, cx):
        r = self.rng(cx)
        if cx.exc.cls is TypeError: return [('only without bounds', z3.BoolVal(r is None))]
        if r is None: return [('TypeError', z3.BoolVal(False))]
        return [('only when it is out of range', Not(r[2]))]

@contract
class ByteArray_setitem(ByteArray_getitem):
    target = M + 'ByteArray.__setitem__'
    raises = (IndexError, TypeError, ValueError)
    def setup(self, it):
        a, k = ByteArray_getitem.setup(self, it)
        return a + [it.ctx.bytes('v')], k
    def modifies(self, cx): return [(cx.self.c['file'], 'pos'), (cx.self.c['file'], 'b')]
    def result(self, cx): return None
    def post(self, cx):
        r = self.rng(cx)
        if r is None: return [('bounds are required', z3.BoolVal(False))]
        lo, hi, ok = r
        f, s = cx.old(cx.self.c['file']), to_int(cx.self.c['start'])
        return [('the index is in range', ok), ('the size of the value', blen(to_bytes(cx.v)) == hi - lo),
                ('only these bytes are written', cx.self.c['file'].c['b'] == wr(f.c['b'], s + lo, to_bytes(cx.v))),
                ('the position is valid', to_int(cx.self.c['file'].c['pos']) >= 0)]
    def post_exc(self, cx):
        r = self.rng(cx)
        fr = [('nothing is written', cx.self.c['file'].c['b'] == cx.old(cx.self.c['file']).c['b']),
              ('the position is valid', to_int(cx.self.c['file'].c['pos']) >= 0)]
        if cx.exc.cls is TypeError: return fr + [('only without bounds', z3.BoolVal(r is None))]
        if r is None: return fr + [('TypeError', z3.BoolVal(False))]
        if cx.exc.cls is ValueError:
            return fr + [('only for a value of the wrong size', And(r[2], blen(to_bytes(cx.v)) != r[1] - r[0]))]
        return fr + [('only when it is out of range', Not(r[2]))]

class L_gen_set_size(object):
    def __call__(self, L):
        ba = L['self']
        f = ba.c['file']
        o = L.entry(f)
        size, c = to_int(L['size']), de1(to_bytes(L['init_byte']))
        ba_size = to_int(ba.c['size'])
        done = size - ba_size - to_int(L['remaining'])
        chunk = to_bytes(L['chunk'])
        b0 = o.c['b']
        return [('what is done', And(done >= 0, done <= size - ba_size)),
                ('the chunk', And(blen(chunk) > 0, chunk == rep(c, blen(chunk)))),
                ('the file', And(f.c['b'] == wr(b0, blen(b0), rep(c, done)), to_int(f.c['pos']) == blen(f.c['b'])))]

@contract
class ByteArray_gen_set_size(Contract):
    target = M + 'ByteArray.gen_set_size'
    inline_only = True
    loops = {0: L_gen_set_size()}
    props = ('C08',)
    def setup(self, it):
        return [a_bytearray(it), it.ctx.int('size'), it.ctx.bytes('init_byte', 1)], {}
    def pre(self, cx):
        o, f = cx.self, cx.self.c['file']
        n = to_int(cx.size)
        return [('the array is well formed', inv_ba(o)), ('it does not shrink', n >= to_int(o.c['size'])),
                ('it can grow only at the end of the file', Or(to_int(o.c['start']) + n <= blen(f.c['b']),
                        to_int(o.c['start']) + to_int(o.c['size']) == blen(f.c['b']))),
                ('one initial byte', blen(to_bytes(cx.init_byte)) == 1)]
    def modifies(self, cx): return [(cx.self.c['file'], 'pos'), (cx.self.c['file'], 'b'), (cx.self, 'size')]
    def post(self, cx):
        o, f = cx.old(cx.self), cx.old(cx.self.c['file'])
        n, s = to_int(cx.size), to_int(o.c['start'])
        b, c = f.c['b'], de1(to_bytes(cx.init_byte))
        nb = cx.self.c['file'].c['b']
        return [('the size', to_int(cx.self.c['size']) == n),
                ('what was there stays', sub(nb, i0, blen(b)) == b),
                ('a file that is large enough is left alone', Implies(s + n <= blen(b), nb == b)),
                ('the new bytes', Implies(s + n > blen(b), nb == wr(b, blen(b), rep(c, n - to_int(o.c['size']))))),
                ('well formed', inv_ba(cx.self)),
                ('the position', to_int(cx.self.c['file'].c['pos']) == s + n)]

@contract
class ByteArray_set_size(ByteArray_gen_set_size):
    target = M + 'ByteArray.set_size'
    inline_only = False
    loops = {}

@contract
class ByteArray_init(Contract):
    target = M + 'ByteArray.__init__'
    props = ('C08',)
    def setup(self, it):
        f = None if it.ctx.choose([None, None], 'file') == 0 else a_file(it.ctx)
        return [Obj(it.ctx, it.cls(M + 'ByteArray'), 'ba'), it.ctx.int('size'), f], {}
    def pre(self, cx):
        n, f = to_int(cx.size), cx.file
        out = [('', n >= 0)]
        if f is not None:
            out += [('', And(f.c['pos'] >= 0, f.c['pos'] <= blen(f.c['b']))),
                    ('it can grow only at the end of the file', Or(f.c['pos'] + n <= blen(f.c['b']), f.c['pos'] == blen(f.c['b'])))]
        return out
    inline_only = True
    def modifies(self, cx):
        return [cx.self, (cx.self, '+')] + ([cx.file] if cx.file is not None else [])
    def post(self, cx):
        o, n = cx.self, to_int(cx.size)
        f = cx.file
        out = [('well formed', inv_ba(o)), ('the size', to_int(o.c['size']) == n)]
        if f is None:
            return out + [('zeros', sub(o.c['file'].c['b'], to_int(o.c['start']), n) == rep(i0, n))]
        fo = cx.old(f)
        return out + [('it starts at the position', to_int(o.c['start']) == fo.c['pos']),
                      ('it uses the file', z3.BoolVal(o.c['file'] is f)),
                      ('what was there stays', sub(f.c['b'], i0, blen(fo.c['b'])) == fo.c['b']),
                      ('zeros', Implies(fo.c['pos'] == blen(fo.c['b']), f.c['b'] == wr(fo.c['b'], blen(fo.c['b']), rep(i0, n))))]

@contract
class ByteArray_iter(BA):
    target = M + 'ByteArray.__iter__'
    inline_only = True
    def setup(self, it): return [a_bytearray(it)], {}
    def on_yield(self, cx, y):
        o, f = cx.self, cx.old(cx.self.c['file'])
        n = to_int(cx.yields.c['n'])
        return [('the bytes in order', And(n < to_int(o.c['size']), y == sub(f.c['b'], to_int(o.c['start']) + n, z3.IntVal(1))))]
    def post(self, cx): return [('all of them', to_int(cx.yields.c['n']) == to_int(cx.self.c['size']))]
    class L0(object):
        def __call__(self, L):
            o = L['self']
            f = o.c['file']
            out = [('the position', And(L.ghost_i() >= 0, L.ghost_i() <= to_int(o.c['size']), to_int(f.c['pos']) == to_int(o.c['start']) + L.ghost_i()))]
            if L.it.target == M + 'ByteArray.__iter__':
                out.append(('count', to_int(L.it.yields.c['n']) == L.ghost_i()))
            return out
    loops = {0: L0()}


# ------------------------------------------------------------------ bits

bitat = z3.Function('bitat', Bytes, I, I, I)       # bit q of the bits that start at byte s of b
_b, _s, _q = z3.Const('b', Bytes), z3.Int('s'), z3.Int('q')

def bit_of(v, j):
    """bit j of the byte with value v, most significant first"""
    r = z3.IntVal(0)
    for k in range(8):
        r = If(j == k, (v / (2 ** (7 - k))) % 2, r)
    return r

BITS = [z3.ForAll([_b, _s, _q], bitat(_b, _s, _q) == bit_of(de1(sub(_b, _s + _q / 8, z3.IntVal(1))), _q % 8),
                  patterns=[bitat(_b, _s, _q)])]

def a_byte(it):
    return Obj(it.ctx, it.cls(M + 'Byte'), 'byte', value=it.ctx.int('value'))

def inv_byte(o): return And(to_int(o.c['value']) >= 0, to_int(o.c['value']) < 256)

class L_byte(Contract):
    props = ('C08',)
    raises = (IndexError,)
    def pre(self, cx): return [('a byte', inv_byte(cx.self))]
    def idx(self, cx):
        j = to_int(cx.j)
        return If(And(-8 <= j, j <= -1), j + 8, j)
    def post_exc(self, cx): return [('only out of range', Not(And(0 <= self.idx(cx), self.idx(cx) <= 7)))]

@contract
class Byte_getitem(L_byte):
    target = M + 'Byte.__getitem__'
    def setup(self, it): return [a_byte(it), it.ctx.int('j')], {}
    def result(self, cx): return cx.ctx.int('bit')
    def post(self, cx):
        j = self.idx(cx)
        return [('in range', And(0 <= j, j <= 7)), ('the bit', to_int(cx.result) == bit_of(to_int(cx.self.c['value']), j))]

@contract
class Byte_setitem(L_byte):
    target = M + 'Byte.__setitem__'
    def setup(self, it): return [a_byte(it), it.ctx.int('j'), it.ctx.int('v')], {}
    def modifies(self, cx): return [(cx.self, 'value')]
    def post(self, cx):
        j = self.idx(cx)
        v0, v1 = to_int(cx.old(cx.self).c['value']), to_int(cx.self.c['value'])
        return [('in range', And(0 <= j, j <= 7)), ('a byte', inv_byte(cx.self))] + [
            ('bit %d' % k, bit_of(v1, z3.IntVal(k)) == If(j == k, If(to_int(cx.v) != 0, 1, 0), bit_of(v0, z3.IntVal(k)))) for k in range(8)]

@contract
class Byte_init(Contract):
    target = M + 'Byte.__init__'
    props = ('C08',)
    inline_only = True
    raises = (TypeError,)
    def setup(self, it):
        v = it.ctx.bytes('v', 1) if it.ctx.choose([None, None], 'v') == 0 else it.ctx.int('v')
        return [Obj(it.ctx, it.cls(M + 'Byte'), 'byte'), v], {}
    def modifies(self, cx): return [(cx.self, 'value'), (cx.self, '+')]
    def post(self, cx):
        v = cx.v
        return [('the value', to_int(cx.self.c['value']) == (de1(v) if is_bytes(v) else to_int(v))), ('a byte', inv_byte(cx.self))]
    def post_exc(self, cx):
        return [('only out of range', z3.BoolVal(False) if is_bytes(cx.v) else Not(And(0 <= to_int(cx.v), to_int(cx.v) <= 255)))]

def a_bitarray(it, name='bits'):
    return Obj(it.ctx, it.cls(M + 'BitArray'), name, byte_array=a_bytearray(it), size=it.ctx.int('nbits'))

def inv_bits(o):
    ba, n = o.c['byte_array'], to_int(o.c['size'])
    return And(inv_ba(ba), n >= 0, to_int(ba.c['size']) == (n + 7) / 8)

def bits(o, q, old=None):
    """bit q, now or in an old state"""
    ba = o.c['byte_array']
    f = ba.c['file'] if old is None else old(ba.c['file'])
    return bitat(f.c['b'], to_int(ba.c['start']), q)

class BITA(Contract):
    props = ('C08',)
    theory = [BITS]
    raises = (IndexError,)
    def pre(self, cx): return [('the bit array is well formed', inv_bits(cx.self))]
    def idx(self, cx):
        j = to_int(cx.j)
        return If(j < 0, j + to_int(cx.self.c['size']), j)
    def ok(self, cx): return And(0 <= self.idx(cx), self.idx(cx) < to_int(cx.self.c['size']))

@contract
class BitArray_getitem(BITA):
    target = M + 'BitArray.__getitem__'
    def setup(self, it): return [a_bitarray(it), it.ctx.int('j')], {}
    def modifies(self, cx): return [(cx.self.c['byte_array'].c['file'], 'pos')]
    def result(self, cx): return cx.ctx.int('bit')
    def post(self, cx):
        return [('in range', self.ok(cx)), ('the bit', to_int(cx.result) == bits(cx.self, self.idx(cx))),
                ('well formed', inv_bits(cx.self))]
    def post_exc(self, cx): return [('only out of range', Not(self.ok(cx))), ('well formed', inv_bits(cx.self))]

@contract
class BitArray_setitem(BITA):
    target = M + 'BitArray.__setitem__'
    def setup(self, it): return [a_bitarray(it), it.ctx.int('j'), it.ctx.int('v')], {}
    def modifies(self, cx): return [(cx.self.c['byte_array'].c['file'], 'pos'), (cx.self.c['byte_array'].c['file'], 'b')]
    def post(self, cx):
        o, n = cx.self, to_int(cx.self.c['size'])
        f = o.c['byte_array'].c['file']
        q = z3.Int('q')
        new, old = bits(o, q), bits(o, q, cx.old)
        out = [('in range', self.ok(cx)),
               ('this bit is changed and no other', z3.ForAll([q], Implies(And(0 <= q, q < 8 * to_int(o.c['byte_array'].c['size'])),
                    new == If(q == self.idx(cx), If(to_int(cx.v) != 0, 1, 0), old)), patterns=[new, old])),
               ('the length of the file', blen(f.c['b']) == blen(cx.old(f).c['b'])),
               ('well formed', inv_bits(o))]
        return out
    def post_exc(self, cx):
        f = cx.self.c['byte_array'].c['file']
        return [('only out of range', Not(self.ok(cx))), ('nothing is written', f.c['b'] == cx.old(f).c['b']), ('well formed', inv_bits(cx.self))]

@contract
class BitArray_set_size(BITA):
    target = M + 'BitArray.set_size'
    raises = ()
    def setup(self, it): return [a_bitarray(it), it.ctx.int('size')], {}
    def pre(self, cx):
        o, ba, n = cx.self, cx.self.c['byte_array'], to_int(cx.size)
        return [('the bit array is well formed', inv_bits(o)), ('it does not shrink', n >= to_int(o.c['size'])),
                ('it is at the end of the file', to_int(ba.c['start']) + to_int(ba.c['size']) == blen(ba.c['file'].c['b'])),
                ('the unused bits are zero', self.zeros(cx, o))]
    def zeros(self, cx, o):
        q = z3.Int('q')
        ba = o.c['byte_array']
        return z3.ForAll([q], Implies(And(to_int(o.c['size']) <= q, q < 8 * to_int(ba.c['size'])), bits(o, q) == 0), patterns=[bits(o, q)])
    def modifies(self, cx):
        ba = cx.self.c['byte_array']
        return [(ba.c['file'], 'pos'), (ba.c['file'], 'b'), (ba, 'size'), (cx.self, 'size')]
    def post(self, cx):
        o = cx.self
        ba = o.c['byte_array']
        q = z3.Int('q')
        n0 = to_int(cx.old(o).c['size'])
        new, old = bits(o, q), bits(o, q, cx.old)
        return [('the size', to_int(o.c['size']) == to_int(cx.size)), ('well formed', inv_bits(o)),
                ('the old bits stay', z3.ForAll([q], Implies(And(0 <= q, q < n0), new == old), patterns=[new, old])),
                ('the old bytes stay and the new ones are zero', z3.ForAll([q], Implies(And(0 <= q, q < 8 * to_int(ba.c['size'])),
                    If(q < 8 * to_int(cx.old(ba).c['size']), new == old, new == 0)), patterns=[new, old])),
                ('the new bits are zero', z3.ForAll([q], Implies(And(n0 <= q, q < 8 * to_int(ba.c['size'])), new == 0), patterns=[new])),
                ('it is at the end of the file', to_int(ba.c['start']) + to_int(ba.c['size']) == blen(ba.c['file'].c['b']))]

# ------------------------------------------------------------------ IntSet

def a_intset(it):
    return Obj(it.ctx, it.cls(M + 'IntSet'), 'intset', bit_array=a_bitarray(it))

def inv_intset(o):
    b = o.c['bit_array']
    ba = b.c['byte_array']
    q = z3.Int('q')
    return And(inv_bits(b), to_int(ba.c['start']) + to_int(ba.c['size']) == blen(ba.c['file'].c['b']),
               z3.ForAll([q], Implies(And(to_int(b.c['size']) <= q, q < 8 * to_int(ba.c['size'])), bits(b, q) == 0), patterns=[bits(b, q)]))

def member(o, q, old=None):
    b = o.c['bit_array']
    n = to_int((b if old is None else old(b)).c['size'])
    return And(q < n, bits(b, q, old) == 1)

def intset_cells(o):
    b = o.c['bit_array']
    ba = b.c['byte_array']
    return [(ba.c['file'], 'pos'), (ba.c['file'], 'b'), (ba, 'size'), (b, 'size')]

def others(cx, val):
    """membership of all non-negative integers after the call"""
    q = z3.Int('q')
    o = cx.self
    b = o.c['bit_array']
    new, old = member(o, q), member(o, q, cx.old)
    return z3.ForAll([q], Implies(q >= 0, new == val(q, old)), patterns=[bits(b, q), bits(b, q, cx.old)])

class ISET(Contract):
    props = ('C08',)
    theory = [BITS]
    def setup(self, it): return [a_intset(it), it.ctx.int('n', lo=0)], {}
    def pre(self, cx): return [('well formed', inv_intset(cx.self)), ('not negative', to_int(cx.n) >= 0)]
    def modifies(self, cx): return intset_cells(cx.self)

@contract
class IntSet_add(ISET):
    target = M + 'IntSet.add'
    def post(self, cx):
        return [('well formed', inv_intset(cx.self)), ('n is added, the others stay', others(cx, lambda q, old: Or(q == to_int(cx.n), old))),
                ('n is a member', member(cx.self, to_int(cx.n)))]

@contract
class IntSet_discard(ISET):
    target = M + 'IntSet.discard'
    def post(self, cx):
        return [('well formed', inv_intset(cx.self)), ('n is removed, the others stay', others(cx, lambda q, old: And(q != to_int(cx.n), old)))]

@contract
class IntSet_contains(ISET):
    target = M + 'IntSet.__contains__'
    def modifies(self, cx): return intset_cells(cx.self)[:1]
    def result(self, cx): return cx.ctx.fresh(BOOL)
    def post(self, cx):
        return [('well formed', inv_intset(cx.self)), ('whether n is a member', to_bool(cx.result) == member(cx.self, to_int(cx.n)))]


# ------------------------------------------------------------------ WordArray, IntArray

W = z3.Function('word', Bytes, I, I, I, Bytes)      # word j of the w-byte words at s
IV = z3.Function('intval', Bytes, I, I, I, I)       # its value
_w, _j = z3.Ints('w j')
from pyvc.prelude import mul
WORDS = [z3.ForAll([_b, _s, _w, _j], W(_b, _s, _w, _j) == sub(_b, _s + mul(_j, _w), _w), patterns=[W(_b, _s, _w, _j)]),
         z3.ForAll([_b, _s, _w, _j], IV(_b, _s, _w, _j) == de8(wr(rep(0, 8 - _w), 8 - _w, W(_b, _s, _w, _j))),
                   patterns=[IV(_b, _s, _w, _j)])]

def a_wordarray(it, f=None):
    ctx = it.ctx
    f = f or a_file(ctx)
    return Obj(ctx, it.cls(M + 'WordArray'), 'words', file=f, byte_array=a_bytearray(it, f=f),
               bytes_per_word=ctx.int('w'), number_of_words=ctx.int('n'))

def inv_wa(o):
    ba = o.c['byte_array']
    w, n = to_int(o.c['bytes_per_word']), to_int(o.c['number_of_words'])
    return And(inv_ba(ba), w >= 0, n >= 0, to_int(ba.c['size']) == mul(w, n))

def wa_word(o, j, old=None):
    ba = o.c['byte_array']
    f = ba.c['file'] if old is None else old(ba.c['file'])
    return W(f.c['b'], to_int(ba.c['start']), to_int(o.c['bytes_per_word']), j)

class WA(Contract):
    props = ('C08',)
    theory = [WORDS]
    raises = (IndexError,)
    def pre(self, cx): return [('well formed', inv_wa(cx.self)), ('', to_int(cx.self.c['bytes_per_word']) > 0)]
    def idx(self, cx):
        j = to_int(cx.j)
        return If(j < 0, j + to_int(cx.self.c['number_of_words']), j)
    def ok(self, cx): return And(0 <= self.idx(cx), self.idx(cx) < to_int(cx.self.c['number_of_words']))
    def modifies(self, cx): return [(cx.self.c['byte_array'].c['file'], 'pos')]
    def post_exc(self, cx): return [('only out of range', Not(self.ok(cx))), ('well formed', inv_wa(cx.self))]

@contract
class WordArray_getitem(WA):
    target = M + 'WordArray.__getitem__'
    def setup(self, it): return [a_wordarray(it), it.ctx.int('j')], {}
    def result(self, cx): return cx.ctx.bytes('word')
    def post(self, cx):
        return [('in range', self.ok(cx)), ('the word', to_bytes(cx.result) == wa_word(cx.self, self.idx(cx))),
                ('its size', blen(to_bytes(cx.result)) == to_int(cx.self.c['bytes_per_word'])), ('well formed', inv_wa(cx.self))]

@contract
class WordArray_setitem(WA):
    target = M + 'WordArray.__setitem__'
    raises = (IndexError, ValueError)
    def setup(self, it): return [a_wordarray(it), it.ctx.int('j'), it.ctx.bytes('word')], {}
    def modifies(self, cx): return [(cx.self.c['byte_array'].c['file'], 'pos'), (cx.self.c['byte_array'].c['file'], 'b')]
    def post(self, cx):
        o = cx.self
        f = o.c['byte_array'].c['file']
        ba = o.c['byte_array']
        b0 = cx.old(f).c['b']
        q = z3.Int('q')
        s, w = to_int(ba.c['start']), to_int(o.c['bytes_per_word'])
        new, old = wa_word(o, q), wa_word(o, q, cx.old)
        return [('in range', self.ok(cx)),
                ('the size of the word', blen(to_bytes(cx.word)) == to_int(o.c['bytes_per_word'])),
                ('only this word is written', f.c['b'] == wr(b0, s + mul(self.idx(cx), w), to_bytes(cx.word))),
                ('this word is changed and no other', z3.ForAll([q], Implies(And(0 <= q, q < to_int(o.c['number_of_words'])),
                    new == If(q == self.idx(cx), to_bytes(cx.word), old)), patterns=[new, old])),
                ('the bytes before the array stay', sub(f.c['b'], i0, s) == sub(b0, i0, s)),
                ('the length of the file', blen(f.c['b']) == blen(b0)), ('well formed', inv_wa(o))]
    def post_exc(self, cx):
        f = cx.self.c['byte_array'].c['file']
        out = [('nothing is written', f.c['b'] == cx.old(f).c['b']), ('well formed', inv_wa(cx.self))]
        if cx.exc.cls is ValueError:
            return out + [('only for a word of another size', And(self.ok(cx), blen(to_bytes(cx.word)) != to_int(cx.self.c['bytes_per_word'])))]
        return out + [('only out of range', Not(self.ok(cx)))]

@contract
class WordArray_len(Contract):
    target = M + 'WordArray.__len__'
    props = ('C08',)
    inline_only = True
    def setup(self, it): return [a_wordarray(it)], {}
    def post(self, cx): return [('the number of words', to_int(cx.result) == to_int(cx.self.c['number_of_words']))]

@contract
class WordArray_iter(WA):
    target = M + 'WordArray.__iter__'
    inline_only = True
    raises = ()
    def setup(self, it): return [a_wordarray(it)], {}
    def modifies(self, cx): return [(cx.self.c['byte_array'].c['file'], 'pos')]
    def on_yield(self, cx, y):
        n = to_int(cx.yields.c['n'])
        return [('the words in order', And(n < to_int(cx.self.c['number_of_words']), to_bytes(y) == wa_word(cx.self, n)))]
    def post(self, cx): return [('all of them', to_int(cx.yields.c['n']) == to_int(cx.self.c['number_of_words']))]
    class L0(object):
        def __call__(self, L):
            o = L['self']
            out = [('', And(L.ghost_i() >= 0, L.ghost_i() <= to_int(o.c['number_of_words']), to_int(o.c['byte_array'].c['file'].c['pos']) >= 0))]
            if L.it.target == M + 'WordArray.__iter__':
                out.append(('count', to_int(L.it.yields.c['n']) == L.ghost_i()))
            return out
    loops = {0: L0()}

# IntArray

def a_intarray(it, f=None):
    ctx = it.ctx
    f = f or a_file(ctx)
    wa = a_wordarray(it, f)
    return Obj(ctx, it.cls(M + 'IntArray'), 'ints', file=f, word_array=wa, pad=ctx.bytes('pad'), blank=ctx.bytes('blank'))

def inv_ia(o):
    wa = o.c['word_array']
    w = to_int(wa.c['bytes_per_word'])
    return And(inv_wa(wa), w > 0, w <= 8, to_bytes(o.c['pad']) == rep(i0, 8 - w), to_bytes(o.c['blank']) == rep(z3.IntVal(255), w))

def ia_parts(o):
    wa = o.c['word_array']
    ba = wa.c['byte_array']
    return to_int(ba.c['start']), to_int(wa.c['bytes_per_word']), to_int(wa.c['number_of_words']), ba.c['file']

def ia_val(o, j, old=None):
    s, w, n, f = ia_parts(o)
    return IV((f if old is None else old(f)).c['b'], s, w, j)

def ia_blank(o, j, old=None):
    s, w, n, f = ia_parts(o)
    return W((f if old is None else old(f)).c['b'], s, w, j) == rep(z3.IntVal(255), w)

class IA(Contract):
    props = ('C08',)
    theory = [WORDS]
    def pre(self, cx): return [('well formed', inv_ia(cx.self))]
    def modifies(self, cx): return [(ia_parts(cx.self)[3], 'pos')]
    def idx(self, cx):
        j = to_int(cx.j)
        if not hasattr(cx, 'idx_'):
            # (at a call, one that is known not to be negative is itself)
            cx.idx_ = j if cx.it.cx is not cx and cx.ctx.entails(j >= 0) else If(j < 0, j + ia_parts(cx.self)[2], j)
        return cx.idx_
    def ok(self, cx): return And(0 <= self.idx(cx), self.idx(cx) < ia_parts(cx.self)[2])

@contract
class IntArray_getitem(IA):
    target = M + 'IntArray.__getitem__'
    raises = (IndexError,)
    def setup(self, it): return [a_intarray(it), it.ctx.int('j')], {}
    def result(self, cx): return cx.ctx.int('value')
    def post(self, cx):
        return [('in range', self.ok(cx)), ('the value', to_int(cx.result) == ia_val(cx.self, self.idx(cx))), ('well formed', inv_ia(cx.self))]
    def post_exc(self, cx): return [('only out of range', Not(self.ok(cx))), ('well formed', inv_ia(cx.self))]

@contract
class IntArray_get(IA):
    target = M + 'IntArray.get'
    def setup(self, it):
        d = None if it.ctx.choose([None, None], 'default') == 0 else it.ctx.int('default')
        return [a_intarray(it), it.ctx.int('j'), d], {}
    def result(self, cx):
        if cx.default is None: return cx.ctx.fresh(KOpt(INT), 'value')
        return cx.ctx.int('value')
    def post(self, cx):
        v = self.idx(cx)
        has = And(self.ok(cx), Not(ia_blank(cx.self, v)))
        d = cx.default
        if cx.result is None:
            r = Not(has) if d is None else z3.BoolVal(False)
        else:
            r = And(has, to_int(cx.result) == ia_val(cx.self, v)) if d is None else \
                to_int(cx.result) == If(has, ia_val(cx.self, v), to_int(d))
        return [('the value, or the default for a blank or out of range', r), ('well formed', inv_ia(cx.self))]

@contract
class IntArray_setitem(IA):
    target = M + 'IntArray.__setitem__'
    raises = (IndexError, ValueError, StructError)
    def setup(self, it): return [a_intarray(it), it.ctx.int('j'), it.ctx.int('value')], {}
    def modifies(self, cx): return [(ia_parts(cx.self)[3], 'pos'), (ia_parts(cx.self)[3], 'b')]
    def post(self, cx):
        o = cx.self
        s, w, n, f = ia_parts(o)
        b0 = cx.old(f).c['b']
        q = z3.Int('q')
        new, old = wa_word(o.c['word_array'], q), wa_word(o.c['word_array'], q, cx.old)
        nv, ov = ia_val(o, q), ia_val(o, q, cx.old)
        return [('in range', self.ok(cx)),
                ('the value can be read back', ia_val(o, self.idx(cx)) == to_int(cx.value)),
                ('the word', wa_word(o.c['word_array'], self.idx(cx)) == sub(be8(to_int(cx.value)), 8 - w, w)),
                ('no other word is changed', z3.ForAll([q], Implies(And(0 <= q, q < n, q != self.idx(cx)), new == old), patterns=[new, old])),
                ('no other value is changed', z3.ForAll([q], Implies(And(0 <= q, q < n, q != self.idx(cx)), nv == ov), patterns=[nv, ov])),
                ('the bytes before the array stay', sub(f.c['b'], i0, s) == sub(b0, i0, s)),
                ('the length of the file', blen(f.c['b']) == blen(b0)), ('well formed', inv_ia(o))]
    def post_exc(self, cx):
        s, w, n, f = ia_parts(cx.self)
        v = to_int(cx.value)
        fits = z3.IntVal(0)
        for k in range(9): fits = If(w == k, z3.IntVal(256 ** k), fits)
        out = [('nothing is written', f.c['b'] == cx.old(f).c['b']), ('well formed', inv_ia(cx.self))]
        if cx.exc.cls is IndexError: return out + [('only out of range', Not(self.ok(cx)))]
        return out + [('only for a value that does not fit', Not(And(0 <= v, v < fits)))]

def needed(m):
    """bytes per word for a given maximum_int"""
    return z3.IntVal(8) if m is None else NB_DEF(to_int(m) + 1)

@contract
class IntArray_new(Contract):
    """a new array in a file that ends at its position"""
    target = M + 'IntArray.__init__'
    dead = ('self.file = BytesIO()',)       # without a file, the same happens in one in memory
    props = ('C08',)
    theory = [WORDS]
    inline_only = True
    def setup(self, it):
        m = None if it.ctx.choose([None, None], 'maximum') == 0 else it.ctx.int('max')
        return [Obj(it.ctx, it.cls(M + 'IntArray'), 'ints'), a_file(it.ctx), it.ctx.int('number'), m], {}
    def pre(self, cx):
        f = cx.file
        m = [] if cx.maximum_int is None else [('', And(to_int(cx.maximum_int) >= 0, to_int(cx.maximum_int) + 1 < 2 ** 64))]
        w = needed(cx.maximum_int)
        return m + [('at the end of the file', And(f.c['pos'] >= 0, f.c['pos'] == blen(f.c['b']))), ('', to_int(cx.number_of_ints) >= 0),
                ('it fits in 64 bits', And(mul(w, to_int(cx.number_of_ints)) + 16 < 2 ** 64, to_int(cx.number_of_ints) < 2 ** 64))]
    def modifies(self, cx): return [cx.self, (cx.self, '+'), cx.file]
    def post(self, cx):
        o = cx.self
        f0 = cx.old(cx.file)
        s, w, n, f = ia_parts(o)
        q = z3.Int('q')
        word = wa_word(o.c['word_array'], q)
        return [('well formed', inv_ia(o)), ('in this file', z3.BoolVal(f is cx.file)),
                ('its place', s == f0.c['pos'] + 24), ('the size', n == to_int(cx.number_of_ints)), ('the word size', w == needed(cx.maximum_int)),
                ('all blank', z3.ForAll([q], Implies(And(0 <= q, q < n), word == rep(z3.IntVal(255), w)), patterns=[word])),
                ('the file', f.c['b'] == wr(wr(wr(wr(f0.c['b'], f0.c['pos'], be8(16 + mul(w, n))), f0.c['pos'] + 8, be8(w)), f0.c['pos'] + 16, be8(n)),
                              f0.c['pos'] + 24, rep(z3.IntVal(255), mul(w, n)))),
                ('it ends the file', blen(f.c['b']) == s + mul(w, n))]

def has_ints(b, p, w, n):
    """an IntArray of n words of w bytes is stored at p"""
    return And(0 <= p, p + 24 + mul(w, n) <= blen(b), w > 0, w <= 8, n >= 0, de8(sub(b, p, z3.IntVal(8))) == 16 + mul(w, n),
               de8(sub(b, p + 8, z3.IntVal(8))) == w, de8(sub(b, p + 16, z3.IntVal(8))) == n)

@contract
class IntArray_open(Contract):
    """the array that is stored at the position of the file"""
    target = M + 'IntArray.__init__'
    dead = ('self.file = BytesIO()', 'for step in self.__class__.generate(self.file, number_of_ints, maximum_int):', 'pass')
    extra = True
    props = ('C08',)
    theory = [WORDS]
    inline_only = True
    def setup(self, it):
        it.w, it.n = it.ctx.int('w'), it.ctx.int('n')
        return [Obj(it.ctx, it.cls(M + 'IntArray'), 'ints'), a_file(it.ctx), None, None], {}
    def pre(self, cx):
        f = cx.file
        return [('', has_ints(f.c['b'], f.c['pos'], cx.it.w, cx.it.n))]
    def modifies(self, cx): return [cx.self, (cx.self, '+'), (cx.file, 'pos')]
    def post(self, cx):
        o = cx.self
        s, w, n, f = ia_parts(o)
        return [('well formed', inv_ia(o)), ('in this file', z3.BoolVal(f is cx.file)), ('its place', s == cx.old(f).c['pos'] + 24),
                ('the size', n == cx.it.n), ('the word size', w == cx.it.w)]

@contract
class IntArray_iteritems(IA):
    target = M + 'IntArray.iteritems'
    inline_only = True
    def setup(self, it): return [a_intarray(it)], {}
    def on_yield(self, cx, y):
        j, v = y
        q = z3.Int('q')
        last = to_int(cx.yields.c['last'])
        return [('a value that is set', And(0 <= to_int(j), to_int(j) < ia_parts(cx.self)[2], Not(ia_blank(cx.self, to_int(j))),
                                            to_int(v) == ia_val(cx.self, to_int(j)))),
                ('in order, and none is left out', And(to_int(j) > last, z3.ForAll([q], Implies(And(last < q, q < to_int(j)), ia_blank(cx.self, q)),
                        patterns=[ia_val(cx.self, q), wa_word(cx.self.c['word_array'], q)])))] + self.seen(cx, j)
    def seen(self, cx, j):
        cx.yields.c['last'] = to_int(j)
        return []
    def ghosts(self, cx): return {'last': z3.IntVal(-1)}
    def post(self, cx):
        q = z3.Int('q')
        last = to_int(cx.yields.c['last'])
        return [('none is left out', z3.ForAll([q], Implies(And(last < q, q < ia_parts(cx.self)[2]), ia_blank(cx.self, q)),
                        patterns=[wa_word(cx.self.c['word_array'], q)]))]
    class L0(object):
        def __call__(self, L):
            o = L.it.cx.self
            q = z3.Int('q')
            last = to_int(L.it.yields.c['last'])
            i = L.ghost_i()
            return [('count', And(0 <= i, i <= ia_parts(o)[2], to_int(L.ctx.byname['enumerate'].c['n']) == i, -1 <= last, last < i,
                                  to_int(ia_parts(o)[3].c['pos']) >= 0)),
                    ('blanks', z3.ForAll([q], Implies(And(last < q, q < i), ia_blank(o, q)), patterns=[wa_word(o.c['word_array'], q)]))]
    other_loops = {(M + 'WordArray.__iter__', 0): L0()}
