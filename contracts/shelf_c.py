"""
Contracts of durus/shelf.py: the file format, commits, crash points, repair, lookup.

Spec functions over the content b of a file:
  bnd(b, s, q)     the records from s end exactly at q (each: 8-byte length, then that many bytes)
  big(b, s, q)     and each of them has room for an oid
  tdom, tpos       the oids of these records, and the position of the last record of each oid
  lb(b, s, q)      the transactions from s end exactly at q (each: 8-byte length, then records)
  ldom, lpos       the oids in them, and the position of the last record of each oid
bnd and lb are least fixed points of the STEP axioms; the LEMMAS are proved by induction from
them in lemmas() below (base and step are discharged by z3 on every run).
"""
from pyvc.engine import *
from pyvc.natives import *
from pyvc.prelude import mul, P64, PADDED, OVER
from pyvc.runner import contract
from pyvc.interp import Contract
import contracts.utils_c as U
import contracts.serialize_c as S
from contracts.utils_c import W, IV, WORDS, has_ints, inv_ia, ia_parts, ia_val, ia_blank, a_intarray

M = 'durus.shelf:'
i0, n = z3.IntVal(0), z3.IntVal
AB, AI = z3.ArraySort(Bytes, B), z3.ArraySort(Bytes, I)
bnd = z3.Function('bnd', Bytes, I, I, B)
big = z3.Function('big', Bytes, I, I, B)
tdom = z3.Function('tdom', Bytes, I, I, AB)
tpos = z3.Function('tpos', Bytes, I, I, AI)
lb = z3.Function('lb', Bytes, I, I, B)
lbig = z3.Function('lbig', Bytes, I, I, B)
ldom = z3.Function('ldom', Bytes, I, I, AB)
lpos = z3.Function('lpos', Bytes, I, I, AI)
b_, x_ = z3.Consts('b x', Bytes)
s_, q_, p_, e_ = z3.Ints('s q p e')
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
EMPTY, ZERO = z3.K(Bytes, FALSE), z3.K(Bytes, z3.IntVal(0))
ForAll = z3.ForAll

def len8(b, q): return de8(sub(b, q, n(8)))
def rec_end(b, q): return q + 8 + len8(b, q)
def rec_name(b, q): return sub(b, q + 8, n(8))
def tx_end(b, q): return q + 8 + len8(b, q)
def tx_ok(b, q):
    """a complete transaction starts at q"""
    return And(q + 8 <= blen(b), tx_end(b, q) <= blen(b), bnd(b, q + 8, tx_end(b, q)))
def tx_good(b, q):
    """and there is room for an oid in each of its records"""
    return And(tx_ok(b, q), big(b, q + 8, tx_end(b, q)))
def tx_torn(b, q):
    """what is at q does not have the bytes that its length calls for"""
    return Or(q + 8 > blen(b), tx_end(b, q) > blen(b))

def step_t(b, s, q):
    e = rec_end(b, q)
    return Implies(And(bnd(b, s, q), s <= q, q + 8 <= blen(b)),
        And(bnd(b, s, e), big(b, s, e) == And(big(b, s, q), len8(b, q) >= 8),
            tdom(b, s, e) == z3.Store(tdom(b, s, q), rec_name(b, q), TRUE),
            tpos(b, s, e) == z3.Store(tpos(b, s, q), rec_name(b, q), q)))

def step_l(b, s, q):
    e = tx_end(b, q)
    x = z3.Const('x', Bytes)
    return Implies(And(lb(b, s, q), s <= q, tx_ok(b, q)),
        And(lb(b, s, e), lbig(b, s, e) == And(lbig(b, s, q), big(b, q + 8, e)),
            ForAll([x], ldom(b, s, e)[x] == Or(ldom(b, s, q)[x], tdom(b, q + 8, e)[x]),
                   patterns=[ldom(b, s, e)[x], ldom(b, s, q)[x], tdom(b, q + 8, e)[x]]),
            ForAll([x], lpos(b, s, e)[x] == If(tdom(b, q + 8, e)[x], tpos(b, q + 8, e)[x], lpos(b, s, q)[x]),
                   patterns=[lpos(b, s, e)[x]])))

def base_t(b, s, q): return Implies(q == s, And(bnd(b, s, q), big(b, s, q), tdom(b, s, q) == EMPTY, tpos(b, s, q) == ZERO))
def base_l(b, s, q): return Implies(q == s, And(lb(b, s, q), lbig(b, s, q), ldom(b, s, q) == EMPTY, lpos(b, s, q) == ZERO))
BASE_T = ForAll([b_, s_, q_], base_t(b_, s_, q_), patterns=[bnd(b_, s_, q_)])
BASE_L = ForAll([b_, s_, q_], base_l(b_, s_, q_), patterns=[lb(b_, s_, q_)])
STEP_T = ForAll([b_, s_, q_], step_t(b_, s_, q_), patterns=[z3.MultiPattern(bnd(b_, s_, q_), sub(b_, q_, 8))])
STEP_L = ForAll([b_, s_, q_], step_l(b_, s_, q_), patterns=[z3.MultiPattern(lb(b_, s_, q_), sub(b_, q_, 8))])
# the positions of a chain increase, and nothing is skipped
def next_t(b, s, q, e):
    return Implies(And(bnd(b, s, q), bnd(b, s, e), q < e), And(q + 8 <= blen(b), rec_end(b, q) <= e, Implies(big(b, s, e), And(big(b, s, q), len8(b, q) >= 8))))
def next_l(b, s, q, e):
    return Implies(And(lb(b, s, q), lb(b, s, e), q < e), And(tx_ok(b, q), tx_end(b, q) <= e, Implies(lbig(b, s, e), And(lbig(b, s, q), big(b, q + 8, tx_end(b, q))))))
NEXT_T = ForAll([b_, s_, q_, e_], next_t(b_, s_, q_, e_), patterns=[z3.MultiPattern(bnd(b_, s_, q_), bnd(b_, s_, e_))])
NEXT_L = ForAll([b_, s_, q_, e_], next_l(b_, s_, q_, e_), patterns=[z3.MultiPattern(lb(b_, s_, q_), lb(b_, s_, e_))])
GE = ForAll([b_, s_, q_], Implies(lb(b_, s_, q_), s_ <= q_), patterns=[lb(b_, s_, q_)])
GE_T = ForAll([b_, s_, q_], Implies(bnd(b_, s_, q_), s_ <= q_), patterns=[bnd(b_, s_, q_)])

def keep_t(b, s, q, b2):
    return And(bnd(b2, s, q), big(b2, s, q), tdom(b2, s, q) == tdom(b, s, q), tpos(b2, s, q) == tpos(b, s, q))
def keep_l(b, s, q, b2):
    return And(lb(b2, s, q), lbig(b2, s, q), ldom(b2, s, q) == ldom(b, s, q), lpos(b2, s, q) == lpos(b, s, q))
def apart(b, s, q, p, x):
    return And(0 <= s, s <= q, q <= blen(b), 0 <= p, p <= blen(b), Or(q <= p, p + blen(x) <= s))

# LEMMAS (induction on the chain)
LEM_T_WR = ForAll([b_, s_, q_, p_, x_], Implies(And(bnd(b_, s_, q_), big(b_, s_, q_), apart(b_, s_, q_, p_, x_)),
        keep_t(b_, s_, q_, wr(b_, p_, x_))), patterns=[z3.MultiPattern(bnd(b_, s_, q_), wr(b_, p_, x_))])
LEM_L_WR = ForAll([b_, s_, q_, p_, x_], Implies(And(lb(b_, s_, q_), lbig(b_, s_, q_), apart(b_, s_, q_, p_, x_)),
        keep_l(b_, s_, q_, wr(b_, p_, x_))), patterns=[z3.MultiPattern(lb(b_, s_, q_), wr(b_, p_, x_))])
LEM_L_CUT = ForAll([b_, s_, q_, p_], Implies(And(lb(b_, s_, q_), lbig(b_, s_, q_), 0 <= s_, q_ <= p_, p_ <= blen(b_)),
        keep_l(b_, s_, q_, sub(b_, 0, p_))), patterns=[z3.MultiPattern(lb(b_, s_, q_), sub(b_, 0, p_))])
def rec_at(b, p, lo, hi, name):
    """a record of this oid is at p, within [lo, hi)"""
    return And(lo <= p, p + 16 <= rec_end(b, p), rec_end(b, p) <= hi, rec_name(b, p) == name)
LEM_T_REC = ForAll([b_, s_, q_, x_], Implies(And(bnd(b_, s_, q_), big(b_, s_, q_), 0 <= s_, q_ <= blen(b_), tdom(b_, s_, q_)[x_]),
        And(rec_at(b_, tpos(b_, s_, q_)[x_], s_, q_, x_), blen(x_) == 8)), patterns=[tdom(b_, s_, q_)[x_]])
LEM_L_REC = ForAll([b_, s_, q_, x_], Implies(And(lb(b_, s_, q_), lbig(b_, s_, q_), 0 <= s_, q_ <= blen(b_), ldom(b_, s_, q_)[x_]),
        And(rec_at(b_, lpos(b_, s_, q_)[x_], s_, q_, x_), blen(x_) == 8)), patterns=[ldom(b_, s_, q_)[x_]])

w_, j_ = z3.Ints('w j')
def keep_w(b, s, w, j, p, x):
    """writing beyond a word keeps it"""
    return Implies(And(0 <= s, 0 <= w, 0 <= j, s + mul(j, w) + w <= p, p <= blen(b)), And(W(wr(b, p, x), s, w, j) == W(b, s, w, j), IV(wr(b, p, x), s, w, j) == IV(b, s, w, j)))
KEEP_W = [ForAll([b_, s_, w_, j_, p_, x_], keep_w(b_, s_, w_, j_, p_, x_), patterns=[W(wr(b_, p_, x_), s_, w_, j_)]),
          ForAll([b_, s_, w_, j_, p_, x_], keep_w(b_, s_, w_, j_, p_, x_), patterns=[IV(wr(b_, p_, x_), s_, w_, j_)])]

def keep_cut(b, s, w, j, p):
    """cutting off what follows a word keeps it"""
    return Implies(And(0 <= s, 0 <= w, 0 <= j, s + mul(j, w) + w <= p, p <= blen(b)), And(W(sub(b, 0, p), s, w, j) == W(b, s, w, j), IV(sub(b, 0, p), s, w, j) == IV(b, s, w, j)))
def keep_cut_to(b, s, w, j, p, b0):
    """(an instance, for b0 == sub(b, 0, p))"""
    return Implies(And(0 <= s, 0 <= w, 0 <= j, s + mul(j, w) + w <= p, p <= blen(b)), And(W(b0, s, w, j) == W(b, s, w, j), IV(b0, s, w, j) == IV(b, s, w, j)))
KEEP_CUT = [ForAll([b_, s_, w_, j_, p_], keep_cut(b_, s_, w_, j_, p_), patterns=[W(sub(b_, 0, p_), s_, w_, j_)]),
            ForAll([b_, s_, w_, j_, p_], keep_cut(b_, s_, w_, j_, p_), patterns=[IV(sub(b_, 0, p_), s_, w_, j_)])]
LEM_T_CUT = ForAll([b_, s_, q_, p_], Implies(And(bnd(b_, s_, q_), big(b_, s_, q_), 0 <= s_, q_ <= p_, p_ <= blen(b_)),
        keep_t(b_, s_, q_, sub(b_, 0, p_))), patterns=[z3.MultiPattern(bnd(b_, s_, q_), sub(b_, 0, p_))])

DEFS = [BASE_T, BASE_L, STEP_T, STEP_L, NEXT_T, NEXT_L, GE, GE_T]
LEMMAS = [LEM_T_WR, LEM_L_WR, LEM_L_CUT, LEM_T_REC, LEM_L_REC]
SHELF = DEFS + LEMMAS + KEEP_W


LEMMA_PROPS = ('C02', 'C03')
def lemmas():
    """[(name, hypotheses, goal)] for the base and the step of each lemma's induction"""
    b, x, name = z3.Consts('B X NAME', Bytes)
    s, q, p = z3.Ints('S Q P')
    e, te = rec_end(b, q), tx_end(b, q)
    out = []
    w8, j = z3.Ints('W8 J')
    out.append(('KEEP_W', list(WORDS), keep_w(b, s, w8, j, p, x)))
    out.append(('KEEP_CUT', list(WORDS), keep_cut(b, s, w8, j, p)))
    # by induction on the chain: GE; by induction on e, for the e with a predecessor q in the chain: NEXT
    f = z3.Int('F')
    out.append(('GE_T base', [], s <= s))
    out.append(('GE_T step', [bnd(b, s, q), s <= q, q + 8 <= blen(b)], s <= e))
    out.append(('GE_L step', [lb(b, s, q), s <= q, tx_ok(b, q)], s <= te))
    out.append(('NEXT_T base', [GE_T], next_t(b, s, f, s)))
    IH = ForAll([q_, e_], Implies(e_ < e, next_t(b, s, q_, e_)), patterns=[z3.MultiPattern(bnd(b, s, q_), bnd(b, s, e_))])
    out.append(('NEXT_T step', [GE_T, IH, bnd(b, s, q), s <= q, q + 8 <= blen(b), step_t(b, s, q), bnd(b, s, f), f < e], next_t(b, s, f, e)))
    out.append(('NEXT_L base', [GE], next_l(b, s, f, s)))
    IH = ForAll([q_, e_], Implies(e_ < te, next_l(b, s, q_, e_)), patterns=[z3.MultiPattern(lb(b, s, q_), lb(b, s, e_))])
    out.append(('NEXT_L step', [GE, IH, lb(b, s, q), s <= q, tx_ok(b, q), step_l(b, s, q), lb(b, s, f), f < te], next_l(b, s, f, te)))
    # what Shelf.store leaves at a crash and what Shelf.__init__ with repair makes of it: the state before or the state after
    reopened = [lb(b, s, q), lbig(b, s, q), lb(b, s, f), q <= blen(b), f <= blen(b), Or(f == blen(b), Not(tx_good(b, f))), NEXT_L, GE]
    out.append(('REOPEN torn', reopened + [tx_torn(b, q)], f == q))
    out.append(('REOPEN whole', reopened + [tx_good(b, q), tx_end(b, q) == blen(b), step_l(b, s, q)], f == blen(b)))
    w = wr(b, p, x)
    def t_wr(q): return Implies(apart(b, s, q, p, x), keep_t(b, s, q, w))
    out.append(('T_WR base', [base_t(b, s, s), base_t(w, s, s)], t_wr(s)))
    out.append(('T_WR step', DEFS + [bnd(b, s, q), s <= q, q + 8 <= blen(b), big(b, s, e), big(b, s, q), len8(b, q) >= 8, t_wr(q),
                step_t(b, s, q), step_t(w, s, q)], t_wr(e)))
    def t_rec(q): return Implies(And(0 <= s, q <= blen(b), tdom(b, s, q)[name]), And(rec_at(b, tpos(b, s, q)[name], s, q, name), blen(name) == 8))
    out.append(('T_REC base', [base_t(b, s, s)], t_rec(s)))
    out.append(('T_REC step', [BASE_T, bnd(b, s, q), s <= q, q + 8 <= blen(b), len8(b, q) >= 8, t_rec(q), step_t(b, s, q)], t_rec(e)))
    TL = [LEM_T_WR, LEM_T_REC]
    def l_wr(q): return Implies(apart(b, s, q, p, x), keep_l(b, s, q, w))
    hyp = [lb(b, s, q), s <= q, tx_ok(b, q), lbig(b, s, te), lbig(b, s, q), big(b, q + 8, te), step_l(b, s, q)]
    out.append(('L_WR base', [base_l(b, s, s), base_l(w, s, s)], l_wr(s)))
    out.append(('L_WR step', TL + hyp + [l_wr(q), step_l(w, s, q)], l_wr(te)))
    c = sub(b, i0, p)
    def l_cut(q): return Implies(And(0 <= s, q <= p, p <= blen(b)), keep_l(b, s, q, c))
    # truncation: as writing nothing new; the records are those of the longer file
    def t_cut(s, q): return Implies(And(0 <= s, q <= p, p <= blen(b)), keep_t(b, s, q, c))
    out.append(('T_CUT base', [base_t(b, s, s), base_t(c, s, s)], t_cut(s, s)))
    out.append(('T_CUT step', DEFS + [bnd(b, s, q), s <= q, q + 8 <= blen(b), big(b, s, e), big(b, s, q), len8(b, q) >= 8, t_cut(s, q),
                step_t(b, s, q), step_t(c, s, q)], t_cut(s, e)))
    LEM_T_CUT = ForAll([s_, q_], Implies(And(bnd(b, s_, q_), big(b, s_, q_)), t_cut(s_, q_)), patterns=[bnd(b, s_, q_)])
    out.append(('L_CUT base', [base_l(b, s, s), base_l(c, s, s)], l_cut(s)))
    out.append(('L_CUT step', [LEM_T_CUT] + hyp + [l_cut(q), step_l(c, s, q)], l_cut(te)))
    def l_rec(q): return Implies(And(0 <= s, q <= blen(b), ldom(b, s, q)[name]), And(rec_at(b, lpos(b, s, q)[name], s, q, name), blen(name) == 8))
    out.append(('L_REC base', [base_l(b, s, s)], l_rec(s)))
    out.append(('L_REC step', TL + hyp + [l_rec(q), len8(b, q) >= 0], l_rec(te)))
    return out


# ------------------------------------------------------------------ objects

class DFile(FileV):
    """A durus.file.File by the contracts of file_c.py: the content and the position; obtain_lock may be refused, and a write
    may fail after any part of it."""
    def __init__(self, ctx, name='file', b=None, pos=None, fails=True, ro=False):
        FileV.__init__(self, ctx, name, b=ctx.bytes(name + '_b') if b is None else b, pos=ctx.int(name + '_pos', lo=0) if pos is None else pos, fails=fails)
        self.ro = ro
        self.fname = TextV(ctx.bytes(name + '_name'))
    def m_obtain_lock(self, it):
        if self.ro: it.raise_(AssertionError)
        if self.fails and it.ctx.choose([None, None], 'lock') == 1: it.raise_(OSError)
    def m_release_lock(self, it): return None
    def m_seek_end(self, it): self.c['pos'] = blen(self.c['b'])
    def m_seek(self, it, n, whence=0): FileV.m_seek(self, it, n, whence)
    def m_get_name(self, it): return self.fname
    def m_is_readonly(self, it): return self.ro
    def m_write(self, it, s):
        if self.ro: it.raise_(AssertionError)
        FileV.m_write(self, it, s)
    def m_truncate(self, it):
        if self.ro: it.raise_(AssertionError)
        FileV.m_truncate(self, it)
    def m_fsync(self, it): self.c['synced'] = self.c['b']

def a_File(it, name='File', fails=False): return DFile(it.ctx, name, fails=fails)
def raw(f): return f

@contract
class read_transaction_offsets(Contract):
    target = M + 'read_transaction_offsets'
    props = ('C03', 'C21', 'C02')
    theory = [DEFS]
    raises = ('durus.utils:ShortRead',)
    def setup(self, it): return [a_File(it), it.ctx.fresh(BOOL, 'repair')], {}
    def pre(self, cx):
        f = raw(cx.file)
        return [('the position', And(f.c['pos'] >= 0, f.c['pos'] <= blen(f.c['b'])))]
    def modifies(self, cx): return [(raw(cx.file), 'b'), (raw(cx.file), 'pos')]
    def result(self, cx):
        if cx.ctx.choose([None, None], 'a transaction') == 1: return None
        d = DictV(cx.ctx, 'offsets', BYTES, INT, cx.ctx.fresh_const(AB, 'dom'), [cx.ctx.fresh_const(AI, 'pos')])
        return d
    def post(self, cx):
        f, o = raw(cx.file), cx.old(raw(cx.file))
        b, s = o.c['b'], to_int(o.c['pos'])
        e = tx_end(b, s)
        b1, p1 = f.c['b'], to_int(f.c['pos'])
        if cx.result is None:
            return [('None at the end, or after the repair of what is no transaction',
                     Or(And(s == blen(b), b1 == b), And(to_bool(cx.repair), s < blen(b), Not(tx_good(b, s)), b1 == sub(b, i0, s)))),
                    ('the position', And(p1 >= 0, p1 <= blen(b)))]
        d = cx.result
        x = z3.Const('x', Bytes)
        if d.c['dom'] is None:
            same = tdom(b, s + 8, e) == EMPTY
        else:
            v = d.vals()[0]
            same = And(d.c['dom'] == tdom(b, s + 8, e),
                       ForAll([x], Implies(tdom(b, s + 8, e)[x], v[x] == tpos(b, s + 8, e)[x]), patterns=[v[x]]))
        return [('a complete transaction', tx_ok(b, s)), ('the offset of each oid', same), ('to its end', p1 == e), ('nothing is written', b1 == b)]
    def post_exc(self, cx):
        f, o = raw(cx.file), cx.old(raw(cx.file))
        b, s = o.c['b'], to_int(o.c['pos'])
        return [('only without repair, for what is no transaction', And(Not(to_bool(cx.repair)), s < blen(b), Not(tx_good(b, s)))),
                ('nothing is written', f.c['b'] == b)]
    class L0(object):
        def __call__(self, L):
            f = raw(L['file'])
            b = f.c['b']
            s = to_int(L.old(f).c['pos'])
            d = L['transaction_offsets']
            p = to_int(f.c['pos'])
            x = z3.Const('x', Bytes)
            if d.c['dom'] is None:
                same = tdom(b, s + 8, p) == EMPTY
            else:
                same = And(d.c['dom'] == tdom(b, s + 8, p),
                           ForAll([x], Implies(tdom(b, s + 8, p)[x], d.vals()[0][x] == tpos(b, s + 8, p)[x]), patterns=[d.vals()[0][x]]))
            return [('the file', b == L.old(f).c['b']), ('a record starts here', And(s + 8 <= p, bnd(b, s + 8, p), Implies(tx_ok(b, s), p <= tx_end(b, s)))),
                    ('the records before', same)]
    loops = {0: L0()}


# ------------------------------------------------------------------ OffsetMap

def an_offset_map(it, f=None):
    f = f or DFile(it.ctx, fails=False)
    return Obj(it.ctx, it.cls(M + 'OffsetMap'), 'map', start=it.ctx.int('start'), int_array=a_intarray(it, f))

def om_parts(o):
    """where the map starts, where its words start, their size, their number, the file"""
    return (to_int(o.c['start']),) + ia_parts(o.c['int_array'])

def fits(w, v):
    """a word of w bytes can hold v, and v is not the blank word"""
    m = z3.IntVal(0)
    for k in range(9): m = If(w == k, z3.IntVal(256 ** k - 1), m)
    return And(0 <= v, v < m)

def blank_val(w):
    m = z3.IntVal(0)
    for k in range(9): m = If(w == k, z3.IntVal(256 ** k - 1), m)
    return m

def inv_om(o):
    s, s1, w, k, f = om_parts(o)
    return And(inv_ia(o.c['int_array']), s >= 16, s1 == s + 24, fits(w, s + k))

def om_blank(o, j, old=None): return ia_blank(o.c['int_array'], j, old)
def om_val(o, j, old=None): return ia_val(o.c['int_array'], j, old)
def om_word(o, j, old=None):
    s, s1, w, k, f = om_parts(o)
    return W((f if old is None else old(f)).c['b'], s1, w, j)
def om_has(o, j, old=None):
    """an offset is stored for j"""
    s, s1, w, k, f = om_parts(o)
    return And(0 <= j, j < k, Not(om_blank(o, j, old)), om_val(o, j, old) < s)
HOLE = z3.Function('hole', Bytes, I, I, I, I, I, B)
k_, t_ = z3.Ints('k t')
HOLES = [ForAll([b_, t_, w_, k_, s_, q_], HOLE(b_, t_, w_, k_, s_, q_) == And(0 <= q_, q_ < k_, Or(W(b_, t_, w_, q_) == rep(n(255), w_), IV(b_, t_, w_, q_) >= s_)),
                patterns=[HOLE(b_, t_, w_, k_, s_, q_)])]
def hole(o, j, old=None):
    s, s1, w, k, f = om_parts(o)
    return HOLE((f if old is None else old(f)).c['b'], s1, w, k, s, j)
class OM(Contract):
    props = ('C02', 'C08')
    theory = [WORDS, PADDED, HOLES]
    def setup(self, it): return [an_offset_map(it)] + self.more(it), {}
    def more(self, it): return []
    def pre(self, cx): return [('well formed', inv_om(cx.self))] + self.requires(cx)
    def requires(self, cx): return []
    def file(self, cx): return om_parts(cx.self)[4]
    def modifies(self, cx): return [(self.file(cx), 'pos')]
    def post(self, cx): return [('well formed', inv_om(cx.self))] + self.ensures(cx)
    def ensures(self, cx): return []
    def post_exc(self, cx): return [('well formed', inv_om(cx.self))] + self.ensures_exc(cx)
    def ensures_exc(self, cx): return []

@contract
class OM_get(OM):
    target = M + 'OffsetMap.get'
    def more(self, it): return [it.ctx.int('j', lo=0), None if it.ctx.choose([None, None], 'default') == 0 else it.ctx.int('default')]
    def requires(self, cx): return [('', to_int(cx.j) >= 0)]
    def result(self, cx):
        if cx.default is None: return None if cx.ctx.choose([None, None], 'offset') == 0 else cx.ctx.int('offset')
        return cx.ctx.int('offset')
    def ensures(self, cx):
        o, j, d, r = cx.self, to_int(cx.j), cx.default, cx.result
        if r is None: x = Not(om_has(o, j)) if d is None else z3.BoolVal(False)
        elif d is None: x = And(om_has(o, j), to_int(r) == om_val(o, j))
        else: x = to_int(r) == If(om_has(o, j), om_val(o, j), to_int(d))
        return [('the offset, or the default', x)]

@contract
class OM_getitem(OM):
    target = M + 'OffsetMap.__getitem__'
    raises = (IndexError,)
    def more(self, it): return [it.ctx.int('j', lo=0)]
    def requires(self, cx): return [('', to_int(cx.j) >= 0)]
    def result(self, cx): return cx.ctx.int('offset')
    def ensures(self, cx): return [('the offset', And(om_has(cx.self, to_int(cx.j)), to_int(cx.result) == om_val(cx.self, to_int(cx.j))))]
    def ensures_exc(self, cx): return [('only where there is none', Not(om_has(cx.self, to_int(cx.j))))]

@contract
class OM_setitem(OM):
    target = M + 'OffsetMap.__setitem__'
    raises = (IndexError, AssertionError)
    asserts_raise = True
    def more(self, it): return [it.ctx.int('j', lo=0), it.ctx.int('value', lo=0)]
    def requires(self, cx):
        s, s1, w, k, f = om_parts(cx.self)
        return [('', to_int(cx.j) >= 0), ('an offset before the map', And(to_int(cx.value) >= 0, to_int(cx.value) < s))]
    def modifies(self, cx): return [(self.file(cx), 'pos'), (self.file(cx), 'b')]
    def ensures(self, cx):
        o, j = cx.self, to_int(cx.j)
        s, s1, w, k, f = om_parts(o)
        q = z3.Int('q')
        b0 = cx.old(f).c['b']
        return [('there was none', And(0 <= j, j < k, Not(om_has(o, j, cx.old)))), ('it is stored', And(om_has(o, j), om_val(o, j) == to_int(cx.value))),
                ('nothing else is changed', ForAll([q], Implies(And(0 <= q, q < k, q != j), om_word(o, q) == om_word(o, q, cx.old)), patterns=[om_word(o, q)])),
                ('the bytes before the array stay', sub(f.c['b'], i0, s1) == sub(b0, i0, s1)), ('the length of the file', blen(f.c['b']) == blen(b0))]
    def ensures_exc(self, cx):
        o, j = cx.self, to_int(cx.j)
        s, s1, w, k, f = om_parts(o)
        return [('only where there is one, or beyond the end', Or(om_has(o, j), j >= k)), ('nothing is written', f.c['b'] == cx.old(f).c['b'])]

@contract
class OM_size(OM):
    target = M + 'OffsetMap.get_array_size'
    inline_only = True
    def ensures(self, cx): return [('', to_int(cx.result) == om_parts(cx.self)[3])]

class OMIter(OM):
    def position(self, y): return to_int(y)
    def more_of(self, cx, y): return z3.BoolVal(True)
    def ghosts(self, cx): return {'last': z3.IntVal(-1)}
    def on_yield(self, cx, y):
        o, j, q = cx.self, self.position(y), z3.Int('q')
        last = to_int(cx.yields.c['last'])
        out = [('one that has an offset', And(om_has(o, j), self.more_of(cx, y))),
               ('in order, and none is left out', And(j > last, ForAll([q], Implies(And(last < q, q < j), Not(om_has(o, q))), patterns=[om_word(o, q)])))]
        cx.yields.c['last'] = j
        return out
    def ensures(self, cx):
        o, q, last = cx.self, z3.Int('q'), to_int(cx.yields.c['last'])
        return [('none is left out', ForAll([q], Implies(And(last < q, q < om_parts(o)[3]), Not(om_has(o, q))), patterns=[om_word(o, q)]))]
    class L0(object):
        def __call__(self, L):
            o, q, i = L.it.cx.self, z3.Int('q'), L.ghost_i()
            last = to_int(L.it.yields.c['last'])
            return [('count', And(0 <= i, i <= om_parts(o)[3], to_int(L.ctx.byname['enumerate'].c['n']) == i, -1 <= last, last < i,
                                  to_int(om_parts(o)[4].c['pos']) >= 0)),
                    ('none is left out', ForAll([q], Implies(And(last < q, q < i), Not(om_has(o, q))), patterns=[om_word(o, q)]))]
    other_loops = {(U.M + 'WordArray.__iter__', 0): L0()}

@contract
class OM_iteritems(OMIter):
    target = M + 'OffsetMap.iteritems'
    inline_only = True
    def position(self, y): return to_int(y[0])
    def more_of(self, cx, y): return to_int(y[1]) == om_val(cx.self, to_int(y[0]))

@contract
class OM_iter(OMIter):
    target = M + 'OffsetMap.__iter__'
    inline_only = True

NXT = z3.Function('nxt', I, I, I)
v_ = z3.Int('v')
HOLES.append(ForAll([v_, s_], NXT(v_, s_) == v_ - s_, patterns=[NXT(v_, s_)]))
def lk(o, q, old=None): return NXT(om_val(o, q, old), om_parts(o)[0])
def linked(o, old=None):
    """the holes are linked: each to the next lower one, the lowest one to the last word, which is a hole"""
    s, s1, w, k, f = om_parts(o)
    return And(Or(k == 0, hole(o, k - 1, old)), links(o, k, old))
def links(o, i, old=None):
    q, p = z3.Ints('q p')
    s, s1, w, k, f = om_parts(o)
    l = lk(o, q, old)
    return And(ForAll([q], Implies(And(hole(o, q, old), q < i), And(0 <= l, l < k, Or(l < q, l == k - 1))), patterns=[hole(o, q, old), om_val(o, q, old)]),
               ForAll([q], Implies(And(hole(o, q, old), q < i), hole(o, l, old)), patterns=[hole(o, l, old)]),
               ForAll([q, p], Implies(And(hole(o, q, old), q < i, hole(o, p, old), p < q), And(p <= l, l < q)), patterns=[z3.MultiPattern(hole(o, q, old), hole(o, p, old)), z3.MultiPattern(om_val(o, q, old), om_val(o, p, old))]))
def om_kept(o, old):
    """the same offsets as before"""
    q = z3.Int('q')
    return And(ForAll([q], And(om_has(o, q) == om_has(o, q, old), Implies(om_has(o, q), om_word(o, q) == om_word(o, q, old))), patterns=[om_word(o, q), om_val(o, q)]),
               ForAll([q], hole(o, q) == hole(o, q, old), patterns=[hole(o, q), hole(o, q, old)]))

@contract
class OM_stitch(OM):
    target = M + 'OffsetMap.gen_stitch'
    timeout, cost = 20000, 10
    def requires(self, cx):
        s, s1, w, k, f = om_parts(cx.self)
        return [('the last word is a hole', Or(k == 0, hole(cx.self, k - 1)))]
    def modifies(self, cx): return [(self.file(cx), 'pos'), (self.file(cx), 'b')]
    def ensures(self, cx):
        o = cx.self
        s, s1, w, k, f = om_parts(o)
        b0 = cx.old(f).c['b']
        if cx.it.cx is not cx: return []
        return [('the holes are linked', linked(o)), ('the same offsets', om_kept(o, cx.old)),
                ('the bytes before the array stay', sub(f.c['b'], i0, s1) == sub(b0, i0, s1)), ('the length of the file', blen(f.c['b']) == blen(b0))]
    class L0(object):
        def __call__(self, L):
            o, q, p = L['self'], z3.Int('q'), z3.Int('p')
            s, s1, w, k, f = om_parts(o)
            b0 = L.old(f).c['b']
            i, last = L.ghost_i(), to_int(L['last_index'])
            return [('well formed', And(inv_om(o), 0 <= i, i <= k)), ('the same offsets', om_kept(o, L.old)),
                    ('those to come', ForAll([q], Implies(And(i <= q, q < k), om_word(o, q) == om_word(o, q, L.old)), patterns=[om_word(o, q)])),
                    ('the last hole', And(Or(last == k - 1, And(0 <= last, last < i)), Or(k == 0, hole(o, last)))),
                    ('no hole in between', ForAll([p], Implies(And(hole(o, p), p < i), And(p <= last, last < i)), patterns=[hole(o, p)])),
                    ('links', links(o, i)),
                    ('the rest', And(sub(f.c['b'], i0, s1) == sub(b0, i0, s1), blen(f.c['b']) == blen(b0)))]
    loops = {0: L0()}

@contract
class OM_holes(OM):
    target = M + 'OffsetMap.gen_holes'
    inline_only = True
    def requires(self, cx): return [('the holes are linked', linked(cx.self))]
    def ghosts(self, cx): return {'last': om_parts(cx.self)[3], 'done': z3.IntVal(0)}
    def on_yield(self, cx, y):
        o, j, p = cx.self, to_int(y), z3.Int('p')
        k = om_parts(o)[3]
        g = cx.yields.c
        last = to_int(g['last'])
        cx.ctx.assume(lk(o, j) == om_val(o, j) - om_parts(o)[0])
        out = [('a hole', hole(o, j)), ('not one that was there before', And(to_int(g['done']) == 0, Or(j < last, j == k - 1))),
               ('none is left out', ForAll([p], Implies(And(hole(o, p), p < last, p != k - 1), p <= j), patterns=[hole(o, p)])),
               ('until the last one', ForAll([p], Implies(And(hole(o, p), p < last, p != k - 1), j < last), patterns=[hole(o, p)]))]
        g['done'] = If(j == k - 1, z3.IntVal(1), to_int(g['done']))
        g['last'] = j
        return out
    def ensures(self, cx):
        g = cx.yields.c
        return [('the last one is the last word', Or(om_parts(cx.self)[3] == 0, to_int(g['done']) == 1))]
    class L0(object):
        def __call__(self, L):
            o, g = L.it.cx.self, L.it.yields.c
            k = om_parts(o)[3]
            j, last = to_int(L['j']), to_int(g['last'])
            return [('', And(inv_om(o), to_int(g['done']) == 0, k > 0, hole(o, j), hole(o, lk(o, j)), to_int(L['last_index']) == k - 1, Or(And(j == k - 1, last == k), And(j < k - 1, last == j))))]
    loops = {0: L0()}


# ------------------------------------------------------------------ Shelf

MAXLEN = 2 ** 63        # no file is that long
ABY = z3.ArraySort(Bytes, Bytes)
AIB = z3.ArraySort(I, Bytes)
sdom = z3.Function('sdom', AIB, I, AB)         # the names in the first i items of a sequence
sval = z3.Function('sval', AIB, AIB, I, ABY)   # the last value of each of them
def seq_step(A, V, i):
    return And(sdom(A, n(0)) == EMPTY, Implies(i >= 0, And(sdom(A, i + 1) == z3.Store(sdom(A, i), A[i], TRUE), sval(A, V, i + 1) == z3.Store(sval(A, V, i), A[i], V[i]))))

PREFIX = b'SHELF-1\n'
def a_shelf(it, fails=True, ro=False, name='shelf'):
    ctx = it.ctx
    f = DFile(ctx, name + '_file', fails=fails, ro=ro)
    om = an_offset_map(it, f)
    mi = DictV(ctx, name + '_index', BYTES, INT, ctx.fresh_const(AB, 'mi'), [ctx.fresh_const(AI, 'mipos')])
    return Obj(ctx, it.cls(M + 'Shelf'), name, file=f, offset_map=om, memory_index=mi, unused_name_generator=None, **{'#end': ctx.int('end')})

def om_end(om):
    s, s1, w, k, f = om_parts(om)
    return s1 + mul(w, k)
def om_pos(om): return to_int(om.c['start'])
def mi_parts(sh):
    d = sh.c['memory_index']
    if d.c['dom'] is None: return EMPTY, ZERO
    return d.c['dom'], d.vals()[0]

def mi_was(sh, old):
    d = sh.c['memory_index']        # (the same dict throughout)
    o = old(d)
    if o.c['dom'] is None: return EMPTY, ZERO
    return o.c['dom'], o.c['v0']

def head_ok(b, s):
    """the prefix and the initial transaction, up to s, each record with room for an oid"""
    return And(sub(b, i0, n(8)) == to_bytes(PREFIX), len8(b, n(8)) == s - 16, bnd(b, n(16), s), big(b, n(16), s), s >= 16)
def map_ok(om, b):
    """the map has the position of each oid of the initial transaction, and no others"""
    s, s1, w, k, f = om_parts(om)
    q, x = z3.Int('q'), z3.Const('x', Bytes)
    return And(ForAll([q], Implies(om_has(om, q), And(tdom(b, n(16), s)[be8(q)], tpos(b, n(16), s)[be8(q)] == om_val(om, q))), patterns=[om_val(om, q)]),
               ForAll([x], Implies(tdom(b, n(16), s)[x], And(om_has(om, de8(x)), blen(x) == 8)), patterns=[tdom(b, n(16), s)[x]]))
def was_base_ok(sh, b):
    f = sh.c['file']
    now = f.c['b']
    f.c['b'] = b
    try: return base_ok(sh)
    finally: f.c['b'] = now
def base_ok(sh):
    om, b = sh.c['offset_map'], sh.c['file'].c['b']
    s, s1, w, k, f = om_parts(om)
    return And(inv_om(om), head_ok(b, s), map_ok(om, b), om_end(om) <= blen(b), k < 2 ** 64)
def tail_ok(sh, b, e):
    a = om_end(sh.c['offset_map'])
    x = z3.Const('x', Bytes)
    dom, pos = mi_parts(sh)
    return And(lb(b, a, e), lbig(b, a, e), dom == ldom(b, a, e), ForAll([x], Implies(dom[x], pos[x] == lpos(b, a, e)[x]), patterns=[pos[x]]))
def inv_shelf(sh):
    """#end (ghost): where the transactions that the shelf knows end"""
    b, e = sh.c['file'].c['b'], to_int(sh.c['#end'])
    return [('base', base_ok(sh)), ('transactions', And(tail_ok(sh, b, e), om_end(sh.c['offset_map']) <= e, e <= blen(b)))]
def to_end(sh): return to_int(sh.c['#end']) == blen(sh.c['file'].c['b'])
def inv_shelf_(sh): return And(*[g for _, g in inv_shelf(sh)])

def has_name(sh, x, old=None):
    """whether the shelf has a value for x"""
    dom, pos = mi_parts(sh if old is None else old(sh))
    return Or(dom[x], om_has(sh.c['offset_map'], de8(x), old))
def pos_of(sh, x):
    dom, pos = mi_parts(sh)
    return If(dom[x], pos[x], om_val(sh.c['offset_map'], de8(x)))
def rec_value(b, p): return sub(b, p + 16, len8(b, p) - 8)

class SH(Contract):
    props = ('C02',)
    theory = [WORDS, PADDED, SHELF]
    timeout = 20000
    fails = False
    def setup(self, it): return [a_shelf(it, self.fails)] + self.more(it), {}
    def more(self, it): return []
    def pre(self, cx): return inv_shelf(cx.self) + self.requires(cx)
    def requires(self, cx): return []
    def modifies(self, cx): return [(cx.self.c['file'], 'pos')]
    def ensures(self, cx): return []
    def ensures_exc(self, cx): return []
    def post(self, cx): return inv_shelf(cx.self) + self.ensures(cx)
    def post_exc(self, cx): return inv_shelf(cx.self) + self.ensures_exc(cx)

@contract
class Shelf_get_position(SH):
    target = M + 'Shelf.get_position'
    raises = (ValueError,)
    def more(self, it): return [it.ctx.bytes('name')]
    def result(self, cx): return None if cx.ctx.choose([None, None], 'position') == 0 else cx.ctx.int('position')
    def ensures(self, cx):
        sh, x, r = cx.self, to_bytes(cx.a['name']), cx.result
        f, fo = sh.c['file'], cx.old(sh.c['file'])
        out = [('8 bytes', blen(x) == 8), ('the position of the file is kept', to_int(f.c['pos']) == to_int(fo.c['pos']))]
        if r is None: return out + [('None if there is no value', Not(has_name(sh, x)))]
        return out + [('the position of the last record of that name', And(has_name(sh, x), to_int(r) == pos_of(sh, x))),
                      ('it is in the file', rec_at(f.c['b'], to_int(r), n(16), blen(f.c['b']), x))]
    def ensures_exc(self, cx): return [('not 8 bytes', blen(to_bytes(cx.a['name'])) != 8)]

@contract
class Shelf_contains(SH):
    target = M + 'Shelf.__contains__'
    raises = (ValueError,)
    def more(self, it): return [it.ctx.bytes('name')]
    def result(self, cx): return cx.ctx.fresh(BOOL, 'has')
    def ensures(self, cx): return [('', to_bool(cx.result) == has_name(cx.self, to_bytes(cx.a['name']))), ('8 bytes', blen(to_bytes(cx.a['name'])) == 8)]
    def ensures_exc(self, cx): return [('not 8 bytes', blen(to_bytes(cx.a['name'])) != 8)]

@contract
class Shelf_get_item(SH):
    target = M + 'Shelf.get_item_at_position'
    def more(self, it): return [it.ctx.int('position')]
    def requires(self, cx):
        b, p = cx.self.c['file'].c['b'], to_int(cx.position)
        return [('a record is there', rec_at(b, p, n(16), blen(b), rec_name(b, p)))]
    def result(self, cx): return (cx.ctx.bytes('item_name'), cx.ctx.bytes('item_value'))
    def ensures(self, cx):
        b, p = cx.self.c['file'].c['b'], to_int(cx.position)
        return [('its name', to_bytes(cx.result[0]) == rec_name(b, p)), ('its value', to_bytes(cx.result[1]) == rec_value(b, p))]

@contract
class Shelf_get_value(SH):
    target = M + 'Shelf.get_value'
    raises = (ValueError,)
    def more(self, it): return [it.ctx.bytes('name')]
    def result(self, cx): return None if cx.ctx.choose([None, None], 'value') == 0 else cx.ctx.bytes('value')
    def ensures(self, cx):
        sh, x, r = cx.self, to_bytes(cx.a['name']), cx.result
        if r is None: return [('None if there is none', Not(has_name(sh, x)))]
        return [('the value of the last record of that name', And(has_name(sh, x), to_bytes(r) == rec_value(sh.c['file'].c['b'], pos_of(sh, x))))]
    def ensures_exc(self, cx): return [('not 8 bytes', blen(to_bytes(cx.a['name'])) != 8)]

def a_sequence(it):
    """the names and values to store"""
    A, V = it.ctx.fresh_const(AIB, 'names'), it.ctx.fresh_const(AIB, 'values')
    return ListV(it.ctx, 'sequence', n=it.ctx.int('n_seq', lo=0), arrs=[A, V], ek=KTuple(BYTES, BYTES))

def stored(b, s, e, A, V, i):
    """the records from s to e are these items"""
    x = z3.Const('x', Bytes)
    d, p = tdom(b, s, e), tpos(b, s, e)
    return And(bnd(b, s, e), big(b, s, e), d == sdom(A, i), ForAll([x], Implies(d[x], rec_value(b, p[x]) == sval(A, V, i)[x]), patterns=[p[x]]))

@contract
class Shelf_store(SH):
    """C02: all of the items are stored, or nothing is.  C03: at each crash point what follows the complete transactions is torn
    (so that it is not taken for a transaction), or is all of this one.  C04: an error leaves the file as it was."""
    target = M + 'Shelf.store'
    props = ('C02', 'C03', 'C04', 'C01')
    fails = True
    cost = 20
    timeout, deadline = 30000, 600
    inline = ('durus.utils:write',)
    theory = SH.theory + [OVER]
    raises = (OSError, ValueError, StructError)
    assumes = ('a file has less than 2**63 bytes', 'truncating a file to an earlier length does not fail')
    def more(self, it): return [a_sequence(it)]
    def requires(self, cx):
        f = cx.self.c['file']
        g = cx.name_value_sequence
        if isinstance(g, DictIter): g = cx.a['name_value_sequence'] = dict_list(cx.it, g)      # (at a call)
        if not isinstance(g, ListV) or g.concrete(): raise Unsupported('store(%r)' % (g,))
        cx.it.stored = g
        A, V = g.arrs()
        k = cx.name_value_sequence.length()
        b0 = f.c['b']
        start = blen(b0)
        def crash(it, f, p, s):
            c = it.ctx.int('crash', lo=0)
            it.ctx.assume(c <= blen(s))
            b = wr(f.c['b'], p, sub(s, n(0), c))
            it.ctx.assume(blen(b) < MAXLEN)
            it.ctx.assume(de8(sub(b, start, n(8))) >= 0)
            a = om_end(cx.self.c['offset_map'])
            it.ctx.prove(keep_l(b0, a, start, b), 'a crash here leaves the complete transactions')
            it.ctx.prove(And(sub(b, n(0), start) == b0, Or(tx_torn(b, start), And(tx_ok(b, start), tx_end(b, start) == blen(b), stored(b, start + 8, blen(b), A, V, to_int(k))))),
                         'a crash here leaves the transactions before, and what is torn or all of this one')
        if cx.it.cx is cx: f.on_write = crash
        return [('nothing follows the transactions', to_end(cx.self))]
    def modifies(self, cx):
        f = cx.self.c['file']
        return [(f, 'pos'), (f, 'b'), cx.self.c['memory_index'], (cx.self, '#end')]
    def result(self, cx):
        return ListV(cx.ctx, 'stored', n=cx.ctx.int('n_stored', lo=0), arrs=[cx.ctx.fresh_const(AIB, 'stored')], ek=BYTES)
    def post(self, cx):
        if cx.it.cx is cx:
            b = cx.self.c['file'].c['b']
            cx.self.c['#end'] = blen(b)
            cx.ctx.assume(step_l(b, om_end(cx.self.c['offset_map']), blen(cx.old(cx.self.c['file']).c['b'])))
        return SH.post(self, cx)
    def ensures(self, cx):
        f, fo = cx.self.c['file'], cx.old(cx.self.c['file'])
        b, b0 = f.c['b'], fo.c['b']
        A, V = cx.name_value_sequence.arrs()
        k = cx.name_value_sequence.length()
        start = blen(b0)
        return [('nothing follows', to_end(cx.self)), ('what was in the file is kept', sub(b, n(0), start) == b0), ('followed by one transaction', And(tx_good(b, start), tx_end(b, start) == blen(b))),
                ('with all of the items', stored(b, start + 8, blen(b), A, V, k))] + self.effect(cx)
    def effect(self, cx):
        """what the shelf has for each name afterwards"""
        sh, it = cx.self, cx.it
        om, old = sh.c['offset_map'], cx.old
        s, s1, w, m, f = om_parts(om)
        b, b0 = f.c['b'], old(f).c['b']
        A, V = cx.name_value_sequence.arrs()
        k = to_int(cx.name_value_sequence.length())
        start, a = blen(b0), om_end(om)
        j = z3.Int('j')
        words = ForAll([j], Implies(And(0 <= j, j < m), And(W(b, s1, w, j) == W(b0, s1, w, j), IV(b, s1, w, j) == IV(b0, s1, w, j))),
                       patterns=[W(b, s1, w, j), IV(b, s1, w, j), W(b0, s1, w, j), IV(b0, s1, w, j)])
        def has(x, before):
            dom, pos = mi_was(sh, old) if before else mi_parts(sh)
            return Or(dom[x], om_has(om, de8(x), old if before else None))
        def at(x, before):
            dom, pos = mi_was(sh, old) if before else mi_parts(sh)
            return If(dom[x], pos[x], om_val(om, de8(x), old if before else None))
        if it.cx is not cx:
            x = z3.Const('x', Bytes)
            dom, dom0 = mi_parts(sh)[0], mi_was(sh, old)[0]
            return [('', words), ('', ForAll([x], Implies(blen(x) == 8, has(x, False) == Or(has(x, True), sdom(A, k)[x])), patterns=[dom[x]])),
                    ('', ForAll([x], Implies(And(blen(x) == 8, has(x, False)), rec_value(b, at(x, False)) == If(sdom(A, k)[x], sval(A, V, k)[x], rec_value(b0, at(x, True)))), patterns=[dom[x]]))]
        x = cx.ctx.fresh_const(Bytes, 'x')
        cx.ctx.assume(Implies(sub(b, n(0), start) == b0, ForAll([j], keep_cut_to(b, s1, w, j, start, b0), patterns=[W(b, s1, w, j), IV(b, s1, w, j)])))
        cx.ctx.assume(blen(x) == 8)
        dom, pos = mi_parts(sh)
        dom0, pos0 = mi_was(sh, old)
        p0 = at(x, True)
        kept = keep_l(b, a, start, b0)
        names = And(dom[x] == Or(dom0[x], sdom(A, k)[x]), Implies(sdom(A, k)[x], pos[x] == tpos(b, start + 8, blen(b))[x]), Implies(And(dom[x], Not(sdom(A, k)[x])), pos[x] == pos0[x]))
        offsets = And(om_has(om, de8(x)) == om_has(om, de8(x), old), om_val(om, de8(x)) == om_val(om, de8(x), old))
        offsets = Implies(And(0 <= de8(x), de8(x) < m), offsets)
        there = Implies(has(x, True), rec_at(b0, p0, n(16), start, x))
        same = Implies(has(x, True), rec_value(b, p0) == rec_value(b0, p0))
        items = stored(b, start + 8, blen(b), A, V, k)
        has1 = has(x, False) == Or(has(x, True), sdom(A, k)[x])
        return [('the words are kept', words), ('the transactions before', kept), ('the names', names), ('the offsets', offsets),
                ('a value before is in the file', there), ('it still is', same),
                ('the names that have a value', By(has1, names, offsets)),
                ('the values', By(Implies(has(x, False), rec_value(b, at(x, False)) == If(sdom(A, k)[x], sval(A, V, k)[x], rec_value(b0, p0))), names, offsets, same, items, has1))]
    def ensures_exc(self, cx):
        f, fo = cx.self.c['file'], cx.old(cx.self.c['file'])
        d, do = mi_parts(cx.self), mi_was(cx.self, cx.old)
        return [('nothing follows', to_end(cx.self)), ('the file is as it was', f.c['b'] == fo.c['b']),
                ('the index is as it was', And(d[0] == do[0], ForAll([x_], Implies(d[0][x_], d[1][x_] == do[1][x_]), patterns=[d[1][x_]])))]
    class L0(object):
        def __call__(self, L):
            sh = L['self']
            f, om = sh.c['file'], sh.c['offset_map']
            b, b0 = f.c['b'], L.old(f).c['b']
            seq = L['name_value_sequence']
            A, V = seq.arrs()
            i = L.ghost_i()
            start, e = to_int(L['start']), to_int(f.c['pos'])
            for j in (i, i - 1): L.ctx.assume(seq_step(A, V, j))
            L.ctx.assume(blen(b) < MAXLEN)
            steps, by = [], lambda g: g
            if hasattr(L, 'head'):
                # after an iteration: first what was written and what was kept
                q, bh = to_int(L.head.cells[f]['pos']), L.head.cells[f]['b']
                N_, V_ = A[i - 1], V[i - 1]
                L.ctx.assume(step_t(b, start + 8, q))
                rec = And(len8(b, q) >= 8, len8(b, q) == blen(N_) + blen(V_), blen(N_) == 8, rec_name(b, q) == N_, rec_value(b, q) == V_, e == q + 16 + blen(V_), e == rec_end(b, q), start + 8 <= q, q + 8 <= blen(b))
                kept = keep_t(bh, start + 8, q, b)
                more = And(bnd(b, start + 8, e), big(b, start + 8, e), tdom(b, start + 8, e) == z3.Store(tdom(bh, start + 8, q), N_, TRUE), tpos(b, start + 8, e) == z3.Store(tpos(bh, start + 8, q), N_, q))
                vals = ForAll([x_], Implies(tdom(bh, start + 8, q)[x_], rec_value(b, tpos(bh, start + 8, q)[x_]) == rec_value(bh, tpos(bh, start + 8, q)[x_])),
                            patterns=[tpos(bh, start + 8, q)[x_]])
                steps = [('a record is written', rec),
                         ('the ones before are kept', kept), ('the transactions are kept', keep_l(bh, om_end(om), start, b)),
                         ('one record more', By(more, rec, kept, step_t(b, start + 8, q))), ('the values before are kept', vals)]
                was = stored(bh, start + 8, q, A, V, i - 1)
                by = lambda g: By(g, i >= 1, more, vals, rec, was, seq_step(A, V, i - 1))
            base = base_ok(sh)
            if hasattr(L, 'head'):
                s, s1, w, k, f_ = om_parts(om)
                j = z3.Int('j')
                words = ForAll([j], Implies(And(0 <= j, j < k), And(W(b, s1, w, j) == W(bh, s1, w, j), IV(b, s1, w, j) == IV(bh, s1, w, j))), patterns=[W(b, s1, w, j), IV(b, s1, w, j)])
                initial = And(keep_t(bh, n(16), s, b), sub(b, n(0), n(16)) == sub(bh, n(0), n(16)), sub(b, n(0), n(8)) == sub(bh, n(0), n(8)), sub(b, n(8), n(8)) == sub(bh, n(8), n(8)), blen(bh) <= blen(b))
                steps += [('the words are kept', words), ('the initial transaction is kept', initial)]
                base = By(base, was_base_ok(sh, bh), words, initial)
            x = z3.Const('x', Bytes)
            idx = L['index']
            if idx.c['dom'] is None: same = [('the positions', tdom(b, start + 8, e) == EMPTY)]
            else:
                same = [('the names', idx.c['dom'] == tdom(b, start + 8, e)), ('the positions', idx.vals()[0] == tpos(b, start + 8, e))]
                hd = L.head.cells[idx] if hasattr(L, 'head') else {}
                if z3.is_expr(hd.get('dom')):
                    same = [(same[0][0], By(same[0][1], more, rec, hd['dom'] == tdom(bh, start + 8, q))),
                            (same[1][0], By(same[1][1], more, rec, hd['v0'] == tpos(bh, start + 8, q)))]
            s, s1, w, k, f_ = om_parts(om)
            return steps + [('the file before', And(start == blen(b0), sub(b, n(0), start) == b0)), ('the end', And(e == blen(b), start + 8 <= e, 0 <= i, i <= to_int(seq.length()))),
                    ('the length is one that no file can have', sub(b, start, n(8)) == rep(n(255), n(8))),
                    ('the base', base), ('the transactions before', tail_ok(sh, b, start)),
                    ('the records', by(stored(b, start + 8, e, A, V, i)))] + same + [('the result', to_int(L['result'].length()) == i)]
    loops = {0: L0()}


def recs_of(sh):
    """the records of the offset map are where it says"""
    om, b, j = sh.c['offset_map'], sh.c['file'].c['b'], z3.Int('j')
    return ForAll([j], Implies(om_has(om, j), rec_at(b, om_val(om, j), n(16), blen(b), be8(j))), patterns=[om_word(om, j)])

class ShelfIter(SH):
    """each name of the shelf exactly once"""
    inline_only = True
    assumes = ('nothing is stored during an iteration',)
    def parts(self, cx, y): raise NotImplementedError
    def ghosts(self, cx): return {'done': EMPTY}
    def on_yield(self, cx, y):
        sh, g = cx.self, cx.yields.c
        x, more = self.parts(cx, y)
        out = [('a name of the shelf, not given before', And(has_name(sh, x), blen(x) == 8, Not(g['done'][x])))] + more
        g['done'] = z3.Store(g['done'], x, TRUE)
        f = sh.c['file']
        f.c['pos'] = cx.ctx.int('pos', lo=0)        # the consumer may read
        return out
    def ensures(self, cx):
        x, done = z3.Const('x', Bytes), cx.yields.c['done']
        return [('every name', ForAll([x], Implies(And(has_name(cx.self, x), blen(x) == 8), done[x]), patterns=[done[x]]))]
    class L0(object):
        """over the words of the offset map"""
        def __call__(self, L):
            sh, x, i = L.it.cx.self, z3.Const('x', Bytes), L.ghost_i()
            om, done, d = sh.c['offset_map'], L.it.yields.c['done'], mi_parts(sh)[0]
            return [('count', And(0 <= i, i <= om_parts(om)[3], to_int(L.ctx.byname['enumerate'].c['n']) == i, to_int(sh.c['file'].c['pos']) >= 0)),
                    ('records', recs_of(sh)),
                    ('the names before', ForAll([x], done[x] == And(blen(x) == 8, de8(x) < i, om_has(om, de8(x)), Not(d[x])), patterns=[done[x]]))]
    class L1(object):
        """over the memory index"""
        def __call__(self, L):
            sh, x, i, j = L.it.cx.self, z3.Const('x', Bytes), L.ghost_i(), z3.Int('j')
            om, done, d = sh.c['offset_map'], L.it.yields.c['done'], mi_parts(sh)[0]
            ka = L.iterable.l.arrs()[0]
            return [('count', And(0 <= i, to_int(sh.c['file'].c['pos']) >= 0)),
                    ('the names of the map', ForAll([x], Implies(And(blen(x) == 8, om_has(om, de8(x)), Not(d[x])), done[x]), patterns=[done[x]])),
                    ('the names before', ForAll([j], Implies(And(0 <= j, j < i), done[ka[j]]), patterns=[ka[j]])),
                    ('no others', ForAll([x], Implies(And(done[x], d[x]), z3.Exists([j], And(0 <= j, j < i, ka[j] == x))), patterns=[done[x]]))]
    def place(self, cx, y): return [('its position', to_int(y[1]) == pos_of(cx.self, to_bytes(y[0])))]

@contract
class Shelf_iterindex(ShelfIter):
    target = M + 'Shelf.iterindex'
    def parts(self, cx, y): return to_bytes(y[0]), self.place(cx, y)
    other_loops = {(U.M + 'WordArray.__iter__', 0): ShelfIter.L0()}
    loops = {1: ShelfIter.L1()}

@contract
class Shelf_iter(ShelfIter):
    target = M + 'Shelf.__iter__'
    def parts(self, cx, y): return to_bytes(y), []
    other_loops = {(U.M + 'WordArray.__iter__', 0): ShelfIter.L0(), (M + 'Shelf.iterindex', 1): ShelfIter.L1()}

@contract
class Shelf_iteritems(ShelfIter):
    target = M + 'Shelf.iteritems'
    def parts(self, cx, y):
        b = cx.self.c['file'].c['b']
        return to_bytes(y[0]), [('its value', to_bytes(y[1]) == rec_value(b, pos_of(cx.self, to_bytes(y[0]))))]
    other_loops = {(U.M + 'WordArray.__iter__', 0): ShelfIter.L0(), (M + 'Shelf.iterindex', 1): ShelfIter.L1()}

def rank(k, j): return If(j < k - 1, k - 1 - j, If(j == k - 1, k, j + 1))

@contract
class Shelf_next_name(SH):
    """C07: one generator per shelf, each of whose names is not used when it is given, nor was given before, whatever
    is stored between the calls."""
    target = M + 'Shelf.next_name'
    props = ('C07',)
    raises = (StructError,)
    theory = [WORDS, PADDED, SHELF, HOLES]
    assumes = ('between two calls the words of the offset map stay (Shelf.store keeps them)',)
    def setup(self, it):
        it.module('durus.shelf').env['next'] = Builtin('next', lambda it, a, k: a[0])       # body() asks for the next ones
        return SH.setup(self, it)
    def requires(self, cx): return [('the holes are linked', linked(cx.self.c['offset_map']))]
    def ghosts(self, cx):
        dom, pos = mi_parts(cx.self)
        return {'rank': z3.IntVal(-1), 'b': cx.self.c['file'].c['b'], 'dom': dom, 'at': pos}
    @staticmethod
    def same(sh, y):
        dom, pos = mi_parts(sh)
        return And(sh.c['file'].c['b'] == y.c['b'], dom == y.c['dom'], pos == y.c['at'])
    def modifies(self, cx): return None if cx.it.cx is cx else [(cx.self.c['file'], 'pos')]     # (body() checks that nothing else is changed)
    def result(self, cx): return cx.ctx.bytes('unused')
    def body(self, it, f, cx):
        ctx, sh, y = it.ctx, cx.self, it.yields
        om = sh.c['offset_map']
        s, s1, w, k, file = om_parts(om)
        g = it.call_body(f, [sh], {})
        if not isinstance(g, GenObj): raise Unsupported('next_name does not use next')
        ctx.prove(to_bool(sh.c['unused_name_generator'] is g), 'the next call goes on with the same generator')
        while True:
            try: x = to_bytes(g.next())
            except StopIteration: break
            j = de8(x)
            ctx.prove(And(self.same(sh, y), z3.BoolVal(sh.c['offset_map'] is om and sh.c['file'] is file)), 'at yield: nothing is changed')
            ctx.prove(And(inv_shelf_(sh), linked(om), to_int(file.c['pos']) >= 0), 'at yield: the invariant')
            ctx.prove(And(blen(x) == 8, Not(has_name(sh, x))), 'at yield: a name that is not used')
            ctx.prove(rank(k, j) > to_int(y.c['rank']), 'at yield: it was not given before')
            y.c['rank'] = rank(k, j)
            # anything may be stored before the next call
            b = file.c['b']
            more = ctx.bytes('more')
            file.c['b'] = wr(b, blen(b), more)
            file.c['pos'] = ctx.int('pos', lo=0)
            sh.c['#end'] = ctx.int('end')
            mi = sh.c['memory_index']
            mi.c['dom'] = ctx.fresh_const(AB, 'mi')
            mi.c['v0'] = ctx.fresh_const(AI, 'mipos')
            y.c['b'], y.c['dom'], y.c['at'] = file.c['b'], mi.c['dom'], mi.c['v0']
            q = z3.Int('q')
            b1 = file.c['b']
            ctx.assume(ForAll([q], And(W(b1, s1, w, q) == W(b, s1, w, q), IV(b1, s1, w, q) == IV(b, s1, w, q)), patterns=[W(b1, s1, w, q), IV(b1, s1, w, q)]))
            ctx.assume(inv_shelf(sh))
            ctx.assume(linked(om))
        ctx.prove(z3.BoolVal(False), 'there is always another name')
    def post(self, cx):
        if cx.it.cx is cx: return []
        x = to_bytes(cx.result)
        return inv_shelf(cx.self) + [('', linked(cx.self.c['offset_map'])), ('a name that is not used', And(blen(x) == 8, Not(has_name(cx.self, x)))), ('', to_int(cx.self.c['file'].c['pos']) >= 0)]
    def post_exc(self, cx): return [] if cx.it.cx is cx else inv_shelf(cx.self) + [('', linked(cx.self.c['offset_map']))]      # (all of the 2**64 names were given or used)
    class L0(object):
        """the holes"""
        def __call__(self, L):
            sh = L.it.cx.self
            om = sh.c['offset_map']
            s, s1, w, k, f = om_parts(om)
            j, r = to_int(L['j']), to_int(L.it.yields.c['rank'])
            return [('', And(inv_shelf_(sh), linked(om))), ('nothing is changed', Shelf_next_name.same(sh, L.it.yields)), ('the hole', And(k > 0, hole(om, j), hole(om, lk(om, j)), to_int(L['last_index']) == k - 1)),
                    ('those given before', Or(And(j == k - 1, r == -1), And(j < k - 1, r <= rank(k, j))))]
    class L1(object):
        """above the map"""
        def __call__(self, L):
            sh = L.it.cx.self
            om = sh.c['offset_map']
            k = om_parts(om)[3]
            return [('', And(inv_shelf_(sh), linked(om))), ('nothing is changed', Shelf_next_name.same(sh, L.it.yields)), ('the next', And(to_int(L['j']) >= k, to_int(L.it.yields.c['rank']) <= to_int(L['j'])))]
    other_loops = {(M + 'OffsetMap.gen_holes', 0): L0(), (M + 'Shelf.next_name.generate_unused_names', 1): L1()}

@contract
class Shelf_open(SH):
    """C02/C03/C21: opening a file finds exactly its complete transactions; with repair what follows them is cut off, without it is refused."""
    target = M + 'Shelf.__init__'
    theory = [WORDS, PADDED, SHELF, KEEP_CUT, [LEM_T_CUT]]
    props = ('C02', 'C03', 'C21')
    raises = ('durus.utils:ShortRead', OSError, AssertionError)
    asserts_raise = True
    inline_only = True
    assumes = ('the initial transaction and the offset map of an existing file are well formed, and its complete transactions have no record shorter than an oid (Shelf writes no others)',)
    dead = ('file = File()', 'assert not readonly', 'assert not repair', 'file = File(file, readonly=readonly)',
            'for result in self.generate_shelf(file=file, items=items or []):', 'pass')
    def setup(self, it):
        ctx = it.ctx
        ro = ctx.choose([None, None], 'readonly') == 1
        f = DFile(ctx, 'file', fails=not ro, ro=ro)
        it.om = an_offset_map(it, f)            # the map that is in the file
        return [Obj(ctx, it.cls(M + 'Shelf'), 'shelf')], {'file': f, 'items': None, 'repair': ctx.fresh(BOOL, 'repair'), 'readonly': ro}
    def pre(self, cx):
        om, f = cx.it.om, cx.a['file']
        s, s1, w, k, f_ = om_parts(om)
        b, q = f.c['b'], z3.Int('q')
        a = om_end(om)
        return [('the map', And(inv_om(om), U.has_ints(b, s, w, k), head_ok(b, s), map_ok(om, b), a <= blen(b), k < 2 ** 64)),
                ('no short record', ForAll([q], Implies(And(lb(b, a, q), tx_ok(b, q)), big(b, q + 8, tx_end(b, q))), patterns=[lb(b, a, q)])),
                ('', blen(b) < MAXLEN)]
    def modifies(self, cx): return None
    def post(self, cx):
        sh, om, f = cx.self, cx.it.om, cx.a['file']
        sh.c['#end'] = blen(f.c['b'])
        b, b0 = f.c['b'], cx.old(f).c['b']
        e = blen(b)
        same = And(*[x == y for x, y in zip(om_parts(sh.c['offset_map'])[:4], om_parts(om)[:4])])
        return [('the file', z3.BoolVal(sh.c['file'] is f)), ('the offset map of the file', same)] + inv_shelf(sh) + [
                ('nothing before the end is changed', And(e <= blen(b0), b == sub(b0, n(0), e))),
                ('what is cut off is no transaction, and only with repair', Or(b == b0, And(to_bool(cx.repair), Not(tx_good(b0, e))))),
                ('at the end', to_int(f.c['pos']) == e)]
    def post_exc(self, cx):
        f = cx.a['file']
        b, b0 = f.c['b'], cx.old(f).c['b']
        return [('the file is left as it is', b == b0)]
    class L1(object):
        def __call__(self, L):
            sh = L['self']
            f, om = sh.c['file'], getattr(L.it.cx.it, 'om', sh.c['offset_map'])
            b, b0 = f.c['b'], L.entry(f).c['b']
            a, p, x = om_end(om), to_int(f.c['pos']), z3.Const('x', Bytes)
            dom, pos = mi_parts(sh)
            q = to_int(L.head.cells[f]['pos']) if hasattr(L, 'head') else p
            L.ctx.assume(step_l(b, a, q))
            L.ctx.assume(base_l(b, a, p))
            return [('the file', And(b == b0, a <= p, p <= blen(b))), ('complete transactions', And(lb(b, a, p), lbig(b, a, p))),
                    ('their names', ForAll([x], dom[x] == ldom(b, a, p)[x], patterns=[dom[x]])),
                    ('their positions', ForAll([x], Implies(dom[x], pos[x] == lpos(b, a, p)[x]), patterns=[pos[x]]))]
    loops = {1: L1()}

@contract
class Shelf_has_format(Contract):
    target = M + 'Shelf.has_format'
    props = ('C21',)
    theory = [WORDS]
    def setup(self, it):
        return [it.cls(M + 'Shelf'), DFile(it.ctx, 'file', fails=False)], {}
    def pre(self, cx): return []
    def modifies(self, cx): return [(cx.file, 'pos')]
    def result(self, cx): return cx.ctx.fresh(BOOL, 'shelf')
    def post(self, cx):
        b = cx.file.c['b']
        return [('the prefix', to_bool(cx.result) == And(blen(b) >= 8, sub(b, n(0), n(8)) == to_bytes(PREFIX))), ('', to_int(cx.file.c['pos']) >= 0)]

@contract
class Shelf_new(SH):
    """a new file holds nothing"""
    target = M + 'Shelf.__init__'
    extra = True
    cost = 20
    inline_only = True
    theory = [WORDS, PADDED, SHELF, HOLES]
    raises = (OSError,)
    asserts_raise = True
    dead = ('file = File()', 'assert not readonly', 'assert not repair', 'file = File(file, readonly=readonly)', 'assert items is None',
            'self.memory_index.update(transaction_offsets)', 'pass')
    def setup(self, it):
        f = DFile(it.ctx, 'file', fails=False)
        return [Obj(it.ctx, it.cls(M + 'Shelf'), 'shelf')], {'file': f, 'items': None, 'repair': False, 'readonly': False}
    def pre(self, cx): return [('empty', blen(cx.a['file'].c['b']) == 0)]
    def modifies(self, cx): return None
    def post(self, cx):
        sh, f = cx.self, cx.a['file']
        sh.c['#end'] = blen(f.c['b'])
        dom, pos = mi_parts(sh)
        return inv_shelf(sh) + [('the file', z3.BoolVal(sh.c['file'] is f)), ('no holes', om_parts(sh.c['offset_map'])[3] == 0), ('nothing is stored', dom == EMPTY)]
    def post_exc(self, cx): return []
    inline = (M + 'OffsetMap.gen_stitch',)
    class L0(object):
        """no words"""
        def __call__(self, L):
            f = L['self'].c['int_array'].c['word_array'].c['byte_array'].c['file']
            return [('', And(f.c['b'] == L.entry(f).c['b'], om_parts(L['self'])[3] == 0))]
    other_loops = {(M + 'OffsetMap.gen_stitch', 0): L0()}
    loops = {1: Shelf_open.L1()}
