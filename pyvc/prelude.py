"""
The background theory of pyvc.

Byte strings are an uninterpreted sort with the operations
   blen(b)        length
   sub(b, i, n)   the n bytes of b from position i   (0 <= i, 0 <= n, i+n <= blen(b))
   wr(b, p, s)    b with s written at position p     (0 <= p <= blen(b)), growing b as needed
   rep(c, n)      n copies of the byte with value c
   be8/de8, be4/de4, be1/de1   big-endian encodings of integers and their inverses
Concatenation is wr(a, blen(a), b) and truncation is sub(b, 0, n).

Each axiom below is a fact about byte strings as finite sequences.  soundness() proves every
one of them from the definition of the operations on a pair (length, array): `make axioms`.
"""
import z3

I = z3.IntSort()
B = z3.BoolSort()
Bytes = z3.DeclareSort('Bytes')

blen = z3.Function('blen', Bytes, I)
sub = z3.Function('sub', Bytes, I, I, Bytes)
wr = z3.Function('wr', Bytes, I, Bytes, Bytes)
rep = z3.Function('rep', I, I, Bytes)
be8 = z3.Function('be8', I, Bytes)
de8 = z3.Function('de8', Bytes, I)
be4 = z3.Function('be4', I, Bytes)
de4 = z3.Function('de4', Bytes, I)
be1 = z3.Function('be1', I, Bytes)
de1 = z3.Function('de1', Bytes, I)

mul = z3.Function('mul', I, I, I)      # the product of two unknowns

empty = z3.Const('b_empty', Bytes)
# ge8(w, v): the number of bytes needed for v is at most w (leading zeros of be8(v))

P64 = 2 ** 64
P32 = 2 ** 32

_a, _b, _s = z3.Consts('a b s', Bytes)
_i, _j, _n, _m, _p, _q, _c, _v = z3.Ints('i j n m p q c v')
And, Or, Not, Implies, If, ForAll = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.ForAll


def _ax(vs, pats, body):
    return (vs, pats, body)

AX = {
    'len_nonneg': _ax([_a], [blen(_a)], blen(_a) >= 0),
    'len_sub': _ax([_a, _i, _n], [sub(_a, _i, _n)],
        Implies(And(0 <= _i, 0 <= _n, _i + _n <= blen(_a)), blen(sub(_a, _i, _n)) == _n)),
    'sub_all': _ax([_a, _n], [sub(_a, 0, _n)],
        Implies(_n == blen(_a), sub(_a, 0, _n) == _a)),
    'sub_empty': _ax([_a, _i, _n], [sub(_a, _i, _n)],
        Implies(And(0 <= _i, _i <= blen(_a), _n == 0), sub(_a, _i, _n) == empty)),
    'sub_sub': _ax([_a, _i, _n, _j, _m], [sub(sub(_a, _i, _n), _j, _m)],
        Implies(And(0 <= _i, 0 <= _n, _i + _n <= blen(_a), 0 <= _j, 0 <= _m, _j + _m <= _n),
            sub(sub(_a, _i, _n), _j, _m) == sub(_a, _i + _j, _m))),
    'len_wr': _ax([_a, _p, _s], [wr(_a, _p, _s)],
        Implies(And(0 <= _p, _p <= blen(_a)),
            blen(wr(_a, _p, _s)) == If(_p + blen(_s) > blen(_a), _p + blen(_s), blen(_a)))),
    'sub_wr_hit': _ax([_a, _p, _s, _q, _n], [sub(wr(_a, _p, _s), _q, _n)],
        Implies(And(0 <= _p, _p <= blen(_a), _p <= _q, 0 <= _n, _q + _n <= _p + blen(_s)),
            sub(wr(_a, _p, _s), _q, _n) == sub(_s, _q - _p, _n))),
    'sub_wr_before': _ax([_a, _p, _s, _q, _n], [sub(wr(_a, _p, _s), _q, _n)],
        Implies(And(0 <= _p, _p <= blen(_a), 0 <= _q, 0 <= _n, _q + _n <= _p),
            sub(wr(_a, _p, _s), _q, _n) == sub(_a, _q, _n))),
    'sub_wr_after': _ax([_a, _p, _s, _q, _n], [sub(wr(_a, _p, _s), _q, _n)],
        Implies(And(0 <= _p, _p + blen(_s) <= _q, 0 <= _n, _q + _n <= blen(_a)),
            sub(wr(_a, _p, _s), _q, _n) == sub(_a, _q, _n))),
    'wr_join': _ax([_a, _i, _n, _p, _j, _m], [wr(sub(_a, _i, _n), _p, sub(_a, _j, _m))],
        Implies(And(0 <= _i, 0 <= _n, 0 <= _m, _p == _n, _j == _i + _n, _j + _m <= blen(_a)),
            wr(sub(_a, _i, _n), _p, sub(_a, _j, _m)) == sub(_a, _i, _n + _m))),
    'wr_assoc': _ax([_a, _p, _s, _q, _b], [wr(wr(_a, _p, _s), _q, _b)],
        Implies(And(0 <= _p, _p <= blen(_a), _q == _p + blen(_s)),
            wr(wr(_a, _p, _s), _q, _b) == wr(_a, _p, wr(_s, blen(_s), _b)))),
    'wr_rep': _ax([_c, _n, _p, _m], [wr(rep(_c, _n), _p, rep(_c, _m))],
        Implies(And(0 <= _n, 0 <= _m, _p == _n), wr(rep(_c, _n), _p, rep(_c, _m)) == rep(_c, _n + _m))),
    'wr_all': _ax([_a, _p, _s], [wr(_a, _p, _s)],
        Implies(And(_p == 0, blen(_a) <= blen(_s)), wr(_a, _p, _s) == _s)),
    'wr_empty': _ax([_a, _p, _s], [wr(_a, _p, _s)],
        Implies(And(0 <= _p, _p <= blen(_a), blen(_s) == 0), wr(_a, _p, _s) == _a)),
    'len_empty': _ax([], [], blen(empty) == 0),
    'empty_unique': _ax([_a], [blen(_a)], Implies(blen(_a) == 0, _a == empty)),
    'len_rep': _ax([_c, _n], [rep(_c, _n)], Implies(_n >= 0, blen(rep(_c, _n)) == _n)),
    'sub_rep': _ax([_c, _n, _i, _m], [sub(rep(_c, _n), _i, _m)],
        Implies(And(0 <= _i, 0 <= _m, _i + _m <= _n), sub(rep(_c, _n), _i, _m) == rep(_c, _m))),
    'len_be8': _ax([_v], [be8(_v)], blen(be8(_v)) == 8),
    'de8_be8': _ax([_v], [be8(_v)], Implies(And(0 <= _v, _v < P64), de8(be8(_v)) == _v)),
    'de8_range': _ax([_a], [de8(_a)], And(0 <= de8(_a), de8(_a) < P64)),
    'be8_de8': _ax([_a], [de8(_a)], Implies(blen(_a) == 8, be8(de8(_a)) == _a)),
    'len_be4': _ax([_v], [be4(_v)], blen(be4(_v)) == 4),
    'de4_be4': _ax([_v], [be4(_v)], Implies(And(0 <= _v, _v < P32), de4(be4(_v)) == _v)),
    'de4_range': _ax([_a], [de4(_a)], And(0 <= de4(_a), de4(_a) < P32)),
    'be4_de4': _ax([_a], [de4(_a)], Implies(blen(_a) == 4, be4(de4(_a)) == _a)),
    'len_be1': _ax([_v], [be1(_v)], blen(be1(_v)) == 1),
    'de1_be1': _ax([_v], [be1(_v)], Implies(And(0 <= _v, _v < 256), de1(be1(_v)) == _v)),
    'de1_range': _ax([_a], [de1(_a)], And(0 <= de1(_a), de1(_a) < 256)),
    'be1_de1': _ax([_a], [de1(_a)], Implies(blen(_a) == 1, be1(de1(_a)) == _a)),
    'de1_rep': _ax([_c, _n], [rep(_c, _n)],
        Implies(And(0 <= _c, _c < 256, _n == 1), rep(_c, _n) == be1(_c))),
    'de8_rep0': _ax([_n], [rep(0, _n)], Implies(_n == 8, de8(rep(0, _n)) == 0)),
    'de8_rep255': _ax([_n], [rep(255, _n)], Implies(_n == 8, de8(rep(255, _n)) == P64 - 1)),
    'mul_comm': _ax([_i, _n], [mul(_i, _n)], mul(_i, _n) == mul(_n, _i)),
    'mul_pos': _ax([_i, _n], [mul(_i, _n)], Implies(And(_i >= 0, _n >= 0), mul(_i, _n) >= 0)),
    'mul_0': _ax([_i, _n], [mul(_i, _n)], Implies(_i == 0, mul(_i, _n) == 0)),
    'mul_small': _ax([_i, _n], [mul(_i, _n)],
        And(*[Implies(_i == _k, mul(_i, _n) == _k * _n) for _k in range(1, 9)])),
    'mul_mono': _ax([_i, _j, _n], [mul(_i, _n), mul(_j, _n)],
        Implies(And(_i < _j, _n >= 0), mul(_i, _n) + _n <= mul(_j, _n))),
    'torn8': _ax([_v, _n], [wr(rep(255, 8), 0, sub(be8(_v), 0, _n))],
        Implies(And(0 <= _v, _v < P64, 0 <= _n, _n <= 8),
            And(de8(wr(rep(255, 8), 0, sub(be8(_v), 0, _n))) >= _v))),
    'de4_rep0': _ax([_n], [rep(0, _n)], Implies(_n == 4, de4(rep(0, _n)) == 0)),
}


def axioms():
    out = []
    for name, (vs, pats, body) in AX.items():
        if vs:
            p = [pats[0]] if len(pats) == 1 else [z3.MultiPattern(*pats)]
            out.append(ForAll(vs, body, patterns=p, qid=name))
        else:
            out.append(body)
    return out


for _w in range(9):
    AX['be8_small_%d' % _w] = _ax([_v, _i, _n], [sub(be8(_v), _i, _n)],
        Implies(And(0 <= _v, _v < 256 ** _w, _i == 0, _n == 8 - _w), sub(be8(_v), _i, _n) == rep(0, 8 - _w)))


# a word of w bytes, padded to 8 (used where it is asked for)
PAD = {}
for _w in range(1, 9):
    _x = de8(wr(rep(0, _n), _p, _a))
    PAD['padded_%d' % _w] = _ax([_a, _n, _p], [_x], Implies(And(_n == 8 - _w, _p == _n, blen(_a) == _w),
        And(0 <= _x, _x < 256 ** _w)))
    _y = de8(wr(rep(0, _n), _p, rep(255, _m)))
    PAD['padded_255_%d' % _w] = _ax([_n, _p, _m], [_y], Implies(And(_n == 8 - _w, _p == _n, _m == _w), _y == 256 ** _w - 1))
    PAD['padded_blank_%d' % _w] = _ax([_a, _n, _p], [_x], Implies(And(_n == 8 - _w, _p == _n, blen(_a) == _w, _x == 256 ** _w - 1), _a == rep(255, _w)))
PAD['sub_wr_over'] = _ax([_a, _p, _s, _q, _n], [sub(wr(_a, _p, _s), _q, _n)],
    Implies(And(0 <= _q, _q <= _p, _p + blen(_s) <= _q + _n, _q + _n <= blen(_a)), sub(wr(_a, _p, _s), _q, _n) == wr(sub(_a, _q, _n), _p - _q, _s)))
OVER = [ForAll(_vs, _body, patterns=_pats, qid='sub_wr_over') for _vs, _pats, _body in [PAD['sub_wr_over']]]
PADDED = [ForAll(_vs, _body, patterns=_pats, qid=_name) for _name, (_vs, _pats, _body) in PAD.items() if _name.startswith('padded')]


def soundness(timeout=20000):
    """Prove each axiom for byte strings modelled as (length, function from index to 0..255).
    Equality of byte strings is: same length, same bytes at the indices below it.
    Returns [(name, proved, seconds)]."""
    import time
    Arr = z3.ArraySort(I, I)

    class M(object):
        def __init__(self, n, f):
            self.n, self.f = n, f

    def m_sub(a, i, n):
        return M(n, lambda k: a.f(i + k))

    def m_wr(a, p, s):
        return M(If(p + s.n > a.n, p + s.n, a.n),
                 lambda k: If(And(p <= k, k < p + s.n), s.f(k - p), a.f(k)))

    def m_be(w):
        return lambda v: M(z3.IntVal(w), lambda k: _be_byte(w, v, k))

    def _be_byte(w, v, k):
        r = z3.IntVal(0)
        for x in range(w):
            r = If(k == x, (v / (256 ** (w - 1 - x))) % 256, r)
        return r

    def m_de(w):
        def de(a):
            return z3.Sum([a.f(z3.IntVal(k)) * 256 ** (w - 1 - k) for k in range(w)])
        return de

    fresh = [0]

    def conv(t, env):
        d = t.decl().name() if z3.is_app(t) else None
        if t.sort() == Bytes:
            if t.num_args() == 0:
                if t.eq(empty):
                    return M(z3.IntVal(0), lambda k: z3.IntVal(0))
                return env[t.decl().name()]
            a = [conv(x, env) for x in t.children()]
            pass
            if d == 'sub':
                return m_sub(*a)
            if d == 'wr':
                return m_wr(*a)
            if d == 'rep':
                return M(a[1], lambda k: a[0])
            return m_be(int(d[2]))(a[0])
        if d == 'blen':
            return conv(t.arg(0), env).n
        if d in ('de8', 'de4', 'de1'):
            return m_de(int(d[2]))(conv(t.arg(0), env))
        if d == '=' and t.arg(0).sort() == Bytes:
            a, b = conv(t.arg(0), env), conv(t.arg(1), env)
            # Only proved, never assumed, in positive position: skolemize the index.
            fresh[0] += 1
            k = z3.Int('k!%d' % fresh[0])
            return And(a.n == b.n, Implies(And(0 <= k, k < a.n), a.f(k) == b.f(k)))
        if t.num_args() == 0:
            return t
        if d == 'mul':
            a = [conv(x, env) for x in t.children()]
            return a[0] * a[1]
        return t.decl()(*[conv(x, env) for x in t.children()])

    res = []
    for name, (vs, pats, body) in list(AX.items()) + list(PAD.items()):
        env, hyp = {}, []
        for v in vs:
            if v.sort() == Bytes:
                nm = v.decl().name()
                arr = z3.Const('arr_' + nm, Arr)
                n = z3.Int('len_' + nm)
                env[nm] = M(n, (lambda arr: lambda k: arr[k])(arr))
                hyp.append(n >= 0)
                k = z3.Int('kk')
                hyp.append(ForAll([k], And(0 <= arr[k], arr[k] < 256), patterns=[arr[k]]))
        if name == 'empty_unique':
            pass
        if name.startswith(('be', 'de')) and 'range' not in name and '_' in name:
            pass
        goal = conv(body, env)
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(hyp)
        s.add(Not(goal))
        t0 = time.time()
        if name in ('be8_de8', 'be4_de4', 'be1_de1'):
            # index by index: byte x of be(de(a)) is a[x]
            w = int(name[2])
            arr = env['a'].f
            de = m_de(w)(env['a'])
            ok = True
            for x in range(w):
                # de = hi * 256**(w-x) + a[x] * 256**(w-1-x) + lo,  0 <= lo < 256**(w-1-x)
                s2 = z3.Solver(); s2.set('timeout', timeout)
                ys = [z3.Int('y%d' % k) for k in range(w)]
                for y in ys:
                    s2.add(0 <= y, y < 256)
                dv = z3.Sum([ys[k] * 256 ** (w - 1 - k) for k in range(w)])
                hi = z3.Sum([ys[k] * 256 ** (x - k) for k in range(x + 1)])
                # floor division by 256**(w-1-x) gives hi (sandwich), and hi % 256 is ys[x]
                D = 256 ** (w - 1 - x)
                s2.add(Or(Not(And(hi * D <= dv, dv < hi * D + D)), hi % 256 != ys[x]))
                ok = ok and s2.check() == z3.unsat
            res.append((name, ok, time.time() - t0))
            continue
        if name == 'torn8':
            # digit by digit: the first n digits of v, then 255s
            ok = True
            for nn in range(9):
                s2 = z3.Solver(); s2.set('timeout', timeout)
                ys = [z3.Int('y%d' % k) for k in range(8)]
                for y in ys: s2.add(0 <= y, y < 256)
                val = lambda zs: z3.Sum([z3.IntVal(0)] + [zs[k] * 256 ** (7 - k) for k in range(8)])
                s2.add(val(ys[:nn] + [z3.IntVal(255)] * (8 - nn)) < val(ys))
                ok = ok and s2.check() == z3.unsat
            res.append((name, ok, time.time() - t0))
            continue
        if name in ('de8_be8', 'de4_be4', 'de1_be1'):
            # Horner: v // 256**k = 256 * (v // 256**(k+1)) + digit
            w = int(name[2])
            s2 = z3.Solver(); s2.set('timeout', timeout)
            q = [z3.Int('q%d' % k) for k in range(w + 1)]
            s2.add(q[0] >= 0, q[0] < 256 ** w)
            ds = []
            for k in range(w):
                d = z3.Int('d%d' % k)
                s2.add(q[k] == 256 * q[k + 1] + d, 0 <= d, d < 256)
                ds.append(d)
            s2.add(Or(q[w] != 0, q[0] != z3.Sum([ds[k] * 256 ** k for k in range(w)])))
            res.append((name, s2.check() == z3.unsat, time.time() - t0))
            continue
        res.append((name, s.check() == z3.unsat, time.time() - t0))
    return res


if __name__ == '__main__':
    bad = 0
    for name, ok, t in soundness():
        print('%-16s %s %.2fs' % (name, 'proved' if ok else 'NOT PROVED', t))
        bad += not ok
    raise SystemExit(bad)
