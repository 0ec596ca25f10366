"""C11: PersistentDict, PersistentList, PersistentSet against the built-ins,
with commits and aborts."""
from harness.core import case


def outcome(f):
    try:
        return ('ok', f())
    except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
        return (type(e).__name__, None)


class Odd:
    """An iterable that is false and claims to be empty."""

    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return 0

    def __bool__(self):
        return False

    def __iter__(self):
        return iter(self.items)


class OddMap(Odd):
    def keys(self):
        return [k for k, v in self.items]

    def __getitem__(self, key):
        return dict(self.items)[key]


def broken(items):
    """Yields the items and then fails."""
    yield from items
    raise ValueError


def bad_key(item):
    if item == 0:
        raise ValueError
    return -item


def plain(x):
    from durus.persistent_dict import PersistentDict
    from durus.persistent_list import PersistentList
    from durus.persistent_set import PersistentSet
    if isinstance(x, PersistentDict):
        return dict(x.data)
    if isinstance(x, PersistentList):
        return list(x.data)
    if isinstance(x, PersistentSet):
        return set(x.s)
    return x


def dict_ops(c, P):
    r = c.rng
    k = r.choice(['a', 'b', 'c', 1, 2, (1, 2), None, 'zz'])
    v = r.choice([0, None, '', 'x', 5, [1]])
    other = {r.choice(['a', 'b', 'q', 3]): r.randrange(9) for _ in range(r.randrange(4))}
    pairs = list(other.items())
    def mk(kind):
        return {'dict': dict(other), 'pairs': pairs, 'gen': pairs,
                'P': P(other) if kind == 'P' else None, 'keys': None}[kind]
    kind = r.choice(['dict', 'pairs', 'P'])
    arg = mk(kind)
    parg = dict(other) if kind == 'P' else arg
    def ior(d, o):
        d |= o
        return d
    return r.choice([
        ('d[k]=v', lambda d: d.__setitem__(k, v), None),
        ('d[k]=v', lambda d: d.__setitem__(k, v), None),
        ('del d[k]', lambda d: d.__delitem__(k), None),
        ('clear', lambda d: d.clear(), None),
        ('update', lambda d: d.update(arg), lambda d: d.update(parg)),
        ('update kw', lambda d: d.update(q=1, w=v), None),
        ('update both', lambda d: d.update(arg, q=1), lambda d: d.update(parg, q=1)),
        ('update none', lambda d: d.update(), None),
        ('setdefault', lambda d: d.setdefault(k, v), None),
        ('setdefault1', lambda d: d.setdefault(k), None),
        ('pop', lambda d: d.pop(k), None),
        ('pop default', lambda d: d.pop(k, 'dd'), None),
        ('popitem', lambda d: d.popitem(), None),
        ('get', lambda d: (d.get(k), d.get(k, 3)), None),
        ('d[k]', lambda d: d[k], None),
        ('in', lambda d: k in d, None),
        ('len', lambda d: len(d), None),
        ('iter', lambda d: list(d), None),
        ('keys', lambda d: (list(d.keys()), list(d.values()), list(d.items())), None),
        ('iterkeys', lambda d: (list(d.iterkeys()), list(d.itervalues()), list(d.iteritems())),
                     lambda d: (list(d.keys()), list(d.values()), list(d.items()))),
        ('has_key', lambda d: d.has_key(k), lambda d: k in d),
        ('copy', lambda d: d.copy(), None),
        ('fromkeys', lambda d: type(d).fromkeys(['a', k], v), None),
        ('bool', lambda d: bool(d), None),
        ('eq', lambda d: (d == P(other), d != P(other), d == d),
               lambda d: (d == other, d != other, True)),
        ('update bad', lambda d: d.update(5), None),
        ('update odd', lambda d: d.update(Odd(pairs)), None),
        ('update odd map', lambda d: d.update(OddMap(pairs)), None),
        ('update gen', lambda d: d.update(x for x in pairs), None),
        ('update broken', lambda d: d.update(broken(pairs)), None),
        ('|=', lambda d: ior(d, dict(other)), None) if hasattr(P, '__ior__') else
        ('d[[]]=', lambda d: d.__setitem__([], 1), None),
    ])


def list_ops(c, P):
    r = c.rng
    i = r.randrange(-6, 8)
    j = r.randrange(-6, 8)
    st = r.choice([None, None, 1, 2, -1, -2])
    v = r.choice([0, 1, 2, 3])
    other = [r.randrange(4) for _ in range(r.randrange(4))]
    arg = r.choice([list(other), tuple(other), P(other)])
    parg = list(other) if isinstance(arg, P) else arg
    sl = slice(r.choice([None, i]), r.choice([None, j]), st)
    n = r.randrange(-1, 4)
    def iadd(l, o):
        l += o
        return l
    def imul(l, k):
        l *= k
        return l
    same = None
    return r.choice([
        ('l[i]=v', lambda l: l.__setitem__(i, v), same),
        ('del l[i]', lambda l: l.__delitem__(i), same),
        ('l[i]', lambda l: l[i], same),
        ('l[i:j]', lambda l: l[sl], same),
        ('l[i:j]=', lambda l: l.__setitem__(sl, arg), lambda l: l.__setitem__(sl, parg)),
        ('del l[i:j]', lambda l: l.__delitem__(sl), same),
        ('append', lambda l: l.append(v), same),
        ('append', lambda l: l.append(v), same),
        ('insert', lambda l: l.insert(i, v), same),
        ('pop', lambda l: l.pop(), same),
        ('pop i', lambda l: l.pop(i), same),
        ('remove', lambda l: l.remove(v), same),
        ('extend', lambda l: l.extend(arg), lambda l: l.extend(parg)),
        ('extend self', lambda l: l.extend(l), same),
        ('extend gen', lambda l: l.extend(x for x in other), same),
        ('extend odd', lambda l: l.extend(Odd(other)), same),
        ('extend broken', lambda l: l.extend(broken(other)), same),
        ('extend bad', lambda l: l.extend(5), same),
        ('+= odd', lambda l: iadd(l, Odd(other)), same),
        ('sort bad', lambda l: l.sort(key=bad_key), same),
        ('reverse', lambda l: l.reverse(), same),
        ('sort', lambda l: l.sort(), same),
        ('sort key', lambda l: l.sort(key=lambda x: -x), same),
        ('sort reverse', lambda l: l.sort(reverse=True), same),
        ('clear', lambda l: l.clear(), same),
        ('+=', lambda l: iadd(l, arg), lambda l: iadd(l, list(parg))),
        ('+= self', lambda l: iadd(l, l), same),
        ('*=', lambda l: imul(l, n), same),
        ('+', lambda l: l + arg, lambda l: l + list(parg)),
        ('r+', lambda l: list(other) + l, same),
        ('tuple +', lambda l: tuple(other) + l, lambda l: list(other) + l),
        ('*', lambda l: (plain(l * n), plain(n * l)), same),
        ('count', lambda l: l.count(v), same),
        ('index', lambda l: l.index(v), same),
        ('index from', lambda l: l.index(v, i), same),
        ('index to', lambda l: l.index(v, i, j), same),
        ('in', lambda l: v in l, same),
        ('len', lambda l: len(l), same),
        ('iter', lambda l: list(l), same),
        ('reversed', lambda l: list(reversed(l)), same),
        ('bool', lambda l: bool(l), same),
        ('cmp', lambda l: [l == arg, l != arg, l < arg, l <= arg, l > arg, l >= arg],
                lambda l: [l == parg, l != parg, l < parg, l <= parg, l > parg, l >= parg]),
        ('cmp self', lambda l: [l == l, l != l, l < l, l <= l, l > l, l >= l], same),
        ('cmp P', lambda l: [l == P(other), l != P(other), l < P(other), l <= P(other),
                             l > P(other), l >= P(other)],
                  lambda l: [l == other, l != other, l < other, l <= other,
                             l > other, l >= other]),
    ])


def set_ops(c, P):
    r = c.rng
    v = r.choice([0, 1, 2, 3, 'a'])
    o = set(r.sample([0, 1, 2, 3, 'a', 'b'], r.randrange(5)))
    arg = r.choice([set(o), P(o), frozenset(o)])
    parg = set(o)
    it = r.choice([list(o), P(o), set(o), tuple(o)])
    pit = list(o)
    q = P(o)
    same = None
    def op(name):
        def f(s, x):
            if name == '&=': s &= x
            elif name == '|=': s |= x
            elif name == '-=': s -= x
            elif name == '^=': s ^= x
            return s
        return f
    choices = [
        ('add', lambda s: s.add(v), same),
        ('add', lambda s: s.add(v), same),
        ('discard', lambda s: s.discard(v), same),
        ('remove', lambda s: s.remove(v), same),
        ('clear', lambda s: s.clear(), same),
        ('copy', lambda s: s.copy(), same),
        ('in', lambda s: v in s, same),
        ('len', lambda s: len(s), same),
        ('iter', lambda s: set(s), same),
        ('bool', lambda s: bool(s), same),
        ('&', lambda s: s & arg, lambda s: s & parg),
        ('|', lambda s: s | arg, lambda s: s | parg),
        ('-', lambda s: s - arg, lambda s: s - parg),
        ('^', lambda s: s ^ arg, lambda s: s ^ parg),
        ('r&', lambda s: set(o) & s, same),
        ('r|', lambda s: set(o) | s, same),
        ('r-', lambda s: set(o) - s, same),
        ('r^', lambda s: set(o) ^ s, same),
        ('cmp', lambda s: [s == q, s != q, s < q, s <= q, s > q, s >= q],
                lambda s: [s == parg, s != parg, s < parg, s <= parg, s > parg, s >= parg]),
        ('issubset', lambda s: (s.issubset(it), s.issuperset(it)),
                     lambda s: (s.issubset(pit), s.issuperset(pit))),
        ('isdisjoint', lambda s: s.isdisjoint(it), lambda s: s.isdisjoint(pit)),
        ('difference', lambda s: s.difference(it), lambda s: s.difference(pit)),
        ('intersection', lambda s: s.intersection(it, set([v])),
                         lambda s: s.intersection(pit, set([v]))),
        ('union', lambda s: s.union(it, [v]), lambda s: s.union(pit, [v])),
        ('symmetric_difference', lambda s: s.symmetric_difference(it),
                                 lambda s: s.symmetric_difference(pit)),
        ('update', lambda s: s.update(it, [v]), lambda s: s.update(pit, [v])),
        ('update0', lambda s: s.update(), same),
        ('update odd', lambda s: s.update(Odd(o)), same),
        ('update broken', lambda s: s.update(broken(pit)), same),
        ('update second bad', lambda s: s.update(pit, 5), same),
        ('difference_update odd', lambda s: s.difference_update(Odd(o)), same),
        ('intersection_update odd', lambda s: s.intersection_update(Odd(o)), same),
        ('symmetric_difference_update odd',
         lambda s: s.symmetric_difference_update(Odd(o)), same),
        ('add bad', lambda s: s.add([]), same),
        ('discard bad', lambda s: s.discard([]), same),
        ('difference_update', lambda s: s.difference_update(it),
                              lambda s: s.difference_update(pit)),
        ('intersection_update', lambda s: s.intersection_update(it),
                                lambda s: s.intersection_update(pit)),
        ('symmetric_difference_update', lambda s: s.symmetric_difference_update(it),
                                        lambda s: s.symmetric_difference_update(pit)),
        ('update self', lambda s: s.update(s), same),
        ('difference_update self', lambda s: s.difference_update(s), same),
        ('intersection_update self', lambda s: s.intersection_update(s), same),
        ('symmetric_difference_update self',
         lambda s: s.symmetric_difference_update(s), same),
    ]
    for name in ('&=', '|=', '-=', '^='):
        f = op(name)
        choices.append((name, lambda s, f=f: f(s, arg), lambda s, f=f: f(s, parg)))
        choices.append((name + ' self', lambda s, f=f: f(s, s), same))
    return r.choice(choices)


def drive(c, P, B, ops, start):
    from durus.connection import Connection
    from durus.file_storage import FileStorage
    from durus.storage import MemoryStorage
    r = c.rng
    model = B(start)
    if r.random() < 0.3:
        # an object that was never stored
        p = P(start)
        for _ in range(40):
            step(c, p, model, ops(c, P), B)
        return
    storage = MemoryStorage() if r.random() < 0.8 else FileStorage()
    conn = Connection(storage)
    p = P(start)
    conn.get_root()['x'] = p
    conn.commit()
    committed = B(model)
    for _ in range(r.choice([3, 8, 15])):
        if r.random() < 0.4:
            conn = Connection(storage)
            p = conn.get_root()['x']
        elif r.random() < 0.3:
            p._p_set_status_ghost()
        for _ in range(r.choice([1, 1, 1, 2, 5])):
            step(c, p, model, ops(c, P), B)
            if r.random() < 0.2:
                step(c, p, model, ('popset', lambda s: s.pop() if B is set else None, None), B)
        if r.random() < 0.6:
            c.log('commit')
            conn.commit()
            committed = B(model)
        else:
            c.log('abort')
            conn.abort()
            model = B(committed)
        contents(c, p, model, B, 'after the end of the transaction')
        other = Connection(storage).get_root()['x']
        contents(c, other, committed, B, 'as another connection sees it')


def contents(c, p, model, B, what):
    got = plain(touch(p))
    c.equal(got, model, 'contents ' + what)
    if B is dict:
        c.equal(list(got), list(model), 'order of the keys ' + what)


def touch(p):
    len(p)
    return p


def step(c, p, model, op, B):
    name, f, g = op
    if name == 'popset':
        if B is not set:
            return
        a = outcome(lambda: p.pop())
        if model:
            c.check(a[0] == 'ok' and a[1] in model, 'pop() returned %r', a)
            model.discard(a[1])
        else:
            c.equal(a[0], 'KeyError', 'pop() of an empty set')
        return
    a = outcome(lambda: f(p))
    b = outcome(lambda: (g or f)(model))
    c.log(name, a[0])
    c.equal(a[0], b[0], 'outcome of ' + name)
    if a[1] is p:
        c.check(b[1] is model, '%s returns the object itself', name)
    else:
        c.equal(plain(a[1]), b[1], 'result of ' + name)
        if type(a[1]) is type(p):
            c.check(a[1]._p_oid is None, 'the result of %s has an oid', name)
            c.check(plain(a[1]) is not plain(p), 'shared')
    contents(c, p, model, B, 'after ' + name)


@case('C11', n=300, flavours=('c', 'py'))
def container_dict(c):
    """PersistentDict against dict: random operations, ghosts, commits, aborts."""
    from durus.persistent_dict import PersistentDict
    drive(c, PersistentDict, dict, dict_ops, c.rng.choice([{}, {'a': 1, 'b': 2}]))
    c.note()


@case('C11', n=400, flavours=('c', 'py'))
def container_list(c):
    """PersistentList against list."""
    from durus.persistent_list import PersistentList
    drive(c, PersistentList, list, list_ops, c.rng.choice([[], [1, 2], [3, 1, 2, 1, 0]]))
    c.note()


@case('C11', n=400, flavours=('c', 'py'))
def container_set(c):
    """PersistentSet against set."""
    from durus.persistent_set import PersistentSet
    drive(c, PersistentSet, set, set_ops, c.rng.choice([[], [1, 2], [0, 1, 2, 'a']]))
    c.note()
