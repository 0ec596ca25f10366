"""C09 C10 C11: BTree against dict and sorted lists."""
from harness.core import case

MISSING = object()


def classes():
    from durus import btree
    out = {2: btree.BNode}
    for k in btree.BNode.__subclasses__():
        if k.minimum_degree <= 16:
            out[k.minimum_degree] = k
    return out


def make_class3():
    from durus import btree
    return type('BNode3', (btree.BNode,), {'minimum_degree': 3})


def keys_of(r):
    kind = r.choice(['int', 'int', 'int', 'str', 'tuple', 'float', 'bytes'])
    n = r.choice([6, 15, 40, 120, 400])
    if kind == 'int':
        off = r.choice([0, -n // 2, 10 ** 12])
        return [off + i for i in range(n)]
    if kind == 'str':
        return sorted(set(''.join(r.choice('ab\xe9\u2603') for _ in range(r.randrange(7)))
                          for _ in range(n)))
    if kind == 'tuple':
        return sorted(set((r.randrange(5), r.randrange(20)) for _ in range(n)))
    if kind == 'float':
        return sorted(set([r.uniform(-1, 1) for _ in range(n)] + [0, 1, -1]))
    return sorted(set(r.randbytes(r.randrange(3)) for _ in range(n)))


def nodes_of(node):
    yield node
    for n in node.nodes or []:
        for m in nodes_of(n):
            yield m


def check_structure(c, tree, counted=True):
    t = tree.root.minimum_degree
    levels = set()
    def walk(node, lo, hi, level, root):
        n = len(node.items)
        c.check(n <= 2 * t - 1, 'a node has %d items, the maximum is %d', n, 2 * t - 1)
        c.check(root or n >= t - 1, 'a node has %d items, the minimum is %d', n, t - 1)
        ks = [k for k, v in node.items]
        for a, b in zip(ks, ks[1:]):
            c.check(a < b, 'keys out of order in a node: %r', ks)
        for k in ks:
            c.check((lo is MISSING or lo < k) and (hi is MISSING or k < hi),
                    'key %r out of the bounds of its node', k)
        if node.nodes is None:
            levels.add(level)
            total = n
        else:
            c.check(len(node.nodes) == n + 1, 'a node with %d items has %d children',
                    n, len(node.nodes))
            c.check(n > 0, 'an inner node without items')
            bounds = [lo] + ks + [hi]
            total = n
            for i, m in enumerate(node.nodes):
                total += walk(m, bounds[i], bounds[i + 1], level + 1, False)
        if counted:
            c.equal(len(node), total, 'count kept in a node (%d items, leaf: %s)' % (
                n, node.nodes is None))
        return total
    walk(tree.root, MISSING, MISSING, 0, True)
    c.check(len(levels) == 1, 'leaves at the levels %r', sorted(levels))


def same(c, tree, m, keys, what):
    items = sorted(m.items(), key=lambda kv: kv[0])
    c.equal(list(tree.items()), items, 'items() ' + what)
    c.equal(len(tree), len(items), 'len() ' + what)
    c.equal(bool(tree), bool(items), 'bool() ' + what)
    if items:
        c.equal(tree.get_min_item(), items[0], 'get_min_item() ' + what)
        c.equal(tree.get_max_item(), items[-1], 'get_max_item() ' + what)


def forget_counts(tree):
    """Make it like a tree stored by a version without counts."""
    for n in nodes_of(tree.root):
        d = n.__dict__
        d.pop('_count', None)


def some_tree(c):
    from durus.btree import BTree
    r = c.rng
    k = classes()
    degree = r.choice([2, 2, 2, 3, 4, 8, 16])
    cls = make_class3() if degree == 3 else k[degree]
    tree = BTree() if degree == 16 and r.random() < 0.5 else BTree(cls)
    return tree, degree


def fill(c, tree, m, keys):
    r = c.rng
    order = list(keys)
    how = r.choice(['up', 'down', 'any', 'any', 'none', 'half'])
    if how == 'none':
        order = []
    elif how == 'down':
        order.reverse()
    elif how == 'any':
        r.shuffle(order)
    elif how == 'half':
        r.shuffle(order)
        order = order[:len(order) // 2]
    for i, k in enumerate(order):
        tree[k] = i
        m[k] = i
    c.log('filled', how, len(order))


def btree_op(c, tree, m, keys, op=None):
    r = c.rng
    k = r.choice(keys)
    if m and r.random() < 0.4:
        k = r.choice(list(m))
    v = r.randrange(10 ** 6)
    op = op or r.choice(['set', 'set', 'set', 'del', 'del', 'del', 'add', 'get',
                         'setdefault', 'pop', 'popdefault', 'update', 'missing',
                         'in', 'popitem', 'note'])
    c.log(op, k)
    if op == 'set':
        tree[k] = v; m[k] = v
    elif op == 'add':
        if r.random() < 0.5:
            tree.add(k, v); m[k] = v
        else:
            tree.add(k); m[k] = True
    elif op == 'del':
        if k in m:
            del tree[k]; del m[k]
        else:
            c.raises(KeyError, lambda: tree.__delitem__(k), 'deleting the missing %r' % (k,))
    elif op == 'missing':
        gone = [q for q in keys if q not in m]
        if gone:
            k = r.choice(gone)
            before = [(id(n), list(n.items), n.nodes and [id(x) for x in n.nodes])
                      for n in nodes_of(tree.root)]
            c.raises(KeyError, lambda: tree.__delitem__(k), 'deleting the missing %r' % (k,))
            after = [(id(n), list(n.items), n.nodes and [id(x) for x in n.nodes])
                     for n in nodes_of(tree.root)]
            c.equal(after, before, 'nodes after deleting the missing %r' % (k,))
    elif op == 'get':
        c.equal(tree.get(k), m.get(k), 'get(%r)' % (k,))
        c.equal(tree.get(k, 7), m.get(k, 7), 'get(%r, 7)' % (k,))
        if k in m:
            c.equal(tree[k], m[k], 'tree[%r]' % (k,))
        else:
            c.raises(KeyError, lambda: tree[k], 'tree[%r]' % (k,))
    elif op == 'in':
        for q in r.sample(keys, min(len(keys), 10)):
            c.equal(q in tree, q in m, '%r in tree' % (q,))
            c.equal(tree.has_key(q), q in m, 'has_key(%r)' % (q,))
    elif op == 'setdefault':
        c.equal(tree.setdefault(k, v), m.setdefault(k, v), 'setdefault(%r)' % (k,))
    elif op == 'pop':
        if k in m:
            c.equal(tree.pop(k), m.pop(k), 'pop(%r)' % (k,))
        else:
            c.raises(KeyError, lambda: tree.pop(k), 'pop(%r)' % (k,))
    elif op == 'popdefault':
        c.equal(tree.pop(k, 5), m.pop(k, 5), 'pop(%r, 5)' % (k,))
    elif op == 'popitem':
        if m:
            kv = tree.popitem()
            c.check(kv[0] in m and m[kv[0]] == kv[1], 'popitem() returned %r', kv)
            del m[kv[0]]
        else:
            c.raises(KeyError, tree.popitem, 'popitem() of an empty tree')
    elif op == 'update':
        d = {q: r.randrange(100) for q in r.sample(keys, min(len(keys), 3))}
        how = r.choice(['dict', 'pairs'])
        tree.update(d if how == 'dict' else list(d.items()))
        m.update(d)
    elif op == 'note':
        if k in m:
            tree.note_change_of_bnode_containing_key(k)
    elif op == 'clear':
        tree.clear(); m.clear()


@case('C09', n=300)
def btree_mapping(c):
    """random insertions, replacements and deletions (minimum degrees 2 to 16,
    several kinds of keys) against dict; structure, balance and counts."""
    r = c.rng
    tree, degree = some_tree(c)
    keys = keys_of(r)
    m = {}
    c.log('degree', degree, 'keys', len(keys))
    fill(c, tree, m, keys)
    same(c, tree, m, keys, 'after filling')
    check_structure(c, tree)
    counted = True
    if r.random() < 0.25:
        forget_counts(tree)
        counted = False
        c.log('counts forgotten')
        same(c, tree, m, keys, 'without counts')
    bias = r.choice([None, None, 'del', 'set'])
    for i in range(r.choice([30, 100, 200])):
        btree_op(c, tree, m, keys, bias if r.random() < 0.6 else None)
        c.check(len(tree) == len(m), 'len() is %r, not %r, after operation %d',
                len(tree), len(m), i)
        if i % 20 == 0:
            same(c, tree, m, keys, 'after operation %d' % i)
            check_structure(c, tree, counted)
    same(c, tree, m, keys, 'at the end')
    check_structure(c, tree, counted)
    for k in keys:
        c.equal(tree.get(k, MISSING), m.get(k, MISSING), 'get(%r) at the end' % (k,))
        c.equal(k in tree, k in m, '%r in tree at the end' % (k,))
    if r.random() < 0.3:
        for d in (4, 8, degree, 5):
            if tree.set_bnode_minimum_degree(d):
                counted = True # it was built again
                c.check(tree.root.minimum_degree == d, 'the minimum degree is not %d', d)
            same(c, tree, m, keys, 'after set_bnode_minimum_degree(%d)' % d)
            check_structure(c, tree, counted)
    # empty it
    order = list(m)
    how = r.choice(['up', 'down', 'any', 'mid'])
    if how == 'up':
        order.sort()
    elif how == 'down':
        order.sort(reverse=True)
    elif how == 'mid':
        order.sort(key=lambda k: abs(sorted(m).index(k) - len(m) // 2))
    else:
        r.shuffle(order)
    c.log('emptied', how)
    for i, k in enumerate(order):
        del tree[k]; del m[k]
        c.check(k not in tree, 'deleted %r is still there', k)
        c.check(len(tree) == len(m), 'len() is %r, not %r, while emptying', len(tree), len(m))
        if i % 10 == 0:
            check_structure(c, tree, counted)
            same(c, tree, m, keys, 'while emptying')
    same(c, tree, m, keys, 'when empty')
    c.raises(KeyError, lambda: tree.__delitem__(keys[0]), 'deleting from an empty tree')
    tree[keys[0]] = 1
    tree.clear()
    same(c, tree, {}, keys, 'after clear')
    c.note(len(keys) > 10)


@case('C09', n=40)
def btree_exhaustive(c):
    """every deletion order of small trees of minimum degree 2 (sampled), and
    trees big enough for several levels."""
    from durus.btree import BTree, BNode
    r = c.rng
    n = r.choice([5, 8, 12, 17, 22, 30, 60])
    base = list(range(n))
    r.shuffle(base)
    for _ in range(25):
        tree = BTree(BNode)
        m = {}
        for k in base:
            tree[k] = -k; m[k] = -k
        order = list(range(n))
        r.shuffle(order)
        for k in order[:r.randint(1, n)]:
            if r.random() < 0.2:
                b = r.choice([-1, n, k + 0.5])
                c.raises(KeyError, lambda: tree.__delitem__(b), 'deleting %r' % b)
            del tree[k]; del m[k]
            check_structure(c, tree)
            same(c, tree, m, base, 'after deleting %d of %r inserted as %r' % (k, order, base))
    c.log('n', n, base)
    c.note()


@case('C10', n=300)
def btree_ranges(c):
    """iteration in both directions, from keys, and over ranges with open and
    closed ends, against a sorted list; bounds that are and are not there."""
    r = c.rng
    tree, degree = some_tree(c)
    keys = keys_of(r)
    m = {}
    fill(c, tree, m, keys)
    for _ in range(r.choice([0, 20, 60])):
        btree_op(c, tree, m, keys, r.choice(['set', 'del']))
    items = sorted(m.items(), key=lambda kv: kv[0])
    c.log('degree', degree, 'items', len(items))
    c.equal(list(tree.iteritems()), items, 'iteritems()')
    c.equal(list(tree), [k for k, v in items], 'iteration')
    c.equal(list(tree.iterkeys()), [k for k, v in items], 'iterkeys()')
    c.equal(list(tree.keys()), [k for k, v in items], 'keys()')
    c.equal(list(tree.itervalues()), [v for k, v in items], 'itervalues()')
    c.equal(list(tree.values()), [v for k, v in items], 'values()')
    c.equal(list(reversed(tree)), [k for k, v in reversed(items)], 'reversed()')
    c.equal(list(tree.items_backward()), items[::-1], 'items_backward()')
    pool = list(keys)
    if m:
        pool += list(m) * 2
        pool += [items[0][0], items[-1][0]]
    if all(isinstance(k, (int, float)) for k in keys):
        pool += [k + 0.5 for k in keys] + [min(keys) - 1, max(keys) + 1]
    for _ in range(60):
        a, b = r.choice(pool), r.choice(pool)
        if r.random() < 0.1:
            b = a
        for closed in (True, False):
            c.equal(list(tree.items_from(a, closed=closed)),
                    [(k, v) for k, v in items if k > a or closed and k == a],
                    'items_from(%r, closed=%s)' % (a, closed))
            c.equal(list(tree.items_backward_from(a, closed=closed)),
                    [(k, v) for k, v in reversed(items) if k < a or closed and k == a],
                    'items_backward_from(%r, closed=%s)' % (a, closed))
        c.equal(list(tree.items_from(a)), [(k, v) for k, v in items if k >= a],
                'items_from(%r)' % (a,))
        c.equal(list(tree.items_backward_from(a)),
                [(k, v) for k, v in reversed(items) if k < a], 'items_backward_from(%r)' % (a,))
        for cs in (True, False):
            for ce in (True, False):
                got = list(tree.items_range(a, b, closed_start=cs, closed_end=ce))
                lo, hi = (a, b) if a <= b else (b, a)
                clo, chi = (cs, ce) if a <= b else (ce, cs)
                want = [(k, v) for k, v in items
                        if (lo < k or clo and k == lo) and (k < hi or chi and k == hi)]
                if a > b:
                    want.reverse()
                c.equal(got, want, 'items_range(%r, %r, %s, %s)' % (a, b, cs, ce))
        lo, hi = min(a, b), max(a, b)
        c.equal(list(tree.items_range(lo, hi)), [(k, v) for k, v in items if lo <= k < hi],
                'items_range(%r, %r)' % (lo, hi))
    c.note(len(items) > 5)


@case('C11', 'C09', n=120, flavours=('c', 'py'))
def btree_stored(c):
    """a stored BTree: after each batch of operations a commit makes another
    connection see exactly its contents, and an abort restores them."""
    from durus.connection import Connection
    from durus.file_storage import FileStorage
    from durus.storage import MemoryStorage
    from durus.btree import BTree
    r = c.rng
    storage = MemoryStorage() if r.random() < 0.7 else FileStorage(c.path('s.db'))
    conn = Connection(storage, cache_size=r.choice([1, 10, 1000]))
    k = classes()
    degree = r.choice([2, 2, 4, 16])
    tree = BTree(k[degree])
    root = conn.get_root()
    root['t'] = tree
    conn.commit()
    keys = keys_of(r)
    m = {}
    fill(c, tree, m, keys)
    conn.commit()
    for _ in range(r.choice([4, 10, 20])):
        if r.random() < 0.3:
            # start from ghosts
            conn = Connection(storage, cache_size=r.choice([1, 10, 1000]))
            tree = conn.get_root()['t']
        before = dict(m)
        for _ in range(r.choice([1, 1, 1, 2, 5, 20])):
            btree_op(c, tree, m, keys)
        if r.random() < 0.1:
            btree_op(c, tree, m, keys, 'clear')
        if r.random() < 0.6:
            c.log('commit')
            conn.commit()
        else:
            c.log('abort')
            conn.abort()
            m = before
            same(c, tree, m, keys, 'after abort')
        other = Connection(storage).get_root()['t']
        same(c, other, m, keys, 'as another connection sees it')
        check_structure(c, other)
        for q in r.sample(keys, min(len(keys), 5)):
            c.equal(q in tree, q in m, '%r in the tree' % (q,))
    c.note()
