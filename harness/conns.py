"""C04 C13 C14 C17 C18 C20: connections."""
import gc
import io
import pickle
import struct
import weakref
import zlib
from harness.core import case, short
from harness.rig import Rig
from harness.storages import ROOT, refs_of, reachable


def classes():
    from durus.persistent import Persistent, PersistentObject
    global Node, Slotted, Other
    if 'Node' not in globals():
        Node = type('Node', (Persistent,), {'__module__': __name__})
        Slotted = type('Slotted', (PersistentObject,), {
            '__module__': __name__, '__slots__': ['v', 'w', 'refs']})
        Other = type('Other', (Node,), {'__module__': __name__})
    return Node, Slotted, Other


def split_record(record):
    n = struct.unpack('>L', record[8:12])[0]
    return record[:8], record[12:12 + n], refs_of(record)


class Unpickler(pickle.Unpickler):
    def persistent_load(self, pid):
        oid, klass = pid
        self.found.append(oid)
        return ('ref', oid, klass)


def decode(record):
    """-> (oid, class, state with ('ref', oid, class) for references,
    references found in the state, references listed), with nothing of durus"""
    oid, data, refs = split_record(record)
    f = io.BytesIO(data)
    u = Unpickler(f)
    u.found = []
    klass = u.load()
    rest = data[f.tell():]
    try:
        rest = zlib.decompress(rest)
    except zlib.error:
        pass
    u2 = Unpickler(io.BytesIO(rest))
    u2.found = []
    # the memo of the class pickle is used by the state pickle
    u3 = Unpickler(io.BytesIO(data[:f.tell()] + rest))
    u3.found = []
    u3.load()
    state = u3.load()
    return oid, klass, state, u3.found, refs


def records_of(storage):
    """every record of a storage of any kind"""
    if type(storage).__name__ == 'MemoryStorage':
        return dict(storage.records) # its gen_oid_record() is a traversal
    return dict((oid, record) for oid, record in storage.gen_oid_record())


def check_records(c, storage, what):
    """the records of a storage: listed references are exactly those that the
    state has, to others, and each of them has a record"""
    records = records_of(storage)
    for oid, record in records.items():
        o, klass, state, found, listed = decode(record)
        c.equal(o, oid, 'oid in the record')
        c.check(len(listed) == len(set(listed)), 'a reference is listed twice %s', what)
        c.equal(sorted(listed), sorted(set(found) - set([oid])),
                'references listed in a record of %s %s' % (klass.__name__, what))
        for ref in listed:
            try:
                storage.load(ref)
            except KeyError:
                c.fail('a record refers to %r, which has none, %s' % (ref, what))
    return records


# -- values with references to persistent objects

def some_value(r, pool, depth=0):
    """-> (value, plain form): the plain form has ('ref', name) for objects"""
    k = r.random()
    if k < 0.35 and pool:
        o = r.choice(pool)
        return o
    if k < 0.6 or depth > 2:
        return r.choice([None, 0, -1, 'text', b'bytes', 2.5, (), True, 'x' * 100,
                         r.randbytes(30), r.randbytes(r.choice([10, 3000, 25000])) if depth == 0 and r.random() < .2 else 7])
    if k < 0.75:
        return [some_value(r, pool, depth + 1) for _ in range(r.randrange(4))]
    if k < 0.9:
        return {r.choice(['p', 'q', 3, (1, 2)]): some_value(r, pool, depth + 1)
                for _ in range(r.randrange(3))}
    return tuple(some_value(r, pool, depth + 1) for _ in range(r.randrange(3)))


def plain(x, name):
    """a value with the names of the persistent objects in their place"""
    from durus.persistent import PersistentBase
    if isinstance(x, PersistentBase):
        return ('ref', name(x))
    if isinstance(x, list):
        return [plain(y, name) for y in x]
    if isinstance(x, tuple):
        return ('tuple',) + tuple(plain(y, name) for y in x)
    if isinstance(x, dict):
        return {k: plain(y, name) for k, y in x.items()}
    return x


def plain_state(x, oids):
    """the same for a decoded state"""
    if isinstance(x, tuple) and len(x) == 3 and x[0] == 'ref':
        return ('ref', oids.get(x[1], x[1]))
    if isinstance(x, list):
        return [plain_state(y, oids) for y in x]
    if isinstance(x, tuple):
        return ('tuple',) + tuple(plain_state(y, oids) for y in x)
    if isinstance(x, dict):
        return {k: plain_state(y, oids) for k, y in x.items()}
    return x


def objects_in(x, out):
    from durus.persistent import PersistentBase
    if isinstance(x, PersistentBase):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            objects_in(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            objects_in(y, out)
    return out


def new_storage(c, kinds=('memory', 'memory', 'temp', 'file', 'file2', 'sqlite')):
    kind = c.rng.choice(kinds)
    c.log('storage', kind)
    if kind == 'memory':
        from durus.storage import MemoryStorage
        return MemoryStorage()
    if kind in ('temp', 'file'):
        from durus.file_storage import FileStorage
        return FileStorage(c.path('s.db')) if kind == 'file' else FileStorage()
    if kind == 'file2':
        from durus.file_storage2 import FileStorage2
        return FileStorage2(c.path('s.db'))
    from durus.sqlite_storage import SqliteStorage
    return SqliteStorage(c.path('s.db'))


class Graph(object):
    """Objects of one connection and the model of their attributes.
    The names are numbers; objects[0] is the root."""
    def __init__(self, c, conn):
        self.c = c
        self.r = c.rng
        self.conn = conn
        self.objects = {0: conn.get_root()}
        self.names = {id(conn.get_root()): 0}
        self.next = 1
        self.now = {0: {}}          # name -> attributes, of everything made
        self.committed = {0: {}}
        self.stored = {0}           # names that have a record
        self.dirty = set()

    def name(self, o):
        return self.names[id(o)]

    def make(self):
        K = self.r.choice(classes())
        o = K()
        n = self.next
        self.next += 1
        self.objects[n] = o
        self.names[id(o)] = n
        self.now[n] = {}
        return n

    def attr(self, n):
        if n == 0:
            return self.r.choice(['a', 'b', 'c', 1, 2])
        if isinstance(self.objects[n], Slotted):
            return self.r.choice(['v', 'w', 'refs'])
        return self.r.choice(['v', 'w', 'refs', 'x', '_y'])

    def change(self, n, pool=None, value=None):
        o = self.objects[n]
        a = self.attr(n)
        if a in self.now[n] and self.r.random() < 0.2 and value is None:
            if n == 0:
                del o[a]
            else:
                delattr(o, a)
            del self.now[n][a]
        else:
            if value is None:
                value = some_value(self.r, [self.objects[i] for i in pool])
            if n == 0:
                o[a] = value
            else:
                setattr(o, a, value)
            self.now[n][a] = value
        self.dirty.add(n)

    def reach(self, names):
        """names of all the objects that the unsaved among them lead to"""
        todo = list(names)
        seen = set(todo)
        while todo:
            n = todo.pop()
            if n in self.stored and n not in self.dirty:
                continue
            for o in objects_in(list(self.now[n].values()), []):
                m = self.name(o)
                if m not in seen:
                    seen.add(m)
                    todo.append(m)
        return seen

    def read(self, n):
        """attributes of an object as a user sees them"""
        o = self.objects[n]
        if n == 0:
            return dict(o.items())
        out = {}
        for a in ['v', 'w', 'refs', 'x', '_y']:
            if hasattr(o, a):
                out[a] = getattr(o, a)
        return out

    def committed_now(self):
        new = self.reach(self.dirty & self.stored)
        self.stored |= new
        for n in new:
            self.committed[n] = dict(self.now[n])
        self.dirty -= new

    def aborted(self):
        for n in list(self.now):
            if n in self.stored:
                self.now[n] = dict(self.committed[n])
                self.dirty.discard(n)

    def check_all(self, what):
        c = self.c
        for n in self.now:
            c.equal(plain(self.read(n), self.name), plain(self.now[n], self.name),
                    'attributes of object %d %s' % (n, what))

    def check_stored(self, storage, what):
        """what the storage has is what was committed"""
        c = self.c
        records = check_records(c, storage, what)
        oids = {}
        for n in self.stored:
            oid = self.objects[n]._p_oid
            c.check(oid is not None and oid not in oids, 'oid of object %d %s', n, what)
            c.check(oid in records, 'object %d has no record %s', n, what)
            oids[oid] = n
        c.equal(sorted(records), sorted(oids), 'oids that have records ' + what)
        for oid, n in oids.items():
            _, klass, state, found, listed = decode(records[oid])
            o = self.objects[n]
            c.check(klass is type(o), 'class of object %d %s', n, what)
            if n == 0:
                state = state['data']
            c.equal(plain_state(state, oids), plain(self.committed[n], self.name),
                    'stored state of object %d %s' % (n, what))
        for n in self.now:
            if n not in self.stored:
                o = self.objects[n]
                c.check(o._p_oid is None and o._p_connection is None and o._p_is_unsaved(),
                        'object %d, which was not stored, has an oid or a connection %s', n, what)


@case('C17', 'C04', n=250, flavours=('c', 'py'))
def conn_graph(c):
    """random object graphs with values of every kind, some commits failing,
    aborts; every record decoded and compared with the model; a second
    connection sees the same graph."""
    from durus.connection import Connection
    r = c.rng
    storage = new_storage(c)
    conn = Connection(storage, cache_size=r.choice([1, 3, 10, 10000]))
    g = Graph(c, conn)
    classes()
    for step in range(r.choice([3, 6, 12])):
        for _ in range(r.choice([1, 2, 5, 9])):
            while r.random() < 0.6:
                g.make()
            pool = sorted(g.now)
            n = r.choice(pool) if r.random() < 0.6 else r.choice(pool[-4:])
            g.change(n, pool)
        if r.random() < 0.5:
            g.change(0, sorted(g.now))
        k = r.random()
        if k < 0.2 and (g.dirty & g.stored):
            # something that can't be stored
            how = r.choice(['pickle', 'pickle', 'connection', 'storage', 'storage end'])
            c.log('failing commit', how)
            n = r.choice(sorted(g.reach(g.dirty & g.stored)))
            undo = lambda: None
            if how == 'pickle':
                g.change(n, value=lambda: 0)
            elif how == 'connection':
                foreign = classes()[0]()
                foreign._p_oid = b'foreign!'
                foreign._p_connection = object()
                g.names[id(foreign)] = -1
                g.change(n, value=[foreign])
                n_bad = foreign
            else:
                count = [r.randrange(3)]
                name = 'store' if how == 'storage' else 'end'
                original = getattr(storage, name)
                def failing(*a, **k):
                    if name == 'end' or count[0] == 0:
                        raise IOError('no space left')
                    count[0] -= 1
                    return original(*a, **k)
                setattr(storage, name, failing)
                def undo():
                    delattr(storage, name)
            bad = n
            try:
                conn.commit()
            except Exception as e:
                failed = True
            else:
                failed = False
            undo()
            if failed:
                conn.abort()
                # an object that was never stored keeps what it has
                g.aborted()
                if how in ('pickle', 'connection') and bad not in g.stored:
                    for a, v in list(g.now[bad].items()):
                        if callable(v) or isinstance(v, list) and v and id(v[0]) in g.names \
                                and g.names[id(v[0])] == -1:
                            delattr(g.objects[bad], a)
                            del g.now[bad][a]
            else:
                c.check(how == 'storage', 'a commit succeeded that could not')
                g.committed_now()
        elif k < 0.3:
            c.log('abort')
            conn.abort()
            g.aborted()
        else:
            c.log('commit')
            if (g.dirty & g.stored):
                conn.commit()
                g.committed_now()
        c.check(not conn.changed, 'changes are left')
        g.check_stored(storage, 'at step %d' % step)
        if r.random() < 0.5:
            g.check_all('at step %d' % step)
        if r.random() < 0.3:
            other = Connection(storage, cache_size=r.choice([1, 1000]))
            compare(c, g, other)
    g.check_all('at the end')
    compare(c, g, Connection(storage))
    c.note(len(g.stored) > 3)


def compare(c, g, other):
    """another connection sees the same graph"""
    oids = {g.objects[n]._p_oid: n for n in g.stored}
    seen = {}
    for oid, n in oids.items():
        o = other.get(oid)
        c.check(o is not None and type(o) is type(g.objects[n]), 'object %d in another connection', n)
        if n == 0:
            state = dict(o.items())
        else:
            state = {a: getattr(o, a) for a in ['v', 'w', 'refs', 'x', '_y'] if hasattr(o, a)}
        def name(x):
            c.check(x._p_connection is other, 'a reference to another connection')
            c.check(seen.setdefault(x._p_oid, x) is x, 'two objects for one oid')
            return oids[x._p_oid]
        c.equal(plain(state, name), plain(g.committed[n], g.name),
                'attributes of object %d in another connection' % n)


@case('C18', n=200, flavours=('c', 'py'))
def conn_cache(c):
    """cache sizes from 1 on, many objects, references held and dropped: one
    object per oid, no change and no state in use is dropped, what is
    evicted comes back unchanged."""
    from durus.connection import Connection
    from durus.persistent import _getattribute
    r = c.rng
    storage = new_storage(c, ('memory', 'memory', 'temp'))
    size = r.choice([1, 2, 5, 10, 20])
    conn = Connection(storage, cache_size=size)
    N = classes()[0]
    n = r.choice([3, 10, 30, 60])
    nodes = [N() for _ in range(n)]
    value = [0] * n
    links = [[] for _ in range(n)]
    for i, o in enumerate(nodes):
        o.value = 0
        links[i] = [r.randrange(n) for _ in range(r.choice([0, 1, 3]))]
        o.refs = [nodes[j] for j in links[i]]
    conn.get_root()['all'] = nodes
    conn.commit()
    oids = [o._p_oid for o in nodes]
    committed = list(value)
    held = {i: nodes[i] for i in r.sample(range(n), r.randrange(n))}
    if r.random() < 0.5:
        conn.get_root()._p_set_status_ghost()
    nodes = o = None
    gc.collect()
    used = set()
    changed = set()
    def get(i):
        if r.random() < 0.5:
            o = conn.get(oids[i])
        else:
            o = conn.get_root()['all'][i]
        if i in held:
            c.check(o is held[i], 'two objects for one oid')
        return o
    def snapshot():
        """what may not be touched: objects used or changed in this transaction"""
        return {i: (held[i], dict(_getattribute(held[i], '__dict__'))) for i in used | changed if i in held}
    for step in range(r.choice([10, 40, 100])):
        i = r.randrange(n)
        k = r.random()
        if k < 0.3:
            o = get(i)
            c.equal(o.value, value[i], 'value of object %d' % i)
            c.equal([p._p_oid for p in o.refs], [oids[j] for j in links[i]], 'references of %d' % i)
            for p, j in zip(o.refs, links[i]):
                if j in held:
                    c.check(p is held[j], 'a reference leads to a second object')
            used.add(i)
            if r.random() < 0.5:
                held[i] = o
        elif k < 0.5:
            o = get(i)
            value[i] += 1
            o.value = value[i]
            changed.add(i)
            if r.random() < 0.5:
                held[i] = o
        elif k < 0.6:
            held.pop(i, None)
            o = None
            if r.random() < 0.3:
                gc.collect()
        elif k < 0.75:
            before = snapshot()
            ghosts = {j: p._p_is_ghost() for j, p in held.items()}
            conn.shrink_cache()
            for j, (p, d) in before.items():
                c.check(not p._p_is_ghost(), 'shrinking evicted object %d, which is in use', j)
                c.equal(_getattribute(p, '__dict__'), d, 'state in use after shrinking')
            for j in changed:
                c.check(conn.changed.get(oids[j]) is not None and
                        conn.changed[oids[j]]._p_is_unsaved(), 'an unsaved change was evicted')
            if len(held) == n and False:
                pass
        elif k < 0.85:
            c.log('commit')
            conn.commit()
            committed = list(value)
            used.clear(); changed.clear()
        elif k < 0.93:
            c.log('abort')
            conn.abort()
            value = list(committed)
            used.clear(); changed.clear()
        elif k < 0.96:
            conn.set_cache_size(r.choice([1, 3, 50]))
            c.raises(ValueError, lambda: conn.set_cache_size(0), 'cache size 0')
        else:
            c.log('collect')
            o = None
            gc.collect()
        cached = {}
        for p in conn.get_cache():
            if p is not None:
                c.check(p._p_oid not in cached, 'the cache has two objects for one oid')
                cached[p._p_oid] = p
        for j, p in held.items():
            c.check(cached.get(oids[j]) is p, 'an object that is alive is not in the cache')
        cached = p = None
        c.check(conn.get_cache_count() >= len(held), 'cache count')
    conn.abort()
    value = list(committed)
    for i in range(n):
        c.equal(get(i).value, value[i], 'value of object %d at the end' % i)
    other = Connection(storage)
    c.equal([p.value for p in other.get_root()['all']], value, 'values in another connection')
    c.note()


@case('C18', n=30)
def conn_cache_size(c):
    """after commits the number of states in memory comes down to the target"""
    from durus.connection import Connection
    from durus.storage import MemoryStorage
    r = c.rng
    storage = MemoryStorage()
    size = r.choice([2, 5, 20])
    conn = Connection(storage, cache_size=size)
    N = classes()[0]
    n = r.choice([10, 50, 200])
    root = conn.get_root()
    for i in range(n):
        root[i] = N()
        root[i].value = i
    for _ in range(12):
        conn.commit()
        conn.abort()
    loaded = [i for i in range(n) if not root[i]._p_is_ghost()] if False else [
        p for p in conn.get_cache() if p is not None and not p._p_is_ghost()]
    c.check(len(loaded) <= max(size, 1) + 2 or conn.get_cache_count() <= size,
            '%d states are in memory, the target is %d', len(loaded), size)
    for i in range(n):
        c.equal(root[i].value, i, 'value after eviction')
    c.note()


@case('C20', n=150)
def conn_crawl(c):
    """crawler, instance query, reference query, census and search of class
    references against the records."""
    from durus.connection import Connection, gen_every_instance, touch_every_reference
    from durus.storage import (gen_referring_oid_record, gen_oid_class, get_census,
                               get_reference_index)
    r = c.rng
    storage = new_storage(c)
    conn = Connection(storage)
    g = Graph(c, conn)
    N, S, O = classes()
    for _ in range(r.choice([1, 4])):
        for _ in range(r.choice([1, 5, 15])):
            g.make()
        for _ in range(r.choice([3, 10, 30])):
            g.change(r.choice(sorted(g.now)), sorted(g.now))
        g.change(0, sorted(g.now))
        if g.dirty & g.stored:
            conn.commit()
            g.committed_now()
    conn.abort()
    g.aborted()
    records = records_of(storage)
    if type(storage).__name__ == 'MemoryStorage':
        # its enumeration is a traversal from the root
        records = {o: records[o] for o in reachable(records)}
    # the crawler
    for _ in range(3):
        fresh = Connection(storage, cache_size=r.choice([1, 5, 1000]))
        if r.random() < 0.5:
            for oid in r.sample(sorted(records), len(records) // 2):
                o = fresh.get(oid)
                if r.random() < 0.5:
                    o._p_set_status_ghost()
        start = r.choice(sorted(records))
        batch = r.choice([1, 2, 3, 100])
        seen = []
        for o in fresh.get_crawler(start_oid=start, batch_size=batch):
            c.check(not o._p_is_ghost(), 'the crawler yields a ghost')
            c.check(o._p_connection is fresh and o._p_is_saved(), 'status of a crawled object')
            c.check(fresh.get(o._p_oid) is o, 'a crawled object is not in the cache')
            from durus.persistent import _getattribute
            st = decode(records[o._p_oid])[2]
            got = o.__getstate__()
            name = lambda x: x._p_oid
            c.equal(plain(got, name), plain_state(st, {}), 'state of a crawled object')
            seen.append(o)
        c.equal(sorted(o._p_oid for o in seen), sorted(reachable(records, start)),
                'objects of a crawl from %r' % start)
        c.equal(len(set(id(o) for o in seen)), len(seen), 'an object twice')
    # queries
    klass = {oid: decode(x)[1] for oid, x in records.items()}
    for ks in ((N,), (S,), (O,), (N, S), (object,), (dict,)):
        got = [o._p_oid for o in gen_every_instance(conn, *ks)]
        c.equal(sorted(got), sorted(o for o in records if issubclass(klass[o], ks)), 'instances')
    target = r.choice(sorted(records))
    got = list(gen_referring_oid_record(storage, target))
    c.equal(sorted(got), sorted((o, x) for o, x in records.items() if target in refs_of(x)), 'referrers')
    census = get_census(storage)
    want = {}
    for k in klass.values():
        want[k.__name__.encode()] = want.get(k.__name__.encode(), 0) + 1
    c.equal(census, want, 'census')
    c.equal(sorted(gen_oid_class(storage, b'Node')), sorted(
        (o, b'Node') for o in records if klass[o] is N), 'oids of a class')
    index = {}
    for o in records:
        for ref in refs_of(records[o]):
            index.setdefault(ref, []).append(o)
    c.equal({k: sorted(v) for k, v in get_reference_index(storage).items()},
            {k: sorted(v) for k, v in index.items()}, 'reference index')
    # search of references to a class
    fresh = Connection(storage)
    word = r.choice(['Slotted', 'Other', 'PersistentDict', 'nothing at all'])
    touch_every_reference(fresh, word)
    def mentions(oid):
        o, data, refs = split_record(records[oid])
        f = io.BytesIO(data)
        u = Unpickler(f); u.found = []
        u.load()
        rest = data[f.tell():]
        try:
            rest = zlib.decompress(rest)
        except zlib.error:
            pass
        return word.encode() in data or word.encode() in rest
    c.equal(sorted(fresh.changed), sorted(o for o in records if mentions(o)), 'objects touched')
    c.note(len(records) > 2)


# -- several connections to one server

@case('C13', 'C14', n=150, limit=60, flavours=('c', 'py'))
def conn_transactions(c):
    """several clients of one server: random reads, writes, commits, aborts,
    evictions and packs; every read, conflict and stored state against the
    history of committed states."""
    from durus.connection import Connection
    from durus.error import ConflictError, ReadConflictError, WriteConflictError
    from durus.persistent import _getattribute
    r = c.rng
    kind = r.choice(['memory', 'file', 'file', 'file2', 'sqlite'])
    def make():
        if kind == 'memory':
            from durus.storage import MemoryStorage
            return MemoryStorage()
        if kind == 'file':
            from durus.file_storage import FileStorage
            return FileStorage(c.path('s.db'))
        if kind == 'file2':
            from durus.file_storage2 import FileStorage2
            return FileStorage2(c.path('s.db'))
        from durus.sqlite_storage import SqliteStorage
        return SqliteStorage(c.path('s.db'))
    c.log('storage', kind)
    rig = Rig(c, make, gate=True)
    try:
        transactions(c, rig, Connection, ReadConflictError, WriteConflictError, kind)
        rig.close()
    finally:
        if not rig.stopped:
            try:
                rig.close()
            except Exception:
                pass
    c.note()


class Txn(object):
    """a client and what is known of its transaction"""
    def __init__(self, conn, version):
        self.conn = conn
        self.restart(version)

    def restart(self, version):
        self.base = version     # states before this one may not be seen
        self.seen = {}          # name -> state when first used
        self.writes = {}        # name -> value
        self.broken = False


def transactions(c, rig, Connection, ReadConflictError, WriteConflictError, kind):
    from durus.persistent import _getattribute
    r = c.rng
    N = classes()[0]
    count = r.choice([2, 3, 6, 12])
    first = Connection(rig.client(), cache_size=r.choice([1, 3, 1000]))
    root = first.get_root()
    for i in range(count):
        o = N()
        o.value = o.copy = (i, 0)
        o.ref = None
        root['o%d' % i] = o
    first.commit()
    oids = {i: root['o%d' % i]._p_oid for i in range(count)}
    first.commit()
    # history[v]: name -> value
    history = [{i: (i, 0) for i in range(count)}]
    clients = [Txn(first, 0)]
    for _ in range(r.choice([1, 1, 2, 3])):
        clients.append(Txn(Connection(rig.client(), cache_size=r.choice([1, 3, 1000])), 0))
    stamp = 0
    packs = 0
    for t in clients:
        t.conn.abort()
        t.restart(len(history) - 1)
    latest = lambda: history[-1]

    def objects(t, i):
        o = t.conn.get(oids[i])
        c.check(o is not None, 'object %d is missing', i)
        return o

    def consistent(t):
        for v in range(t.base, len(history)):
            h = history[v]
            if all(h.get(i) == x for i, x in t.seen.items()):
                return True
        return False

    def stale(t):
        """objects used that another client has changed since"""
        return sorted(i for i in t.seen if t.seen[i] != latest()[i])

    def use(t, i, v):
        """the state v of object i is now part of the transaction"""
        c.equal(v, t.seen.setdefault(i, v), 'object %d used twice' % i)
        c.check(consistent(t), 'client %d sees %r, which belongs to no state since version %d',
                clients.index(t), t.seen, t.base)

    def conflict_read(t, i):
        c.check(stale(t), 'a read conflict, but nothing was changed that the transaction used')
        t.broken = True

    steps = r.choice([10, 30, 60, 100])
    for step in range(steps):
        t = r.choice(clients)
        who = clients.index(t)
        k = r.random()
        if t.broken:
            # all that can be done is abort
            if r.random() < 0.3:
                try:
                    t.conn.commit()
                except (AssertionError, Exception):
                    pass
                else:
                    c.check(not t.writes, 'a commit after a conflict succeeded')
            c.log('%d abort' % who)
            t.conn.abort()
            t.restart(len(history) - 1)
            continue
        i = r.choice(sorted(latest()))
        if k < 0.35:
            c.log('%d read %d' % (who, i))
            try:
                o = objects(t, i)
                v = o.value
            except ReadConflictError:
                conflict_read(t, i)
                continue
            if i in t.writes:
                c.equal(v, t.writes[i], 'own change of object %d' % i)
            else:
                use(t, i, v)
        elif k < 0.6:
            stamp += 1
            c.log('%d write %d' % (who, i))
            try:
                o = objects(t, i)
                if r.random() < 0.15:
                    n = N()
                    n.value = ('new', stamp)
                    o.ref = n
                elif r.random() < 0.3 and not o._p_is_unsaved():
                    o._p_note_change()
                o.value = (i, stamp)
            except ReadConflictError:
                conflict_read(t, i)
                continue
            # 'copy' tells which state it was
            v = _getattribute(o, 'copy')
            if i not in t.writes:
                use(t, i, v)
            t.writes[i] = (i, stamp)
            o.copy = (i, stamp)
        elif k < 0.7:
            if r.random() < 0.5:
                t.conn.shrink_cache()
            else:
                # a state that is not in use is dropped
                o = t.conn.get_cache().get(oids[i])
                if o is not None and i not in t.seen and o._p_is_saved():
                    o._p_set_status_ghost()
        elif k < 0.9:
            c.log('%d commit' % who, short(sorted(t.writes)))
            must_fail = bool(t.writes) and bool(stale(t))
            try:
                t.conn.commit()
                ok = True
            except WriteConflictError:
                ok = False
            except ReadConflictError:
                ok = False
            if ok:
                c.check(not must_fail, 'client %d commits, but %r, which it used, was changed '
                        'by another', who, stale(t))
                if t.writes:
                    h = dict(latest())
                    h.update(t.writes)
                    history.append(h)
                t.restart(len(history) - 1)
            else:
                c.check(must_fail, 'client %d gets a conflict, but nothing that it used was changed', who)
                c.log('%d conflict' % who)
                t.conn.abort()
                t.restart(len(history) - 1)
        elif k < 0.97:
            c.log('%d abort' % who)
            t.conn.abort()
            t.restart(len(history) - 1)
        elif kind != 'memory' and rig.server.packer is None:
            c.log('%d pack' % who)
            t.conn.get_storage().pack()
        if rig.server.packer is not None and r.random() < 0.6:
            rig.step()
        rig.check()
        if step % 10 == 9 or step == steps - 1:
            # what is stored
            try:
                look = Connection(rig.client())
            except Exception:
                rig.check()
                raise
            for i, v in latest().items():
                c.equal(look.get(oids[i]).value, v, 'stored value of object %d' % i)
            look.get_storage().close()
            time_out(rig)
    rig.finish_pack()
    # after abort everybody sees the last state
    for t in clients:
        t.conn.abort()
        for i, v in latest().items():
            c.equal(t.conn.get(oids[i]).value, v, 'object %d after abort' % i)
    look = Connection(rig.client())
    check_records(c, look.get_storage(), 'at the end')
    for i, v in latest().items():
        c.equal(look.get(oids[i]).value, v, 'stored value of object %d' % i)


def time_out(rig):
    import time
    end = time.time() + 5
    n = len([s for s in rig.sockets if s.fileno() != -1])
    while len(rig.server.clients) > n and time.time() < end:
        time.sleep(0.0002)


@case('C13', 'C14', 'C17', n=100, limit=60)
def conn_bank(c):
    """clients that move amounts between containers (dict, list, BTree) and
    try again after conflicts: the total never changes and nothing is lost."""
    from durus.connection import Connection
    from durus.error import ConflictError
    from durus.persistent_dict import PersistentDict
    from durus.persistent_list import PersistentList
    from durus.btree import BTree
    r = c.rng
    path = c.path('s.db')
    def make():
        from durus.file_storage import FileStorage
        return FileStorage(path)
    rig = Rig(c, make, gate=True)
    try:
        first = Connection(rig.client())
        root = first.get_root()
        N = classes()[0]
        n = r.choice([2, 4, 8])
        root['d'] = PersistentDict()
        root['l'] = PersistentList()
        root['t'] = BTree()
        for i in range(n):
            o = N()
            o.amount = 100
            root['d'][i] = o
            root['l'].append(o)
            root['t'][i] = o
        root['t'][-1] = 0
        first.commit()
        clients = [first] + [Connection(rig.client(), cache_size=r.choice([1, 5, 100]))
                             for _ in range(r.choice([1, 2]))]
        model = {i: 100 for i in range(n)}
        log = set()
        for step in range(r.choice([5, 15, 30])):
            a, b = r.sample(range(len(clients)), 2) if r.random() < 0.7 else (0, 0)
            def move(conn, i, j, amount):
                root = conn.get_root()
                x = root[r.choice('dlt')][i]
                y = root[r.choice('dlt')][j]
                x.amount -= amount
                y.amount += amount
                root['t'][-1] += 1
                if r.random() < 0.5:
                    root['t'][1000 + step] = amount
                return True
            i, j = r.randrange(n), r.randrange(n)
            # one client works, another commits in between, the first tries again
            amount = r.randrange(10)
            try:
                move(clients[a], i, j, amount)
                pending = True
            except ConflictError:
                clients[a].abort()
                pending = False
            if a != b:
                while True:
                    try:
                        k, l = r.randrange(n), r.randrange(n)
                        move(clients[b], k, l, 5)
                        clients[b].commit()
                        model[k] -= 5
                        model[l] += 5
                        break
                    except ConflictError:
                        clients[b].abort()
            if pending:
                try:
                    clients[a].commit()
                    model[i] -= amount
                    model[j] += amount
                    c.check(a == b, 'both of two conflicting transactions are stored')
                except ConflictError:
                    clients[a].abort()
            if r.random() < 0.2:
                clients[b].get_storage().pack()
                rig.finish_pack()
            z = r.choice(clients)
            z.abort()
            c.equal({i: z.get_root()['d'][i].amount for i in range(n)}, model, 'amounts')
            c.check(all(z.get_root()['l'][i] is z.get_root()['t'][i] for i in range(n)), 'identity')
        rig.close()
    finally:
        if not rig.stopped:
            try:
                rig.close()
            except Exception:
                pass
    c.note()
