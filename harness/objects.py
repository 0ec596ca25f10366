"""C12: persistent objects: load on access, registering changes, abort; the C
and the pure Python base classes (each case runs with both)."""
import gc
import pickle
import sys
from harness.core import case

NAMES = ['a', 'b', 'c_', 'value', '_', '__', '_q', '_p', '_px', '_private', 'p_x',
         '__dict__', '__getstate__', '__init__', '__rep', '__repr', '__repr_', '__repr__x',
         '__reduce__', '__class', '__class_', '__class__x', '__setstat', '__setstate_',
         '__setstate__x', '__slots__', '__str__', '__eq__', '__s', '__r', '__c',
         '__setattr__', '__module__', '__doc__', 'repr__', '\u00e9t\u00e9', '_\u00e9', 'x' * 300]
INTERNAL = ['_p_status', '_p_oid', '_p_serial', '_p_connection', '_p_note_change', '_p_is_ghost',
            '__repr__', '__class__', '__setstate__']
MISSING = ['_p_', '_p_unknown', '_p_x']


def classes():
    from durus.persistent import Persistent, PersistentObject
    global P, PS, PB, PM
    if 'P' not in globals():
        P = type('P', (Persistent,), {'__module__': __name__, 'klass_attr': 7})
        PS = type('PS', (PersistentObject,), {'__module__': __name__,
                  '__slots__': ['a', 'b', 'value', '_private', 'p_x']})
        PB = type('PB', (PS,), {'__module__': __name__, '__slots__': ['c_', '_q']})
        PM = type('PM', (PB,), {'__module__': __name__})
    return [P, PS, PB, PM]


def stub_class():
    from durus.persistent import ConnectionBase, _setattribute

    class Stub(ConnectionBase):
        """stands for the connection; records what it is told"""
        def __init__(self):
            self.events = []
            self.state = {}
            self.fail = None
        def load_state(self, obj):
            self.events.append('load')
            if self.fail:
                raise self.fail
            obj.__setstate__(dict(self.state))
        def note_access(self, obj):
            self.events.append('access')
            if self.fail:
                raise self.fail
            _setattribute(obj, '_p_serial', self.transaction_serial)
        def note_change(self, obj):
            self.events.append('change')
    return Stub


@case('C12', n=400, flavours=('c', 'py'))
def object_attributes(c):
    """every attribute name x get/set/del/has x status x connection: which of
    load_state, note_access and note_change is called, the result and the
    status afterwards."""
    from durus import persistent
    from durus.persistent import _setattribute, _getattribute, _hasattribute
    r = c.rng
    Stub = stub_class()
    conn = Stub()
    K = r.choice(classes())
    o = K()
    c.equal((o._p_status, o._p_serial, o._p_connection, o._p_oid), (1, 0, None, None),
            'state of a new object')
    c.equal(conn.transaction_serial, 1, 'transaction_serial of a new connection')
    slots = set()
    for k in K.__mro__:
        slots.update(getattr(k, '__slots__', []))
    has_dict = _hasattribute(o, '__dict__')
    usable = ['a', 'b', 'value', '_private', 'p_x'] + (['c_', '_q'] if K is PB else [])
    if has_dict:
        usable = [n for n in NAMES if n[:2] != '__'] + ['__', '__rep', '__class_', '__setstate__x',
                                                       '__repr_', '__s', '__c']
    for _ in range(r.choice([4, 12, 30])):
        status = r.choice([-1, -1, 0, 0, 1])
        connected = r.random() < 0.85 or status == -1
        current = r.random() < 0.4
        committed = {n: r.randrange(100) for n in r.sample(usable, r.randrange(len(usable)))}
        conn.state = committed
        conn.fail = None
        conn.events = []
        conn.transaction_serial = r.choice([1, 2, 500, 70000, 2 ** 40])
        serial = conn.transaction_serial if current else 0
        o.__setstate__({} if status == -1 else committed)
        o._p_serial = serial
        o._p_status = status
        o._p_connection = conn if connected else None
        o._p_oid = b'12345678' if connected else None
        if r.random() < 0.1:
            conn.fail = ValueError('no such thing')
        op = r.choice(['get', 'get', 'set', 'set', 'del', 'has', 'state', 'generic'])
        pool = r.choice([usable, usable, NAMES, INTERNAL, MISSING])
        if op in ('set', 'del'):
            pool = r.choice([usable, usable, ['_p_local']])
        name = r.choice(pool)
        name = str(name) if r.random() < 0.5 else ''.join(list(name))
        internal = name[:3] == '_p_' or name in ('__repr__', '__class__', '__setstate__')
        c.log(K.__name__, op, name, 'status', str(status), 'connected', str(connected),
              'current', str(current), 'fail', str(bool(conn.fail)))
        expect = []
        after = status
        if op in ('get', 'has'):
            if not internal:
                if status == -1:
                    expect.append('load')
                    after = 0
                if connected and not current and not (conn.fail and expect):
                    expect.append('access')
            visible = dict(committed) if status != -1 or expect else {}
            failing = bool(conn.fail) and bool(expect)
            if failing:
                after = status
            try:
                got = ('ok', getattr(o, name) if op == 'get' else hasattr(o, name))
            except AttributeError:
                got = ('missing', None)
            except ValueError:
                got = ('failed', None)
            events = list(conn.events)
            conn.fail = None
            if failing:
                c.equal(got[0], 'failed', 'an error of the connection')
            elif op == 'has':
                c.equal(got, ('ok', name in visible or (
                    has_dict if name == '__dict__' else hasattr(K, name) and name not in usable)), 'hasattr(%r)' % name)
            elif name in visible:
                c.equal(got, ('ok', visible[name]), 'value of %r' % name)
            elif name in usable or not (has_dict if name == '__dict__' else hasattr(K, name)):
                c.equal(got[0], 'missing', 'value of %r' % name)
            else:
                c.equal(got[0], 'ok', 'value of %r' % name)
            c.equal(events, expect, '%s of %r tells the connection' % (op, name))
            if 'access' in expect and not failing:
                c.equal(o._p_serial, conn.transaction_serial, '_p_serial after an access')
        elif op in ('set', 'del'):
            failing = False
            tracked = not internal or op == 'del'
            if tracked and status != 1:
                if status == -1:
                    expect.append('load')
                    if conn.fail:
                        failing = True
                if not failing and connected:
                    expect.append('change')
                after = 1
            if failing:
                after = -1
            if status == 0 and tracked and not connected:
                continue # saved without a connection: no such state
            if name == '_p_local' and not has_dict:
                continue
            if op == 'del' and not connected and status != 1:
                continue
            value = object()
            try:
                if op == 'set':
                    setattr(o, name, value)
                else:
                    delattr(o, name)
                got = 'ok'
            except AttributeError:
                got = 'missing'
            except ValueError:
                got = 'failed'
            events = list(conn.events)
            conn.fail = None
            if failing:
                c.equal(got, 'failed', 'an error of the connection')
            else:
                if op == 'set':
                    c.equal(got, 'ok', 'setting %r' % name)
                    c.check(_getattribute(o, name) is value, 'the value set is not there')
                else:
                    c.equal(got, 'ok' if name in committed else 'missing', 'deleting %r' % name)
                    c.check(not _hasattribute(o, name), 'the deleted attribute is there')
                for n in committed:
                    if n != name and (status != -1 or tracked):
                        c.equal(_getattribute(o, n), committed[n], 'another attribute')
            c.equal(events, expect, '%s of %r tells the connection' % (op, name))
        elif op == 'state':
            if status != -1:
                conn.fail = None
            failing = bool(conn.fail)
            want = dict(committed) if status != -1 or not failing else None
            try:
                got = dict(o.__getstate__())
            except ValueError:
                got = None
            conn.fail = None
            c.equal(got, want, '__getstate__()')
            if status == -1:
                c.equal(conn.events[:1], ['load'], 'getting the state of a ghost')
                after = -1 if failing else 0
            else:
                c.check('load' not in conn.events, 'a load without need')
        else:
            # functions that bypass all of this
            want = status != -1 and name in committed or hasattr(K, name) and name not in usable
            if name in ('_p_status', '_p_oid', '_p_serial', '_p_connection'):
                want = True
            elif name == '__dict__':
                want = has_dict
            c.equal(bool(_hasattribute(o, name)), bool(want), '_hasattribute(%r)' % name)
            n = r.choice(usable)
            value = object()
            _setattribute(o, n, value)
            c.check(_getattribute(o, n) is value, '_setattribute')
            persistent._delattribute(o, n)
            c.check(not _hasattribute(o, n), '_delattribute')
            c.raises(AttributeError, lambda: persistent._delattribute(o, n), '_delattribute twice')
            c.raises(AttributeError, lambda: _getattribute(o, n), '_getattribute of a missing one')
            c.equal(conn.events, [], 'the functions that bypass tracking tell the connection')
        c.equal(o._p_status, after, 'status after %s of %r' % (op, name))
        c.equal((o._p_is_ghost(), o._p_is_saved(), o._p_is_unsaved()),
                (after == -1, after == 0, after == 1), 'status predicates')
        if connected:
            c.check(o._p_connection is conn and o._p_oid == b'12345678', 'oid or connection changed')
    c.note()


@case('C12', n=60, flavours=('c', 'py'))
def object_functions(c):
    """call_if_persistent, names that are no strings, reference counts, garbage."""
    from durus import persistent
    from durus.persistent import call_if_persistent, ConnectionBase
    r = c.rng
    Stub = stub_class()
    K = r.choice(classes())
    o = K()
    marker = object()
    c.check(call_if_persistent(lambda x: (marker, x), o) == (marker, o), 'call_if_persistent')
    for x in (None, 5, 'x', [], K, object()):
        c.check(call_if_persistent(lambda x: marker, x) is None, 'call_if_persistent of %r', x)
    def bad(x):
        raise KeyError('bad')
    c.raises(KeyError, lambda: call_if_persistent(bad, o), 'an error of the function')
    for f in (lambda: getattr(o, 5), lambda: setattr(o, 5, 1), lambda: delattr(o, 5)):
        c.raises(TypeError, f, 'a name that is no string')
    for name in ('\ud800', 'x\ud800'):
        try:
            setattr(o, name, 1)
            v = getattr(o, name)
            c.equal(v, 1, 'surrogate name')
        except (UnicodeError, AttributeError):
            pass
    # reference counts
    conn = Stub()
    value = ['value']
    oid = bytes([1, 2, 3, 4, 5, 6, 7, 8])
    serial = 10 ** 9 + r.randrange(10 ** 6)
    base = [sys.getrefcount(x) for x in (conn, value, oid, serial)]
    for _ in range(r.choice([50, 300])):
        x = K()
        x.a = value
        x._p_connection = conn
        x._p_oid = oid
        x._p_serial = serial
        x._p_status = 0
        x.a
        x.__class__
        hasattr(x, 'zzz')
        x.b = value
        persistent._setattribute(x, 'a', value)
        persistent._getattribute(x, 'a')
        persistent._hasattribute(x, 'a')
        persistent._hasattribute(x, 'zzz')
        persistent._delattribute(x, 'a')
        call_if_persistent(lambda y: y, x)
        call_if_persistent(lambda y: y, value)
        conn.events = []
    del x
    gc.collect()
    now = [sys.getrefcount(x) for x in (conn, value, oid, serial)]
    for a, b in zip(base, now):
        c.check(abs(a - b) <= 2, 'reference counts went from %r to %r', base, now)
    # cycles are collected
    import weakref
    x = P()
    x.me = x
    x._p_connection = conn
    w = weakref.ref(x)
    del x
    gc.collect()
    c.check(w() is None, 'a cycle through a persistent object is not collected')
    c.note()


def snapshot(o):
    """the attributes of an object, without using them"""
    from durus.persistent import _getattribute, _hasattribute
    d = {}
    if _hasattribute(o, '__dict__'):
        d.update(_getattribute(o, '__dict__'))
    for n in o._p_gen_data_slots():
        d[n] = _getattribute(o, n)
    return d


@case('C12', 'C04', n=250, flavours=('c', 'py'))
def object_lifecycle(c):
    """objects of every kind in a connection: random attribute operations,
    ghosts, commits (some of which fail), aborts; attributes against a dict."""
    from durus.connection import Connection
    from durus.storage import MemoryStorage
    r = c.rng
    storage = MemoryStorage()
    conn = Connection(storage)
    root = conn.get_root()
    objs = []
    usable = {}
    for i in range(r.choice([1, 3])):
        K = r.choice(classes())
        o = K()
        names = (['a', 'b', 'value', '_private', 'p_x'] if K is PS else
                 ['a', 'b', 'value', 'c_', '_q'] if K is PB else
                 ['a', 'b', 'x', '_y', '__z', 'value', 'c_'])
        objs.append(o)
        usable[o] = names
        root[i] = o
    model = [dict() for o in objs]
    conn.commit()
    committed = [dict() for o in objs]
    dirty = set()
    for step in range(r.choice([5, 20, 40])):
        i = r.randrange(len(objs))
        o = objs[i]
        n = r.choice(usable[o])
        k = r.random()
        if k < 0.35:
            v = r.choice([None, 0, 'v%d' % step, [step], objs[r.randrange(len(objs))]])
            setattr(o, n, v)
            model[i][n] = v
            dirty.add(i)
            c.log('set', str(i), n)
            c.check(conn.changed.get(o._p_oid) is o, 'the change is not registered')
        elif k < 0.5:
            c.log('del', str(i), n)
            dirty.add(i)
            if n in model[i]:
                delattr(o, n)
                del model[i][n]
            else:
                c.raises(AttributeError, lambda: delattr(o, n), 'deleting a missing attribute')
            c.check(conn.changed.get(o._p_oid) is o, 'the deletion is not registered')
        elif k < 0.7:
            c.log('get', str(i), n)
            if n in model[i]:
                c.equal(getattr(o, n), model[i][n], 'attribute %s' % n)
            else:
                c.check(not hasattr(o, n), 'attribute %s should be missing', n)
            c.check(not o._p_is_ghost(), 'still a ghost after an access')
        elif k < 0.8:
            if i not in dirty:
                c.log('ghost', str(i))
                o._p_set_status_ghost()
                c.equal(snapshot(o), {}, 'attributes of a ghost')
        elif k < 0.86 and dirty:
            # a commit that fails
            c.log('failing commit')
            j = r.choice(sorted(dirty))
            n = r.choice(usable[objs[j]])
            setattr(objs[j], n, lambda: 0) # no pickle of that
            model[j][n] = None
            try:
                conn.commit()
            except Exception:
                conn.abort()
            else:
                c.fail('a commit of something without a pickle succeeded')
            model = [dict(d) for d in committed]
            dirty = set()
        elif k < 0.93:
            c.log('commit')
            conn.commit()
            committed = [dict(d) for d in model]
            dirty = set()
            c.check(not conn.changed, 'changes are left after a commit')
        else:
            c.log('abort')
            conn.abort()
            c.check(not conn.changed, 'changes are left after an abort')
            for j in dirty:
                c.check(objs[j]._p_is_ghost(), 'a changed object is no ghost after abort')
                c.equal(snapshot(objs[j]), {}, 'attributes of a ghost')
            model = [dict(d) for d in committed]
            dirty = set()
        for j, p in enumerate(objs):
            c.equal(p._p_is_unsaved(), j in dirty, 'status of object %d' % j)
            if not p._p_is_ghost():
                c.equal(snapshot(p), model[j], 'attributes of object %d' % j)
    conn.abort()
    for j, p in enumerate(objs):
        getattr(p, 'a', None)
        c.equal(snapshot(p), committed[j], 'attributes of object %d after abort' % j)
        q = Connection(storage).get_root()[j]
        c.equal({k: (v if not hasattr(v, '_p_oid') else v._p_oid) for k, v in
                 (getattr(q, 'a', None), snapshot(q))[1].items()},
                {k: (v if not hasattr(v, '_p_oid') else v._p_oid) for k, v in committed[j].items()},
                'attributes of object %d in another connection' % j)
    c.note()


@case('C12', n=40, flavours=('c', 'py'))
def object_computed(c):
    """ComputedAttribute: computed once, forgotten by invalidate in every
    connection, never stored."""
    from durus.connection import Connection
    from durus.persistent import ComputedAttribute
    from durus.storage import MemoryStorage
    r = c.rng
    storage = MemoryStorage()
    conn = Connection(storage)
    ca = ComputedAttribute()
    conn.get_root()['ca'] = ca
    count = [0]
    def compute():
        count[0] += 1
        return count[0]
    known = None
    for _ in range(r.choice([3, 10, 25])):
        k = r.random()
        if k < 0.5:
            if known is None:
                known = count[0] + 1
            c.equal(ca.get(compute), known, 'computed value')
        elif k < 0.7:
            c.log('invalidate')
            ca.invalidate()
            known = None
            if ca._p_oid:
                c.check(conn.changed.get(ca._p_oid) is ca, 'not registered')
        elif k < 0.85:
            c.log('commit')
            conn.commit()
        else:
            c.log('abort')
            conn.commit()
            conn.abort()
        c.equal(count[0] if known is not None else None, known, 'number of computations')
    conn.commit()
    other = Connection(storage)
    c.equal(other.get_root()['ca'].get(lambda: 'own'), 'own', 'the value was stored')
    c.note()
