"""C03 C19 C21 C22: crashes, damaged and foreign files, locks."""
import gc
import os
from harness.core import case
from harness.codec import some_bytes
from harness.faults import Traced, Disk
from harness.storages import Box, ROOT, reachable, rec, refs_of, oid_of


def dump(s):
    """What a storage holds, both by enumeration and by load."""
    d = dict(s.gen_oid_record())
    for o in d:
        if s.load(o) != d[o]:
            raise AssertionError('load and enumeration differ for %r' % o)
    return d


def read_file(p):
    with open(p, 'rb') as f:
        return f.read()


def opened(box, path, **kw):
    try:
        return box.klass()(path, **kw)
    except BlockingIOError:
        pass
    gc.collect()    # a refused opening leaves the lock to the garbage collector
    return box.klass()(path, **kw)


@case('C03', n=60, thorough=15)
def crash_commit(c):
    """every prefix of the bytes that a commit writes (all byte positions of
    short writes): reopening with repair gives the state before or after; and
    the commit ends with an fsync of what it wrote."""
    r = c.rng
    with Traced(c) as t:
        box = Box(c, r.choice(['file', 'file', 'file2']))
        c.log('kind', box.kind)
        for _ in range(r.choice([0, 1, 3])):
            box.commit()
        if r.random() < 0.3:
            box.pack()
        if r.random() < 0.3:
            box.reopen()
        if r.random() < 0.3:
            box.abandoned()
        before = dict(box.m)
        base = Disk.snapshot(c.tmp)
        t.events = []
        if r.random() < 0.4:
            # records that look like lengths and terminators
            k = r.choice([0, 8, 16, 40])
            live = sorted(before)
            plan = [(o, rec(o, bytes(k), refs_of(before[o])[:0] if o != ROOT else refs_of(before[o])))
                    for o in r.sample(live, min(3, len(live)))]
            box.commit(plan=plan)
        else:
            box.commit(n_new=r.choice([0, 1, 2, 4]))
        events = t.events
        after = dict(box.m)
        t.on = False
        writes = [i for i, e in enumerate(events) if e[0] in ('write', 'truncate')]
        c.check(writes, 'the commit wrote nothing')
        ids = set(e[1] for e in events if e[0] == 'write')
        last = {}
        for i, e in enumerate(events):
            if e[0] in ('write', 'truncate'):
                last[e[1]] = i
        for ident, i in last.items():
            c.check(any(e[0] == 'fsync' and e[1] == ident for e in events[i + 1:]),
                    'the commit returned before its last write was synced')
        points = []
        for i, e in enumerate(events):
            if e[0] == 'write':
                n = len(e[3])
                cuts = range(1, n) if n <= 40 else sorted(r.sample(range(1, n), 12))
                points.append((i, 0))
                points.extend((i, k) for k in cuts)
            else:
                points.append((i, 0))
        points.append((len(events), 0))
        if len(points) > 60 and c.tier == 'quick':
            points = sorted(r.sample(points[:-1], 60)) + points[-1:]
        c.log('crash points', len(points))
        new_root = c.tmp + '-crash'
        try:
            for n, (i, part) in enumerate(points):
                d = base.copy()
                for e in events[:i]:
                    d.apply(e)
                if part:
                    d.apply(events[i], part)
                d.materialize(c.tmp, new_root)
                p = os.path.join(new_root, 's.db')
                where = 'after a crash at event %d byte %d of the commit' % (i, part)
                s = opened(box, p, repair=True)
                got = final = dump(s)
                if got != before and got != after:
                    odd = [o for o in set(got) | set(after)
                           if got.get(o) not in (before.get(o), after.get(o))]
                    c.fail('the state %s is neither the one before nor the one '
                           'after (%d, before %d, after %d records; wrong: %r)' % (
                           where, len(got), len(before), len(after), odd[:3]))
                if n % 7 == 0:
                    # the repaired file is a good file
                    x = rec(ROOT, b'again %d' % n, [])
                    s.begin(); s.store(ROOT, x); s.end()
                    got = dict(got)
                    got[ROOT] = x
                    s.close()
                    s = opened(box, p)
                    c.equal(dump(s), got, 'a commit made %s, reopened' % where)
                s.close()
            c.equal(final, after, 'the state after the complete commit')
        finally:
            import shutil
            shutil.rmtree(new_root, ignore_errors=True)
        box.close()
    c.note(len(points) > 20)


@case('C21', 'C03', n=100)
def crash_cut_file(c):
    """a file with several commits cut at any byte: refused without repair
    and left alone, or repaired to exactly the complete commits."""
    r = c.rng
    box = Box(c, r.choice(['file', 'file2']))
    if r.random() < 0.4:
        box.pack()
    states = []
    def mark():
        states.append((os.path.getsize(box.path), dict(box.m)))
    mark()
    for _ in range(r.choice([1, 2, 4])):
        box.commit()
        mark()
    box.close()
    whole = read_file(box.path)
    c.equal(len(whole), states[-1][0], 'size of the file')
    first = states[0][0]
    cuts = set(n for n, _ in states)
    for n, _ in states:
        for d in (-9, -8, -5, -4, -1, 1, 3, 4, 7, 8, 9, 12, 16):
            cuts.add(n + d)
    cuts |= set(r.randrange(first, len(whole) + 1) for _ in range(25))
    cuts = sorted(n for n in cuts if first <= n <= len(whole))
    boundaries = dict(states)
    p = c.path('cut.db')
    for n in cuts:
        with open(p, 'wb') as f:
            f.write(whole[:n])
        keep = max(b for b in boundaries if b <= n)
        state = boundaries[keep]
        c.log('cut at', n, 'complete', keep)
        for kw in ({}, {'readonly': True}):
            try:
                s = opened(box, p, **kw)
            except (OSError, AssertionError, ValueError) as e:
                c.check(n not in boundaries,
                        'a file that ends with a complete commit is refused: %r', e)
            else:
                c.check(n in boundaries,
                        'a file cut at byte %d (complete: %d) is opened without repair', n, keep)
                c.equal(dump(s), state, 'state of a complete file')
                s.close()
            c.equal(read_file(p), whole[:n], 'content of a file opened without repair')
        try:
            s = opened(box, p, readonly=True, repair=True)
            s.close()
        except (OSError, AssertionError, ValueError):
            c.check(n not in boundaries, 'a complete file is refused')
        c.equal(read_file(p), whole[:n], 'content of a file opened read-only for repair')
        s = opened(box, p, repair=True)
        c.equal(dump(s), state, 'state after repair of a file cut at %d' % n)
        s.close()
        c.equal(read_file(p), whole[:keep], 'content after repair of a file cut at %d' % n)
        s = opened(box, p)
        c.equal(dump(s), state, 'state after repair and reopening')
        s.close()
    c.note(len(cuts) > 5)


@case('C21', n=120)
def crash_foreign(c):
    """files of other formats are refused and left alone by every storage
    class; get_storage_class chooses the class that wrote a file."""
    from durus.file_storage import FileStorage
    from durus.file_storage2 import FileStorage2
    from durus.sqlite_storage import SqliteStorage
    from durus.__main__ import get_storage_class, get_storage
    r = c.rng
    classes = {'file': FileStorage, 'file2': FileStorage2, 'sqlite': SqliteStorage}
    kind = r.choice(['file', 'file2', 'sqlite', 'bytes', 'near', 'cutmagic'])
    p = c.path('s.db')
    if kind in classes:
        box = Box(c, kind)
        box.commit()
        if r.random() < 0.3:
            box.pack()
        m = box.stored()
        box.close()
        c.check(get_storage_class(p) is classes[kind],
                'get_storage_class() of a file of %s is %s', classes[kind].__name__,
                get_storage_class(p).__name__)
        s = get_storage(p)
        c.check(type(s) is classes[kind], 'get_storage() opened a %s', type(s))
        c.equal(dump(s), m, 'content opened by name')
        s.close()
    elif kind == 'bytes':
        with open(p, 'wb') as f:
            f.write(some_bytes(r, r.randrange(1, 100)))
    elif kind == 'near':
        good = r.choice([b'SHELF-1\n', b'DFS20\0'])
        i = r.randrange(len(good))
        bad = good[:i] + bytes([(good[i] + r.choice([1, 32, 128])) % 256]) + good[i+1:]
        with open(p, 'wb') as f:
            f.write(bad + bytes(r.choice([0, 8, 64])))
    else:
        good = r.choice([b'SHELF-1\n', b'DFS20\0'])
        with open(p, 'wb') as f:
            f.write(good[:r.randrange(1, len(good))])
    whole = read_file(p)
    c.log('kind', kind, whole[:20])
    for name, k in classes.items():
        if name == kind:
            continue
        for kw in ({}, {'repair': True}, {'readonly': True}):
            try:
                s = k(p, **kw)
            except Exception as e:
                pass
            else:
                c.fail('%s(%r) opens a file that is not its own (%s %r)' % (
                    k.__name__, kw, kind, whole[:20]))
            c.equal(read_file(p), whole, 'content of a foreign file after %s(%r)' % (
                k.__name__, kw))
    if kind == 'bytes' and not whole.startswith((b'SHELF-1', b'DFS20', b'SQLite format ')):
        c.raises(ValueError, lambda: get_storage_class(p), 'get_storage_class of garbage')
    c.check(get_storage_class(c.path('none')) is FileStorage, 'class for a new file')
    c.note()


@case('C22', n=60, thorough=15)
def crash_pack(c):
    """a crash between any two effects of a pack (and inside its writes), with
    commits between its steps: the file at the path of the storage opens and
    holds the last committed state; what is left does not hinder later use."""
    r = c.rng
    with Traced(c) as t:
        box = Box(c, r.choice(['file', 'file2']))
        c.log('kind', box.kind)
        for _ in range(r.choice([1, 2, 4])):
            box.commit()
        if r.random() < 0.3:
            box.pack()
        if r.random() < 0.3:
            # remains of another pack
            for suffix in ('.pack', '.prepack'):
                with open(box.path + suffix, 'wb') as f:
                    f.write(r.choice([b'', b'junk', whole_or(box)]))
        box.s.begin()
        base = Disk.snapshot(c.tmp)
        t.events = []
        marks = [(0, dict(box.m))]      # event index -> state
        box.pack_started()
        busy = []                       # ranges of events inside a commit
        p = r.choice([0, 0.1, 0.4])
        others = 4
        while True:
            if others and r.random() < p:
                a = len(t.events)
                others -= 1
                box.commit()
                busy.append((a, len(t.events)))
                marks.append((len(t.events), dict(box.m)))
            if not box.pack_step():
                break
        done = len(t.events)
        marks.append((done, dict(box.m)))
        if r.random() < 0.5:
            a = len(t.events)
            box.commit()
            busy.append((a, len(t.events)))
            marks.append((len(t.events), dict(box.m)))
        events = t.events
        t.on = False
        points = [(i, 0) for i, e in enumerate(events)]
        points.append((len(events), 0))
        points += [(i, r.randrange(1, len(e[3]))) for i, e in enumerate(events)
                   if e[0] == 'write' and len(e[3]) > 1]
        points = [(i, k) for i, k in points
                  if not any(a <= i < b and (i > a or k) for a, b in busy)]
        names = [i for i, e in enumerate(events)
                 if e[0] in ('rename', 'link', 'unlink', 'create')]
        near = [(i, k) for i, k in points if any(abs(i - n) <= 2 for n in names)]
        limit = 40 if c.tier == 'quick' else 400
        rest = [x for x in points if x not in near]
        if len(rest) > limit:
            rest = r.sample(rest, limit)
        points = sorted(set(near + rest))
        c.log('events', len(events), 'crash points', len(points))
        new_root = c.tmp + '-crash'
        try:
            for n, (i, part) in enumerate(points):
                d = base.copy()
                for e in events[:i]:
                    d.apply(e)
                if part:
                    d.apply(events[i], part)
                d.materialize(c.tmp, new_root)
                q = os.path.join(new_root, 's.db')
                what = repr(events[i][:1]) if i < len(events) else 'end'
                where = 'after a crash before event %d (%s) of %d, byte %d' % (
                    i, what, len(events), part)
                c.check(os.path.exists(q), 'there is no file at the path %s', where)
                state = [m for a, m in marks if a <= i][-1]
                live = reachable(state)
                s = opened(box, q)
                got = dump(s)
                for o in live:
                    c.check(o in got, 'the reachable %r is lost %s', o, where)
                    c.equal(got[o], state[o], 'record of %r %s' % (o, where))
                for o in got:
                    c.check(o in box.ever, 'an oid %r out of nothing %s', o, where)
                if n % 3 == 0:
                    x = rec(ROOT, b'later', refs_of(got[ROOT]))
                    s.begin(); s.store(ROOT, x); s.end()
                    got[ROOT] = x
                    for _ in s.get_packer():
                        pass
                    live = reachable(got)
                    want = {o: got[o] for o in live}
                    c.equal(dump(s), want, 'content after packing again %s' % where)
                    x = rec(ROOT, b'latest', refs_of(got[ROOT]))
                    s.begin(); s.store(ROOT, x); s.end()
                    want[ROOT] = x
                    s.close()
                    s = opened(box, q)
                    c.equal(dump(s), want, 'content after packing again and reopening %s' % where)
                s.close()
        finally:
            import shutil
            shutil.rmtree(new_root, ignore_errors=True)
        box.close()
    c.note(len(points) > 10)


def whole_or(box):
    with open(box.path, 'rb') as f:
        return f.read()


@case('C19', n=120)
def crash_locks(c):
    """while a storage is open for writing nobody else opens the file for
    writing: at once, after commits, between the steps of packs, after packs;
    after close it works again."""
    r = c.rng
    box = Box(c, r.choice(['file', 'file2']))
    k = box.klass()
    def refused(what):
        try:
            s = k(box.path, repair=r.random() < 0.3)
        except (OSError, IOError):
            return
        s.close()
        c.fail('the file could be opened for writing again %s' % what)
    def reader(what):
        s = k(box.path, readonly=True)
        c.equal({o: x for o, x in dump(s).items() if o in box.m}, box.stored(),
                'what a read-only storage sees %s' % what)
        s.close()
    refused('after opening')
    for _ in range(r.choice([1, 2, 3])):
        k2 = r.random()
        if k2 < 0.4:
            box.commit()
            refused('after a commit')
        elif k2 < 0.6:
            box.reopen()
            refused('after reopening')
        else:
            box.pack_started()
            n = 0
            while box.pack_step():
                n += 1
                if n < 6 or r.random() < 0.2:
                    refused('in a pack (step %d)' % n)
                if r.random() < 0.1:
                    box.commit()
                    refused('after a commit in a pack')
            refused('after a pack')
            if r.random() < 0.5:
                box.commit()
                refused('after a commit after a pack')
        if r.random() < 0.5:
            reader('while another writes')
            refused('after a reader closed')
    box.close()
    s = k(box.path)
    c.equal(dump(s), box.m, 'content after closing and opening')
    s.close()
    c.note()


@case('C19', 'C21', n=120)
def crash_readonly(c):
    """a read-only storage never changes the file."""
    r = c.rng
    box = Box(c, r.choice(['file', 'file2']))
    box.commit()
    if r.random() < 0.4:
        box.pack()
    tear = r.random() < 0.3
    box.close()
    if tear:
        with open(box.path, 'ab') as f:
            f.write(r.choice([b'\0\0\0\0\0\0', b'\xff' * 11, b'\0\0\0\0\0\0\0\x30abc',
                              b'\0\0\0']))
    whole = read_file(box.path)
    k = box.klass()
    def unchanged(what):
        c.equal(read_file(box.path), whole, 'content of the file ' + what)
        c.equal(sorted(os.listdir(c.tmp)), names, 'files ' + what)
    names = sorted(os.listdir(c.tmp))
    repair = r.random() < 0.5
    c.log('torn' if tear else 'whole', 'repair' if repair else '')
    try:
        s = k(box.path, readonly=True, repair=repair)
    except (OSError, AssertionError, ValueError):
        c.check(tear, 'a good file is refused read-only')
        unchanged('after a refused opening')
        c.note()
        return
    unchanged('after opening read-only')
    if not tear:
        c.equal(dump(s), box.m, 'content read-only')
    for _ in range(r.choice([1, 2])):
        x = rec(ROOT, b'never', [])
        op = r.choice(['commit', 'commit', 'pack', 'abandon', 'create'])
        c.log(op)
        try:
            if op == 'commit':
                s.begin(); s.store(ROOT, x); s.end()
                c.fail('a commit to a read-only storage is accepted')
            elif op == 'pack':
                s.begin()
                for _ in s.get_packer():
                    pass
            elif op == 'create' and box.kind == 'file2':
                s.create_from_records(iter([(ROOT, x)]))
            elif op == 'abandon':
                s.begin(); s.store(ROOT, x); s.begin()
        except (OSError, AssertionError, ValueError):
            pass
        unchanged('after %s on a read-only storage' % op)
        if not tear:
            c.equal(s.load(ROOT), box.m[ROOT], 'root after a refused ' + op)
    s.close()
    unchanged('after closing a read-only storage')
    from durus.file import File
    f = File(box.path, readonly=True)
    for op, g in (('write', lambda: f.write(b'x')), ('truncate', lambda: f.truncate()),
                  ('obtain_lock', lambda: f.obtain_lock()),
                  ('rename', lambda: f.rename(box.path + '.moved'))):
        try:
            g()
        except (OSError, AssertionError, ValueError):
            pass
        else:
            c.fail('%s() of a read-only File is accepted' % op)
    f.close()
    unchanged('after using a read-only File')
    c.raises((OSError, IOError), lambda: File(c.path('none'), readonly=True),
             'opening a missing file read-only')
    c.check(not os.path.exists(c.path('none')), 'opening read-only created a file')
    c.note()


@case('C19', n=60)
def crash_file_wrapper(c):
    """File: lock, rename, link keep the lock and the content; read-only and
    temporary files."""
    from durus.file import File
    r = c.rng
    p = c.path('f')
    f = File(p)
    body = some_bytes(r, r.choice([0, 1, 10, 5000]))
    f.write(body)
    c.equal(len(f), len(body), 'len')
    c.raises((OSError, IOError), lambda: File(p).write(b'x'), 'a second writer')
    f.seek(0)
    c.equal(f.read(), body, 'content')
    q = c.path('g')
    if r.random() < 0.5:
        with open(q, 'wb') as g:
            g.write(b'other')
    f.rename(q)
    c.equal(f.get_name(), q, 'name after rename')
    c.check(not os.path.exists(p), 'the old name exists after rename')
    c.equal(read_file(q), body, 'content after rename')
    c.raises((OSError, IOError), lambda: File(q).write(b'x'), 'a second writer after rename')
    f.seek_end()
    c.equal(f.tell(), len(body), 'end')
    f.write(b'more')
    c.equal(read_file(q), body + b'more', 'content after a write')
    f.seek(min(3, len(body)))
    f.truncate()
    c.equal(read_file(q), body[:3], 'content after truncate')
    f.release_lock()
    g = File(q)
    g.obtain_lock()
    c.raises((OSError, IOError), lambda: f.write(b'x'), 'a write without the lock')
    g.close()
    f.write(b'')
    f.obtain_lock()
    f.close()
    g = File(q)
    g.write(b'z')
    g.close()
    t = File()
    c.check(t.is_temporary() and not t.is_readonly(), 'a temporary file')
    t.write(b'abc'); t.seek(1)
    c.equal(t.read(1), b'b', 'content of a temporary file')
    t.close()
    c.note()
