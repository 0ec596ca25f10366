"""C02 C04 C05 C06 C07 C20: histories of storages against a model."""
import os
import struct
from harness.core import case, short
from harness.codec import some_bytes
from harness.faults import size_limit

ROOT = bytes(8)


def oid_of(n):
    return struct.pack('>Q', n)


def rec(oid, data, refs):
    return oid + struct.pack('>L', len(data)) + data + b''.join(refs)


def refs_of(record):
    n = struct.unpack('>L', record[8:12])[0]
    s = record[12 + n:]
    return [s[i:i + 8] for i in range(0, len(s), 8)]


def reachable(records, start=ROOT):
    seen = set()
    todo = [start]
    while todo:
        o = todo.pop()
        if o in seen:
            continue
        seen.add(o)
        todo.extend(refs_of(records[o]))
    return seen


class Box(object):
    """A storage under test and the model of what it must hold."""
    def __init__(self, c, kind, fname='s.db', fill=True):
        self.c = c
        self.r = c.rng
        self.kind = kind
        self.path = c.path(fname)
        self.m = {}             # oid -> record: what was committed
        self.handed = set()     # oids handed out, not stored (this session)
        self.ever = set()       # all the oids that ever had a record
        self.unreported = set() # oids removed and not yet reported
        self.packer = None
        self.pack_had = False   # a commit since the pack began
        self.tag = 0
        self.commits = 0
        self.packs = 0
        self.reopens = 0
        self.s = self.open()
        if fill:
            self.commit(n_new=1)
            for _ in range(self.r.choice([0, 1, 3])):
                self.commit()

    # -- opening

    def klass(self):
        if self.kind in ('file', 'temp'):
            from durus.file_storage import FileStorage
            return FileStorage
        if self.kind in ('file2', 'temp2'):
            from durus.file_storage2 import FileStorage2
            return FileStorage2
        if self.kind == 'sqlite':
            from durus.sqlite_storage import SqliteStorage
            return SqliteStorage
        from durus.storage import MemoryStorage
        return MemoryStorage

    def open(self, **kw):
        k = self.klass()
        if self.kind in ('temp', 'temp2', 'memory'):
            return k()
        return k(self.path, **kw)

    @property
    def persistent(self):
        return self.kind in ('file', 'file2', 'sqlite')

    @property
    def packable(self):
        return self.kind in ('file', 'file2', 'sqlite')

    # -- steps

    def new_oid(self):
        oid = self.s.new_oid()
        c = self.c
        c.check(type(oid) is bytes and len(oid) == 8, 'new_oid() returned %r', oid)
        c.check(oid not in self.m, 'new_oid() returned %r, which has a record', oid)
        c.check(oid not in self.handed,
                'new_oid() returned %r, which was handed out before', oid)
        c.check(oid not in self.unreported,
                'new_oid() returned %r, whose removal was not yet reported', oid)
        self.handed.add(oid)
        return oid

    def data(self):
        r = self.r
        self.tag += 1
        n = r.choice([0, 0, 1, 4, 12, 30, 60, 60, 200])
        if r.random() < 0.02:
            n = r.choice([5000, 70000])
        k = r.random()
        tail = (b'\x00' * n if k < 0.3 else b'\xff' * n if k < 0.4
                else r.randbytes(n))
        return b'%d.' % self.tag + tail

    def plan(self, n_new=None):
        """-> [(oid, record)] of a commit that keeps references sound."""
        r = self.r
        if n_new is None:
            n_new = r.choice([0, 0, 1, 1, 2, 3, 6])
        if self.handed and r.random() < 0.3:
            new = r.sample(sorted(self.handed), 1)
        else:
            new = []
        new += [self.new_oid() for _ in range(n_new)]
        if not self.m and ROOT not in new:
            new.append(ROOT)
        changed = []
        if self.m:
            live = sorted(reachable(self.m))
            changed = r.sample(live, min(len(live), r.choice([0, 1, 1, 2, 3])))
            if r.random() < 0.25:
                changed.append(r.choice(sorted(self.m)))
            if r.random() < 0.3:
                changed.append(ROOT)
        changed = [o for o in dict.fromkeys(changed) if o not in new]
        if not changed and not new:
            changed = [ROOT]
        have = set(self.m)
        if self.packer is not None:
            # what the pack has removed already can't be linked to again
            stored = self.stored()
            have = set(o for o in have if o in stored)
            changed = [o for o in changed if o in have]
        all_oids = new + (changed or ([] if new else [ROOT]))
        r.shuffle(all_oids)
        pool = sorted(have | set(new))
        mode = r.choice(['grow', 'grow', 'any', 'cut', 'relink'])
        out = []
        dead = sorted(have - reachable(self.m)) if self.m else []
        for o in all_oids:
            if o in self.m:
                refs = refs_of(self.m[o])
                if mode == 'cut':
                    refs = r.sample(refs, r.randint(0, len(refs)))
                elif mode == 'any':
                    refs = r.sample(pool, min(len(pool), r.choice([0, 1, 2, 5])))
                else:
                    refs = refs + r.sample(pool, min(len(pool), r.choice([0, 1])))
                    if mode == 'relink' and dead:
                        refs = refs + [r.choice(dead)]
            else:
                refs = r.sample(pool, min(len(pool), r.choice([0, 0, 1, 2])))
            out.append((o, refs))
        # hang the new objects somewhere, mostly
        holders = [i for i, (o, _) in enumerate(out)]
        for o in new:
            if r.random() < 0.85:
                i = r.choice(holders)
                out[i] = (out[i][0], out[i][1] + [o])
        return [(o, rec(o, self.data(), list(dict.fromkeys(refs))))
                for o, refs in out]

    def commit(self, n_new=None, plan=None):
        plan = self.plan(n_new) if plan is None else plan
        self.c.log('commit', [(o[-2:].hex(), len(x), [q[-2:].hex() for q in refs_of(x)])
                              for o, x in plan])
        self.s.begin()
        for o, x in plan:
            self.s.store(o, x)
        self.s.end()
        self.m.update(plan)
        self.ever.update(o for o, _ in plan)
        self.handed.difference_update(o for o, _ in plan)
        self.pack_had = True
        self.commits += 1
        return plan

    def abandoned(self):
        """begin, store, and then another begin: nothing may remain."""
        plan = self.plan()
        keep = self.r.random() < 0.5
        self.c.log('abandoned commit', [o[-2:].hex() for o, _ in plan])
        self.s.begin()
        for o, x in plan[:self.r.randint(1, len(plan))]:
            self.s.store(o, x)
        if keep and self.packer is None:
            self.s.begin()      # explicitly given up
        # otherwise the next begin() gives it up

    def reopen(self, check=True):
        self.packer = None
        if not self.persistent:
            return
        self.c.log('reopen')
        self.s.close()
        kw = {}
        if self.kind != 'sqlite' and self.r.random() < 0.2:
            kw = {'repair': True}
        self.s = self.open(**kw)
        self.handed.clear()
        self.unreported.clear()
        self.reopens += 1

    def sync(self):
        got = self.s.sync()
        self.c.log('sync ->', [o[-2:].hex() for o in got])
        self.c.equal(sorted(set(got)), sorted(got), 'sync() repeats an oid')
        missing = self.unreported - set(got)
        self.c.check(not missing, 'sync() does not report the removed oids %s',
                     sorted(missing)[:5])
        for o in got:
            self.c.check(o in self.ever, 'sync() reports %r, which never existed', o)
        self.unreported.clear()
        if self.packer is not None:
            stored = self.stored()
            self.told |= set(o for o in got if o not in stored)

    def stored(self):
        return dict(self.s.gen_oid_record())

    def pack_started(self):
        self.s.begin()      # no commit is under way
        self.packer = self.s.get_packer()
        self.c.log('pack starts')
        self.before = set(self.m)
        self.pack_had = False
        self.told = set()

    def pack_step(self):
        try:
            next(self.packer)
            return True
        except StopIteration:
            self.packer = None
            self.pack_done()
            return False

    def pack(self):
        self.pack_started()
        # a generator that ends without doing anything would be a refusal
        if self.r.random() < 0.5:
            while self.pack_step():
                pass
        else:
            if self.packer is not None:
                self.packer = None
            # use the plain interface on a fresh storage state
            self.reopen()
            self.pack_had = False
            self.s.begin()
            self.told = set()
            self.s.pack()
            self.pack_done()

    def pack_done(self):
        self.packs += 1
        c = self.c
        c.log('pack ends', 'with commits' if self.pack_had else 'quiet')
        live = reachable(self.m)
        stored = self.stored()
        for o in sorted(live):
            c.check(o in stored, 'pack lost the reachable %r', o)
            c.equal(stored[o], self.m[o], 'record of the reachable %r after the pack' % o)
        extra = set(stored) - live
        if not self.pack_had:
            c.check(not extra, 'pack kept the unreachable %s', sorted(extra)[:5])
        for o in extra:
            c.check(o in self.m, 'pack invented %r', o)
            c.equal(stored[o], self.m[o], 'record of %r after the pack' % o)
        gone = set(self.m) - set(stored)
        self.unreported |= gone - self.told
        for o in gone:
            del self.m[o]

    # -- checks

    def check_all(self, what):
        c, s, m = self.c, self.s, self.m
        if self.packer is not None:
            # the garbage may be gone already
            for o in reachable(m):
                c.equal(s.load(o), m[o], 'load(%r) %s' % (o, what))
            return
        for o in m:
            c.equal(s.load(o), m[o], 'load(%r) %s' % (o, what))
        unknown = [oid_of(len(m)), oid_of(10 ** 6), b'\xff' * 7 + b'\xfe',
                   oid_of(self.r.randrange(200))] + sorted(self.handed)[:3]
        for o in unknown + sorted(self.ever - set(m))[:5]:
            if o not in m:
                if self.kind == 'sqlite' and o[0] >= 0x80:
                    continue # not an integer for sqlite
                c.raises(KeyError, lambda: s.load(o), 'load(%r) %s' % (o, what))
        if self.kind != 'memory':
            items = list(s.gen_oid_record())
            c.equal(len(items), len(set(o for o, _ in items)),
                    'gen_oid_record() repeats an oid %s' % what)
            c.equal(dict(items), m, 'gen_oid_record() %s' % what)
        if m and self.r.random() < 0.3:
            oids = self.r.sample(sorted(m), min(len(m), 5))
            c.equal(list(s.bulk_load(oids)), [m[o] for o in oids], 'bulk_load %s' % what)

    def check_traversal(self, what='', connected=False):
        c, s, m = self.c, self.s, self.m
        if not m:
            return
        start = self.r.choice([ROOT, self.r.choice(sorted(m))])
        size = self.r.choice([1, 2, 3, 5, 100, 1000])
        items = list(s.gen_oid_record(start_oid=start, batch_size=size))
        live = reachable(m, start)
        c.log('traversal from', start[-2:].hex(), 'batch', size)
        c.equal(sorted(o for o, _ in items), sorted(live),
                'oids of gen_oid_record(start_oid=%r, batch_size=%d)' % (start, size))
        for o, x in items:
            c.equal(x, m[o], 'record of %r in gen_oid_record(start_oid=%r)' % (o, start))

    def close(self):
        try:
            self.s.close()
        except Exception:
            pass


FILES = ['file', 'file2', 'sqlite']


def history(c, kinds, steps, weights):
    r = c.rng
    box = Box(c, r.choice(kinds))
    c.log('kind', box.kind)
    names = sorted(weights)
    for _ in range(steps):
        op = r.choices(names, [weights[n] for n in names])[0]
        if op == 'commit':
            box.commit()
        elif op == 'abandon':
            box.abandoned()
        elif op == 'reopen':
            box.reopen()
        elif op == 'pack' and box.packable:
            box.pack()
            if r.random() < 0.5:
                box.sync()
        elif op == 'ipack' and box.packable:
            incremental(c, box)
        elif op == 'sync':
            box.sync()
        elif op == 'oid':
            for _ in range(r.choice([1, 1, 2, 5, 40])):
                box.new_oid()
        elif op == 'traverse':
            box.check_traversal()
        elif op == 'fail' and box.kind != 'memory':
            failed_commit(c, box)
        if r.random() < 0.6:
            box.check_all('after ' + op)
    box.check_all('at the end')
    box.reopen()
    box.check_all('after the last reopening')
    if weights.get('oid'):
        for _ in range(20):
            box.new_oid()
    box.close()
    return box


def incremental(c, box, p_commit=None):
    """A pack with other things between its steps."""
    r = c.rng
    box.pack_started()
    p = r.choice([0.05, 0.2, 0.5, 0.9]) if p_commit is None else p_commit
    late = r.random() < 0.3
    n = 0
    others = r.choice([1, 3, 8])
    while True:
        if r.random() < p and (not late or n > 3) and others > 0:
            others -= 1
            k = r.random()
            if k < 0.75:
                box.commit()
            elif k < 0.8:
                box.abandoned(); box.commit()
            elif k < 0.85:
                box.sync()
            elif k < 0.95:
                box.check_all('during a pack')
            else:
                box.new_oid()
        n += 1
        if not box.pack_step():
            break
    c.log('pack steps', n)
    if r.random() < 0.6:
        box.check_all('after an incremental pack')
    if r.random() < 0.3:
        box.sync()


class Boom(Exception):
    pass


def failed_commit(c, box):
    """A commit whose writing fails part of the way."""
    r = c.rng
    s = box.s
    plan = box.plan(r.choice([0, 1, 2]))
    if box.kind == 'sqlite':
        # a record that cannot be taken apart fails in the middle
        k = r.randint(0, len(plan))
        bad = plan[:k] + [(plan[0][0], b'\0' * r.choice([3, 8, 10]))] + plan[k:]
        c.log('failing commit', [o[-2:].hex() for o, _ in bad])
        s.begin()
        for o, x in bad:
            s.store(o, x)
        try:
            s.end()
        except Exception as e:
            c.log('failed with', type(e).__name__)
        else:
            c.fail('storing a malformed record succeeded')
        return
    total = sum(len(x) for _, x in plan) + 8 * len(plan) + 16
    after = r.choice([0, 1, 4, 7, 8, 9, r.randrange(total), r.randrange(total),
                      max(0, total - 10)])
    size = os.path.getsize(s.get_filename())
    s.begin()
    for o, x in plan:
        s.store(o, x)
    c.log('failing commit after', after, 'bytes', [o[-2:].hex() for o, _ in plan])
    with size_limit(size + after):
        try:
            s.end()
        except (OSError, ValueError) as e:
            c.log('failed with', type(e).__name__)
        else:
            c.log('did not fail')
            box.m.update(plan)
            box.ever.update(o for o, _ in plan)
            box.handed.difference_update(o for o, _ in plan)
            box.pack_had = True


@case('C02', n=160)
def storage_history(c):
    """commits, reopenings, packs and abandoned commits in any order; every
    load and enumeration equals the model."""
    box = history(c, ['file', 'file', 'file2', 'sqlite', 'memory', 'temp', 'temp2'],
                  c.rng.choice([4, 8, 15, 25]),
                  dict(commit=8, reopen=3, pack=1, abandon=1, sync=1, traverse=1))
    c.note(box.commits > 3)


@case('C04', n=200)
def storage_failures(c):
    """abandoned commits, and commits whose writing fails after any number of
    bytes (file size limit; for sqlite a record that cannot be stored)."""
    box = history(c, ['file', 'file', 'file2', 'sqlite', 'memory', 'temp', 'temp2'],
                  c.rng.choice([4, 8, 12]),
                  dict(commit=5, fail=6, abandon=3, reopen=2, pack=1))
    c.note(True)


@case('C05', n=240)
def storage_pack(c):
    """incremental packs with commits between the steps: change, add, unlink,
    re-link; then loads, reopening, and packing again."""
    box = history(c, FILES, c.rng.choice([2, 4, 6]),
                  dict(commit=4, ipack=5, pack=1, reopen=1))
    c.note(box.packs > 0)


@case('C06', n=200)
def storage_garbage(c):
    """quiet packs leave exactly the reachable objects, and sync reports every
    oid that went."""
    box = history(c, FILES, c.rng.choice([4, 8, 12]),
                  dict(commit=6, pack=3, ipack=1, sync=2, reopen=1))
    c.note(box.packs > 0)


@case('C07', n=240)
def storage_oids(c):
    """new_oid between commits, packs, syncs and reopenings, abandoned and
    failed commits."""
    box = history(c, ['file', 'file', 'file2', 'sqlite', 'memory', 'temp'],
                  c.rng.choice([5, 10, 20]),
                  dict(commit=5, oid=6, pack=2, ipack=1, sync=1, reopen=2,
                       abandon=1, fail=1))
    c.note(True)


@case('C20', n=200)
def storage_traversal(c):
    """traversal from any oid with any batch size, reference index, referrers,
    census and class lists against the records."""
    from durus.storage import (gen_referring_oid_record, gen_oid_class,
                               get_census, get_reference_index)
    r = c.rng
    box = Box(c, r.choice(['file', 'file2', 'sqlite', 'memory', 'temp']))
    # records with class names: the class name is between the first newlines
    names = [b'A', b'Bee', b'C_c', b'dd.ee']
    def data():
        return (b'\x80\x02cmod\n' + r.choice(names) + b'\nq\x00.' +
                r.randbytes(r.choice([0, 5, 40])))
    box.data = data
    for _ in range(r.choice([1, 3, 6])):
        box.commit()
    if box.kind == 'memory':
        # it enumerates what the root reaches
        m = {o: box.m[o] for o in reachable(box.m)}
    else:
        m = box.m
    if box.packable and r.random() < 0.3:
        box.pack()
        m = box.m
    # make sure that everything in m has a class
    plan = [(o, rec(o, data(), refs_of(m[o]))) for o in m]
    box.commit(plan=plan)
    m = {o: box.m[o] for o in m}
    for _ in range(3):
        box.check_traversal()
    s = box.s
    cls = {o: m[o][12:].split(b'\n', 2)[1] for o in m}
    index = get_reference_index(s)
    expect = {}
    for o in m:
        for q in refs_of(m[o]):
            expect.setdefault(q, set()).add(o)
    c.equal({k: sorted(v) for k, v in index.items()},
            {k: sorted(v) for k, v in expect.items()}, 'get_reference_index')
    for o in r.sample(sorted(m), min(len(m), 4)) + [oid_of(10 ** 5)]:
        got = list(gen_referring_oid_record(s, o))
        c.equal(sorted(got), sorted((q, m[q]) for q in expect.get(o, ())),
                'gen_referring_oid_record(%r)' % o)
    census = {}
    for o in m:
        census[cls[o]] = census.get(cls[o], 0) + 1
    c.equal(get_census(s), census, 'get_census')
    for some in ([], [b'A'], [b'Bee', b'C_c'], [b'nothing'], names):
        got = sorted(gen_oid_class(s, *some))
        c.equal(got, sorted((o, k) for o, k in cls.items() if not some or k in some),
                'gen_oid_class(%r)' % some)
    c.note(len(m) > 2)
    box.close()


@case('C02', 'C07', n=80)
def storage_create(c):
    """create_from_records fills a storage with given records."""
    r = c.rng
    src = Box(c, 'temp')
    for _ in range(r.choice([0, 2, 5])):
        src.commit()
    box = Box(c, r.choice(['file2', 'sqlite']), fill=False)
    box.s.create_from_records(iter(sorted(src.m.items())))
    box.m = dict(src.m)
    box.ever = set(box.m)
    box.check_all('after create_from_records')
    for _ in range(3):
        box.new_oid()
    box.commit()
    box.check_all('after a commit')
    box.reopen()
    box.check_all('after reopening')
    for _ in range(3):
        box.new_oid()
    c.note(len(src.m) > 1)


@case('C07', n=60)
def storage_surprise(c):
    """a record under an oid that was never handed out is refused, or at least
    the oid is never handed out afterwards."""
    r = c.rng
    box = Box(c, r.choice(['file', 'file2', 'sqlite', 'temp']))
    o = oid_of(int.from_bytes(max(box.m), 'big') + r.choice([1, 2, 5, 100, 2 ** 40]))
    x = rec(o, b'?', [])
    box.s.begin()
    try:
        box.s.store(o, x)
        box.s.end()
    except ValueError:
        pass
    else:
        box.m[o] = x
        box.ever.add(o)
    for _ in range(110):
        box.new_oid()
    box.check_all('after a surprise')
    box.commit()
    box.reopen()
    box.check_all('after reopening')
    c.note()
