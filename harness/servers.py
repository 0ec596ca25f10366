"""C06 C07 C13 C15 C16 C23: the storage server and the client storage."""
import os
import socket
import struct
import time
from harness.core import case, short
from harness.rig import Rig, recv_all, at_end
from harness.storages import ROOT, oid_of, rec, refs_of, reachable


def make_storage(c, kind=None):
    kind = kind or c.rng.choice(['file', 'file', 'file', 'file2', 'sqlite', 'temp', 'memory'])
    c.log('storage', kind)
    path = c.path('s.db')
    def make():
        if kind in ('file', 'temp'):
            from durus.file_storage import FileStorage
            return FileStorage(path) if kind == 'file' else FileStorage()
        if kind == 'file2':
            from durus.file_storage2 import FileStorage2
            return FileStorage2(path)
        if kind == 'sqlite':
            from durus.sqlite_storage import SqliteStorage
            return SqliteStorage(path)
        from durus.storage import MemoryStorage
        return MemoryStorage()
    return kind, make


class Client(object):
    """One raw connection and what the server must know of it."""
    def __init__(self, world):
        self.w = world
        self.sock = world.rig.raw()
        self.invalid = set()
        self.unused = []
        self.heard = set() # since the pack began
        self.late = world.packing
        self.maybe = set() # removed by a pack, perhaps not reported yet
        world.clients.append(self)
        self.send(b'V' + struct.pack('>L', 1))
        world.c.equal(self.recv(4), struct.pack('>L', 1), 'protocol of the server')

    def send(self, s):
        try:
            self.sock.sendall(s)
        except OSError as e:
            self.w.rig.check()
            self.w.c.fail('the server closed the connection: %s' % e)

    def recv(self, n):
        try:
            return recv_all(self.sock, n)
        except (EOFError, OSError) as e:
            for _ in range(50):
                self.w.rig.check()
                time.sleep(0.01)
            self.w.c.fail('no response: %s' % e)

    def oids(self):
        n = struct.unpack('>L', self.recv(4))[0]
        s = self.recv(8 * n)
        return [s[i:i + 8] for i in range(0, len(s), 8)]


class World(object):
    def __init__(self, c, kind=None, packable=False, **kw):
        self.c = c
        self.r = c.rng
        self.kind, make = make_storage(c, kind)
        trickle = c.rng.choice([0, 0, 0, 1, 2])
        self.rig = Rig(c, make, trickle=trickle, gate=True, **kw)
        self.clients = []
        self.m = {}
        self.given = set()
        self.removed = set()
        self.packing = False
        self.unlink = 0.2
        self.tell = 0.7
        self.tag = 0
        self.at_pack = None

    def new_oids(self, k, n, one=False):
        c = self.c
        k.send(b'N' if one else b'M' + bytes([n]))
        got = k.recv(8 if one else 8 * n)
        got = [got[i:i + 8] for i in range(0, len(got), 8)]
        c.log('oids', str(len(got)))
        for oid in got:
            if self.packing and oid in self.m and oid not in reachable(self.m):
                # removed by the pack and free again
                del self.m[oid]
                self.given.discard(oid)
            c.check(oid not in self.m, 'the new oid %r has a record', oid)
            c.check(oid not in self.given, 'the oid %r was given before', oid)
            for other in self.clients:
                c.check(oid not in other.invalid,
                        'the new oid %r is still to be reported to a client', oid)
            self.given.add(oid)
        k.unused.extend(got)
        return got

    def sync_with(self, k, got, what):
        """the oids reported to k must be exactly those that it must hear of"""
        c = self.c
        c.check(len(got) == len(set(got)), '%s reports an oid twice', what)
        got = set(got)
        missing = k.invalid - got
        c.check(not missing, '%s does not report %s', what, short(missing))
        extra = got - k.invalid - k.maybe
        if extra:
            # only removals of a pack, which every client must hear of
            c.check(self.packing, '%s reports %s for no reason', what, short(extra))
            live = reachable(self.m) if ROOT in self.m else set()
            for oid in extra:
                c.check(oid not in live or oid not in self.m, "%s reports a live object %r %r", what, oid, k.invalid)
            # The others hear of it when the server does, which may have been
            # at an earlier request: not the clients that came since.
            for other in self.clients:
                if not other.late:
                    other.invalid |= extra - self.removed - other.heard
            self.removed |= extra
        k.heard |= got
        k.invalid = set()
        k.maybe = set()

    def sync(self, k):
        k.send(b'S')
        self.c.log('sync')
        self.sync_with(k, k.oids(), 'sync')

    def expect_load(self, k, oid):
        c = self.c
        status = k.recv(1)
        if oid in k.invalid:
            c.equal(status, b'I', 'load of an invalid oid')
        elif oid in self.m:
            if self.packing and status in b'IK' and oid not in reachable(self.m):
                return
            c.equal(status, b'O', 'load of %r' % oid)
            n = struct.unpack('>L', k.recv(4))[0]
            c.equal(k.recv(n), self.m[oid], 'record of %r' % oid)
        else:
            if status == b'I' and (oid in k.maybe or self.packing and oid in self.given):
                return
            c.equal(status, b'K', 'load of %r, which has no record' % oid)

    def some_oid(self, k):
        r = self.r
        pool = []
        if k.invalid and r.random() < 0.5:
            pool = sorted(k.invalid)
        elif r.random() < 0.15:
            return r.choice([oid_of(10 ** 6), b'\xff' * 8] + k.unused[:1])
        return r.choice(pool or sorted(self.m) or [ROOT])

    def load(self, k):
        oid = self.some_oid(k)
        k.send(b'L' + oid)
        self.expect_load(k, oid)

    def bulk(self, k):
        oids = [self.some_oid(k) for _ in range(self.r.choice([0, 1, 3, 10]))]
        k.send(b'B' + struct.pack('>L', len(oids)) + b''.join(oids))
        for oid in oids:
            self.expect_load(k, oid)

    def plan(self, k):
        """-> {oid: record} that a correct client may commit"""
        r = self.r
        out = {}
        if not self.m:
            oids = [ROOT]
            k.unused = [o for o in k.unused if o != ROOT]
        else:
            live = sorted(reachable(self.m) - self.removed)
            oids = r.sample(live, min(len(live), r.choice([0, 1, 1, 2, 4])))
            if r.random() < 0.4 and ROOT not in oids:
                oids.append(ROOT)
        new = []
        if k.unused and r.random() < 0.7:
            new = r.sample(k.unused, min(len(k.unused), r.choice([1, 1, 2, 5])))
        if not oids and not new:
            oids = [ROOT]
        pool = sorted((reachable(self.m) if self.m else set()) | set(new) | set(oids))
        for o in oids + new:
            if o in self.m:
                refs = refs_of(self.m[o])
                if r.random() < self.unlink and refs and not self.packing:
                    refs.remove(r.choice(refs))
            else:
                refs = []
            refs = refs + r.sample(pool, min(len(pool), r.choice([0, 0, 1, 2])))
            if o == (oids or new)[0] and oids:
                refs = refs + new
            self.tag += 1
            data = b'c%d\n' % self.tag + r.choice([b'', b'mod\nName\n', r.randbytes(20), r.randbytes(3000)])
            out[o] = rec(o, data, sorted(set(refs)))
        return out

    def tdata(self, records):
        return b''.join(struct.pack('>L', 8 + len(x)) + o + x for o, x in records)

    def begin_commit(self, k):
        k.send(b'C')
        self.sync_with(k, k.oids(), 'commit')

    def stored(self, k, records):
        self.m.update(records)
        k.unused = [o for o in k.unused if o not in records]
        for other in self.clients:
            if other is not k:
                other.invalid |= set(records)

    def commit(self, k):
        r = self.r
        records = self.plan(k)
        self.begin_commit(k)
        how = r.random()
        if how < 0.12:
            self.c.log('decides not to commit')
            k.send(struct.pack('>L', 0))
            return
        t = self.tdata(r.sample(sorted(records.items()), len(records)))
        if how < 0.2:
            # gone before the answer
            self.c.log('commit of', short(sorted(records)), 'and gone')
            k.send(struct.pack('>L', len(t)) + t)
            if r.random() < 0.5:
                try:
                    k.sock.shutdown(socket.SHUT_RDWR)
                except OSError:
                    pass
            self.drop(k)
            self.stored(k, records)
            return
        self.c.log('commit of', short(sorted(records)))
        k.send(struct.pack('>L', len(t)) + t)
        self.c.equal(k.recv(1), b'O', 'answer to a commit')
        self.stored(k, records)

    def drop(self, k):
        k.sock.close()
        self.clients.remove(k)
        self.rig.wait_clients(len(self.clients))

    def dropped(self, k, what):
        """the server must have closed the connection, and go on"""
        try:
            end = at_end(k.sock)
        except socket.timeout:
            end = False
        self.c.check(end, 'no end of the connection after %s', what)
        self.drop(k)

    def nasty(self, k):
        """one request of a client that is not one; -> None"""
        r, c = self.r, self.c
        kind = r.choice(['unknown', 'cut', 'cut', 'garbage', 'oid', 'oid', 'never', 'short', 'refs',
                         'length', 'gone', 'M', 'version', 'half', 'nothing', 'name', 'mixed',
                         'mixed', 'data', 'trailing'])
        c.log('nasty', kind)
        if kind == 'unknown':
            k.send(bytes([r.choice(b'XYZacx?{\x00\xff\n1_')]))
            return self.dropped(k, 'an unknown command')
        if kind == 'name':
            k.send(b'L' + r.randbytes(8)[:r.randrange(8)])
            return self.drop(k)
        if kind == 'gone':
            k.send(r.choice([b'B\x00\x00\x00\x05' + bytes(20), b'M', b'B', b'N',
                             b'M' if self.packing else b'C', b'B' if self.packing else b'S',
                             b'B\xff\xff\xff\xff' + bytes(16)]))
            if r.random() < 0.5:
                try:
                    k.sock.shutdown(socket.SHUT_WR)
                except OSError:
                    pass
            return self.drop(k)
        if kind == 'M':
            k.send(b'M\x00')
            return
        if kind == 'version':
            k.send(b'V' + struct.pack('>L', r.choice([0, 2, 2 ** 32 - 1])))
            c.equal(k.recv(4), struct.pack('>L', 1), 'protocol of the server')
            return self.dropped(k, 'another protocol version')
        if kind == 'nothing':
            return
        if kind == 'half':
            # the server waits, but not for ever
            if self.rig.timeout_short:
                k.send(r.choice([b'L\x00\x00', b'C', b'M', b'V\x00']))
                try:
                    while k.sock.recv(1000):
                        pass
                except OSError:
                    pass
                return self.drop(k)
            return
        records = self.plan(k)
        items = r.sample(sorted(records.items()), len(records))
        t = self.tdata(items)
        others = [x for x in self.clients if x is not k and x.unused]
        if kind == 'cut':
            cut = r.randrange(1, len(t)) if len(t) > 1 else 1
            t = t[:cut]
            if not self.malformed(t):
                return # cut between records
        elif kind == 'trailing':
            t += r.randbytes(r.choice([1, 2, 3, 5, 11]))
        elif kind == 'garbage':
            t = r.randbytes(r.choice([1, 4, 11, 12, 13, 40, 500]))
        elif kind == 'length':
            self.begin_commit(k)
            k.send(struct.pack('>L', len(t) + r.choice([1, 8, 10 ** 6, 2 ** 31])) + t)
            return self.drop(k)
        elif kind == 'short':
            o = items[0][0]
            t += struct.pack('>L', r.choice([0, 4, 8, 12, 19])) + o + b'\x00' * r.choice([0, 4, 8, 11])
        elif kind == 'refs':
            o = items[0][0]
            bad = r.choice([rec(o, b'x', [b'1234567']), rec(o, b'', [b'\x00']),
                            o + struct.pack('>L', 5) + b'1234', o + b'\xff\xff\xff\xff' + b'xx',
                            o + b'\x7f\xff\xff\xff'])
            t = self.tdata(items[1:] + [(o, bad)])
        elif kind == 'data':
            o = items[0][0]
            other = r.choice([oid_of(77777), bytes(7) + b'\x05'])
            t = self.tdata([(o, other + self.plan(k).popitem()[1][8:])])
            if o == other:
                return
        elif kind in ('oid', 'mixed'):
            if not others:
                return
            o = r.choice(r.choice(others).unused)
            if o in self.removed:
                return
            extra = [(o, rec(o, b'stolen', []))]
            t = self.tdata(extra if kind == 'oid' else
                           r.sample(items + extra, len(items) + 1))
        elif kind == 'never':
            if self.kind in ('memory',) or not self.m:
                return # takes whatever it gets
            o = r.choice([oid_of(10 ** 6 + r.randrange(99)), b'\xff' * 8])
            t = self.tdata(items + [(o, rec(o, b'never', []))])
        if kind in ('garbage', 'short', 'trailing') and not self.malformed(t):
            return
        self.begin_commit(k)
        k.send(struct.pack('>L', len(t)) + t)
        self.dropped(k, 'a malformed commit (%s)' % kind)

    def malformed(self, t):
        i = 0
        while i < len(t):
            if len(t) - i < 12:
                return True
            n = struct.unpack('>L', t[i:i + 4])[0]
            i += 4
            oid, x = t[i:i + 8], t[i + 8:i + n]
            i += n
            if i > len(t) or x[:8] != oid or len(x) < 12:
                return True
            m = len(x) - 12 - struct.unpack('>L', x[8:12])[0]
            if m < 0 or m % 8:
                return True
        return False

    # -- packs

    def pack(self, k):
        if self.kind == 'memory' or ROOT not in self.m or self.packing:
            return
        self.c.log('pack')
        self.packing = True
        for other in self.clients:
            other.heard = set()
            other.late = False
        k.send(b'P')
        self.c.equal(k.recv(1), b'O', 'answer to pack')

    def end_pack(self):
        c = self.c
        self.rig.finish_pack()
        c.log('pack ended')
        # every client hears of everything that was removed
        if not self.clients:
            Client(self)
        fresh = Client(self)
        told = {}
        some = [k for k in self.clients if k is fresh or self.r.random() < self.tell]
        for k in some:
            k.send(b'S')
            got = set(k.oids())
            c.check(k.invalid <= got, 'the sync after a pack does not report %s',
                    short(k.invalid - got))
            told[k] = got
            extra = got - k.invalid - k.maybe
            k.maybe = set()
            c.check(not (extra & reachable(self.m)), 'a sync after a pack reports live objects')
            k.invalid = set()
        gone = set()
        live = reachable(self.m)
        for oid in sorted(self.m):
            fresh.send(b'L' + oid)
            status = fresh.recv(1)
            if status == b'O':
                n = struct.unpack('>L', fresh.recv(4))[0]
                c.equal(fresh.recv(n), self.m[oid], 'record of %r after a pack' % oid)
            else:
                c.equal(status, b'K', 'load of %r after a pack' % oid)
                c.check(oid not in live, 'the pack removed %r, which is reachable', oid)
                gone.add(oid)
        for k in self.clients:
            if k not in told:
                # to be told later
                if not k.late:
                    k.invalid |= gone - k.heard
                k.maybe |= gone
                continue
            # told now, or while the pack was going on
            if k.late:
                continue # connected during the pack
            missing = gone - told[k] - k.heard
            c.check(not missing, 'a client was not told of %s, removed by the pack', short(missing))
        for oid in gone:
            del self.m[oid]
        self.given -= gone | self.removed
        self.removed = set()
        self.packing = False


def world(c, timeout_short=False, **kw):
    w = World(c, timeout=0.25 if timeout_short else 5, **kw)
    w.rig.timeout_short = timeout_short
    return w


def drive(c, w, steps, weights, clients=3):
    r = c.rng
    k = Client(w)
    w.new_oids(k, 1, one=True)
    w.begin_commit(k)
    t = w.tdata([(ROOT, rec(ROOT, b'root', []))])
    k.send(struct.pack('>L', len(t)) + t)
    c.equal(k.recv(1), b'O', 'answer to the first commit')
    w.stored(k, {ROOT: rec(ROOT, b'root', [])})
    names = [n for n, x in weights.items() for _ in range(x)]
    for _ in range(steps):
        while len(w.clients) < 2 or len(w.clients) < clients and r.random() < 0.5:
            Client(w)
        k = r.choice(w.clients)
        op = r.choice(names)
        if op == 'oids':
            w.new_oids(k, r.choice([1, 1, 3, 32, 255]), one=False)
        elif op == 'oid':
            w.new_oids(k, 1, one=True)
        elif op == 'close':
            c.log('close')
            if r.random() < 0.5:
                k.send(b'.')
            w.drop(k)
        elif op == 'step':
            if w.packing:
                w.rig.step()
                if w.rig.server.packer is None:
                    w.end_pack()
        else:
            getattr(w, op)(k)
        w.rig.check()
    if w.packing:
        w.end_pack()
    final = Client(w)
    for oid in sorted(w.m):
        final.send(b'L' + oid)
        w.expect_load(final, oid)
    for k in w.clients:
        w.sync(k)
    m = dict(w.m)
    w.rig.close()
    return m


def reopened(c, w):
    if w.kind not in ('file', 'file2', 'sqlite'):
        return
    # the file has exactly what was stored
    from durus.storage import Storage
    _, make = make_storage(c, w.kind)
    s = make()
    for oid in sorted(w.m):
        c.equal(s.load(oid), w.m[oid], 'record of %r in the reopened file' % oid)
    c.raises(KeyError, lambda: s.load(b'\xff' * 8), 'record of an oid that was never used')
    s.close()


def guarded(c, w, f):
    try:
        f()
    finally:
        if not w.rig.stopped:
            try:
                w.rig.close()
            except Exception:
                pass


@case('C15', 'C07', 'C16', n=150, limit=40)
def server_protocol(c):
    """several raw clients, random requests; every response against a model of
    records, pending invalidations and allocated oids; streams in pieces."""
    w = world(c)
    def run():
        drive(c, w, c.rng.choice([10, 30, 60]),
              {'commit': 8, 'sync': 3, 'load': 4, 'bulk': 3, 'oids': 2, 'oid': 2, 'close': 1})
        reopened(c, w)
    guarded(c, w, run)
    c.note()


@case('C23', 'C15', n=200, limit=40)
def server_faulty(c):
    """the same with clients that send unknown commands, malformed commits,
    oids of others, and disconnect anywhere: the others notice nothing."""
    w = world(c, timeout_short=c.index % 25 == 7)
    def run():
        drive(c, w, c.rng.choice([10, 30, 50]),
              {'commit': 5, 'sync': 2, 'load': 2, 'bulk': 2, 'oids': 2, 'oid': 1, 'close': 1,
               'nasty': 6}, clients=4)
        reopened(c, w)
    guarded(c, w, run)
    c.note()


@case('C06', 'C05', 'C15', 'C07', n=120, limit=40)
def server_pack(c):
    """requests between the steps of a pack, commits and faulty clients among
    them: all that is reachable stays, all that is removed is reported."""
    kind = c.rng.choice(['file', 'file', 'file2', 'sqlite'])
    w = world(c, kind=kind, gcbytes=0)
    def run():
        drive(c, w, c.rng.choice([30, 60, 100]),
              {'commit': 8, 'sync': 2, 'load': 2, 'bulk': 1, 'oids': 1, 'oid': 1, 'close': 1,
               'nasty': 1, 'pack': 2, 'step': 8})
        reopened(c, w)
    guarded(c, w, run)
    c.note(w.packing is False)


@case('C07', 'C06', n=40, limit=40)
def server_reuse(c):
    """oids that a pack freed: not allocated before every client has heard of
    the removal, nor while they are in use."""
    w = world(c, kind='file', gcbytes=0)
    w.unlink = 0.6
    w.tell = 0.2
    def run():
        drive(c, w, c.rng.choice([30, 60]),
              {'commit': 8, 'oids': 3, 'oid': 6, 'pack': 3, 'step': 20})
        reopened(c, w)
    guarded(c, w, run)
    c.note(w.packing is False)


@case('C16', n=120, limit=40)
def client_in_step(c):
    """the real ClientStorage: loads, bulk loads with errors in the middle,
    commits with conflicts and without, syncs; each answer against the model,
    with the streams in pieces."""
    from durus.error import ConflictError, ReadConflictError, DurusKeyError
    from durus.serialize import split_oids
    r = c.rng
    w = world(c, kind=r.choice(['file', 'memory', 'file2']))
    def run():
        clients = []
        for _ in range(r.choice([2, 3])):
            s = w.rig.client()
            s.oid_pool_size = r.choice([1, 2, 32, 100])
            clients.append([s, set()])
        m = w.m
        given = set()
        def others(s, oids):
            for p in clients:
                if p[0] is not s:
                    p[1] |= set(oids)
        s0 = clients[0][0]
        o = s0.new_oid()
        c.equal(o, ROOT, 'first oid')
        given.add(o)
        s0.begin()
        s0.store(o, rec(o, b'root', []))
        s0.end()
        m[o] = rec(o, b'root', [])
        others(s0, [o])
        unstored = {id(p[0]): [] for p in clients}
        for step in range(r.choice([10, 30, 60])):
            s, invalid = p = r.choice(clients)
            op = r.choice(['load', 'load', 'bulk', 'bulk', 'sync', 'commit', 'commit', 'commit', 'oid', 'pack'])
            c.log(op)
            pool = sorted(m) + [oid_of(10 ** 7)] * r.choice([0, 0, 1, 3]) + sorted(invalid)
            def outcome(oid):
                return ('I', oid) if oid in invalid else ('O', m[oid]) if oid in m else ('K', oid)
            def get(f):
                try:
                    return ('O', f())
                except ReadConflictError as e:
                    return ('I', e.args)
                except DurusKeyError as e:
                    return ('K', e.args)
            if op == 'load':
                oid = r.choice(pool)
                got = get(lambda: s.load(oid))
                want = outcome(oid)
                c.equal(got[0], want[0], 'kind of answer to load')
                if got[0] == 'O':
                    c.equal(got[1], want[1], 'record loaded')
            elif op == 'bulk':
                oids = [r.choice(pool) for _ in range(r.choice([0, 1, 4, 12, 300 if w.rig.trickle != 1 else 20]))]
                want = [outcome(x) for x in oids]
                bad = [x for x in want if x[0] != 'O']
                limit = r.choice([None, None, 1])
                def load():
                    out = []
                    for x in s.bulk_load(iter(oids) if r.random() < 0.5 else oids):
                        out.append(x)
                    return out
                if limit and not bad and oids:
                    # one that is not finished
                    g = iter(s.bulk_load(oids))
                    c.equal(next(g), want[0][1], 'first record of a bulk load')
                    del g
                    continue
                got = get(load)
                if bad:
                    c.check(got[0] in [x[0] for x in bad], 'bulk load with errors gives %s', got[0])
                else:
                    c.equal(got, ('O', [x[1] for x in want]), 'bulk load')
            elif op == 'sync':
                got = s.sync()
                c.equal(sorted(got), sorted(invalid), 'sync')
                p[1] = set()
            elif op == 'oid':
                for _ in range(r.choice([1, 5, 40])):
                    oid = s.new_oid()
                    c.check(len(oid) == 8 and oid not in given, 'oid %r twice', oid)
                    given.add(oid)
                    unstored[id(s)].append(oid)
            elif op == 'pack':
                continue
            else:
                s.begin()
                recs = {}
                new = []
                for _ in range(r.choice([0, 0, 1, 3])):
                    oid = s.new_oid()
                    c.check(oid not in given, 'oid %r twice', oid)
                    new.append(oid)
                    given.add(oid)
                    recs[oid] = rec(oid, b'n%d' % step, [])
                for oid in r.sample(sorted(m), min(len(m), r.choice([0, 1, 2]))):
                    recs[oid] = rec(oid, b'r%d' % step + bytes(r.choice([0, 10, 9000 if w.rig.trickle != 1 else 300])), [])
                for oid, x in recs.items():
                    s.store(oid, x)
                told = []
                conflict = r.random() < 0.4
                def handle(oids):
                    told.append(list(oids))
                    if conflict:
                        raise ConflictError(oids)
                try:
                    s.end(handle)
                    done = True
                except ConflictError:
                    done = False
                if invalid:
                    c.equal([sorted(x) for x in told], [sorted(invalid)], 'invalidations of a commit')
                c.equal(done, not (conflict and invalid), 'commit succeeds')
                p[1] = set()
                if done:
                    m.update(recs)
                    others(s, recs)
                else:
                    given -= set(new)
            if op == 'commit':
                # what was stored is exactly what the others see
                t = r.choice(clients)
                oid = r.choice(sorted(m))
                if oid not in t[1]:
                    c.equal(t[0].load(oid), m[oid], 'record after a commit')
        for s, invalid in clients:
            c.equal(sorted(s.sync()), sorted(invalid), 'last sync')
            c.equal(list(s.bulk_load(sorted(m))), [m[x] for x in sorted(m)], 'all records')
    guarded(c, w, run)
    w.rig.check()
    c.note()


@case('C16', n=40, limit=20)
def client_answers(c):
    """a server of the case that gives every kind of answer, also wrong ones;
    another protocol version is refused."""
    import threading
    from durus.client_storage import ClientStorage
    from durus.error import ProtocolError
    from durus.storage_server import SocketAddress
    r = c.rng
    a, b = socket.socketpair()
    a.settimeout(10)
    b.settimeout(10)
    class Address(SocketAddress):
        def get_connected_socket(self):
            return a
    version = r.choice([1, 1, 1, 0, 2, 2 ** 24, 2 ** 32 - 1])
    b.sendall(struct.pack('>L', version))
    if version != 1:
        c.raises(ProtocolError, lambda: ClientStorage(address=Address()), 'protocol version %d' % version)
        a.close(); b.close()
        c.note()
        return
    s = ClientStorage(address=Address())
    c.equal(recv_all(b, 5), b'V' + struct.pack('>L', 1), 'what the client says first')
    bad = r.choice([b'X', b'\x00', b'o', b'k'])
    for status in r.sample([b'O', b'I', b'K', bad], 4):
        what = r.choice(['load', 'pack', 'end'])
        c.log(what, status)
        oid = r.randbytes(8)
        if what == 'load':
            b.sendall(status + (struct.pack('>L', 3) + b'abc' if status == b'O' else b''))
            try:
                got = s.load(oid)
            except Exception as e:
                got = type(e).__name__
            c.equal(got, {b'O': b'abc', b'I': 'ReadConflictError', b'K': 'DurusKeyError'}.get(
                status, 'ProtocolError'), 'answer to a load with status %r' % status)
            c.equal(recv_all(b, 9), b'L' + oid, 'request of a load')
        elif what == 'pack':
            b.sendall(status)
            try:
                s.pack()
                got = 'ok'
            except Exception as e:
                got = type(e).__name__
            c.equal(got, 'ok' if status == b'O' else 'ProtocolError', 'answer to a pack')
            c.equal(recv_all(b, 1), b'P', 'request of a pack')
        else:
            s.begin()
            x = rec(oid, b'data', [ROOT])
            s.store(oid, x)
            b.sendall(struct.pack('>L', 0) + status)
            try:
                s.end(lambda oids: None)
                got = 'ok'
            except Exception as e:
                got = type(e).__name__
            c.equal(got, {b'O': 'ok', b'I': 'WriteConflictError'}.get(status, 'ProtocolError'),
                    'answer to a commit')
            t = struct.pack('>L', 8 + len(x)) + oid + x
            c.equal(recv_all(b, 1 + 4 + len(t)), b'C' + struct.pack('>L', len(t)) + t,
                    'request of a commit')
    a.close(); b.close()
    c.note()
