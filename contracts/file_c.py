"""
Contracts of durus/file.py: the lock, read-only files, what writing and renaming leave behind (C19, C21, C22, C02, C03).

The system below is a model: a directory (ino: which file, if any, each name stands for), the contents of the files, for each
open file a position and whether it holds the lock, and what of it has been synced.  A write may write a part only, or fail
after any part; the lock may be refused; link may fail.
"""
from pyvc.engine import *
from pyvc import natives as NA
from pyvc.natives import *
from pyvc.runner import contract
from pyvc.interp import Contract

M = 'durus.file:'
n = z3.IntVal
AI, AC = z3.ArraySort(Bytes, I), z3.ArraySort(I, Bytes)
ForAll = z3.ForAll
x_ = z3.Const('x', Bytes)

class RawV(FileV):
    """an open file of the system"""
    def __init__(self, it, fs, name, mode, ino, temp=False, locked=z3.BoolVal(False), pos=0):
        FileV.__init__(self, it.ctx, 'raw', b=fs.c['cont'][ino], pos=pos, mode=mode)
        self.fs, self.fname, self.temp = fs, name, temp
        self.c.update(ino=ino, locked=locked, synced=it.ctx.bytes('synced'), closed=z3.BoolVal(False))
    def attr(self, it, name):
        if name == 'name': return self.fname
        return FileV.attr(self, it, name)
    def isinst(self, it, cls):
        if isinstance(cls, NativeClass) and cls.name == '_TemporaryFileWrapper': return self.temp
        raise Unsupported('type of a file')
    def store(self): self.fs.c['cont'] = z3.Store(self.fs.c['cont'], self.c['ino'], self.c['b'])
    def writable(self, it, what):
        if self.mode == 'rb': it.raise_(OSError)
        it.ctx.prove(self.c['locked'], 'the lock is held when the file is %s' % what)
        it.ctx.prove(Not(self.c['closed']), 'the file is open when it is %s' % what)
    def m_write(self, it, s):
        ctx, s = it.ctx, to_bytes(s)
        self.writable(it, 'written')
        k = ctx.int('part', lo=0)
        ctx.assume(And(k <= blen(s), Or(k > 0, blen(s) == 0)))
        fail = ctx.choose([None, None], 'write') == 1
        b, p = self.c['b'], to_int(self.c['pos'])
        if not ctx.branch(p <= blen(b)): raise Unsupported('write beyond the end')
        self.c['b'] = wr(b, p, sub(s, n(0), k))
        self.c['pos'] = simp_t(p + k)
        self.store()
        if fail: it.raise_(OSError)
        return k
    def m_truncate(self, it, size=None):
        self.writable(it, 'truncated')
        FileV.m_truncate(self, it, size)
        self.store()
    def m_close(self, it):
        self.c['closed'], self.c['locked'] = z3.BoolVal(True), z3.BoolVal(False)

def text(v): return to_bytes(v.encode('utf-8')) if isinstance(v, str) else v.t

def the_system(it):
    """the functions of the system that file.py uses"""
    ctx = it.ctx
    fs = Obj(ctx, None, 'system', ino=ctx.fresh_const(AI, 'ino'), cont=ctx.fresh_const(AC, 'cont'), next=ctx.int('next', lo=0))
    ctx.assume(ForAll([x_], And(fs.c['ino'][x_] >= -1, fs.c['ino'][x_] < fs.c['next']), patterns=[fs.c['ino'][x_]]))
    it.fs, it.watch = fs, []
    def changed():
        for f in it.watch: f()
    def rename(it, a, k):
        o, w = text(a[0]), text(a[1])
        if not ctx.branch(fs.c['ino'][o] >= 0): it.raise_(OSError)
        i = fs.c['ino'][o]
        fs.c['ino'] = z3.Store(z3.Store(fs.c['ino'], o, n(-1)), w, i)
        changed()
    def unlink(it, a, k):
        if not ctx.branch(fs.c['ino'][text(a[0])] >= 0): it.raise_(OSError)
        fs.c['ino'] = z3.Store(fs.c['ino'], text(a[0]), n(-1))
        changed()
    def link(it, a, k):
        o, w = text(a[0]), text(a[1])
        if not ctx.branch(And(fs.c['ino'][o] >= 0, fs.c['ino'][w] < 0)): it.raise_(OSError)
        if ctx.choose([None, None], 'link') == 1: it.raise_(OSError)
        fs.c['ino'] = z3.Store(fs.c['ino'], w, fs.c['ino'][o])
        changed()
    def opens(it, a, k):
        name, mode = a[0], a[1] if len(a) > 1 else 'r'
        w = text(name)
        if len(a) < 3 and mode != 'rb': raise Unsupported('a buffered file')
        there = ctx.branch(fs.c['ino'][w] >= 0)
        if mode in ('rb', 'r+b'):
            if not there: it.raise_(OSError)
        elif mode == 'w+b':
            if there: fs.c['cont'] = z3.Store(fs.c['cont'], fs.c['ino'][w], empty)
            else:
                fs.c['ino'] = z3.Store(fs.c['ino'], w, fs.c['next'])
                fs.c['cont'] = z3.Store(fs.c['cont'], fs.c['next'], empty)
                fs.c['next'] = fs.c['next'] + 1
            changed()
        else: raise Unsupported('open mode')
        it.opened = RawV(it, fs, name, mode, fs.c['ino'][w])
        return it.opened
    def flock(it, a, k):
        f, op = a
        if op == 8:
            f.c['locked'] = z3.BoolVal(False)
            return
        if op != 6: raise Unsupported('flock')
        if ctx.choose([None, None], 'flock') == 1: it.raise_(OSError)
        f.c['locked'] = z3.BoolVal(True)
    def fsync(it, a, k): a[0].c['synced'] = a[0].c['b']
    def stat(it, a, k):
        if not ctx.branch(fs.c['ino'][text(a[0])] >= 0): it.raise_(OSError)
        return Obj(ctx, None, 'stat', st_size=blen(fs.c['cont'][fs.c['ino'][text(a[0])]]))
    def temp(it, a, k):
        fs.c['cont'] = z3.Store(fs.c['cont'], fs.c['next'], empty)
        it.opened = RawV(it, fs, TextV(ctx.bytes('temp_name')), 'rb+', fs.c['next'], temp=True)
        fs.c['next'] = fs.c['next'] + 1
        return it.opened
    import types
    m = it.module('durus.file')
    os_, fc = NA.std_module(it, 'os'), NA.std_module(it, 'fcntl')
    for name, f in (('rename', rename), ('unlink', unlink), ('link', link), ('fsync', fsync), ('stat', stat)): os_.env[name] = Builtin(name, f)
    fc.env['flock'] = Builtin('flock', flock)
    m.env['open'] = Builtin('open', opens)
    m.env['exists'] = Builtin('exists', lambda it, a, k: simp(fs.c['ino'][text(a[0])] >= 0))
    m.env['NamedTemporaryFile'] = Builtin('NamedTemporaryFile', temp)
    m.env['_TemporaryFileWrapper'] = NativeClass('_TemporaryFileWrapper')
    return fs

class FileC(Contract):
    extra = True
    props = ('C19',)
    modes = ('rb', 'r+b', 'w+b', 'rb+')
    def setup(self, it):
        ctx, fs = it.ctx, the_system(it)
        mode = self.modes[ctx.choose([None] * len(self.modes), 'mode')]
        name = TextV(ctx.bytes('name'))
        ino = ctx.int('ino', lo=0)
        temp = mode == 'rb+'
        locked = ctx.fresh(BOOL, 'locked')
        ctx.assume(ino < fs.c['next'])
        if mode == 'rb': ctx.assume(Not(locked))
        if not temp: ctx.assume(fs.c['ino'][name.t] == ino)
        raw = RawV(it, fs, name, mode, ino, temp, locked, pos=ctx.int('pos', lo=0))
        me = Obj(ctx, it.cls(M + 'File'), 'file', file=raw, has_lock=locked)
        return [me] + self.more(it), {}
    def more(self, it): return []
    def raw(self, cx): return cx.self.c['file']
    def was(self, cx): return cx.old(cx.old(cx.self).c['file'])
    def modifies(self, cx): return None
    def post(self, cx):
        return [('has_lock tells whether the lock is held', to_bool(cx.self.c['has_lock']) == self.raw(cx).c['locked'])] + self.ensures(cx)
    def post_exc(self, cx):
        return [('has_lock tells whether the lock is held', to_bool(cx.self.c['has_lock']) == self.raw(cx).c['locked'])] + self.ensures_exc(cx)
    def ensures(self, cx): return []
    def ensures_exc(self, cx): return []
    def same(self, cx, *but):
        """nothing but these has changed"""
        r, o, fs, fo = self.raw(cx), self.was(cx), cx.it.fs, cx.old(cx.it.fs)
        return [('nothing else changes', And(z3.BoolVal(r is cx.old(cx.self).c['file']),
            *[r.c[x] == o.c[x] for x in ('b', 'pos', 'locked', 'synced', 'closed') if x not in but] + [fs.c[x] == fo.c[x] for x in ('ino', 'cont', 'next') if x not in but]))]

@contract
class file_seek(FileC):
    target = M + 'File.seek'
    raises = (ValueError,)
    def more(self, it):
        it.whence = (0, 2)[it.ctx.choose([None, None], 'whence')]
        return [it.ctx.int('n') if it.whence == 0 else 0, it.whence]
    def ensures(self, cx):
        p = to_int(self.raw(cx).c['pos'])
        return self.same(cx, 'pos') + [('the position', p == (to_int(cx.n) if cx.it.whence == 0 else blen(self.raw(cx).c['b'])))]
    def ensures_exc(self, cx): return self.same(cx) + [('only for a negative position', to_int(cx.n) < 0)]

@contract
class file_seek_end(FileC):
    target = M + 'File.seek_end'
    def ensures(self, cx):
        return self.same(cx, 'pos') + [('the position is the end', to_int(self.raw(cx).c['pos']) == blen(self.raw(cx).c['b']))]

@contract
class file_tell(FileC):
    target = M + 'File.tell'
    def ensures(self, cx): return self.same(cx) + [('', to_int(cx.result) == to_int(self.raw(cx).c['pos']))]

@contract
class file_read(FileC):
    target = M + 'File.read'
    def more(self, it): return [it.ctx.int('n', lo=0) if it.ctx.choose([None, None], 'n') == 0 else None]
    def ensures(self, cx):
        b, p, p1 = self.was(cx).c['b'], to_int(self.was(cx).c['pos']), to_int(self.raw(cx).c['pos'])
        r = to_bytes(cx.result)
        m = z3.If(p <= blen(b), blen(b) - p, 0)
        if cx.n is not None: m = z3.If(to_int(cx.n) <= m, to_int(cx.n), m)
        return self.same(cx, 'pos') + [('what is at the position, up to the end', And(blen(r) == m, Or(m == 0, r == sub(b, p, m)), p1 == p + m))]

@contract
class file_obtain_lock(FileC):
    target = M + 'File.obtain_lock'
    asserts_raise = True
    raises = (AssertionError, OSError)
    def ensures(self, cx): return self.same(cx, 'locked') + [('the lock is held', self.raw(cx).c['locked']), ('not for a file opened to read only', z3.BoolVal(self.raw(cx).mode != 'rb'))]
    def ensures_exc(self, cx): return self.same(cx) + [('not if the lock is held', Not(self.was(cx).c['locked']))]

@contract
class file_release_lock(FileC):
    target = M + 'File.release_lock'
    def ensures(self, cx): return self.same(cx, 'locked') + [('the lock is not held', Not(self.raw(cx).c['locked']))]

@contract
class file_close(FileC):
    target = M + 'File.close'
    def ensures(self, cx): return self.same(cx, 'locked', 'closed') + [('closed, without the lock', And(Not(self.raw(cx).c['locked']), self.raw(cx).c['closed']))]

@contract
class file_write(FileC):
    """C19: only with the lock, never when read-only.  C03: the bytes, or a part of them before an error."""
    target = M + 'File.write'
    props = ('C19', 'C03', 'C02')
    asserts_raise = True
    raises = (AssertionError, OSError)
    def more(self, it): return [it.ctx.bytes('s')]
    def pre(self, cx):
        r = self.raw(cx)
        return [('the position is in the file', r.c['pos'] <= blen(r.c['b'])), ('the file is open', Not(r.c['closed']))]
    def ensures(self, cx):
        r, o, s = self.raw(cx), self.was(cx), to_bytes(cx.s)
        return self.same(cx, 'b', 'pos', 'locked', 'cont') + [('s is written at the position', And(r.c['b'] == wr(o.c['b'], to_int(o.c['pos']), s), to_int(r.c['pos']) == to_int(o.c['pos']) + blen(s))),
            ('the lock is held', r.c['locked']), ('it is in the file of the system', cx.it.fs.c['cont'] == z3.Store(cx.old(cx.it.fs).c['cont'], o.c['ino'], r.c['b'])),
            ('not for a file opened to read only', z3.BoolVal(r.mode != 'rb'))]
    def ensures_exc(self, cx):
        r, o, s = self.raw(cx), self.was(cx), to_bytes(cx.s)
        p, p1 = to_int(o.c['pos']), to_int(r.c['pos'])
        if r.mode == 'rb': return self.same(cx)
        return self.same(cx, 'b', 'pos', 'locked', 'cont') + [('a part of s is written', And(p <= p1, p1 - p <= blen(s), Or(p1 == p, r.c['b'] == wr(o.c['b'], p, sub(s, n(0), p1 - p))),
            Implies(p1 == p, r.c['b'] == o.c['b'])))]
    class L0(object):
        def __call__(self, L):
            r, s = L['self'].c['file'], to_bytes(L['s'])
            o = L.old(r)
            p, k = to_int(o.c['pos']), to_int(r.c['pos']) - to_int(o.c['pos'])
            fs = L.it.fs
            return [('what has been written', And(k >= 0, k <= blen(s), r.c['b'] == wr(o.c['b'], p, sub(s, n(0), k)), to_int(L['n']) == k)),
                    ('the rest', And(r.c['locked'], r.c['synced'] == o.c['synced'], to_bool(L['self'].c['has_lock']),
                                     fs.c['cont'] == z3.Store(L.old(fs).c['cont'], r.c['ino'], r.c['b'])))]
    loops = {0: L0()}

@contract
class file_truncate(FileC):
    target = M + 'File.truncate'
    props = ('C19', 'C21', 'C04')
    asserts_raise = True
    raises = (AssertionError, OSError)
    def pre(self, cx):
        r = self.raw(cx)
        return [('the position is in the file', r.c['pos'] <= blen(r.c['b'])), ('the file is open', Not(r.c['closed']))]
    def ensures(self, cx):
        r, o = self.raw(cx), self.was(cx)
        return self.same(cx, 'b', 'locked', 'cont') + [('it ends at the position', r.c['b'] == sub(o.c['b'], n(0), to_int(o.c['pos']))), ('the lock is held', r.c['locked']),
            ('so does the file of the system', cx.it.fs.c['cont'] == z3.Store(cx.old(cx.it.fs).c['cont'], o.c['ino'], r.c['b'])),
            ('not for a file opened to read only', z3.BoolVal(r.mode != 'rb'))]
    def ensures_exc(self, cx): return self.same(cx, 'locked')

@contract
class file_fsync(FileC):
    target = M + 'File.fsync'
    props = ('C03',)
    def ensures(self, cx): return self.same(cx, 'synced') + [('all of it is synced', self.raw(cx).c['synced'] == self.raw(cx).c['b'])]

@contract
class file_flush(FileC):
    """(the file is not buffered)"""
    target = M + 'File.flush'
    def ensures(self, cx): return self.same(cx)

@contract
class file_is_readonly(FileC):
    target = M + 'File.is_readonly'
    def ensures(self, cx): return self.same(cx) + [('', to_bool(cx.result) == z3.BoolVal(self.raw(cx).mode == 'rb'))]

@contract
class file_is_temporary(FileC):
    target = M + 'File.is_temporary'
    def ensures(self, cx): return self.same(cx) + [('', z3.BoolVal(bool(cx.result) == self.raw(cx).temp))]

@contract
class file_len(FileC):
    target = M + 'File.__len__'
    modes = ('rb', 'r+b', 'w+b')
    def pre(self, cx): return [('', cx.it.fs.c['cont'][self.raw(cx).c['ino']] == self.raw(cx).c['b'])]
    def ensures(self, cx): return self.same(cx) + [('', to_int(cx.result) == blen(self.raw(cx).c['b']))]

class Renaming(FileC):
    props = ('C22', 'C19')
    asserts_raise = True
    raises = (AssertionError, OSError)
    def more(self, it):
        w = TextV(it.ctx.bytes('new_name'))
        self.w = w
        return [w]
    def pre(self, cx):
        r, fs = self.raw(cx), cx.it.fs
        w, o = cx.a['name'].t, fs.c['ino']
        i0, i1 = o[w], r.c['ino']
        def watch():
            x = fs.c['ino'][w]
            cx.ctx.prove(self.at_all_times(x, i0, i1), 'what the new name stands for at any time')
        cx.it.watch.append(watch)
        return [('the file is open, and is what its name stands for', And(Not(r.c['closed']), Or(z3.BoolVal(r.temp), o[r.fname.t] == i1), fs.c['cont'][i1] == r.c['b']))]
    def same_content(self, cx):
        return ('the contents of all files are those before', cx.it.fs.c['cont'] == cx.old(cx.it.fs).c['cont'])

@contract
class file_rename(Renaming):
    """C22: whatever happens, the new name stands for a complete file: the one before, or this one."""
    target = M + 'File.rename'
    def at_all_times(self, x, i0, i1): return Or(x == i0, x == i1)
    def ensures(self, cx):
        fs, fo, o, w = cx.it.fs, cx.old(cx.it.fs), self.was(cx), cx.a['name'].t
        old = cx.old(cx.self).c['file'].fname.t
        r = self.raw(cx)
        return [self.same_content(cx), ('the names', Or(And(old == w, fs.c['ino'] == fo.c['ino']), And(old != w, fs.c['ino'] == z3.Store(z3.Store(fo.c['ino'], old, n(-1)), w, o.c['ino'])))),
                ('it is still this file, open for writing', And(r.c['ino'] == o.c['ino'], Not(r.c['closed']), z3.BoolVal(r.mode != 'rb' or r is cx.old(cx.self).c['file']), r.fname.t == w, r.c['b'] == o.c['b'])),
                ('with the lock', Or(r.c['locked'], old == w))]
    def post_exc(self, cx):
        fs, fo, o, w = cx.it.fs, cx.old(cx.it.fs), self.was(cx), cx.a['name'].t
        return [self.same_content(cx)]

@contract
class file_link(Renaming):
    """the other name is free, stands for this file, or for what it stood for before"""
    target = M + 'File.link'
    def pre(self, cx): return Renaming.pre(self, cx) + [('the other name is another name', cx.a['name'].t != self.raw(cx).fname.t)]
    def at_all_times(self, x, i0, i1): return Or(x == i0, x == i1, x == -1)
    def ensures(self, cx):
        fs, w = cx.it.fs, cx.a['name'].t
        r = self.raw(cx)
        return [self.same_content(cx), ('the name stands for this file', fs.c['ino'][w] == self.was(cx).c['ino']),
                ('no name but this one and the old one is changed', ForAll([x_], Implies(And(x_ != w, x_ != cx.old(cx.self).c['file'].fname.t), fs.c['ino'][x_] == cx.old(fs).c['ino'][x_]), patterns=[fs.c['ino'][x_]])),
                ('it is still this file, with the lock', And(r.c['ino'] == self.was(cx).c['ino'], r.c['locked'], Not(r.c['closed']), r.c['b'] == self.was(cx).c['b']))]
    def post_exc(self, cx): return [self.same_content(cx)]

@contract
class file_init(Contract):
    """C19, C21: opening a file never changes it"""
    target = M + 'File.__init__'
    extra = True
    props = ('C19', 'C21', 'C02')
    raises = (OSError,)
    def setup(self, it):
        the_system(it)
        me = Obj(it.ctx, it.cls(M + 'File'), 'file')
        it.given = None if it.ctx.choose([None, None], 'name') == 0 else TextV(it.ctx.bytes('name'))
        it.ro = it.given is not None and it.ctx.choose([None, None], 'readonly') == 1
        return [me, it.given, it.ro], {}
    def modifies(self, cx): return None
    def post(self, cx):
        it, fs, fo = cx.it, cx.it.fs, cx.old(cx.it.fs)
        r = cx.self.c['file']
        out = [('no lock yet', And(Not(to_bool(cx.self.c['has_lock'])), Not(r.c['locked']))), ('it is at the start', to_int(r.c['pos']) == 0),
               ('read-only if that was asked for', z3.BoolVal((r.mode == 'rb') == it.ro)),
               ('the contents of the files that were there are kept', ForAll([z3.Int('i')], Implies(z3.Int('i') < fo.c['next'], fs.c['cont'][z3.Int('i')] == fo.c['cont'][z3.Int('i')]), patterns=[fs.c['cont'][z3.Int('i')]]))]
        if it.given is None: return out + [('a new file', And(r.c['b'] == empty, fs.c['ino'] == fo.c['ino']))]
        w = it.given.t
        there = fo.c['ino'][w] >= 0
        return out + [('the file of that name, or a new one', And(fs.c['ino'][w] == r.c['ino'], Implies(there, And(fs.c['ino'] == fo.c['ino'], r.c['b'] == fo.c['cont'][fo.c['ino'][w]])),
                        Implies(Not(there), And(r.c['b'] == empty, z3.BoolVal(not it.ro)))))]
    def post_exc(self, cx):
        fs, fo = cx.it.fs, cx.old(cx.it.fs)
        return [('only for a file that is not there, to be read only', And(fo.c['ino'][cx.it.given.t] < 0, z3.BoolVal(cx.it.ro))), ('nothing changes', And(fs.c['ino'] == fo.c['ino'], fs.c['cont'] == fo.c['cont']))]
