"""C08: file-backed arrays, sets and offset maps against models."""
from io import BytesIO
from harness.core import case
from harness.codec import some_bytes

BIG = [0, 1, 7, 8, 9, 15, 16, 63, 64, 255, 256, 1000, 8195, 8196, 8197, 16392, 16393]


def some_file(c, allow_disk=True):
    """A file-like object with something before the structure."""
    r = c.rng
    prefix = some_bytes(r, r.choice([0, 0, 1, 3, 8, 100]))
    if allow_disk and r.random() < 0.3:
        from durus.file import File
        f = File(c.path('a%d' % r.randrange(10 ** 9)))
    else:
        f = BytesIO()
    f.write(prefix)
    return f, prefix


def content(f):
    p = f.tell()
    f.seek(0)
    b = f.read()
    f.seek(p)
    return b


def outside(c, f, prefix, what):
    c.equal(content(f)[:len(prefix)], prefix, 'bytes before the %s' % what)


@case('C08', n=250)
def array_bytes(c):
    """ByteArray vs bytearray: random reads, writes, slices, growth."""
    from durus.utils import ByteArray
    r = c.rng
    f, prefix = some_file(c)
    n = r.choice(BIG)
    a = ByteArray(size=n, file=f)
    m = bytearray(n)
    for step in range(40):
        k = r.random()
        n = len(m)
        c.equal(len(a), n, 'length')
        c.equal(a.get_size(), n, 'size')
        if k < 0.25:
            j = r.randrange(-3, n + 3)
            v = bytes([r.randrange(256)])
            c.log('set', j, v)
            if 0 <= j < n:
                a[j] = v; m[j:j+1] = v
            else:
                c.raises(IndexError, lambda: a.__setitem__(j, v), 'a[%d]=' % j)
        elif k < 0.5:
            j = r.choice([r.randrange(-3, n + 3), 0, n - 1, n])
            c.log('get', j)
            if 0 <= j < n:
                c.equal(a[j], bytes(m[j:j+1]), 'a[%d]' % j)
            else:
                c.raises(IndexError, lambda: a[j], 'a[%d]' % j)
        elif k < 0.75:
            j = r.randrange(-2, n + 2); e = r.randrange(-2, n + 4)
            c.log('slice', j, e)
            if 0 <= j < e <= n:
                if r.random() < 0.5:
                    c.equal(a[j:e], bytes(m[j:e]), 'a[%d:%d]' % (j, e))
                else:
                    v = some_bytes(r, e - j)
                    a[j:e] = v; m[j:e] = v
                    bad = some_bytes(r, e - j + r.choice([-1, 1]))
                    c.raises(ValueError, lambda: a.__setitem__(slice(j, e), bad),
                             'slice assignment of the wrong length')
            else:
                c.raises(IndexError, lambda: a[j:e], 'a[%d:%d]' % (j, e))
                c.raises(IndexError, lambda: a.__setitem__(slice(j, e), b''),
                         'a[%d:%d]=' % (j, e))
        elif k < 0.85:
            d = r.choice([0, 1, 2, 8, 100, 8196, 8195, 9000])
            b = bytes([r.randrange(256)])
            c.log('grow', d, b)
            a.set_size(n + d, init_byte=b)
            m.extend(b * d)
        elif k < 0.9:
            if n < 3000:
                c.equal(b''.join(a), bytes(m), 'iteration')
        else:
            if n:
                c.raises(ValueError, lambda: a.__setitem__(0, b'xy'), 'a[0]=2 bytes')
                c.raises(ValueError, lambda: a.__setitem__(0, b''), 'a[0]=0 bytes')
        outside(c, f, prefix, 'array')
    c.equal(content(f), prefix + bytes(m), 'content of the file')
    c.note()


@case('C08', n=250)
def array_bits(c):
    """Byte and BitArray vs lists of bits."""
    from durus.utils import BitArray, Byte
    r = c.rng
    v = r.randrange(256)
    b = Byte(v) if r.random() < 0.5 else Byte(bytes([v]))
    bits = [(v >> (7 - i)) & 1 for i in range(8)]
    for _ in range(20):
        j = r.randrange(-10, 10)
        if not -8 <= j <= 7:
            c.raises(IndexError, lambda: b[j], 'Byte[%d]' % j)
            c.raises(IndexError, lambda: b.__setitem__(j, 1), 'Byte[%d]=' % j)
        elif r.random() < 0.5:
            x = r.choice([0, 1, True, False])
            b[j] = x; bits[j] = int(x)
        c.equal([b[i] for i in range(8)], bits, 'bits of a Byte')
        c.equal(int(b), int(''.join(map(str, bits)), 2), 'int(Byte)')
        c.equal(b.byte(), bytes([int(b)]), 'Byte.byte()')
    f, prefix = some_file(c)
    n = r.choice([0, 1, 7, 8, 9, 15, 16, 17, 100, 1023, 1024, 3000])
    a = BitArray(n, file=f)
    m = [0] * n
    for _ in range(40):
        n = len(m)
        c.equal(len(a), n, 'length'); c.equal(a.get_size(), n, 'size')
        k = r.random()
        if k < 0.4:
            j = r.randrange(-n - 2, n + 3); x = r.choice([0, 1, True, False])
            c.log('set', j, x)
            if -n <= j < n:
                a[j] = x; m[j] = int(x)
            else:
                c.raises(IndexError, lambda: a.__setitem__(j, x), 'bit %d of %d' % (j, n))
        elif k < 0.7:
            j = r.randrange(-n - 2, n + 3)
            if -n <= j < n:
                c.equal(a[j], m[j], 'bit %d of %d' % (j, n))
            else:
                c.raises(IndexError, lambda: a[j], 'bit %d of %d' % (j, n))
        elif k < 0.8:
            d = r.choice([0, 1, 3, 7, 8, 9, 64, 500])
            c.log('grow', d)
            a.set_size(n + d); m.extend([0] * d)
        else:
            c.equal(list(a), m, 'iteration')
            c.equal(str(a), ''.join(map(str, m)), 'str')
        outside(c, f, prefix, 'bit array')
    c.equal(list(a), m, 'iteration')
    c.note()


@case('C08', n=250)
def array_words(c):
    """WordArray and IntArray vs lists, also re-opened from the same file."""
    from durus.utils import WordArray, IntArray
    r = c.rng
    f, prefix = some_file(c)
    w = r.randint(1, 9); n = r.choice([0, 1, 2, 5, 17, 100])
    a = WordArray(file=f, bytes_per_word=w, number_of_words=n)
    end = len(content(f))
    suffix = b''
    m = [bytes(w)] * n
    for _ in range(30):
        k = r.random()
        if k < 0.4:
            j = r.randrange(-n - 2, n + 2); v = some_bytes(r, w)
            c.log('set', j, v)
            if -n <= j < n:
                a[j] = v; m[j] = v
                c.raises(ValueError, lambda: a.__setitem__(j, v + b'x'), 'long word')
            else:
                c.raises(IndexError, lambda: a.__setitem__(j, v), 'word %d of %d' % (j, n))
        elif k < 0.8:
            j = r.randrange(-n - 2, n + 2)
            if -n <= j < n:
                c.equal(a[j], m[j], 'word %d of %d' % (j, n))
            else:
                c.raises(IndexError, lambda: a[j], 'word %d of %d' % (j, n))
        elif k < 0.9:
            c.equal(list(a), m, 'iteration'); c.equal(len(a), n, 'length')
        else:
            if not suffix and r.random() < 0.5:
                suffix = some_bytes(r, 20)
                f.seek(0, 2); f.write(suffix)
            f.seek(len(prefix))
            a = WordArray(file=f)
            c.equal(a.get_bytes_per_word(), w, 'bytes per word after re-opening')
        outside(c, f, prefix, 'word array')
        c.equal(content(f)[end:], suffix, 'bytes after the word array')
    c.equal(list(a), m, 'words at the end')
    # IntArray
    f, prefix = some_file(c)
    n = r.choice([0, 1, 2, 5, 17, 100])
    mx = r.choice([None, 0, 1, 254, 255, 256, 65534, 65535, 2 ** 24 - 2,
                   2 ** 32 - 1, 2 ** 40, 2 ** 56 - 2, 2 ** 56, 2 ** 63,
                   r.randrange(2 ** 20)])
    a = IntArray(file=f, number_of_ints=n, maximum_int=mx)
    m = [None] * n
    top = mx if mx is not None else 2 ** 64 - 2
    suffix = b''
    end = len(content(f))
    c.log('IntArray', n, mx)
    blank = a.get_blank_value()
    c.check(blank > top or (mx is None and blank == 2 ** 64 - 1),
            'the blank value %r is not above the maximum %r', blank, mx)
    for _ in range(30):
        k = r.random()
        j = r.randrange(-n - 2, n + 2)
        if k < 0.4:
            v = r.choice([0, top, r.randrange(top + 1), min(top, 255), min(top, 256)])
            c.log('iset', j, v)
            if -n <= j < n:
                a[j] = v; m[j] = v
            else:
                c.raises(IndexError, lambda: a.__setitem__(j, v), 'int %d of %d' % (j, n))
        elif k < 0.8:
            if -n <= j < n:
                c.equal(a.get(j), m[j], 'get(%d)' % j)
                c.equal(a.get(j, 'd'), 'd' if m[j] is None else m[j], 'get(%d, d)' % j)
                c.equal(a[j], blank if m[j] is None else m[j], 'a[%d]' % j)
            else:
                c.equal(a.get(j, 'd'), 'd', 'get(%d) of %d' % (j, n))
                c.raises(IndexError, lambda: a[j], 'a[%d] of %d' % (j, n))
        elif k < 0.9:
            c.equal(list(a), [blank if v is None else v for v in m], 'iteration')
            c.equal(list(a.iteritems()),
                    [(i, v) for i, v in enumerate(m) if v is not None], 'iteritems')
            c.equal(len(a), n, 'len')
            if n and a.word_array.get_bytes_per_word() < 8:
                c.raises(ValueError,
                         lambda: a.__setitem__(0, 256 ** a.word_array.get_bytes_per_word()),
                         'too big an int')
        else:
            if not suffix:
                suffix = some_bytes(r, 20)
                f.seek(0, 2); f.write(suffix)
            f.seek(len(prefix))
            a = IntArray(file=f)
        outside(c, f, prefix, 'int array')
        c.equal(content(f)[end:], suffix, 'bytes after the int array')
    c.equal([a.get(i) for i in range(n)], m, 'ints at the end')
    c.note()


@case('C08', n=300)
def array_intset(c):
    """IntSet vs set, with any initial size, including 0."""
    from durus.utils import IntSet
    r = c.rng
    size = r.choice([None, 0, 1, 2, 5, 7, 8, 9, 100, 1023])
    f, prefix = some_file(c)
    if size is None:
        s = IntSet() if r.random() < 0.5 else IntSet(file=f)
    else:
        s = IntSet(size, file=f)
    m = set()
    top = r.choice([2, 10, 50, 1100, 3000, 20000])
    c.log('size', size, 'top', top)
    for _ in range(60):
        n = r.choice([r.randrange(top), r.randrange(top), r.randrange(10)])
        if m and r.random() < 0.4:
            n = max(0, r.choice(sorted(m)) + r.choice([-1, 0, 0, 1, 8]))
        k = r.random()
        if k < 0.5:
            c.log('add', n); s.add(n); m.add(n)
        elif k < 0.7:
            c.log('discard', n); s.discard(n); m.discard(n)
        c.equal(n in s, n in m, '%d in the set' % n)
        q = r.randrange(top * 2)
        c.equal(q in s, q in m, '%d in the set' % q)
        outside(c, f, prefix, 'set')
    for q in sorted(m) + [r.randrange(top * 2) for _ in range(200)]:
        c.equal(q in s, q in m, '%d in the set at the end' % q)
    c.note()


@case('C08', n=300)
def array_offsetmap(c):
    """OffsetMap vs a map; holes after stitching are exactly the unused slots."""
    from durus.shelf import OffsetMap
    r = c.rng
    f = BytesIO()
    start = r.choice([8, 16, 100, 200, 254, 255, 256, 65500, 65530, 65535, 70000])
    f.write(bytes(start))
    max_oid = r.choice([-2, -1, 0, 1, 2, 3, 10, 40, 300])
    if r.random() < 0.3:
        max_oid = r.randrange(0, 80)
    if max_oid == -2:
        a = OffsetMap(f)
    else:
        a = OffsetMap(f, max_oid, start - 1)
    n = max_oid + 2
    c.log('start', start, 'slots', n)
    c.equal(a.get_start(), start, 'start')
    c.equal(a.get_array_size(), n, 'array size')
    density = r.choice([0, 0.1, 0.5, 0.9, 1])
    m = {}
    for j in range(n - 1):
        if r.random() < density:
            m[j] = r.choice([0, start - 1, r.randrange(start)])
    order = list(m)
    r.shuffle(order)
    for j in order:
        a[j] = m[j]
    c.log('map', m)
    def same(what):
        for j in range(-1, n + 2):
            if j in m:
                c.equal(a.get(j), m[j], 'get(%d) %s' % (j, what))
                c.equal(a[j], m[j], 'a[%d] %s' % (j, what))
            elif j >= 0:
                c.equal(a.get(j, 'd'), 'd', 'get(%d) %s' % (j, what))
                c.raises(IndexError, lambda: a[j], 'a[%d] %s' % (j, what))
        c.equal(dict(a.iteritems()), m, 'items %s' % what)
        c.equal(sorted(a), sorted(m), 'iteration %s' % what)
    same('before stitching')
    for _ in a.gen_stitch(): pass
    same('after stitching')
    for again in range(2):
        holes = []
        for h in a.gen_holes():
            holes.append(h)
            c.check(len(holes) <= n + 5, 'gen_holes does not end: %r', holes[:20])
        c.equal(sorted(holes), [j for j in range(n) if j not in m], 'holes')
        f.seek(0, 2); f.write(b'more'); f.seek(start)
        a = OffsetMap(f)
    same('after re-opening')
    for j in m:
        c.raises(AssertionError, lambda: a.__setitem__(j, 1), 'setting a used slot')
        break
    c.note(len(m) > 0)
