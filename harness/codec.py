"""C01: encodings."""
import struct
from io import BytesIO
from harness.core import case


def some_int(r, bits):
    k = r.random()
    top = 2 ** bits
    if k < 0.35:
        return r.randrange(top)
    if k < 0.7:
        return max(0, min(top - 1, 2 ** r.randrange(bits + 1) + r.randint(-3, 3)))
    if k < 0.85:
        return r.randrange(600)
    return top - 1 - r.randrange(300)


def some_bytes(r, n):
    k = r.random()
    if k < 0.2:
        return bytes(n)
    if k < 0.3:
        return b'\xff' * n
    if k < 0.4:
        return (b'\n\x00\x00\x00' * (n // 4 + 1))[:n]
    return r.randbytes(n)


SIZES = [0, 1, 2, 3, 7, 8, 9, 11, 12, 13, 16, 24, 100, 127, 128, 255, 256, 257,
         1000, 4095, 4096, 4097, 65535, 65536, 65537]


def some_size(r, big=False):
    k = r.random()
    if k < 0.45:
        return r.choice(SIZES)
    if k < 0.97 or not big:
        return r.randrange(300)
    return r.choice([999999, 1000000, 1000001, 2000001, 2 ** 20 + 1])


class Trickle(object):
    """A socket-like stream that splits everything arbitrarily."""
    def __init__(self, r, data=b'', style=None):
        self.r = r
        self.inb = data
        self.out = []
        self.style = style or r.choice(['one', 'any', 'all', 'half'])
        self.zeros = 0

    def _n(self, n):
        if self.style == 'one' and n < 5000:
            return 1
        if self.style == 'all':
            return n
        if self.style == 'half':
            return max(1, n // 2)
        return self.r.randint(1, n)

    def recv(self, n):
        assert n > 0
        m = min(n, len(self.inb))
        if m:
            m = self._n(m)
        hunk, self.inb = self.inb[:m], self.inb[m:]
        return hunk

    def send(self, b):
        if not len(b):
            return 0
        if self.zeros < 9 and self.r.random() < 0.05:
            self.zeros += 1
            return 0
        m = self._n(len(b))
        self.out.append(bytes(b[:m]))
        return m

    @property
    def written(self):
        return b''.join(self.out)


@case('C01', n=300)
def codec_ints(c):
    """4/8-byte integers around every power of two: big-endian inverse,
    order, and refusal outside the range."""
    from durus import utils as u
    for bits, to_s, from_s, fmt in (
            (64, u.int8_to_str, u.str_to_int8, 8),
            (32, u.int4_to_str, u.str_to_int4, 4)):
        ns = sorted(some_int(c.rng, bits) for _ in range(12))
        enc = []
        for n in ns:
            s = to_s(n)
            c.log('int%d' % fmt, n)
            c.equal(bytes(s), n.to_bytes(fmt, 'big'), 'encoding of %d' % n)
            c.equal(from_s(s), n, 'decoding of the encoding of %d' % n)
            enc.append(s)
        c.equal(sorted(enc), enc, 'order of the encodings of %r' % ns)
        b = some_bytes(c.rng, fmt)
        c.equal(from_s(b), int.from_bytes(b, 'big'), 'decoding of %r' % b)
        c.equal(to_s(from_s(b)), b, 're-encoding of %r' % b)
        for bad in (-1, -some_int(c.rng, bits) - 1, 2 ** bits,
                    2 ** bits + some_int(c.rng, bits)):
            c.raises((struct.error, OverflowError, ValueError, TypeError),
                     lambda: to_s(bad), 'int%d_to_str(%d)' % (fmt, bad))
        for n in (fmt - 1, fmt + 1, 0):
            c.raises((struct.error, ValueError, TypeError),
                     lambda: from_s(bytes(n)), 'str_to_int%d of %d bytes' % (fmt, n))
    c.note()


@case('C01', n=300)
def codec_records(c):
    """pack_record/unpack_record/split_oids on arbitrary parts."""
    from durus.serialize import pack_record, unpack_record, split_oids
    r = c.rng
    for _ in range(4):
        oid = some_bytes(r, 8)
        data = some_bytes(r, some_size(r, True))
        oids = [some_bytes(r, 8) for _ in range(r.choice([0, 0, 1, 2, 3, 10, 300]))]
        refs = b''.join(oids)
        c.log('record', oid, len(data), len(oids))
        rec = pack_record(oid, data, refs)
        c.equal(bytes(rec), oid + struct.pack('>L', len(data)) + data + refs,
                'packed record of oid=%r, %d data bytes, %d refs' % (
                    oid, len(data), len(oids)))
        got = unpack_record(rec)
        c.equal(tuple(got), (oid, data, refs), 'unpack_record(pack_record())')
        c.equal(list(split_oids(refs)), oids, 'split_oids of %d oids' % len(oids))
    c.equal(list(split_oids(b'')), [], 'split_oids of nothing')
    c.equal(list(split_oids('')), [], 'split_oids of nothing')
    n = r.randrange(1, 60)
    if n % 8:
        c.raises((AssertionError, ValueError, struct.error),
                 lambda: split_oids(bytes(n)), 'split_oids of %d bytes' % n)
    c.note()


@case('C01', 'C16', n=250)
def codec_streams(c):
    """read/write of integers and length-prefixed strings over a file and over
    sockets that split the stream anywhere; truncated streams."""
    from durus import utils as u
    r = c.rng
    items = []
    for _ in range(r.randint(1, 8)):
        kind = r.choice(['int4', 'int8', 'str4', 'str8', 'raw', 'all'])
        if kind in ('int4', 'int8'):
            items.append((kind, some_int(r, 32 if kind == 'int4' else 64)))
        elif kind == 'all':
            items.append((kind, [some_bytes(r, some_size(r)) for _ in range(3)]))
        else:
            items.append((kind, some_bytes(r, some_size(r, r.random() < 0.1))))
    c.log('items', [(k, v if isinstance(v, int) else len(v)) for k, v in items])
    expect = b''
    for k, v in items:
        if k == 'int4': expect += struct.pack('>L', v)
        elif k == 'int8': expect += struct.pack('>Q', v)
        elif k == 'str4': expect += struct.pack('>L', len(v)) + v
        elif k == 'str8': expect += struct.pack('>Q', len(v)) + v
        elif k == 'raw': expect += v
        else: expect += b''.join(v)
    def put(f):
        for k, v in items:
            if k == 'int4': u.write_int4(f, v)
            elif k == 'int8': u.write_int8(f, v)
            elif k == 'str4': u.write_int4_str(f, v)
            elif k == 'str8': u.write_int8_str(f, v)
            elif k == 'raw': u.write(f, v)
            else: u.write_all(f, *v)
    def get(f):
        for i, (k, v) in enumerate(items):
            if k == 'int4': g = u.read_int4(f)
            elif k == 'int8': g = u.read_int8(f)
            elif k == 'str4': g = u.read_int4_str(f)
            elif k == 'str8': g = u.read_int8_str(f)
            elif k == 'raw': g = u.read(f, len(v))
            else: g = u.read(f, sum(map(len, v))); v = b''.join(v)
            c.equal(g, v, 'item %d (%s) read back' % (i, k))
    f = BytesIO()
    put(f)
    c.equal(f.getvalue(), expect, 'bytes written to a file')
    f.seek(0)
    get(f)
    c.equal(f.tell(), len(expect), 'file position after reading')
    s = Trickle(r)
    put(s)
    c.equal(s.written, expect, 'bytes written to a socket (%s)' % s.style)
    tail = some_bytes(r, r.randrange(20))
    s = Trickle(r, expect + tail)
    get(s)
    c.equal(s.inb, tail, 'socket stream position after reading (%s)' % s.style)
    # a stream that ends early
    if expect:
        cut = r.randrange(len(expect))
        for f in (BytesIO(expect[:cut]), Trickle(r, expect[:cut])):
            c.raises(u.ShortRead, lambda: get(f),
                     'reading a stream cut at %d of %d' % (cut, len(expect)))
    # text is taken as latin-1
    t = ''.join(chr(r.randrange(256)) for _ in range(5))
    f = BytesIO(); u.write(f, t)
    c.equal(f.getvalue(), t.encode('latin1'), 'write of text')
    class Dead(object):
        def send(self, b): return 0
    c.raises(IOError, lambda: u.write(Dead(), b'x'), 'write to a dead socket')
    c.note()
