"""Every named integer and float marshal writes exactly its declared width, signedness and byte order, reads the same
way, and turns every out-of-range or non-numeric value into the library's error before anything is written.  Bit-provenance
analysis: the value is an opaque two's complement vector of the declared width; every written bit and every decoded bit is
traced to its source bit, for both host byte orders, through the marshal itself and through a struct field."""
from ..run import Case

COVERAGE = """For each of the 30 numeric names x both host byte orders: encode/decode bit maps compared bit by bit with the
declared width/signedness/byte order; values just outside the range analysed as whole intervals, not samples."""

SRC = '''
import infi.instruct as M
from infi.instruct import Struct, InstructError
from io import BytesIO
from struct import pack
import sys
from vlab import *

def order_of(order):
    return sys.byteorder if order == 'native' else order

def int_codec(name, width, signed, order):
    m = getattr(M, name)
    o = order_of(order)
    x = any_sint('x', 8 * width) if signed else any_uint('x', 8 * width)
    ref = x.to_bytes(width, o, signed=signed)
    st = BytesIO()
    m.write_to_stream(x, st)
    same('write', st.getvalue(), ref)
    same('write_to_string', m.write_to_string(x), ref)
    same('sizeof', m.sizeof(x), width)
    mm = m.min_max_sizeof()
    same('min_max', (mm.min, mm.max), (width, width))
    b = any_bytes('b', width + 2)
    st = BytesIO(b)
    same('read', m.create_from_stream(st), int.from_bytes(b[:width], o, signed=signed))
    same('consumed', st.tell(), width)

def int_field(name, width, signed, order):
    o = order_of(order)
    class S(Struct):
        _fields_ = [getattr(M, name)('f'), getattr(M, name)('g', 3)]
    x = any_sint('x', 8 * width) if signed else any_uint('x', 8 * width)
    y = any_sint('y', 8 * width) if signed else any_uint('y', 8 * width)
    d = S.write_to_string(S(f=x, g=y))
    same('write', d, x.to_bytes(width, o, signed=signed) + y.to_bytes(width, o, signed=signed))
    same('default', S.write_to_string(S(f=x)), x.to_bytes(width, o, signed=signed) + (3).to_bytes(width, o, signed=signed))
    b = any_bytes('b', 2 * width)
    s = S.create_from_string(b)
    same('read', (s.f, s.g), (int.from_bytes(b[:width], o, signed=signed), int.from_bytes(b[width:], o, signed=signed)))

def rejected(m, x, what):
    st = BytesIO()
    try:
        m.write_to_stream(x, st)
    except InstructError:
        ok(what)
    except Exception as e:
        bad(what, e)
    else:
        bad(what)
    same(what + '-nothing-written', st.getvalue(), b'')

def int_range(name, width, signed):
    m = getattr(M, name)
    if signed:
        k = any_uint('k', 8 * width - 1)
        rejected(m, (1 << (8 * width - 1)) + k, 'above')
        rejected(m, -(1 << (8 * width - 1)) - 1 - k, 'below')
    else:
        k = any_uint('k', 8 * width)
        rejected(m, (1 << (8 * width)) + k, 'above')
        rejected(m, -1 - k, 'below')
    rejected(m, 1 << (8 * width + 70), 'far-above')
    rejected(m, None, 'none')
    rejected(m, 'text', 'text')

def float_codec(name, width, order):
    m = getattr(M, name)
    o = order_of(order)
    f = ('>' if o == 'big' else '<') + ('f' if width == 4 else 'd')
    x = any_float('x')
    st = BytesIO()
    try:
        m.write_to_stream(x, st)
    except InstructError:
        if width == 8:
            bad('in-range-error')
        same('nothing-written', st.getvalue(), b'')
    except Exception as e:
        bad('library-error', e)
    else:
        try:
            ref = pack(f, x)
        except Exception as e:
            bad('overflow-written', e)
            return
        same('write', st.getvalue(), ref)
    same('sizeof', m.sizeof(x), width)
    mm = m.min_max_sizeof()
    same('min_max', (mm.min, mm.max), (width, width))
    b = any_bytes('b', width + 2)
    st = BytesIO(b)
    v = m.create_from_stream(st)
    same('read-write', pack(f, v), pack(f, m.create_from_string(b[:width])))
    same('consumed', st.tell(), width)
    c = b[:width] if o == 'little' else b[:width][::-1]
    same('read', v, m.create_from_string(b[:width]))
    same('read-bytes', v, float_of(c, width))

def float_of(c, width):
    from struct import unpack
    return unpack('<f' if width == 4 else '<d', c)[0]

def float_bad(name):
    m = getattr(M, name)
    rejected(m, None, 'none')
    rejected(m, 'text', 'text')
    rejected(m, b'b', 'bytes')
'''


def names():
    for p, order in (('B', 'big'), ('L', 'little'), ('N', 'native')):
        for s in 'US':
            for w in (1, 2, 4, 8):
                yield '%s%sInt%d' % (s, p, w * 8), w, s == 'S', order


def cases():
    for bo in ('little', 'big'):
        for n, w, s, o in names():
            yield Case('int/%s/%s-host' % (n, bo), SRC, 'int_codec', (n, w, s, o), byteorder=bo)
            yield Case('field/%s/%s-host' % (n, bo), SRC, 'int_field', (n, w, s, o), byteorder=bo)
            if bo == 'little':
                yield Case('range/%s' % n, SRC, 'int_range', (n, w, s), byteorder=bo)
        for p, order in (('B', 'big'), ('L', 'little'), ('N', 'native')):
            for w in (4, 8):
                n = '%sFloat%d' % (p, w * 8)
                yield Case('float/%s/%s-host' % (n, bo), SRC, 'float_codec', (n, w, order), byteorder=bo)
                if bo == 'little':
                    yield Case('float-bad/%s' % n, SRC, 'float_bad', (n,), byteorder=bo)
