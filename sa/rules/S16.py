"""Padding and stripping are two sides of one declaration: the side and the character a string is padded with when written are the side and
the characters stripped when it is read or measured, nothing else of the content is touched, and a stripped string reads back as written."""
from ..run import Case
from ._cat import PRE

COVERAGE = """Padded and length-prefixed strings x directions right/left/both x default, space and multi-character paddings x declared sizes 0..6, opaque
contents of length 0..3 whose edge bytes are and are not padding (each edge explored), raw wire contents of the full declared size."""

SRC = PRE + r'''
def strip(b, d, pad):
    if d == 'right':
        return b.rstrip(pad)
    if d == 'left':
        return b.lstrip(pad)
    if d == 'both':
        return b.strip(pad)
    return b

DIRS = {'right': PADDING_DIRECTION_RIGHT, 'left': PADDING_DIRECTION_LEFT, 'both': PADDING_DIRECTION_BOTH, 'none': PADDING_DIRECTION_NONE}

def padded(n, k, d, pad):
    b = any_bytes('b', k)
    m = PaddedStringMarshal(n, pad, DIRS[d])
    s = strip(b, d, pad)
    class S(Struct):
        _fields_ = [UBInt8('h', 1), PaddedString('x', n, pad, DIRS[d]), UBInt8('t', 2)]
    try:
        w = S.write_to_string(S(x=b))
    except InstructError:
        holds('error-only-on-misfit', len(s) > n)
        return
    except Exception as e:
        bad('library-error', e)
        return
    fill = pad[:1] * (n - len(s))
    want = fill + s if d == 'left' else s + fill
    same('written', w, b'\1' + want + b'\2')
    same('marshal', m.write_to_string(b), want)
    r = S.create_from_string(w)
    same('read-back', r.x, s)
    same('tail', r.t, 2)

def wire(n, d, pad):
    """reading any contents strips exactly the declared side"""
    w = any_bytes('w', n)
    m = PaddedStringMarshal(n, pad, DIRS[d])
    same('read', m.create_from_string(w), strip(w, d, pad))
    class S(Struct):
        _fields_ = [PaddedString('x', n, padding=pad, padding_direction=DIRS[d])]
    same('read-field', S.create_from_string(w).x, strip(w, d, pad))

def var(k, d, pad):
    b = any_bytes('b', k)
    s = strip(b, d, pad)
    class S(Struct):
        _fields_ = [VarSizeString('x', UBInt8, pad, DIRS[d]), UBInt8('t', 2)]
    o = S(x=b)
    w = S.write_to_string(o)
    same('written', w, len(s).to_bytes(1, 'big') + s + b'\2')
    same('sizeof', S.sizeof(o), len(s) + 2)
    same('read-back', S.create_from_string(w).x, s)
    r = S.create_from_string(k.to_bytes(1, 'big') + b + b'\3')
    same('read-wire', (r.x, r.t), (s, 3))
    same('object-untouched', o.x, b)

def defaults(k):
    """without further arguments, zero bytes on the right"""
    b = any_bytes('b', k)
    class S(Struct):
        _fields_ = [PaddedString('x', 3), VarSizeString('y', UBInt8)]
    s = b.rstrip(b'\0')
    w = S.write_to_string(S(x=b, y=b))
    same('written', w, s + b'\0' * (3 - len(s)) + len(s).to_bytes(1, 'big') + s)
    r = S.create_from_string(w)
    same('read', (r.x, r.y), (s, s))
    class F(Struct):
        _fields_ = [FixedSizeString('x', 3)]
    same('alias', F.write_to_string(F(x=b)), s + b'\0' * (3 - len(s)))

def buffers_keep(k):
    """buffers are never stripped"""
    b = any_bytes('b', k)
    class S(Struct):
        _fields_ = [FixedSizeBuffer('x', k), VarSizeBuffer('y', UBInt8)]
    w = S.write_to_string(S(x=b, y=b))
    same('written', w, b + k.to_bytes(1, 'big') + b)
    r = S.create_from_string(w)
    same('read', (r.x, r.y), (b, b))
'''


def cases():
    for d in ('right', 'left', 'both'):
        for pad in (b'\0', b' ', b' \0'):
            for n in (0, 1, 2, 3, 4, 6):
                for k in (0, 1, 2, 3):
                    t = 'quick' if pad != b' \0' and (k < 3 or n in (3, 4)) else 'thorough'
                    yield Case('padded/%s/%r/%d/%d' % (d, pad, n, k), SRC, 'padded', (n, k, d, pad), tier=t)
                if n in (1, 2, 3):
                    yield Case('wire/%s/%r/%d' % (d, pad, n), SRC, 'wire', (n, d, pad), tier='thorough' if pad == b' \0' and n > 2 else 'quick')
            for k in (0, 1, 2, 3):
                yield Case('var/%s/%r/%d' % (d, pad, k), SRC, 'var', (k, d, pad), tier='thorough' if pad == b' \0' and k > 1 else 'quick')
    for k in (0, 1, 2, 3):
        yield Case('defaults/%d' % k, SRC, 'defaults', (k,))
        yield Case('buffers/%d' % k, SRC, 'buffers_keep', (k,))
