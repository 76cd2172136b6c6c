"""Catalogue of struct field kinds used by the struct rules: for each kind a declaration, a quantified value, the bytes the
declaration promises (written out independently of the library) and the value the bytes decode to."""

PRE = '''
import infi.instruct as M
from infi.instruct import *
from io import BytesIO
import sys
from vlab import *

class Inner(Struct):
    _fields_ = [UBInt8('p'), ULInt16('q')]

class VInner(Struct):
    _fields_ = [VarSizeBuffer('v', UBInt8)]

class KA(Struct):
    _fields_ = [ConstField('k', 1, UBInt8), UBInt16('a')]

class KB(Struct):
    _fields_ = [ConstField('k', 2, UBInt8), FixedSizeBuffer('b', 3)]

class KD(Struct):
    _fields_ = [UBInt8('k'), UBInt8('d')]

def wants(obj, stream, context):
    return obj.flag != 0

class Part(object):
    """fields, constructor kwargs, promised bytes, {name: decoded value}"""
    def __init__(self, fields, kw, enc, dec=None, fixed=True):
        self.fields, self.kw, self.enc, self.fixed = fields, kw, enc, fixed
        self.dec = kw if dec is None else dec

def choose(obj, stream, context):
    return KA if stream.read(1) == b'\\1' else KB

def part(kind, n, t=''):
    if kind == 'u8':
        x = any_uint(t + n, 8)
        return Part([UBInt8(n)], {n: x}, x.to_bytes(1, 'big'))
    if kind == 'u16l':
        x = any_uint(t + n, 16)
        return Part([ULInt16(n)], {n: x}, x.to_bytes(2, 'little'))
    if kind == 's32b':
        x = any_sint(t + n, 32)
        return Part([SBInt32(n)], {n: x}, x.to_bytes(4, 'big', signed=True))
    if kind == 'u64n':
        x = any_uint(t + n, 64)
        return Part([UNInt64(n)], {n: x}, x.to_bytes(8, sys.byteorder))
    if kind == 'fbuf':
        b = any_bytes(t + n, 3)
        return Part([FixedSizeBuffer(n, 3)], {n: b}, b)
    if kind == 'fbuf1':
        b = any_bytes(t + n, 1)
        return Part([FixedSizeBuffer(n, 1)], {n: b}, b)
    if kind == 'pstr':
        b = any_bytes(t + n, 2)
        s = b.rstrip(b'\\0')
        return Part([PaddedString(n, 4)], {n: b}, s + b'\\0' * (4 - len(s)), {n: s})
    if kind == 'pstrfull':
        b = any_bytes(t + n, 2)
        s = b.rstrip(b' ')
        return Part([PaddedString(n, 2, padding=b' ')], {n: b}, s + b' ' * (2 - len(s)), {n: s})
    if kind == 'vbuf0':
        return Part([VarSizeBuffer(n, UBInt8)], {n: b''}, b'\\0', None, False)
    if kind == 'vbuf':
        b = any_bytes(t + n, 3)
        return Part([VarSizeBuffer(n, UBInt8)], {n: b}, b'\\3' + b, None, False)
    if kind == 'vbufl':
        b = any_bytes(t + n, 2)
        return Part([VarSizeBuffer(n, ULInt16)], {n: b}, b'\\2\\0' + b, None, False)
    if kind == 'vstr':
        b = any_bytes(t + n, 2)
        s = b.rstrip(b'\\0')
        return Part([VarSizeString(n, UBInt16)], {n: b}, len(s).to_bytes(2, 'big') + s, {n: s}, False)
    if kind == 'farr':
        x, y = any_uint(t + n + '0', 16), any_uint(t + n + '1', 16)
        return Part([FixedSizeArray(n, 2, UBInt16)], {n: [x, y]}, x.to_bytes(2, 'big') + y.to_bytes(2, 'big'))
    if kind == 'farr0':
        return Part([FixedSizeArray(n, 0, UBInt16)], {n: []}, b'')
    if kind == 'varr0':
        return Part([VarSizeArray(n, UBInt16, UBInt8)], {n: []}, b'\\0\\0', None, False)
    if kind == 'varr':
        x, y = any_uint(t + n + '0', 16), any_uint(t + n + '1', 16)
        return Part([VarSizeArray(n, UBInt8, UBInt16)], {n: [x, y]}, b'\\2' + x.to_bytes(2, 'big') + y.to_bytes(2, 'big'), None, False)
    if kind == 'sarr0':
        return Part([SumSizeArray(n, UBInt8, UBInt16)], {n: []}, b'\\0', None, False)
    if kind == 'sarr':
        x, y = any_uint(t + n + '0', 16), any_uint(t + n + '1', 16)
        return Part([SumSizeArray(n, UBInt8, UBInt16)], {n: [x, y]}, b'\\4' + x.to_bytes(2, 'big') + y.to_bytes(2, 'big'), None, False)
    if kind == 'sarrv':
        x, y = any_bytes(t + n + '0', 1), any_bytes(t + n + '1', 2)
        return Part([SumSizeArray(n, ULInt16, VarSizeBufferMarshal(UBInt8))], {n: [x, y]}, b'\\5\\0\\1' + x + b'\\2' + y, None, False)
    if kind == 'varrs':
        x, y = any_uint(t + n + '0', 8), any_bytes(t + n + '1', 2)
        return Part([VarSizeArray(n, UBInt8, VInner)], {n: [VInner(v=b'a'), VInner(v=y)]}, b'\\2\\1a\\2' + y, {}, False)
    if kind == 'sub':
        x, y = any_uint(t + n + '0', 8), any_uint(t + n + '1', 16)
        return Part([Field(n, Inner)], {n: Inner(p=x, q=y)}, x.to_bytes(1, 'big') + y.to_bytes(2, 'little'), {})
    if kind == 'vsub':
        y = any_bytes(t + n, 2)
        return Part([Field(n, VInner)], {n: VInner(v=y)}, b'\\2' + y, {}, False)
    if kind == 'bits':
        x, y = any_uint(t + n + '0', 3), any_uint(t + n + '1', 13)
        return Part([BitFields(BitField(n + '0', 3), BitField(n + '1', 13))], {n + '0': x, n + '1': y},
                    (x | y << 3).to_bytes(2, 'little'))
    if kind == 'bitpad':
        x, y, z = any_uint(t + n + '0', 2), any_uint(t + n + '1', 1), any_uint(t + n + '2', 8)
        return Part([BitFields(BitField(n + '0', 2), BitPadding(4), BitFlag(n + '1'), BitPadding(1), BitField(n + '2', 8))],
                    {n + '0': x, n + '1': y, n + '2': z}, (x | y << 6 | z << 8).to_bytes(2, 'little'))
    if kind == 'pbits':
        x, y = any_uint(t + n + '0', 6), any_uint(t + n + '1', 8)
        return Part([BitFields(BitField(n + '0', Bits[2:4, 12:16]), BitField(n + '1', Bits[4:12]))], {n + '0': x, n + '1': y},
                    ((x & 3) << 2 | (x >> 2) << 12 | y << 4).to_bytes(2, 'little'))
    if kind == 'const':
        return Part([ConstField(n, 0x1234, UBInt16)], {}, b'\\x12\\x34', {n: 0x1234})
    if kind == 'opt1':
        x = any_uint(t + n, 16)
        return Part([UBInt8('flag'), OptionalField(n, UBInt16, wants)], {'flag': 1, n: x}, b'\\1' + x.to_bytes(2, 'big'), None, False)
    if kind == 'opt0':
        return Part([UBInt8('flag'), OptionalField(n, UBInt16, wants)], {'flag': 0}, b'\\0', {'flag': 0}, False)
    if kind == 'pad':
        return Part([BytePadding(3)], {}, b'\\0\\0\\0')
    if kind == 'padc':
        return Part([Padding(2, b'x')], {}, b'xx')
    if kind == 'lazy':
        x, b = any_uint(t + n + '0', 16), any_bytes(t + n + '1', 2)
        return Part([Lazy(UBInt16(n + '0'), FixedSizeBuffer(n + '1', 2))], {n + '0': x, n + '1': b}, x.to_bytes(2, 'big') + b)
    if kind == 'map':
        k = choice([0, 1]) if t == '' else 0
        return Part([MappingField(n, UBInt16, {'one': 1, 'two': 0x0203})], {n: ['one', 'two'][k]}, [b'\\0\\1', b'\\2\\3'][k])
    if kind == 'sel':
        x = any_uint(t + n, 16)
        return Part([Field(n, StructSelector(UBInt8, {1: KA, 2: KB}))], {n: KA(a=x)}, b'\\1' + x.to_bytes(2, 'big'), {}, False)
    if kind == 'seld':
        x = any_uint(t + n, 8)
        return Part([Field(n, StructSelector(UBInt8, {1: KA, 2: KB}, KD))], {n: KD(k=7, d=x)}, b'\\7' + x.to_bytes(1, 'big'), {}, False)
    if kind == 'f32':
        f = any_float(t + n)
        return Part([LFloat64(n)], {n: f}, pack_double(f))
    if kind == 'varrb':
        x, y = any_bytes(t + n + '0', 2), any_bytes(t + n + '1', 1)
        return Part([VarSizeArray(n, ULInt16, VarSizeBufferMarshal(UBInt8))], {n: [x, y, b'']}, b'\\3\\0\\2' + x + b'\\1' + y + b'\\0', None, False)
    if kind == 'farrb':
        x, y = any_bytes(t + n + '0', 2), any_bytes(t + n + '1', 2)
        return Part([FixedSizeArray(n, 2, FixedSizeBufferMarshal(2))], {n: [x, y]}, x + y)
    if kind == 'narr':
        x, y = any_uint(t + n + '0', 8), any_uint(t + n + '1', 8)
        return Part([VarSizeArray(n, UBInt8, SumSizeArrayMarshal(UBInt8, UBInt8))], {n: [[x], [], [y, x]]},
                    b'\\3\\1' + x.to_bytes(1, 'big') + b'\\0\\2' + y.to_bytes(1, 'big') + x.to_bytes(1, 'big'), None, False)
    if kind == 'farrs':
        x, y = any_uint(t + n + '0', 8), any_uint(t + n + '1', 16)
        return Part([FixedSizeArray(n, 2, Inner)], {n: [Inner(p=x, q=1), Inner(p=2, q=y)]},
                    x.to_bytes(1, 'big') + b'\\1\\0\\2' + y.to_bytes(2, 'little'), {})
    if kind == 'optv':
        b = any_bytes(t + n, 2)
        return Part([UBInt8('flag'), OptionalField(n, VarSizeBufferMarshal(UBInt8), wants)], {'flag': 1, n: b}, b'\\1\\2' + b, None, False)
    if kind == 'lazys':
        x, y = any_uint(t + n + '0', 3), any_uint(t + n + '1', 16)
        return Part([Lazy(BitFields(BitField(n + '0', 3), BitPadding(5)), UBInt16(n + '1'))], {n + '0': x, n + '1': y},
                    x.to_bytes(1, 'big') + y.to_bytes(2, 'big'))
    if kind == 'fsel':
        x = any_bytes(t + n, 3)
        return Part([SelectStructByFunc(n, choose)], {n: KB(b=x)}, b'\\2' + x, {}, False)
    raise ValueError(kind)

def pack_double(f):
    from struct import pack
    return pack('<d', f)

def build(kinds, t=''):
    fields, kw, enc, dec, fixed = [], {}, b'', {}, True
    i = 0
    for k in kinds:
        p = part(k, 'abcdefgh'[i], t)
        i += 1
        fields += p.fields
        kw.update(p.kw)
        dec.update(p.dec)
        enc += p.enc
        fixed = fixed and p.fixed
    class S(Struct):
        _fields_ = fields
    return S, kw, enc, dec, fixed
'''

FIXED = ['u8', 'u16l', 's32b', 'u64n', 'fbuf', 'fbuf1', 'pstr', 'pstrfull', 'farr', 'sub', 'bits', 'bitpad', 'pbits', 'const', 'pad', 'padc',
         'lazy', 'map', 'f32', 'farrb', 'farrs', 'lazys']
VAR = ['vbuf0', 'vbuf', 'vbufl', 'vstr', 'varr0', 'varr', 'sarr0', 'sarr', 'sarrv', 'varrs', 'vsub', 'opt1', 'opt0', 'sel', 'seld', 'farr0', 'varrb', 'narr', 'optv', 'fsel']
ALL = FIXED + VAR
