"""Generated buffer classes: chains of fields each placed behind the previous one, with the encoding they promise."""
from ._bcat import PRE

PRE_LAYOUT = PRE + r'''
class Dyn(Buffer):
    k = u8(bytes_ref[0], set_before_pack=len_ref(self_ref.v))
    v = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:1 + k])

class Fix(Buffer):
    p = u8(bytes_ref[0])
    q = be_uint_field(where=bytes_ref[1:3])

def at(o, names):
    return [raw(getattr(o, n)) if isinstance(getattr(o, n), bytearray) else getattr(o, n) for n in names]
'''

# kind -> (class-body lines, constructor arguments, encoding, checks after unpack); {f} field name, {p} position, {i} a unique suffix
KINDS = {
    'num': (['{f} = u8(bytes_ref[{p}])'], '{f}=x{i}', ['be(x{i})'], [('{f}', 'x{i}')], ["x{i} = any_uint('x{i}', 8)"]),
    'be3': (['{f} = be_uint_field(where=bytes_ref[{p}:{p} + 3])'], '{f}=x{i}', ["x{i}.to_bytes(3, 'big')"], [('{f}', 'x{i}')],
            ["x{i} = any_uint('x{i}', 24)"]),
    'le2': (['{f} = le_uint_field(where=bytes_ref[{p}:{p} + 2])'], '{f}=x{i}', ["x{i}.to_bytes(2, 'little')"], [('{f}', 'x{i}')],
            ["x{i} = any_uint('x{i}', 16)"]),
    'split': (['{f} = bytearray_field(where=bytes_ref[{p}:{p} + 1, {p} + 3:{p} + 5])'], '{f}=bytearray(t{i})',
              ["t{i}[:1] + b'\\0\\0' + t{i}[1:]"], [('{f}', 't{i}')], ["t{i} = any_bytes('t{i}', 3)"]),
    'bits': (['{f}l = u8(bytes_ref[{p}].bits[0:4])', '{f} = u8(bytes_ref[{p}].bits[4:8])'], '{f}l=x{i}, {f}=y{i}', ['be(x{i} + (y{i} << 4))'],
             [('{f}l', 'x{i}'), ('{f}', 'y{i}')], ["x{i} = any_uint('x{i}', 4)", "y{i} = any_uint('y{i}', 4)"]),
    'fixed': (['{f} = buffer_field(type=Fix, where=bytes_ref[{p}:{p} + 3])'], '{f}=Fix(p=x{i}, q=y{i})', ["be(x{i}) + y{i}.to_bytes(2, 'big')"],
              [('{f}.p', 'x{i}'), ('{f}.q', 'y{i}')], ["x{i} = any_uint('x{i}', 8)", "y{i} = any_uint('y{i}', 16)"]),
}
for n in (0, 1, 3):
    KINDS['var%d' % n] = (['{f}n = u8(bytes_ref[{p}], set_before_pack=len_ref(self_ref.{f}))',
                           '{f} = bytearray_field(where=bytes_ref[{p} + 1:{p} + 1 + {f}n])'], '{f}=bytearray(t{i})', ['bytes([%d]) + t{i}' % n],
                          [('{f}', 't{i}'), ('{f}n', '%d' % n)], ["t{i} = any_bytes('t{i}', %d)" % n])
    KINDS['list%d' % n] = (['{f}n = u8(bytes_ref[{p}], set_before_pack=len_ref(self_ref.{f}))',
                            '{f} = list_field(type=b_uint16, n={f}n, where_when_pack=bytes_ref[{p} + 1:], where_when_unpack=bytes_ref[{p} + 1:{p} + 1 + {f}n * 2])'],
                           '{f}=list(t{i})', ["bytes([%d]) + b''.join([x.to_bytes(2, 'big') for x in t{i}])" % n],
                           [('{f}', 't{i}'), ('{f}n', '%d' % n)], ["t{i} = [any_uint('t{i}%%d' %% j, 16) for j in range(%d)]" % n])
    KINDS['open-list%d' % n] = (['{f}n = u8(bytes_ref[{p}], set_before_pack=len_ref(self_ref.{f}))',
                                 '{f} = list_field(type=Dyn, n={f}n, where=bytes_ref[{p} + 1:])'],
                                '{f}=[Dyn(v=bytearray(x)) for x in t{i}]', ["bytes([%d]) + b''.join([b'\\1' + x for x in t{i}])" % n],
                                [('{f}n', '%d' % n), ('[raw(e.v) for e in {f}]', 't{i}')], ["t{i} = [any_bytes('t{i}%%d' %% j, 1) for j in range(%d)]" % n])
    KINDS['dyn%d' % n] = (['{f} = buffer_field(type=Dyn, where=bytes_ref[{p}:])'], '{f}=Dyn(v=bytearray(t{i}))', ['bytes([%d]) + t{i}' % n],
                          [('{f}.k', '%d' % n), ('{f}.v', 't{i}')], ["t{i} = any_bytes('t{i}', %d)" % n])


def client(chain, names, head='', tail=''):
    """source of class C(Buffer) with the fields of the chain one behind the other, starting behind the total size in byte 0"""
    body, setup, kw, enc, chk = [], [], [], [], []
    prev = None
    for i, (k, f) in enumerate(zip(chain, names)):
        p = '1' if prev is None else 'after_ref(%s)' % prev
        lines, args, e, c, s = KINDS[k]
        d = dict(f=f, p=p, i=i)
        body += [x.format(**d) for x in lines]
        setup += [x.format(**d) for x in s]
        kw.append(args.format(**d))
        enc += [x.format(**d) for x in e]
        for a, v in c:
            v = v.format(**d)
            if a.startswith('['):
                a = a.format(f='r.' + f)
            else:
                a = 'r.' + a.format(**d)
                if v.startswith('t') and not k.startswith('list'):
                    a = 'raw(%s)' % a
            chk.append((a, v))
        prev = f
    body.insert(0, 'size = u8(bytes_ref[0], set_before_pack=total_size)')
    return body, setup, ', '.join(kw), ' + '.join(enc), chk
