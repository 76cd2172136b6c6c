"""A declaration reads exactly the bytes it promises and never decodes truncated input.  For every field kind (alone and as
the tail of a composite) the promised encoding with opaque values is cut at every length k shorter than the whole; every
abstract path that reads the k bytes must end in the library's error, and the path over the full input must consume exactly
the whole input, whatever follows it."""
from ..run import Case
from ._cat import PRE, ALL

COVERAGE = """Every field kind x every cut position 0 <= k < n (complete enumeration of k), opaque contents; full input followed
by arbitrary bytes consumed exactly; composites of two kinds in the thorough tier."""

SRC = PRE + '''
def cut(kinds, k):
    S, kw, enc, dec, fixed = build(kinds)
    if k >= len(enc):
        return
    st = BytesIO(enc[:k])
    try:
        s = S.create_from_stream(st)
    except InstructError:
        ok('truncated')
    except Exception as e:
        bad('truncated', e)
    else:
        bad('truncated')
    try:
        s = S.create_from_string(enc[:k])
    except InstructError:
        ok('truncated-string')
    except Exception as e:
        bad('truncated-string', e)
    else:
        bad('truncated-string')

def full(kinds):
    S, kw, enc, dec, fixed = build(kinds)
    st = BytesIO(enc + any_bytes('rest', 3))
    s = S.create_from_stream(st)
    same('consumed', st.tell(), len(enc))
    for n in sorted(dec):
        same('value-' + n, getattr(s, n), dec[n])

def raw(kind, k):
    """arbitrary (not well-formed) short input never decodes a fixed-size declaration"""
    S, kw, enc, dec, fixed = build([kind])
    if k >= len(enc):
        return
    try:
        s = S.create_from_string(any_bytes('raw', k))
    except InstructError:
        ok('short')
    except Exception as e:
        bad('short', e)
    else:
        bad('short')
'''
from ._cat import FIXED
MAXLEN = {'u8': 1, 'u16l': 2, 's32b': 4, 'u64n': 8, 'fbuf': 3, 'fbuf1': 1, 'pstr': 4, 'pstrfull': 2, 'farr': 4, 'sub': 3, 'bits': 2, 'bitpad': 2,
          'pbits': 2, 'const': 2, 'pad': 3, 'padc': 2, 'lazy': 4, 'map': 2, 'f32': 8, 'vbuf0': 1, 'vbuf': 4, 'vbufl': 4, 'vstr': 4,
          'varr0': 2, 'varr': 5, 'sarr0': 1, 'sarr': 5, 'sarrv': 7, 'varrs': 6, 'vsub': 3, 'opt1': 3, 'opt0': 1, 'sel': 3, 'seld': 2,
          'farr0': 0, 'varrb': 8, 'farrb': 4, 'narr': 7, 'farrs': 6, 'optv': 4, 'lazys': 3, 'fsel': 4}


def cases():
    for k in ALL:
        yield Case('full/' + k, SRC, 'full', ([k],))
        for i in range(MAXLEN[k]):
            yield Case('cut/%s/%d' % (k, i), SRC, 'cut', ([k], i))
    for k in FIXED:
        if k not in ('map', 'const', 'pad', 'padc'):
            for i in range(MAXLEN[k]):
                yield Case('raw/%s/%d' % (k, i), SRC, 'raw', (k, i))
    for a in ALL:
        for b in ALL:
            if a.startswith('opt') and b.startswith('opt'):
                continue
            n = MAXLEN[a] + MAXLEN[b]
            for i in {n - 1, MAXLEN[a]} if n else ():
                yield Case('cut2/%s+%s/%d' % (a, b, i), SRC, 'cut', ([a, b], i), tier='thorough')
