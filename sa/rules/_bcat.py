"""Prelude of the buffer rules."""

PRE = r'''
range_ = range
from infi.instruct.buffer import *
from infi.instruct.buffer.buffer import InstructBufferError
from infi.instruct.errors import InstructError
import sys
from vlab import *

range = range_       # the star import binds the submodule of that name

def raw(b):
    return bytes(b)

def failing(tag, f, kind=InstructError):
    try:
        f()
    except kind:
        ok(tag)
    except Exception as e:
        bad(tag, e)
    else:
        bad(tag)

def u8(where, **kw):
    return uint_field(where=where, **kw)

def be(n):
    return n.to_bytes(1, 'big')
'''
