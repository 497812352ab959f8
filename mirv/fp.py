"""f64 as 64-bit patterns with uninterpreted, congruent arithmetic; concrete operands are folded with
IEEE double arithmetic (python floats).  Only the laws used below are built in: commutativity of + and *
and powi(x,2) = x*x (which is how LLVM computes it)."""
import struct, z3
from vals import *

B64 = z3.BitVecSort(64)
_f = {n: z3.Function(n, B64, B64, B64) for n in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem')}
fpowi = z3.Function('fpowi', B64, z3.BitVecSort(32), B64)
fneg_ = z3.Function('fneg', B64, B64)
fabs_ = z3.Function('fabs', B64, B64)
i2f_ = z3.Function('i2f', z3.BitVecSort(128), B64)
flt = z3.Function('flt', B64, B64, z3.BoolSort())
fle = z3.Function('fle', B64, B64, z3.BoolSort())
feq = z3.Function('feq', B64, B64, z3.BoolSort())


def tobits(x): return struct.unpack('<Q', struct.pack('<d', x))[0]


def frombits(n): return struct.unpack('<d', struct.pack('<Q', n))[0]


def fconst(x): return bv(tobits(float(x)), 64)


def _fold(op, a, b):
    try:
        if op == 'fadd': return a + b
        if op == 'fsub': return a - b
        if op == 'fmul': return a * b
        if op == 'fdiv': return a / b
    except (ZeroDivisionError, OverflowError):
        return None
    return None


def fbin(op, a, b):
    x, y = conc(a), conc(b)
    if x is not None and y is not None:
        r = _fold(op, frombits(x), frombits(y))
        if r is not None: return fconst(r)
    a, b = z3.simplify(a), z3.simplify(b)
    if op in ('fadd', 'fmul') and x is not None: a, b = b, a
    r = _f[op](a, b)
    if op in ('fadd', 'fmul') and x is None and y is None:
        from strs import Facts
        Facts.add(('comm', r), r == _f[op](b, a))
    return r


def fneg(a):
    x = conc(a)
    if x is not None: return bv(x ^ (1 << 63), 64)
    return fneg_(a)


def powi(a, n):
    k = conc(n)
    if k == 2: return fbin('fmul', a, a)
    if k == 1: return a
    return fpowi(a, n)


def i2f(e, signed):
    w = z3.simplify(resize(e, 128, signed))
    c = conc(w)
    if c is not None:
        if c >= 1 << 127: c -= 1 << 128
        return fconst(float(c))
    return i2f_(w)
