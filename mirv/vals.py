"""Symbolic values of the verifier.

Scalars are z3 terms (machine integers are bit-vectors of their exact width, so nothing is treated as
a mathematical integer; f64 is its 64-bit pattern with uninterpreted arithmetic, see fp.py).  Structs,
tuples and closures are Agg, enums are Enum (a 16-bit variant index plus a payload per variant), str and
String are S (strs.py), shared references are snapshots (sound because the referent cannot change while
a shared borrow lives), unique references are Ref paths into the memory map."""
import z3


def limit(s, ms):
    """Bounds a query by z3's deterministic resource count (about ms milliseconds on an idle machine); the clock is only a backstop."""
    s.set('rlimit', ms * 9000)
    s.set('timeout', ms * 15)


class Unsupported(Exception):
    """A construct outside the verifier's subset: never an alarm."""


class Undef:
    def __repr__(self): return 'undef'


UNDEF = Undef()


class Agg:
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f): self.ty = ty; self.f = list(f)

    def __repr__(self): return 'Agg%r' % (self.f,)


class Enum:
    __slots__ = ('ty', 'v', 'p')

    def __init__(self, ty, v, p):
        self.ty = ty
        self.v = v if z3.is_expr(v) else z3.BitVecVal(v, 16)
        self.p = p

    def __repr__(self): return 'Enum(%s,%r)' % (self.v, self.p)


class Ref:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()): self.root = root; self.path = tuple(path)

    def __repr__(self): return 'Ref(%r%r)' % (self.root, self.path)


class SRef:
    __slots__ = ('v',)

    def __init__(self, v): self.v = v

    def __repr__(self): return '&%r' % (self.v,)


class FnVal:
    def __init__(self, ty): self.ty = ty


class Opq:
    """Model-level python object made of named components (iterators, maps, vectors, regex matches...)."""
    __slots__ = ('kind', 'd')

    def __init__(self, kind, **d): self.kind = kind; self.d = d

    def __getattr__(self, k):
        try: return self.d[k]
        except KeyError: raise AttributeError(k)

    def upd(self, **k):
        d = dict(self.d); d.update(k)
        return Opq(self.kind, **d)

    def __repr__(self): return 'Opq:%s%r' % (self.kind, self.d)


def simp(e): return z3.simplify(e)


def is_true(e): return z3.is_true(e)


def is_false(e): return z3.is_false(e)


def And(*a):
    r = []
    for x in a:
        if isinstance(x, bool): x = z3.BoolVal(x)
        if is_true(x): continue
        if is_false(x): return z3.BoolVal(False)
        r.append(x)
    if not r: return z3.BoolVal(True)
    if len(r) == 1: return r[0]
    return z3.And(*r)


def Or(*a):
    r = []
    for x in a:
        if isinstance(x, bool): x = z3.BoolVal(x)
        if is_false(x): continue
        if is_true(x): return z3.BoolVal(True)
        r.append(x)
    if not r: return z3.BoolVal(False)
    if len(r) == 1: return r[0]
    return z3.Or(*r)


def Not(a):
    if is_true(a): return z3.BoolVal(False)
    if is_false(a): return z3.BoolVal(True)
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    if is_true(a): return b
    if is_false(a) or is_true(b): return z3.BoolVal(True)
    return z3.Implies(a, b)


def If(c, a, b):
    if is_true(c): return a
    if is_false(c): return b
    if a is b or z3.eq(a, b): return a
    if z3.is_bool(a):
        if is_true(a) and is_false(b): return c
        if is_false(a) and is_true(b): return Not(c)
    return z3.If(c, a, b)


def bv(x, n): return z3.BitVecVal(x, n)


def conc(e):
    """Concrete python int of a bit-vector/bool term, or None."""
    if isinstance(e, (int, bool)): return int(e)
    if z3.is_bv_value(e): return e.as_long()
    if is_true(e): return 1
    if is_false(e): return 0
    s = z3.simplify(e)
    if z3.is_bv_value(s): return s.as_long()
    if is_true(s): return 1
    if is_false(s): return 0
    return None


def resize(e, n, signed):
    k = e.size()
    if k == n: return e
    if k > n: return z3.simplify(z3.Extract(n - 1, 0, e))
    return z3.simplify(z3.SignExt(n - k, e) if signed else z3.ZeroExt(n - k, e))
