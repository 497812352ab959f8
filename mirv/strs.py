"""Symbolic strings.  A string is UTF-8 bytes; str values keep enough structure for slices, constants and
formatting to be reasoned about byte by byte, everything else is an uninterpreted Str term."""
import z3
from vals import *

Str = z3.DeclareSort('Str')
B8, B32, B64 = z3.BitVecSort(8), z3.BitVecSort(32), z3.BitVecSort(64)
len_ = z3.Function('str_len', Str, B64)
byte_ = z3.Function('str_byte', Str, B64, B8)
sub_ = z3.Function('str_sub', Str, B64, B64, Str)
cat_ = z3.Function('str_cat', Str, Str, Str)
nch_ = z3.Function('str_nchars', Str, B64)
chr_ = z3.Function('str_char', Str, B64, B32)
csub_ = z3.Function('str_charsub', Str, B64, B64, Str)
has_ = z3.Function('str_has', Str, B32, z3.BoolSort())
fpos_ = z3.Function('str_find', Str, B32, B64)
rpos_ = z3.Function('str_rfind', Str, B32, B64)
nf_ = z3.Function('str_nfields', Str, B32, B64)
field_ = z3.Function('str_field', Str, B32, B64, Str)
trim_ = z3.Function('str_trim_end', Str, Str)
fromch_ = z3.Function('str_of_char', B32, Str)
dispu_ = z3.Function('str_disp_u', B64, Str)
dispi_ = z3.Function('str_disp_i', B64, Str)
ascii_ = z3.Function('str_is_ascii', Str, z3.BoolSort())

LIM = 1 << 31  # assumed bound on the byte length of one sentence (see DESIGN: memory bound)


class Facts:
    """Definitional facts about terms, emitted once per term into the current VC context."""
    cur = None

    @classmethod
    def add(cls, key, *fs):
        c = cls.cur
        if c is None or key in c.memo: return
        c.memo.add(key)
        for f in fs: c.fact(f)

    @classmethod
    def known(cls, t):
        """The value of a term fixed by the case under proof (also a fact of that case)."""
        c = cls.cur
        return t if c is None or not c.known else c.known.get(t, t)

    @classmethod
    def determined(cls, e):
        """The one value the facts of this case leave for e, or None."""
        c = cls.cur
        if c is None or not c.known: return None
        if e in c.det: return c.det[e]
        s = z3.Solver(); limit(s, 1000)
        for f in c.facts: s.add(f)
        r = None
        if s.check() == z3.sat:
            k = s.model().eval(e, model_completion=True)
            s.add(e != k)
            if s.check() == z3.unsat: r = k.as_long()
        c.det[e] = r
        return r

    @classmethod
    def fix(cls, t, v):
        cls.cur.known[t] = v
        cls.cur.fact(t == v)


def shared(key, objs, f):
    """f(), computed once per case of the proof: nested choices share their parts.  Forgotten, with the facts it emitted, when the
    facts are rolled back (the key lives in memo)."""
    c = Facts.cur
    if c is None: return f()
    if not hasattr(c, 'shared'): c.shared = {}
    if key in c.memo: return c.shared[key][0]
    r = f()
    c.memo.add(key); c.shared[key] = (r, objs)
    return r


class S:
    pass


class SBytes(S):
    def __init__(self, bs): self.bs = [bv(b, 8) if isinstance(b, int) else b for b in bs]

    def const(self):
        r = []
        for b in self.bs:
            c = conc(b)
            if c is None: return None
            r.append(c)
        return bytes(r)

    def __repr__(self):
        c = self.const()
        return repr(c) if c is not None else 'SBytes%r' % self.bs


class SVar(S):
    def __init__(self, t): self.t = t

    def __repr__(self): return 'S<%s>' % self.t


class SAtom(SVar):
    """A composite string kept as one term; its bytes are still those of the structure it stands for."""

    def __init__(self, o): self.o = o; self.t = sterm(o)


class SSub(S):
    def __init__(self, b, i, j): self.b = b; self.i = i; self.j = j

    def __repr__(self): return '%r[%s..%s]' % (self.b, self.i, self.j)


class SCat(S):
    def __init__(self, ps): self.ps = ps

    def __repr__(self): return 'Cat%r' % self.ps


class SIte(S):
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b

    def __repr__(self): return 'Ite(%s,%r,%r)' % (self.c, self.a, self.b)


def lit(x): return SBytes(x.encode() if isinstance(x, str) else x)


def site(c, a, b):
    if is_true(c): return a
    if is_false(c): return b
    if a is b: return a
    ta, tb = (a.const() if isinstance(a, SBytes) else None), (b.const() if isinstance(b, SBytes) else None)
    if ta is not None and ta == tb: return a
    if isinstance(a, SVar) and isinstance(b, SVar) and z3.eq(a.t, b.t): return a
    return SIte(c, a, b)


def slen(s):
    if isinstance(s, SBytes): return bv(len(s.bs), 64)
    if isinstance(s, SSub): return simp(s.j - s.i)
    if isinstance(s, SCat):
        r = bv(0, 64)
        for p in s.ps: r = r + slen(p)
        return simp(r)
    if isinstance(s, SIte): return shared(('slen', id(s)), s, lambda: If(s.c, slen(s.a), slen(s.b)))
    if isinstance(s, SAtom): return slen(s.o)
    l = len_(s.t)
    Facts.add(('len', s.t), z3.ULT(l, bv(1 << 40, 64)))
    return l


def sbyte(s, i):
    if isinstance(i, int): i = bv(i, 64)
    if isinstance(s, SBytes):
        k = conc(i)
        if k is not None: return s.bs[k] if k < len(s.bs) else bv(0, 8)
        r = bv(0, 8)
        for n, b in enumerate(s.bs): r = If(i == n, b, r)
        return r
    if isinstance(s, SSub): return sbyte(s.b, simp(s.i + i))
    if isinstance(s, SAtom): return sbyte(s.o, i)
    if isinstance(s, SIte): return shared(('sbyte', id(s), i), s, lambda: If(s.c, sbyte(s.a, i), sbyte(s.b, i)))
    if isinstance(s, SCat):
        off = bv(0, 64); r = None
        parts = []
        for p in s.ps:
            parts.append((off, p)); off = simp(off + slen(p))
        r = bv(0, 8)
        for o, p in reversed(parts):
            r = If(z3.ULT(i, simp(o + slen(p))), sbyte(p, simp(i - o)), r)
        return r
    return Facts.known(byte_(s.t, simp(i)))


_consts = {}


def sterm(s):
    if isinstance(s, SVar): return s.t
    if isinstance(s, SBytes):
        c = s.const()
        if c is not None:
            if c not in _consts: _consts[c] = z3.Const('"%s"' % c.decode('latin-1'), Str)
            t = _consts[c]
            Facts.add(('const', c), len_(t) == len(c), nch_(t) == len(c.decode('utf8', 'replace')),
                      *[byte_(t, bv(k, 64)) == c[k] for k in range(len(c))])
            return t
        n = len(s.bs)
        f = z3.Function('str_bytes%d' % n, *([B8] * n + [Str]))
        return f(*s.bs)
    if isinstance(s, SSub):
        b = s.b
        t = sub_(sterm(b), s.i, s.j)
        Facts.add(('sub', t), Implies(And(z3.ULE(s.i, s.j), z3.ULE(s.j, slen(b))), len_(t) == s.j - s.i),
                  Implies(And(s.i == 0, s.j == slen(b)), t == sterm(b)))
        return t
    if isinstance(s, SIte): return shared(('sterm', id(s)), s, lambda: z3.If(s.c, sterm(s.a), sterm(s.b)))
    if isinstance(s, SCat):
        ts = [sterm(p) for p in s.ps]
        r = ts[-1]; sp = span(r)
        for t in reversed(ts[:-1]):
            r = cat_(t, r); a = span(t)
            sp = (a[0], a[1], sp[2], And(a[3], sp[3], a[2] == sp[1])) if a and sp and z3.eq(a[0], sp[0]) else None
            if sp: Facts.add(('chars', r), Implies(sp[3], r == csub_(*sp[:3])))
        Facts.add(('cat', r), len_(r) == slen(s))
        return r
    raise Unsupported('sterm %r' % (s,))


def span(t):
    """(s, i, j, c): where c, t is the characters i..j of s."""
    if not z3.is_app(t): return None
    if t.decl().eq(csub_): return t.arg(0), t.arg(1), t.arg(2), And(z3.ULE(t.arg(1), t.arg(2)), z3.ULE(t.arg(2), nch_(t.arg(0))))
    if t.decl().eq(fromch_) and z3.is_app(t.arg(0)) and t.arg(0).decl().eq(chr_):
        s, i = t.arg(0).children()
        return s, i, simp(i + 1), z3.ULT(i, nch_(s))
    return None


def scat(*ps):
    out = []
    for p in ps:
        for q in (p.ps if isinstance(p, SCat) else [p]):
            if isinstance(q, SBytes) and not q.bs: continue
            if out and isinstance(q, SBytes) and isinstance(out[-1], SBytes): out[-1] = SBytes(out[-1].bs + q.bs)
            else: out.append(q)
    if not out: return SBytes(b'')
    if len(out) == 1: return out[0]
    # distribute over an ite so that both sides keep a normal form
    for k, q in enumerate(out):
        if isinstance(q, SIte):
            return site(q.c, scat(*(out[:k] + [q.a] + out[k + 1:])), scat(*(out[:k] + [q.b] + out[k + 1:])))
    return SCat(out)


def ssub(s, i, j):
    i = simp(i); j = simp(j)
    if isinstance(s, SSub): return ssub(s.b, s.i + i, s.i + j)
    if isinstance(s, SIte): return site(s.c, ssub(s.a, i, j), ssub(s.b, i, j))
    ci, cj = conc(i), conc(j)
    if isinstance(s, SBytes) and ci is not None and cj is not None and ci <= cj <= len(s.bs): return SBytes(s.bs[ci:cj])
    if ci == 0 and z3.eq(simp(slen(s)), j): return s
    if type(s) is SVar and Facts.cur is not None and Facts.cur.known and ci is not None and cj is not None and ci < cj <= ci + 8:
        bs = [sbyte(s, k) for k in range(ci, cj)]
        if all(conc(x) is not None for x in bs): return SBytes([conc(x) for x in bs])
    return SSub(s, i, j)


def seq(a, b):
    """String equality as a formula."""
    if isinstance(a, SBytes) and isinstance(b, SBytes):
        if len(a.bs) != len(b.bs): return z3.BoolVal(False)
        return And(*[simp(x == y) for x, y in zip(a.bs, b.bs)])
    if isinstance(b, SBytes): a, b = b, a
    if isinstance(a, SBytes):
        e = And(simp(slen(b) == len(a.bs)), *[simp(sbyte(b, k) == x) for k, x in enumerate(a.bs)])
        if a.const() is not None and len(a.bs) <= 8 and not isinstance(b, SBytes): Facts.add(('ext', a.const(), sterm(b)), Implies(e, sterm(b) == sterm(a)))
        return e
    if a is b: return z3.BoolVal(True)
    if isinstance(a, SIte): return shared(('seq', id(a), id(b)), (a, b), lambda: Or(And(a.c, seq(a.a, b)), And(Not(a.c), seq(a.b, b))))
    if isinstance(b, SIte): return shared(('seq', id(a), id(b)), (a, b), lambda: Or(And(b.c, seq(a, b.a)), And(Not(b.c), seq(a, b.b))))
    ta, tb = sterm(a), sterm(b)
    return z3.BoolVal(True) if z3.eq(ta, tb) else ta == tb


def is_cont(b): return (b & 0xC0) == 0x80


def boundary(s, i):
    """UTF-8 character boundary (exact definition; the well-formedness of str supplies the second fact)."""
    i = simp(i)
    if conc(i) == 0: return z3.BoolVal(True)
    if isinstance(s, SIte): return If(s.c, boundary(s.a, i), boundary(s.b, i))
    if isinstance(s, SBytes) and s.const() is not None and all(x < 128 for x in s.const()): return z3.ULE(i, len(s.bs))
    l = slen(s)
    if z3.eq(simp(l), i): return z3.BoolVal(True)
    b = sbyte(s, i)
    Facts.add(('bd', sterm(s), i), Implies(And(z3.ULT(i, l), z3.UGE(i, bv(1, 64)), z3.ULT(sbyte(s, i - 1), bv(128, 8))), Not(is_cont(b))),
              Implies(z3.ULT(bv(0, 64), l), Not(is_cont(sbyte(s, 0)))))
    return Or(i == l, And(z3.ULT(i, l), Not(is_cont(b))))


def nchars(s):
    if isinstance(s, SBytes) and s.const() is not None: return bv(len(s.const().decode('utf8', 'replace')), 64)
    if isinstance(s, SIte): return If(s.c, nchars(s.a), nchars(s.b))
    t = sterm(s); n = nch_(t)
    Facts.add(('nch', t), z3.ULE(n, slen(s)), (n == 0) == (slen(s) == 0))
    return n


def schar(s, i):
    if isinstance(s, SBytes) and s.const() is not None and conc(i) is not None:
        c = s.const().decode('utf8', 'replace'); k = conc(i)
        return bv(ord(c[k]), 32) if k < len(c) else bv(0, 32)
    if isinstance(s, SIte): return If(s.c, schar(s.a, i), schar(s.b, i))
    c = chr_(sterm(s), simp(i))
    Facts.add(('chr', c), z3.ULT(c, bv(0x110000, 32)), Not(And(z3.UGE(c, bv(0xD800, 32)), z3.ULE(c, bv(0xDFFF, 32)))))
    if conc(i) == 0:
        # a string's first character is its first byte, when either is ASCII
        b0 = sbyte(s, bv(0, 64))
        Facts.add(('chr0', c), Implies(z3.UGT(slen(s), bv(0, 64)), And(z3.ULT(b0, bv(128, 8)) == z3.ULT(c, bv(128, 32)), Implies(z3.ULT(b0, bv(128, 8)), c == z3.ZeroExt(24, b0)))))
    return Facts.known(c)


def has(s, c):
    if isinstance(s, SBytes) and s.const() is not None and conc(c) is not None:
        return z3.BoolVal(chr(conc(c)) in s.const().decode('utf8', 'replace'))
    if isinstance(s, SIte): return If(s.c, has(s.a, c), has(s.b, c))
    h = has_(sterm(s), c)
    Facts.add(('has', h), Implies(h, z3.UGT(slen(s), bv(0, 64))))
    return Facts.known(h)


def _pos(F, s, c):
    if isinstance(s, SIte): return If(s.c, _pos(F, s.a, c), _pos(F, s.b, c))
    k = conc(c)
    if k is None or k >= 128: raise Unsupported('search for a non-ASCII or symbolic character')
    if isinstance(s, SBytes) and s.const() is not None:
        b = bytes([k]); x = s.const()
        return bv(max(0, x.find(b) if F is fpos_ else x.rfind(b)), 64)
    p = F(sterm(s), c); h = has(s, c)
    l = slen(s)
    Facts.add(('pos', p), Implies(h, And(z3.ULT(p, l), sbyte(s, p) == k)))
    # position+1 is a boundary because the byte at position is ASCII
    return Facts.known(p)


def fpos(s, c): return _pos(fpos_, s, c)


def rpos(s, c): return _pos(rpos_, s, c)


def nfields(s, c):
    if isinstance(s, SIte): return If(s.c, nfields(s.a, c), nfields(s.b, c))
    n = nf_(sterm(s), c)
    Facts.add(('nf', n), z3.UGE(n, bv(1, 64)), z3.ULE(n, slen(s) + 1), has(s, c) == z3.UGT(n, bv(1, 64)))
    return n


def field(s, c, k):
    """k-th piece of s.split(c)."""
    k = simp(k)
    if isinstance(s, SIte): return site(s.c, field(s.a, c, k), field(s.b, c, k))
    if conc(k) == 0: return site(has(s, c), ssub(s, bv(0, 64), fpos(s, c)), s)
    t = field_(sterm(s), c, k)
    Facts.add(('field', t), z3.ULE(len_(t), slen(s)), Not(has_(t, c)))
    return SVar(t)


def disp_uint(e):
    c = conc(e)
    if c is None: c = Facts.determined(e)
    if c is not None: return lit(str(c))
    return SVar(dispu_(resize(e, 64, False)))


def disp_int(e):
    c = conc(e)
    if c is not None:
        n = e.size()
        return lit(str(c - (1 << n) if c >> (n - 1) else c))
    return SVar(dispi_(resize(e, 64, True)))


def hexdigit(n4, upper=True):
    n = resize(n4, 8, False)
    return simp(If(z3.ULT(n, bv(10, 8)), n + 48, n + (55 if upper else 87)))
