"""Contracts on the crate's own functions.  Each contract states requires/ensures for a function found by
its path in the compiled crate; verify() generates the obligations from the current MIR, apply() is what a
caller is checked against."""
import re, json, os, struct, z3
from vals import *
from engine import Ctx, State, Machine, Obl, Poison, SAny
from strs import *
import strs, fp, models, spec
from models import (blen, bbit, bval, val_, parse, trim_end, csub, umin, opt, res, some, none, substr, valid_date, valid_time,
                    mkdate, mkdt, ymd_of, NOW, dle_, rx, bpush_, Bits, dv, ofchar)

B64 = z3.BitVecSort(64)
HERE = os.path.dirname(os.path.abspath(__file__))


class Mismatch(Exception):
    pass


def P_(m): return m.P


def any_str(m): return SAny(z3.Const(m.name('any'), Str))


def variant(m, ty, name):
    for i, v in enumerate(m.T[ty]['variants']):
        if v['name'] == name: return i
    raise Unsupported('variant %s of %s' % (name, m.T[ty]['s']))


def adt(m, name):
    t = m.P.adt(name)
    if t is None: raise Unsupported('type %s not found' % name)
    return t


def enumv(m, tyname, vname):
    t = adt(m, tyname)
    return Enum(t, variant(m, t, vname), {i: [] for i in range(len(m.T[t]['variants']))})


def coerce(m, v, ty):
    """Give a specification value the widths and type ids of a program type."""
    if isinstance(v, spec.Alt) or v is None: return v
    k = m.kind(ty)
    if z3.is_bv(v) and k in ('int', 'uint', 'char'): return resize(v, m.T[ty].get('bits', 32), False)
    if isinstance(v, Enum):
        t = m.T[ty]
        return Enum(ty, v.v, {i: [coerce(m, x, f[1]) for x, f in zip(p, t['variants'][i]['fields'])] for i, p in v.p.items()})
    return v


class SymB:
    """Symbolic reading of the specification tables."""

    def __init__(self, m, b=None, station=None, own=None, nav=None, sentence=None):
        self.m, self.b, self.station, self.own, self.nav, self.se = m, b, station, own, nav, sentence
        self.fails = []

    def u(self, i, n): return bval(self.b, i, n)

    def s(self, i, n):
        v = bval(self.b, i, n)
        return resize(z3.Extract(n - 1, 0, v), 64, True)

    def flag(self, i): return bbit(self.b, bv(i, 64))

    def text(self, i, n): return text(self.b, bv(i, 64), bv(n, 64))

    def num(self, k): return bv(k, 64)

    def eq(self, a, k): return simp(a == k)

    def ne(self, a, k): return Not(simp(a == k))

    def lt(self, a, b): return simp(self.w(a) < self.w(b))

    def le(self, a, b): return simp(self.w(a) <= self.w(b))

    def w(self, a): return bv(a, 64) if isinstance(a, int) else a

    def neg(self, a): return simp(-a)

    def and_(self, *a): return And(*a)

    def or_(self, *a): return Or(*a)

    def not_(self, a): return Not(a)

    def ite(self, c, a, b): return self.m.merge_val(c, a(), b())

    def opt(self, c, v): return opt(None, c, v())

    def some(self, v): return some(None, v)

    def none(self): return Enum(None, 0, {0: []})

    def enumv(self, t, n): return enumv(self.m, t, n)

    def cases(self, x, d, other):
        r = other
        for k, v in d.items(): r = self.m.merge_val(simp(x == k), v, r)
        return r

    def code(self, tyname, x): return code(self.m, tyname, x)

    def f(self, x): return fp.i2f(x, True)

    def fdiv(self, a, c): return fp.fbin('fdiv', a, fp.fconst(c))

    def fmul(self, a, c): return fp.fbin('fmul', a, fp.fconst(c))

    def fsq(self, a): return fp.powi(a, bv(2, 32))

    def fneg(self, a): return fp.fneg(a)

    def nonempty(self, s): return Not(simp(slen(s) == 0))

    def cat(self, a, b): return scat(a, b)

    def datetime(self, y, mo, d, h, mi, s):
        a = [resize(x, 32, False) for x in (y, mo, d, h, mi, s)]
        return opt(None, And(valid_date(*a[:3]), valid_time(*a[3:])), mkdt(mkdate(*a[:3]), *a[3:]))

    def eta(self, i): return eta_spec(self.m, self.b, bv(i, 64))

    # GNSS
    def fld(self, k): return fld(self.se, k)

    def num_field(self, k, tn):
        s = self.fld(k)
        ok, v = parse(s, tn)
        e = simp(slen(s) == 0)
        self.fails.append(And(Not(e), Not(ok)))
        return opt(None, Not(e), v)

    def soft_num(self, k, tn):
        s = self.fld(k)
        ok, v = parse(s, tn)
        return opt(None, And(Not(simp(slen(s) == 0)), ok), v)

    def or_default(self, o, d, ty):
        x = If(simp(o.v == 1), o.p[1][0], bv(d, 8)) if 1 in o.p else bv(d, 8)
        return self.code(ty, resize(x, 64, False))

    def cv(self, v): return z3.BoolVal(v) if isinstance(v, bool) else enumv(self.m, *v)

    def softchar(self, k, d):
        s = self.fld(k)
        r = None; c = z3.BoolVal(False)
        for t, v in d.items():
            e = seq(s, lit(t)); c = Or(c, e)
            r = self.cv(v) if r is None else self.m.merge_val(e, self.cv(v), r)
        return opt(None, c, r)

    def flagchar(self, k, d):
        s = self.fld(k)
        self.fails.append(And(Not(seq(s, lit(''))), *[Not(seq(s, lit(t))) for t in d]))
        return self.softchar(k, d)

    def faa(self, k): return self.softchar(k, {c: ('FaaMode', n) for c, n in spec.FAA.items()})

    def latitude(self, a, b): return self.coord(a, b, 2, 'S')

    def longitude(self, a, b): return self.coord(a, b, 3, 'W')

    def coord(self, a, b, deg, neg):
        e, ok, v = coord_spec(self.fld(a), self.fld(b), deg, neg)
        self.fails.append(And(Not(e), Not(ok)))
        return opt(None, Not(e), v)

    def hhmmss(self, k):
        ok, v = hhmmss_spec(self.m, self.fld(k), NOW)
        return opt(None, ok, v)

    def date_time(self, d, t):
        ok, v = date_time_spec(self.fld(d), self.fld(t))
        return opt(None, ok, v)

    def signed(self, a, b):
        s, side = self.fld(a), self.fld(b)
        ok, v = parse(s, 'f64')
        e = simp(slen(s) == 0)
        E, W = seq(side, lit('E')), seq(side, lit('W'))
        self.fails.append(And(Not(e), Or(Not(ok), And(Not(E), Not(W)))))
        return opt(None, Not(e), If(E, v, fp.fneg(v)))

    def prns(self, lo, hi):
        t = adt(self.m, 'GsaData')
        vt = [f[1] for f in self.m.T[t]['variants'][0]['fields'] if f[0] == 'prn_numbers'][0]
        v = models.vempty(self.m, vt)
        for k in range(lo, hi):
            s = self.fld(k)
            ok, x = parse(s, 'u8')
            e = simp(slen(s) == 0)
            self.fails.append(And(Not(e), Not(ok)))
            v = self.m.merge_val(e, v, models.vpush(self.m, v, x))
        return v


def code(m, tyname, x):
    tbl, other = spec.CODES[tyname]
    t = adt(m, tyname)
    V = {v['name']: i for i, v in enumerate(m.T[t]['variants'])}
    r = bv(V[other], 16) if other else bv(V[tbl[0]], 16)
    for k, n in tbl.items(): r = If(simp(x == k), bv(V[n], 16), r)
    return Enum(t, r, {i: [] for i in range(len(m.T[t]['variants']))})


def fld(s, k):
    """k-th comma separated field, "" when the sentence has fewer."""
    return site(simp(z3.ULT(bv(k, 64), nfields(s, bv(44, 32)))), field(s, bv(44, 32), bv(k, 64)), lit(''))


def vfld(m, v, i):
    return site(simp(z3.ULT(i, m.vlen(v))), m.vget(v, i), lit(''))


# ------------------------------------------------------------------ recursive specification functions
txt_ = z3.Function('text_prefix', Bits, B64, B64, Str)      # characters before the first zero among the first k
stop_ = z3.Function('text_stopped', Bits, B64, B64, z3.BoolSort())
xf_ = z3.Function('xor_bytes', Str, B64, B64, z3.BitVecSort(8))
badp_ = z3.Function('payload_bad', Str, z3.BoolSort())
fbad_ = z3.Function('payload_first_bad', Str, B64)
pbits_ = z3.Function('payload_bits', Str, Bits)
ONE = bv(1, 64)


def def_val(b, i, k):
    """Definition of bits_val(b, i, .) at 0 and from k to k+1."""
    return [val_(b, i, bv(0, 64)) == 0,
            val_(b, i, simp(k + 1)) == ((val_(b, i, k) << 1) | If(bbit(b, simp(i + k)), bv(1, 64), bv(0, 64)))]


def lem_val(b, i, k):
    """Lemma: k bits make a value below 2^k (proved by induction in lemmas.py)."""
    return Implies(z3.ULT(k, bv(64, 64)), z3.ULT(val_(b, i, k), bv(1, 64) << k))


def unfold_val(b, i, k):
    k = simp(k)
    Facts.add(('uval', b, i, k), *(def_val(b, i, k) + [lem_val(b, i, k)]))


def char6(x):
    """6-bit code to character."""
    x = resize(x, 32, False)
    return simp(If(z3.ULT(x, bv(32, 32)), x + 64, x))


def def_txt(b, i, k):
    """Definition of text_prefix(b, i, .) at 0 and from k to k+1."""
    c = bval(b, simp(i + 6 * k), 6)
    k1 = simp(k + 1)
    return [txt_(b, i, bv(0, 64)) == sterm(lit('')), Not(stop_(b, i, bv(0, 64))),
            stop_(b, i, k1) == Or(stop_(b, i, k), simp(c == 0)),
            txt_(b, i, k1) == z3.If(stop_(b, i, k1), txt_(b, i, k), strs.cat_(txt_(b, i, k), strs.fromch_(char6(c))))]


def unfold_txt(b, i, k):
    k = simp(k)
    Facts.add(('utxt', b, i, k), *def_txt(b, i, k))


def lem_stop(b, i, k, n):
    """Lemma: once stopped, the text no longer changes (proved by induction in lemmas.py)."""
    return Implies(And(stop_(b, i, k), z3.ULE(k, n)), And(stop_(b, i, n), txt_(b, i, n) == txt_(b, i, k)))


def lemma_stop(b, i, k, n): Facts.add(('lstop', b, i, k, n), lem_stop(b, i, k, n))


def text(b, i, n):
    unfold_txt(b, i, bv(0, 64))
    return trim_end(SVar(txt_(b, i, n)))


def unfold_xor(s, lo, k):
    """xf(s, lo, k): xor of the bytes lo..k."""
    if isinstance(s, SSub): return unfold_xor(s.b, simp(s.i + lo), simp(s.i + k))
    if isinstance(s, SIte):
        unfold_xor(s.a, lo, k); unfold_xor(s.b, lo, k); return
    t = sterm(s)
    Facts.add(('uxor', t, lo, k), xf_(t, lo, lo) == 0, xf_(t, lo, simp(k + 1)) == (xf_(t, lo, k) ^ sbyte(s, k)))


def xor(s, lo, k):
    if isinstance(s, SSub): return xor(s.b, simp(s.i + lo), simp(s.i + k))
    if isinstance(s, SIte): return If(s.c, xor(s.a, lo, k), xor(s.b, lo, k))
    return xf_(sterm(s), simp(lo), simp(k))


def six(c):
    """(valid, 6-bit value) of an armoring character."""
    a = And(z3.UGE(c, bv(48, 32)), z3.ULE(c, bv(87, 32))); b = And(z3.UGE(c, bv(96, 32)), z3.ULE(c, bv(119, 32)))
    return simp(Or(a, b)), simp(If(a, c - 48, c - 56))


def payload_facts(s, j):
    """Definition of payload_bad / payload_bits instantiated at character j."""
    t = sterm(s)
    v, x = six(schar(s, j))
    n = nchars(s)
    Facts.add(('pay', t, j), Implies(And(z3.ULT(j, n), Not(v)), badp_(t)))
    f = fbad_(t)
    Facts.add(('pay0', t), Implies(badp_(t), And(z3.ULT(f, n), Not(six(schar(s, f))[0]))))
    Facts.add(('pay2', t, j), Implies(And(badp_(t), z3.ULT(j, f)), v))     # f is the first bad character


def payload_bytes(s, j):
    """UTF-8: as long as every character so far is ASCII, byte j is character j (facts about a payload's valid prefix)."""
    t = sterm(s); b = sbyte(s, j); c = schar(s, j)
    Facts.add(('paybl', t), Implies(Not(badp_(t)), slen(s) == nchars(s)))
    Facts.add(('payb', t, j), Implies(Or(Not(badp_(t)), z3.ULE(j, fbad_(t))), And(
        z3.ULT(j, nchars(s)) == z3.ULT(j, slen(s)),
        Implies(z3.ULT(j, slen(s)), If(z3.ULT(b, bv(128, 8)), c == z3.ZeroExt(24, b), z3.UGE(c, bv(128, 32)))))))


# ------------------------------------------------------------------ functional specifications
def sgn(v, n):
    """Two's complement reading of the low n bits (1 <= n <= 64)."""
    k = conc(n)
    if k is not None and 1 <= k <= 64: return resize(z3.Extract(k - 1, 0, v), 64, True)
    sh = simp(bv(64, 64) - n)
    return simp((v << sh) >> sh)


def eta_spec(m, b, i):
    u = lambda o, n: resize(bval(b, simp(i + o), n), 32, False)
    y0, mo0, d0 = ymd_of(NOW)
    mo, d, h, mi = u(0, 4), u(4, 5), u(9, 5), u(14, 6)
    na = And(simp(mo == 0), simp(d == 0), simp(h == 24), simp(mi == 60))

    def build(sec):
        M = If(simp(mo == 0), mo0, mo); D = If(simp(d == 0), d0, d)
        h24 = simp(h == 24)
        H = If(h24, bv(23, 32), h)
        mi60 = Or(h24, simp(mi == 60))
        MI = If(mi60, bv(59, 32), mi)
        S_ = If(mi60, bv(59, 32), sec)
        vt = valid_time(H, MI, S_)
        t0, t1 = mkdt(mkdate(y0, M, D), H, MI, S_), mkdt(mkdate(simp(y0 + 1), M, D), H, MI, S_)
        ok0 = And(valid_date(y0, M, D), vt, dle_(NOW, t0))
        ok1 = And(valid_date(simp(y0 + 1), M, D), vt)
        return opt(None, And(Not(na), Or(ok0, ok1)), If(ok0, t0, t1))
    raw = u(20, 6)
    return spec.Alt(build(bv(0, 32)), build(If(z3.UGE(raw, bv(60, 32)), bv(59, 32), raw)), 't5-eta-seconds')


def coord_spec(s, h, deg, neg):
    """(empty, well-formed, value) of a DDMM.mmm / DDDMM.mmm field with its hemisphere."""
    R = rx('^(%s)([0-9][0-9]\\.[0-9]+)' % ('[0-9]' * deg))
    ok = R.ok(s)
    d, mn = R.group(s, 1), R.group(s, 2)
    v = fp.fbin('fadd', parse(d, 'f64')[1], fp.fbin('fdiv', parse(mn, 'f64')[1], fp.fconst(60.0)))
    return simp(slen(s) == 0), ok, If(seq(h, lit(neg)), fp.fneg(v), v)


def sub2(m, s, i):
    c, x = substr(m, s, Agg(m.P.type_by_str('std::ops::Range<usize>'), [bv(i, 64), bv(i + 2, 64)])) if False else _sub2(s, i)
    return c, x


def _sub2(s, i):
    lo, hi = bv(i, 64), bv(i + 2, 64)
    return simp(And(z3.ULE(hi, slen(s)), boundary(s, lo), boundary(s, hi))), ssub(s, lo, hi)


def hhmmss_spec(m, s, now):
    oks, vs = [], []
    for i in (0, 2, 4):
        c, x = _sub2(s, i)
        o, v = parse(x, 'u32')
        oks += [c, o]; vs.append(v)
    y, mo, d = ymd_of(now)
    return And(*oks, valid_time(*vs)), mkdt(mkdate(y, mo, d), *vs)


def s2(s, i):
    n = nchars(s)
    lo = umin(bv(i, 64), n); hi = umin(simp(lo + 2), n)
    return csub(s, lo, hi)


def date_time_spec(d, t):
    D, M = parse(s2(d, 0), 'u32'), parse(s2(d, 2), 'u32')
    Y = parse(s2(d, 4), 'i32')
    h, mi, s = (parse(s2(t, i), 'u32') for i in (0, 2, 4))
    y0, _, _ = ymd_of(NOW)
    cen = simp((y0 / bv(100, 32)) * 100)
    # two characters read as i32 lie in -9..=99
    Facts.add(('yy', Y[1]), Implies(Y[0], And(Y[1] >= -9, Y[1] <= 99)))
    y = simp(cen + Y[1])
    return And(D[0], M[0], Y[0], h[0], mi[0], s[0], valid_date(y, M[1], D[1]), valid_time(h[1], mi[1], s[1])), \
        mkdt(mkdate(y, M[1], D[1]), h[1], mi[1], s[1])


# ------------------------------------------------------------------ contract base
class C:
    Mismatch = Mismatch
    props = ()
    peel = None
    templates = None
    instances = 'all'

    def __init__(self, name): self.name = name

    def setup(self, m, st, inst):
        i = m.P.I[inst]
        return [m.fresh(i['body']['locals'][k + 1], 'arg%d' % k, st) for k in range(i['body']['argc'])]

    def requires(self, m, st, args): return []

    cases = (None,)

    def verify(self, m, inst, case=None):
        cx = m.cx
        st = State({}, ())
        self.case = case
        args = self.setup(m, st, inst)
        self.args = args
        for f in self.requires(m, st, args): cx.fact(f)
        if self.templates: cx.templates = lambda *a: self.templates(args, *a)
        if self.peel: cx.peel = self.peel
        pre = State(dict(st.mem), st.pc)
        r = m.exec_inst(inst, args, st, multi=True)
        if r is None: raise Unsupported('no path returns')
        rty = m.P.I[inst]['body']['locals'][0]
        m.stack.append(inst)
        for v, s2_ in r: self.ensures(m, pre, s2_, args, v, rty)
        m.stack.pop()

    def value(self, m, st, args, rty): raise NotImplementedError

    def ensures(self, m, pre, st, args, v, rty):
        for p in self.props: m.oblige(st, p, 'result equals its specification', m.eqv(v, coerce(m, self.value(m, pre, args, rty), rty)))

    def apply(self, m, st, inst, args, rty, line):
        for g in self.requires(m, st, args):
            m.oblige(st, 'C01', 'precondition of %s' % self.name, simp(g), m.where(line))
        if rty is None: rty = m.P.I[inst]['body']['locals'][0]
        return coerce(m, self.value(m, st, args, rty), rty), st


def deref(m, st, v): return dv(m, st, v)


class PickU64(C):
    props = ('C05',)

    def requires(self, m, st, a):
        return [simp(z3.ULE(a[1], simp(a[1] + a[2]))), simp(z3.ULE(a[2], bv(64, 64)))]

    def value(self, m, st, a, rty):
        b = deref(m, st, a[0])
        return bval(b, a[1], a[2])

    def templates(self, args, m, fr, cands, moving, hv, entry, s):
        b = deref(m, s, args[0]); idx, n = args[1], args[2]
        import loops
        ls = [(k, p) for k, p in moving if z3.is_bv(loops.leaves(hv[k])[p]) and loops.leaves(hv[k])[p].size() == 64]

        def mk(k, p, k2, p2, rel):
            def f(g):
                c = g(k2, p2)
                cnt = simp(c - idx) if rel else c
                unfold_val(b, idx, cnt)
                return g(k, p) == val_(b, idx, cnt)
            return f
        for k, p in ls:
            for k2, p2 in ls:
                if (k, p) != (k2, p2):
                    cands.append(('acc = bits_val(bv, index, pos - index)', mk(k, p, k2, p2, True)))
                    cands.append(('acc = bits_val(bv, index, count)', mk(k, p, k2, p2, False)))


class PickI64(PickU64):
    def requires(self, m, st, a):
        return [simp(z3.ULE(a[1], simp(a[1] + a[2]))), simp(And(z3.UGE(a[2], bv(1, 64)), z3.ULE(a[2], bv(63, 64))))]

    def value(self, m, st, a, rty):
        b = deref(m, st, a[0])
        v = bval(b, a[1], a[2])
        if conc(a[2]) is None:
            Facts.add(('vb', v), lem_val(b, a[1], a[2]))
        return sgn(v, a[2])


class PickString(C):
    props = ('C06',)

    def requires(self, m, st, a):
        n = a[2]
        return [simp(And(z3.ULE(a[1], bv(1 << 40, 64)), z3.ULE(n, bv(1 << 40, 64))))]

    def value(self, m, st, a, rty):
        return text(deref(m, st, a[0]), a[1], a[2])

    def ensures(self, m, pre, st, a, v, rty):
        C.ensures(self, m, pre, st, a, v, rty)

    def templates(self, args, m, fr, cands, moving, hv, entry, s):
        import loops
        b = deref(m, s, args[0]); idx, n = args[1], args[2]
        ss = [(k, p) for k, p in moving if isinstance(loops.leaves(hv[k])[p], S)]
        cs = [(k, p) for k, p in moving if z3.is_bv(loops.leaves(hv[k])[p]) and loops.leaves(hv[k])[p].size() == 64]
        for k, p in ss:
            for k2, p2 in cs:
                def f(g, k=k, p=p, k2=k2, p2=p2):
                    c = g(k2, p2)
                    unfold_txt(b, idx, c)
                    lemma_stop(b, idx, simp(c + 1), n)
                    return And(seq(g(k, p), SVar(txt_(b, idx, c))), Not(stop_(b, idx, c)))
                cands.append(('text = text_prefix(bv, index, i) and no zero character so far', f))


class ParsePayload(C):
    props = ('C04',)

    def setup(self, m, st, inst):
        a = C.setup(self, m, st, inst)
        self.s = dv(m, st, a[0])
        self.j = z3.BitVec('any_char', 64)
        Facts.add(('payj',), z3.ULT(self.j, bv(1 << 40, 64)))
        return a

    def value(self, m, st, a, rty):
        s = dv(m, st, a[0])
        t = sterm(s)
        payload_facts(s, bv(0, 64))
        b = pbits_(t)
        Facts.add(('pblen', t), Implies(Not(badp_(t)), blen(b) == 6 * nchars(s)))
        return res(rty, Not(badp_(t)), b, any_str(m))

    def bits_at(self, b, j, c):
        """bits 6j..6j+5 of b are the value of armoring character c, most significant first."""
        v, x = six(c)
        return And(*[simp(bbit(b, simp(6 * j + k)) == (z3.Extract(5 - k, 5 - k, x) == 1)) for k in range(6)])

    def ensures(self, m, pre, st, a, v, rty):
        s, j = self.s, self.j
        t = sterm(s)
        err = simp(v.v == 1)
        payload_facts(s, j)
        P = 'C04'
        m.oblige(st, P, 'a payload is rejected exactly when it contains a character outside the alphabet', simp(err == badp_(t)))
        if 0 not in v.p: return
        b = v.p[0][0]
        m.oblige(st, P, 'an accepted payload yields 6 bits per character', Implies(Not(err), blen(b) == 6 * nchars(s)))
        m.oblige(st, P, 'bits 6j..6j+5 are the value of character j, most significant bit first',
                 Implies(And(Not(err), z3.ULT(j, nchars(s))), self.bits_at(b, j, schar(s, j))))

    def templates(self, args, m, fr, cands, moving, hv, entry, s0):
        import loops
        s, j = self.s, self.j
        bs = [(k, p) for k, p in moving if z3.is_expr(loops.leaves(hv[k])[p]) and loops.leaves(hv[k])[p].sort() == Bits]
        cs = [(k, p) for k, p in moving if z3.is_bv(loops.leaves(hv[k])[p]) and loops.leaves(hv[k])[p].size() == 64]
        payload_facts(s, j); payload_bytes(s, j); payload_bytes(s, fbad_(sterm(s)))
        for k2, p2 in cs:
            def ok(g, k2=k2, p2=p2):
                c = g(k2, p2); payload_facts(s, c); payload_bytes(s, c)
                return Implies(z3.ULT(j, c), six(schar(s, j))[0])
            cands.append(('all characters so far are valid', ok))
            def ok2(g, k2=k2, p2=p2):
                f = fbad_(sterm(s)); payload_facts(s, f)
                return Implies(And(badp_(sterm(s)), z3.ULT(f, g(k2, p2))), z3.BoolVal(False))
            cands.append(('the first bad character is still ahead', ok2))
        for k, p in bs:
            for k2, p2 in cs:
                def f(g, k=k, p=p, k2=k2, p2=p2):
                    return blen(g(k, p)) == 6 * g(k2, p2)
                cands.append(('length = 6 * characters', f))
                def f2(g, k=k, p=p, k2=k2, p2=p2):
                    return Implies(z3.ULT(j, g(k2, p2)), self.bits_at(g(k, p), j, schar(s, j)))
                cands.append(('bits of every earlier character are in place', f2))


class PickEta(C):
    props = ('C13',)

    def requires(self, m, st, a): return [simp(z3.ULE(a[1], bv(1 << 40, 64)))]

    def ensures(self, m, pre, st, a, v, rty):
        alt = eta_spec(m, dv(m, pre, a[0]), a[1])
        alt_oblige(m, st, 'C13', 'ETA', v, alt, rty)

    def apply(self, m, st, inst, args, rty, line):
        for g in self.requires(m, st, args): m.oblige(st, 'C01', 'precondition of pick_eta', simp(g), m.where(line))
        if rty is None: rty = m.P.I[inst]['body']['locals'][0]
        alt = eta_spec(m, dv(m, st, args[0]), args[1])
        v = m.fresh(rty, 'eta')
        m.cx.fact(Or(m.eqv(v, coerce(m, alt.ok, rty)), m.eqv(v, coerce(m, alt.known, rty))))
        return v, st


def alt_oblige(m, st, prop, desc, v, alt, rty):
    a, k = m.eqv(v, coerce(m, alt.ok, rty)), m.eqv(v, coerce(m, alt.known, rty))
    m.oblige(st, prop, desc + ' equals its specification (or the recorded finding %s)' % alt.finding, Or(a, k))
    o = m.cx.obls[-1]
    o.finding = alt.finding; o.strict = a


class PickNumber(C):
    props = ('C19',)

    def tn(self, m, rty):
        o = m.T[m.T[rty]['args'][0]]['args'][0]
        return m.T[o]['s']

    def value(self, m, st, a, rty):
        v = dv(m, st, a[0])
        if not (isinstance(v, (Opq, Agg))): raise Mismatch('argument')
        s = vfld(m, v, a[1])
        ok, x = parse(s, self.tn(m, rty))
        e = simp(slen(s) == 0)
        oty = m.T[rty]['args'][0]
        return res(rty, Or(e, ok), opt(oty, Not(e), x), any_str(m))


class Hhmmss(C):
    props = ('C21',)

    def value(self, m, st, a, rty):
        ok, v = hhmmss_spec(m, dv(m, st, a[0]), a[1])
        return res(rty, ok, v, any_str(m))


class DateTimeC(C):
    props = ('C21',)

    def setup(self, m, st, inst):
        a = C.setup(self, m, st, inst)
        date_time_spec(dv(m, st, a[0]), dv(m, st, a[1]))
        return a

    def value(self, m, st, a, rty):
        ok, v = date_time_spec(dv(m, st, a[0]), dv(m, st, a[1]))
        return res(rty, ok, v, any_str(m))


class Coord(C):
    props = ('C20',)

    def __init__(self, name, deg, neg): self.name = name; self.deg = deg; self.neg = neg

    def value(self, m, st, a, rty):
        e, ok, v = coord_spec(dv(m, st, a[0]), dv(m, st, a[1]), self.deg, self.neg)
        return res(rty, Or(e, ok), opt(m.T[rty]['args'][0], Not(e), v), any_str(m))


class CodeTable(C):
    props = ('C23',)

    def __init__(self, name, ty): self.name = name; self.ty = ty

    def value(self, m, st, a, rty):
        c = code(m, self.ty, a[0])
        if self.ty == 'NavAidType':
            return res(rty, z3.ULT(a[0], bv(32, 8)), c, Enum(m.T[rty]['args'][1], z3.BitVec(m.name('errkind'), 16), {i: [any_str(m)] for i in range(3)}))
        return c

    def ensures(self, m, pre, st, a, v, rty):
        e = self.value(m, pre, a, rty)
        if self.ty == 'NavAidType':
            m.oblige(st, 'C23', 'codes 0..31 are the 32 aid types, anything else an error',
                     And(simp((v.v == 0) == z3.ULT(a[0], bv(32, 8))), Implies(simp(v.v == 0), m.eqv(v.p[0][0], e.p[0][0])) if 0 in v.p else z3.BoolVal(False)))
        else: m.oblige(st, 'C23', 'every code is decoded per the %s table' % self.ty, m.eqv(v, e))


class Faa(C):
    props = ('C23',)

    def value(self, m, st, a, rty):
        s = dv(m, st, a[0])
        o = SymB(m).__class__(m)
        o.fld = lambda k: s
        x = o.faa(0)
        return res(rty, simp(x.v == 1), x.p[1][0], any_str(m))


class Country(C):
    props = ('C22',)

    def cex(self, m, mod, o): return {'mmsi': mod.eval(self.mmsi, model_completion=True).as_long()}

    def value(self, m, st, a, rty):
        v = dv(m, st, a[0])
        t = m.T[v.ty]['variants'][0]['fields']
        self.mmsi = mmsi = v.f[[f[0] for f in t].index('mmsi')]
        mid = simp(z3.UDiv(mmsi, bv(1000000, 32)))
        tbl = json.load(open(os.path.join(HERE, 'mid.json')))
        c = z3.BoolVal(False); x = bv(0, 16)
        for k, cc in tbl.items():
            e = simp(mid == int(k)); c = Or(c, e)
        hi, lo = bv(0, 8), bv(0, 8)
        for k, cc in tbl.items():
            e = simp(mid == int(k)); hi = If(e, bv(ord(cc[0]), 8), hi); lo = If(e, bv(ord(cc[1]), 8), lo)
        return opt(rty, c, SBytes([hi, lo]))

    def ensures(self, m, pre, st, a, v, rty):
        e = self.value(m, pre, a, rty)
        m.oblige(st, 'C22', 'a country is given exactly for the listed MIDs', simp(v.v == e.v))
        if 1 not in v.p: return
        s = v.p[1][0]
        x = e.p[1][0]
        m.oblige(st, 'C22', 'the country is the one the MID is allocated to',
                 Implies(simp(v.v == 1), And(simp(slen(s) == 2), simp(sbyte(s, 0) == x.bs[0]), simp(sbyte(s, 1) == x.bs[1]))))


class Accessor(C):
    props = ('C07',)

    def __init__(self, name, fieldname): self.name = name; self.fn = fieldname

    def value(self, m, st, a, rty):
        v = dv(m, st, a[0])
        names = [f[0] for f in m.T[v.ty]['variants'][0]['fields']]
        if self.fn not in names: return none(rty)
        return v.f[names.index(self.fn)]


def split_prop(v, dflt):
    if isinstance(v, tuple): return v[0].split('+'), v[1]
    return [dflt], v


PS = 'ParsedSentence'


def uf_value(m, k, name, args, depth=0):
    """Value of type k whose every component is an uninterpreted function of the arguments."""
    t = m.T[k]; kd = m.kind(k)
    dom = [a.sort() for a in args]

    def app(n, so): return z3.Function(n, *(dom + [so]))(*args)
    if kd == 'bool': return app(name, z3.BoolSort())
    if kd in ('int', 'uint', 'float'): return app(name, z3.BitVecSort(t['bits']))
    if kd == 'char': return app(name, z3.BitVecSort(32))
    if kd in ('string', 'str'): return SVar(app(name, Str))
    if kd == 'opaque': return app(name, m.opq_sort(m.osname(k)))
    if kd == 'vec': return Opq('vec', t=app(name, m.sort(k)), elem=t['args'][0])
    if kd in ('struct', 'tuple'):
        fs = [('%d' % i, e) for i, e in enumerate(t['elems'])] if kd == 'tuple' else t['variants'][0]['fields']
        return Agg(k, [uf_value(m, ft, name + '.' + fn, args, depth + 1) for fn, ft in fs])
    if kd == 'enum':
        tag = app(name + '.tag', z3.BitVecSort(16))
        if depth < 2: Facts.add(('uftag', tag), z3.ULT(tag, bv(len(t['variants']), 16)))
        return Enum(k, tag, {vi: [uf_value(m, ft, '%s.%s.%s' % (name, var['name'], fn), args, depth + 1) for fn, ft in var['fields']]
                             for vi, var in enumerate(t['variants'])})
    if kd == 'map':
        ks, vs = m.sort(t['args'][0]), m.sort(t['args'][1])
        return Opq('map', has=app(name + '.has', z3.ArraySort(ks, z3.BoolSort())), val=app(name + '.val', z3.ArraySort(ks, vs)),
                   cnt=app(name + '.len', B64), kt=t['args'][0], vt=t['args'][1])
    raise Unsupported('uf value ' + t['s'])


def app_value(m, k, name, fl):
    """Application of a handler: one object per (handler, arguments)."""
    key = (k, name) + tuple(x.get_id() for x in fl)
    if key not in m.apps:
        v = uf_value(m, k, name, fl)
        m.apps[key] = v; m.appargs[id(v)] = (name, fl, v)
    return m.apps[key]


def app_map(m, o, name, fl):
    """A map of the state after a handler, as a function of its arguments."""
    key = ('map', name) + tuple(x.get_id() for x in fl)
    if key not in m.apps:
        dom = [a.sort() for a in fl]
        app = lambda n, so: z3.Function(n, *(dom + [so]))(*fl)
        v = Opq('map', has=app(name + '.has', o.has.sort()), val=app(name + '.val', o.val.sort()), cnt=app(name + '.len', B64), kt=o.kt, vt=o.vt)
        m.apps[key] = v; m.appargs[id(v)] = (name, fl, v)
    return m.apps[key]


def app_eq(m, a, b):
    """Equality of two values; for two applications of one handler, equality of the arguments (congruence)."""
    x, y = m.appargs.get(id(a)), m.appargs.get(id(b))
    if x and y and x[0] == y[0] and len(x[1]) == len(y[1]): return And(*[simp(p == q) for p, q in zip(x[1], y[1]) if not z3.eq(p, q)])
    return m.eqv(a, b)


def flat(m, v):
    """z3 terms determining a value (arguments of handler applications)."""
    if isinstance(v, S): return [sterm(v)]
    if isinstance(v, Enum): return [v.v]
    if isinstance(v, SRef): return flat(m, v.v)
    if isinstance(v, Agg) and v.ty is not None and roles(m, v): return sum((flat(m, x) for x in kept(m, v)), [])
    if isinstance(v, Agg): return sum((flat(m, x) for x in v.f), [])
    if isinstance(v, Opq) and v.kind == 'map': return [v.has, v.val, v.cnt]
    if z3.is_expr(v): return [v]
    raise Unsupported('handler argument %r' % (v,))


class Handler(C):
    """Message handlers without parser state: the result is a function of the arguments at call sites."""

    def canon(self, m, args, st):
        """Arguments by role (bits, text, enum, flag, state), so that parameter order does not matter."""
        def role(a):
            v = dv(m, st, a)
            if isinstance(v, S): return 1
            if isinstance(v, Enum): return 2
            if isinstance(v, Agg) or isinstance(v, Opq) and v.kind == 'map': return 4
            return 3 if z3.is_bool(v) else 0
        return sum((flat(m, dv(m, st, a)) for a in sorted(args, key=role)), [])

    def call_value(self, m, args, st, rty): return app_value(m, rty, self.name.split('::', 1)[1], self.canon(m, args, st))

    def apply(self, m, st, inst, args, rty, line):
        if rty is None: rty = m.P.I[inst]['body']['locals'][0]
        r = self.call_value(m, args, st, rty)
        if m.prune: st.tag += (self.name,)
        return r, st

    def never_corrupted(self, m, st, v, rty):
        """Corruption is for the checksum alone to report."""
        m.oblige(st, 'C02', 'never reports a corrupted sentence', Implies(simp(v.v == 1), simp(v.p[1][0].v != variant(m, m.T[rty]['args'][1], 'CorruptedSentence'))) if 1 in v.p else z3.BoolVal(True))

    def payload(self, m, v, rty, vname):
        """(is Ok(vname), record value) of a Result<ParsedSentence, ParseError>."""
        pst = m.T[rty]['args'][0]
        vi = variant(m, pst, vname)
        if 0 not in v.p: raise Unsupported('handler never succeeds')
        x = v.p[0][0]
        return And(simp(v.v == 0), simp(x.v == vi)), (x.p[vi][0] if vi in x.p else None)

    def fields(self, m, st, rec, table, dflt, guard):
        names = [f[0] for f in m.T[rec.ty]['variants'][0]['fields']]
        types = [f[1] for f in m.T[rec.ty]['variants'][0]['fields']]
        missing = set(names) ^ set(table)
        if missing: raise Unsupported('record fields differ from the specification: %s' % sorted(missing))
        for n, ty, x in zip(names, types, rec.f):
            ps, sv = split_prop(table[n], dflt)
            ps = ps if dflt in ps else [dflt] + ps
            for p in ps[:1]:
                if isinstance(sv, spec.Alt):
                    alt = spec.Alt(sv.ok, sv.known, sv.finding)
                    a, k = m.eqv(x, coerce(m, alt.ok, ty)), m.eqv(x, coerce(m, alt.known, ty))
                    m.oblige(st, '+'.join(ps), 'field %s (or the recorded finding %s)' % (n, alt.finding), Implies(guard, Or(a, k)))
                    o = m.cx.obls[-1]; o.finding = alt.finding; o.strict = Implies(guard, a)
                else:
                    m.oblige(st, '+'.join(ps), 'field %s' % n, Implies(guard, m.eqv(x, coerce(m, sv, ty))))


def cex_bits(b, mod):
    """The payload a solver model describes."""
    ev = lambda t: mod.eval(t, model_completion=True)
    n = min(ev(models.blen_(b)).as_long(), 480)
    return {'bits': ''.join('1' if is_true(ev(models.bbit_(b, bv(j, 64)))) else '0' for j in range(n))}


def cex_fields(s, mod):
    """The fields of the sentence a solver model describes."""
    ev = lambda t: mod.eval(t, model_completion=True)
    n = min(ev(nfields(s, bv(44, 32))).as_long(), 24)
    out = []
    for k in range(n):
        f = field(s, bv(44, 32), bv(k, 64))
        ln = ev(slen(f)).as_long()
        c = []
        for tn in ('u8', 'u16', 'u32', 'f64'):
            ok, val = parse(f, tn)
            if ln and is_true(ev(ok)):
                x = ev(val).as_long()
                c.append(repr(struct.unpack('<d', struct.pack('<Q', x))[0]) if tn == 'f64' else str(x))
        if 0 < ln <= 12: c.append(''.join(chr(ev(sbyte(f, bv(j, 64))).as_long() & 127) for j in range(ln)))
        out.append(c if ln else [''])
    return {'fields': out}


class AisHandler(Handler):
    def __init__(self, name, fn, prop, vname): self.name, self.fn, self.prop, self.vname = name, fn, prop, vname; self.props = (prop,)

    def cex(self, m, mod, o): return cex_bits(self.bits, mod)

    def ensures(self, m, pre, st, a, v, rty):
        self.never_corrupted(m, st, v, rty)
        B = SymB(m, dv(m, pre, a[0]), a[1], a[2])
        self.bits = B.b
        vn, table = self.fn(B)
        ok, rec = self.payload(m, v, rty, vn)
        m.oblige(st, self.prop, 'always decodes to %s' % vn, ok)
        if rec is None: return
        self.fields(m, st, rec, table, self.prop, z3.BoolVal(True))


class GnssHandler(Handler):
    def __init__(self, name, fn): self.name, self.fn = name, fn; self.props = ('C19',)

    def cex(self, m, mod, o): return cex_fields(self.se, mod)

    def ensures(self, m, pre, st, a, v, rty):
        self.never_corrupted(m, st, v, rty)
        B = SymB(m, sentence=dv(m, pre, a[0]), nav=a[1])
        self.se = B.se
        ty, vn, table = self.fn(B)
        fail = Or(*B.fails)
        okres, rec = self.payload(m, v, rty, vn)
        err = And(simp(v.v == 1), simp(v.p[1][0].v == variant(m, m.T[rty]['args'][1], 'InvalidSentence'))) if 1 in v.p else z3.BoolVal(False)
        m.oblige(st, 'C19+C20', 'a malformed field makes the sentence invalid', Implies(fail, err))
        m.oblige(st, 'C19', 'well-formed fields always give a %s record' % vn, Implies(Not(fail), okres))
        if rec is not None: self.fields(m, st, rec, table, 'C19', And(Not(fail), okres))


def merge_spec(m, a, b):
    """Record of `a` completed by `b`: (error, merged)."""
    t = m.T[a.ty]['variants'][0]['fields']
    ix = {f[0]: i for i, f in enumerate(t)}
    same = lambda n: m.eqv(a.f[ix[n]], b.f[ix[n]])
    ok = And(same('ais_type'), same('mmsi'), same('imo_number'), same('ais_version_indicator'))
    out = []
    for n, i in ix.items():
        x, y = a.f[i], b.f[i]
        if n in ('own_vessel', 'ais_type', 'mmsi', 'ais_version_indicator'): out.append(x)
        elif n == 'ship_type': out.append(m.merge_val(m.eqv(x, enumv(m, 'ShipType', 'NotAvailable')), y, x))
        elif n == 'cargo_type': out.append(m.merge_val(m.eqv(x, enumv(m, 'CargoType', 'Undefined')), y, x))
        else: out.append(m.merge_val(simp(x.v == 1), x, y))
    return Not(ok), Agg(a.ty, out)


class Merge(C):
    props = ('C17',)

    def value(self, m, st, a, rty):
        bad, v = merge_spec(m, dv(m, st, a[0]), dv(m, st, a[1]))
        return res(rty, Not(bad), v, any_str(m))

    def ensures(self, m, pre, st, a, v, rty):
        bad, x = merge_spec(m, dv(m, pre, a[0]), dv(m, pre, a[1]))
        m.oblige(st, 'C17', 'records of different vessels or classes are not merged', simp((v.v == 1) == bad))
        if 0 not in v.p: return
        for (n, ty), p, q in zip(m.T[x.ty]['variants'][0]['fields'], v.p[0][0].f, x.f):
            m.oblige(st, 'C17', 'merged %s: own value first, else the other part\'s' % n, Implies(Not(bad), m.eqv(p, q)))


def maps(m, v, path=(), name=''):
    """The maps inside a parser state, through nested structs: (path, field names, map)."""
    if isinstance(v, Opq) and v.kind == 'map': return [(path, name.lower(), v)]
    if not isinstance(v, Agg) or v.ty is None or m.kind(v.ty) not in ('struct', 'tuple'): return []
    fs = m.T[v.ty]['variants'][0]['fields'] if m.kind(v.ty) == 'struct' else [(str(i), None) for i in range(len(v.f))]
    return sum((maps(m, x, path + (i,), name + '.' + str(f[0])) for i, (f, x) in enumerate(zip(fs, v.f))), [])


def roles(m, v):
    """What a parser remembers, by role, whatever its fields are called and however they are grouped: pending fragments and
    satellite parts (string to string, one map for both or one for each) and static data (integer to record).  Anything else in the
    state is not part of it: it may change freely, and is arbitrary wherever results are proved."""
    ms = maps(m, v)
    st = [x for x in ms if m.kind(x[2].kt) in ('string', 'tuple', 'struct') and m.kind(x[2].vt) == 'string']
    it = [x for x in ms if m.kind(x[2].kt) == 'uint' and m.kind(x[2].vt) == 'struct']
    r = {}
    if len(it) == 1: r['static'] = it[0][0]
    elif it: raise Unsupported('several static data maps')
    if len(st) == 1: r['frag'] = r['gsv'] = st[0][0]
    elif len(st) == 2:
        for pat, role in (('gsv|sat|gnss|view', 'gsv'), ('vdm|ais|vdo', 'frag'), ('frag', 'frag'), ('part|page', 'gsv')):
            f = [n for n in (0, 1) if re.search(pat, st[n][1])]
            if len(f) != 1: continue
            r[role] = st[f[0]][0]; r['gsv' if role == 'frag' else 'frag'] = st[1 - f[0]][0]
            break
        else: raise Unsupported('which of two maps holds the fragments is not clear')
    elif st: raise Unsupported('several fragment maps')
    return r


def at(v, path):
    for i in path: v = v.f[i]
    return v


def put_at(v, path, x):
    if not path: return x
    return Agg(v.ty, [put_at(y, path[1:], x) if i == path[0] else y for i, y in enumerate(v.f)])


def map_of(m, v, role):
    r = roles(m, v)
    if role not in r: raise Unsupported('parser state map not found')
    return at(v, r[role])


def key_term(m, mp, k):
    if isinstance(k, S) != (m.kind(mp.kt) == 'string'): raise Unsupported('key of the parser state map')
    return sterm(k) if isinstance(k, S) else m.pack(k, mp.kt)


def with_map(m, v, role, new): return put_at(v, roles(m, v)[role], new)


def kept(m, v):
    """The remembered maps, each once."""
    return [at(v, p) for p in sorted(set(roles(m, v).values()))]


def unchanged(m, a, b): return And(*[app_eq(m, x, y) for x, y in zip(kept(m, a), kept(m, b))])


def other_fields(m, v, keep, st):
    """The state with everything but the remembered maps arbitrary."""
    if not isinstance(v, Agg) or all(p[:1] and len(p) == 1 for p in keep) and len(keep) == len(v.f): return v
    def go(x, k, path):
        if path in keep: return x
        if isinstance(x, Agg) and any(q[:len(path)] == path for q in keep):
            fs = [e for e in m.T[k]['elems']] if m.kind(k) == 'tuple' else [f[1] for f in m.T[k]['variants'][0]['fields']]
            return Agg(x.ty, [go(y, ft, path + (i,)) for i, (y, ft) in enumerate(zip(x.f, fs))])
        return m.fresh(k, 'state_rest', st)
    return go(v, v.ty, ())


class StateHandler(Handler):
    """Handlers that also update the parser state."""

    def sref(self, args):
        for i, a in enumerate(args):
            if isinstance(a, Ref): return i
        raise Mismatch('no parser reference')

    def whole(self, m, args, st, rty):
        """Result and new state of the handler when given the parser, or the part of it the handler takes."""
        i = self.sref(args); st0 = dv(m, st, args[i])
        p = self.part(m, st0)
        v, new = self.call_value(m, [Ref(a.root, a.path + tuple(('.', n) for n in p)) if k == i else a for k, a in enumerate(args)], st, rty)
        return v, put_at(st0, p, new)

    def part(self, m, st):
        for k in m.P.by_def.get('nmea_parser::' + self.name, ()):
            b = m.P.I[k]['body']
            for l in b['locals'][1:b['argc'] + 1]:
                if m.kind(l) != 'ref': continue
                p = self.find(m, st, m.T[l]['to'])
                if p is not None: return p
        return ()

    def find(self, m, v, ty, path=(), k=None):
        if isinstance(v, Opq) and v.kind == 'map': return path if ty is not None and m.kind(ty) == 'map' and ty == k else None
        if not isinstance(v, Agg) or v.ty is None: return None
        if v.ty == ty: return path if roles(m, v) else None
        fs = m.T[v.ty]['elems'] if m.kind(v.ty) == 'tuple' else [f[1] for f in m.T[v.ty]['variants'][0]['fields']]
        for i, (x, t) in enumerate(zip(v.f, fs)):
            p = self.find(m, x, ty, path + (i,), t)
            if p is not None: return p
        return None

    def call_value(self, m, args, st, rty):
        i = self.sref(args)
        fl = self.canon(m, args, st)
        nm = self.name.split('::', 1)[1]
        new = dv(m, st, args[i])
        for n, p in enumerate(sorted(set(roles(m, new).values()))):
            o = at(new, p)
            new = put_at(new, p, app_map(m, o, '%s.state%d' % (nm, n), fl))
        return app_value(m, rty, nm, fl), new

    def apply(self, m, st, inst, args, rty, line):
        if rty is None: rty = m.P.I[inst]['body']['locals'][0]
        v, new = self.call_value(m, args, st, rty)
        i = self.sref(args)
        new = other_fields(m, new, set(roles(m, new).values()), st)
        models.setref(m, st, args[i], new)
        if m.prune: st.tag += (self.name,)
        return v, st


class T24(StateHandler):
    props = ('C17',)

    def cex(self, m, mod, o): return cex_bits(self.bits, mod)

    def ensures(self, m, pre, st, a, v, rty):
        self.never_corrupted(m, st, v, rty)
        self.bits = bts = dv(m, pre, a[0])
        si = self.sref(a)
        own = [x for x in a if z3.is_expr(x) and z3.is_bool(x)][0]
        station = [x for x in a if isinstance(x, Enum)][0]
        p0, p1 = dv(m, pre, a[si]), dv(m, st, a[si])
        part = bval(bts, 38, 2)
        bad = Not(Or(simp(part == 0), simp(part == 1)))
        ety = m.T[rty]['args'][1]
        m.oblige(st, 'C17', 'a part number other than A or B is an error', Implies(bad, And(simp(v.v == 1), simp(v.p[1][0].v == variant(m, ety, 'InvalidSentence')))) if 1 in v.p else Not(bad))
        m.oblige(st, 'C17+C24', 'an undecodable part leaves the parser state unchanged', Implies(bad, unchanged(m, p0, p1)))
        old = map_of(m, p0, 'static'); new = map_of(m, p1, 'static')
        if 'frag' in roles(m, p0): m.oblige(st, 'C24+C17', 'pending fragments are untouched', unchanged(m, with_map(m, p0, 'static', new), p1))
        mm = resize(bval(bts, 8, 30), 32, False)
        h = simp(z3.Select(old.has, mm))
        vty = adt(m, 'VesselStaticData')
        names = [f[0] for f in m.T[vty]['variants'][0]['fields']]
        types = [f[1] for f in m.T[vty]['variants'][0]['fields']]
        prev = m.unpack(z3.Select(old.val, mm), vty)
        pst = m.T[rty]['args'][0]
        inc = variant(m, pst, 'Incomplete'); vsd = variant(m, pst, 'VesselStaticData')
        if 0 not in v.p: raise Unsupported('handler never succeeds')
        x = v.p[0][0]
        for pn in (0, 1):
            g = simp(part == pn)
            L = 'AB'[pn]
            B = SymB(m, bts, station, own)
            _, table = spec.t24(B, pn)
            if set(table) != set(names): raise Unsupported('record fields differ from the specification')
            rec = Agg(vty, [coerce(m, split_prop(table[n], '')[1], t) for n, t in zip(names, types)])
            first = And(g, Not(h))
            m.oblige(st, 'C17', 'part %s alone is incomplete' % L, Implies(first, And(simp(v.v == 0), simp(x.v == inc))))
            m.oblige(st, 'C17', 'part %s alone is remembered under its MMSI and nothing else changes' % L,
                     Implies(first, And(simp(new.has == z3.Store(old.has, mm, z3.BoolVal(True))), self.same_except(m, old, new, mm))))
            got = m.unpack(z3.Select(new.val, mm), vty)
            for n, p, q in zip(names, got.f, rec.f):
                m.oblige(st, 'C17', 'part %s: remembered field %s' % (L, n), Implies(first, m.eqv(p, q)))
            bad2, mg = merge_spec(m, rec, prev)
            sec = And(g, h)
            m.oblige(st, 'C17', 'the second part for an MMSI completes the record (part %s)' % L,
                     Implies(sec, simp(And(simp(v.v == 0), simp(x.v == vsd)) == Not(bad2))))
            m.oblige(st, 'C17', 'the remembered part is forgotten once completed (part %s second)' % L,
                     Implies(sec, And(simp(new.has == z3.Store(old.has, mm, z3.BoolVal(False))), self.same_except(m, old, new, mm))))
            m.oblige(st, 'C17', 'the second part never yields an incomplete result (part %s)' % L, Implies(And(sec, simp(v.v == 0)), simp(x.v == vsd)))
            if vsd in x.p:
                for n, p, q in zip(names, x.p[vsd][0].f, mg.f):
                    m.oblige(st, 'C17', 'part %s second: merged field %s' % (L, n), Implies(And(sec, Not(bad2)), m.eqv(p, q)))

    def same_except(self, m, old, new, k):
        j = z3.Const(m.name('other_mmsi'), old.has.sort().domain())
        return Implies(And(j != k, z3.Select(new.has, j)), z3.Select(old.val, j) == z3.Select(new.val, j))


class NewParser(C):
    props = ('C24',)

    def ensures(self, m, pre, st, a, v, rty):
        for x in kept(m, v):
            k = z3.Const(m.name('any_key'), x.has.sort().domain())
            m.oblige(st, 'C24', 'a new parser remembers nothing', Not(z3.Select(x.has, k)))

    def apply(self, m, st, inst, args, rty, line): raise Mismatch('inlined')


# ------------------------------------------------------------------ names, defaults, error texts
NAMES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.json')))


class Inlined(C):
    """A contract of its own; callers run the body."""
    props = ('C25',)

    def apply(self, m, st, inst, args, rty, line): raise Mismatch('inlined')


class Shows(Inlined):
    """Display writes the name of the value, whole and nothing else (the sink accepts what it is given)."""

    def __init__(self, ty): self.ty = ty; self.name = None

    def setup(self, m, st, inst):
        l = m.P.I[inst]['body']['locals']
        self.root = ('formatter', 0)
        st.mem[self.root] = Opq('fmtr', s=lit(''))
        return [m.fresh(l[1], 'value', st), Ref(self.root, ())]

    def ensures(self, m, pre, st, a, v, rty):
        x = dv(m, pre, a[0]); names = NAMES[self.ty]
        m.oblige(st, 'C25', 'displaying succeeds', simp(v.v == 0))
        got = st.mem[self.root].s
        for i, w in enumerate(m.T[x.ty]['variants']):
            if w['name'] not in names: raise Unsupported('%s::%s has no name in the specification' % (self.ty, w['name']))
            m.oblige(st, 'C25', '%s::%s shows as "%s"' % (self.ty, w['name'], names[w['name']]), Implies(simp(x.v == i), seq(got, lit(names[w['name']]))))


class Dflt(Inlined):
    def __init__(self, ty, w): self.ty, self.w, self.name = ty, w, None

    def ensures(self, m, pre, st, a, v, rty):
        m.oblige(st, 'C25', 'the default %s is %s' % (self.ty, self.w), simp(v.v == variant(m, rty, self.w)))


class ErrText(Inlined):
    def ensures(self, m, pre, st, a, v, rty):
        x = dv(m, pre, a[0])
        for i, w in enumerate(m.T[x.ty]['variants']):
            m.oblige(st, 'C25', 'the text of %s is its message' % w['name'], Implies(simp(x.v == i), seq(v, x.p[i][0])))


class ErrFrom(Inlined):
    def ensures(self, m, pre, st, a, v, rty):
        i = variant(m, rty, 'InvalidSentence')
        m.oblige(st, 'C25', 'a message makes an invalid sentence error', simp(v.v == i))
        if i in v.p: m.oblige(st, 'C25', 'the error carries the message', seq(v.p[i][0], dv(m, pre, a[0])))


DEFAULTS = {'Station': 'Other', 'AisClass': 'Unknown', 'NavigationStatus': 'NotDefined', 'ShipType': 'NotAvailable', 'CargoType': 'Undefined', 'NavAidType': 'NotSpecified'}


# ------------------------------------------------------------------ keys: injectivity
class Key(C):
    """The key function must be injective: no two different messages may share a key."""

    def __init__(self, name, prop, nocomma): self.name, self.props, self.nocomma = name, (prop,), nocomma

    def apply(self, m, st, inst, args, rty, line): raise Mismatch('inlined')

    def ensures(self, m, pre, st, a, v, rty):
        args = [dv(m, pre, x) for x in a]
        if isinstance(v, Agg):
            # a key made of several values
            xs = [sterm(x) if isinstance(x, S) else x for x in args]
            ys = [z3.Const(m.name('other_argument'), x.sort()) for x in xs]
            k = m.pack(v, rty)
            eq = k == z3.substitute(k, *zip(xs, ys))
            m.oblige(st, self.props[0], 'different arguments give different keys', Implies(simp(eq), And(*[x == y for x, y in zip(xs, ys)])))
            return
        r = injective(v, args, self.nocomma)
        ok, why = (r == 'unsat', 'cvc5') if r in ('sat', 'unsat') else separable(v, args, self.nocomma)
        m.oblige(st, self.props[0], 'different arguments give different keys (%s)' % why, z3.BoolVal(ok))


def injective(v, args, nocomma):
    """The code's own key text for two sets of arguments, given to cvc5's theory of strings: equal texts and some argument different.
    Numbers are their decimal digits (the digits determine the number); strings flagged in nocomma contain no comma."""
    left = [sterm(x) if isinstance(x, S) else strs.dispu_(resize(x, 64, False)) for x in args]

    def text(v, c):
        r = []
        for p in v.ps if isinstance(v, SCat) else [v]:
            if isinstance(p, SBytes):
                if p.const() is None or any(b < 32 or b > 126 or b in (34, 92) for b in p.const()): return None
                if p.const(): r.append('"%s"' % p.const().decode())
                continue
            k = [i for i, x in enumerate(left) if z3.eq(x, sterm(p))]
            if not k: return None
            r.append('%s%d' % (c, k[0]))
        return '(str.++ "" "" %s)' % ' '.join(r)
    a, b = text(v, 'a'), text(v, 'b')
    if a is None: return 'unknown'
    q = ['(set-logic QF_SLIA)']
    for i, x in enumerate(args):
        for c in 'ab':
            q.append('(declare-const %s%d String)' % (c, i))
            if not isinstance(x, S): q.append('(assert (str.in_re %s%d (re.+ (re.range "0" "9"))))' % (c, i))
            elif i in nocomma: q.append('(assert (not (str.contains %s%d ",")))' % (c, i))
    q += ['(assert (= %s %s))' % (a, b), '(assert (not (and true %s)))' % ' '.join('(= a%d b%d)' % (i, i) for i in range(len(args))), '(check-sat)']
    return cvc5('\n'.join(q))


def cvc5(text, secs=20):
    import subprocess
    try: r = subprocess.run(['cvc5', '--strings-exp', '--lang=smt2', '--tlimit=%d' % (secs * 1000), '-'], input=text, capture_output=True, text=True, timeout=secs + 5)
    except (OSError, subprocess.TimeoutExpired): return 'unknown'
    w = r.stdout.split()
    return w[0] if w and w[0] in ('sat', 'unsat') else 'unknown'


def separable(v, args, nocomma):
    """Left to right unique decodability of a concatenation: every argument occurs, and each variable
    part is delimited by a literal character that cannot occur inside it (decimal numbers contain only
    digits; strings flagged in nocomma contain no comma)."""
    ps = v.ps if isinstance(v, SCat) else [v]
    left = []
    for k, x in enumerate(args):
        left.append(sterm(x) if isinstance(x, S) else strs.dispu_(resize(x, 64, False)))
    seen = set()
    for n, p in enumerate(ps):
        if isinstance(p, SBytes):
            if p.const() is None: return False, 'unrecognised part'
            continue
        t = sterm(p)
        k = [i for i, x in enumerate(left) if z3.eq(x, t)]
        if not k: return False, 'a part of the key is not an argument'
        seen.add(k[0])
        if n + 1 == len(ps): continue
        nx = ps[n + 1]
        if not isinstance(nx, SBytes) or not nx.bs: return False, 'adjacent variable parts'
        d = chr(nx.const()[0])
        num = not isinstance(args[k[0]], S)
        if num and d.isdigit(): return False, 'digit after a number'
        if not num and not (k[0] in nocomma and d == ','): return False, 'delimiter %r may occur in argument %d' % (d, k[0])
    if seen != set(range(len(args))): return False, 'argument %s is not part of the key' % sorted(set(range(len(args))) - seen)
    return True, 'every argument delimited'


# ------------------------------------------------------------------ registry
TABLE = {}


def reg(c): TABLE['nmea_parser::' + c.name if not c.name.startswith(('nmea_parser', '<')) else c.name] = c


def build(P):
    TABLE.clear()
    reg(PickU64('util::pick_u64')); reg(PickI64('util::pick_i64')); reg(PickString('util::pick_string'))
    reg(ParsePayload('util::parse_payload')); reg(PickEta('util::pick_eta')); reg(PickNumber('util::pick_number_field'))
    reg(Hhmmss('util::parse_hhmmss')); reg(DateTimeC('util::parse_yymmdd_hhmmss'))
    reg(Coord('util::parse_latitude_ddmm_mmm', 2, 'S')); reg(Coord('util::parse_longitude_dddmm_mmm', 3, 'W'))
    reg(Key('util::make_fragment_key', 'C16', {0})); reg(Key('gnss::gsv::make_gsv_key', 'C18', {0}))
    for n, ty in (('ais::NavigationStatus::new', 'NavigationStatus'), ('ais::ShipType::new', 'ShipType'), ('ais::CargoType::new', 'CargoType'),
                  ('ais::PositionFixType::new', 'PositionFixType'), ('gnss::gga::GgaQualityIndicator::new', 'GgaQualityIndicator'),
                  ('ais::vdm_t21::NavAidType::new', 'NavAidType')): reg(CodeTable(n, ty))
    reg(Faa('gnss::FaaMode::new')); reg(Country('ais::VesselStaticData::country'))
    for k, (fn, prop, vn) in spec.AIS.items(): reg(AisHandler('ais::%s::handle' % k, fn, prop, vn))
    for k, fn in spec.GNSS.items(): reg(GnssHandler('gnss::%s::handle' % k, fn))
    reg(Merge('ais::vdm_t24::<impl nmea_parser::ais::VesselStaticData>::merge')); reg(T24('ais::vdm_t24::handle'))
    reg(NewParser('NmeaParser::new'))
    for k, i in enumerate(P.I):
        if not (i and i.get('local') and 'body' in i): continue
        x = re.match(r'<nmea_parser::([\w:]+) as (.*)>::(\w+)$', i['def'])
        if not x: continue
        ty, tr, fn = x.group(1).split('::')[-1], x.group(2), x.group(3)
        c = Shows(ty) if tr == 'std::fmt::Display' and ty in NAMES else Dflt(ty, DEFAULTS[ty]) if tr == 'std::default::Default' and ty in DEFAULTS else \
            ErrText(i['def']) if (ty, fn) == ('ParseError', 'to_string') else ErrFrom(i['def']) if (ty, tr) == ('ParseError', 'std::convert::From<std::string::String>') else None
        if c: c.name = i['def']; reg(c)
    for k, i in enumerate(P.I):
        if i and i.get('local') and 'body' in i and i['def'].endswith(('LatLon>::latitude', 'LatLon>::longitude')):
            reg(Accessor(i['def'], i['def'].rsplit('::', 1)[1]))
    try:
        import sentence
        for c in sentence.contracts(): reg(c)
    except ImportError as e:
        if 'sentence' not in str(e): raise
    return TABLE


class Registry:
    def __init__(self, P): self.t = build(P)

    def get(self, d): return self.t.get(d)
