"""Contracts assumed for functions outside /repo (std, bitvec, chrono, regex, log): the trusted base.
Every model that can panic adds a C01 obligation for the no-panic precondition of the real function."""
import re, z3
from vals import *
from engine import NORETURN, Poison, SAny, State
from strs import *
import strs, fp

B32, B64 = z3.BitVecSort(32), z3.BitVecSort(64)
_exact = {}
_pats = []
_cache = {}


def model(*names):
    def d(f):
        for n in names:
            if n.startswith('re:'): _pats.append((re.compile(n[3:] + '$'), f))
            else: _exact[n] = f
        return f
    return d


def norm(n):
    n = re.sub(r'\bnmea_parser::(chrono|log|regex|bitvec)::', r'\1::', n)
    n = re.sub(r'\b(core|alloc)::', 'std::', n)
    return n


def get(name):
    if name in _cache: return _cache[name]
    n = norm(name)
    f = _exact.get(n)
    if f is None:
        for p, g in _pats:
            if p.match(n): f = g; break
    _cache[name] = f
    return f


def dv(m, st, v):
    while isinstance(v, (SRef, Ref)):
        v = v.v if isinstance(v, SRef) else m.read_path(st, v.root, v.path)
    if isinstance(v, Poison): raise Unsupported('use of ' + v.why)
    return v


def some(rty, v): return Enum(rty, 1, {0: [], 1: [v]})


def none(rty): return Enum(rty, 0, {0: []})


def opt(rty, c, v):
    c = simp(c)
    if is_true(c): return some(rty, v)
    if is_false(c): return none(rty)
    return Enum(rty, If(c, bv(1, 16), bv(0, 16)), {0: [], 1: [v]})


def res(rty, c, v, e):
    c = simp(c)
    if is_true(c): return Enum(rty, 0, {0: [v]})
    if is_false(c): return Enum(rty, 1, {1: [e]})
    return Enum(rty, If(c, bv(0, 16), bv(1, 16)), {0: [v], 1: [e]})


def unit(m, rty): return Agg(rty, [])


def setref(m, st, r, v):
    while isinstance(r, SRef): r = r.v
    if not isinstance(r, Ref): raise Unsupported('mutation through %r' % (r,))
    # follow references to references
    x = m.read_path(st, r.root, r.path)
    while isinstance(x, Ref): r = x; x = m.read_path(st, r.root, r.path)
    m.write_path(st, r.root, r.path, v)


# ------------------------------------------------------------------ bit vectors
Bits = z3.DeclareSort('Bits')
blen_ = z3.Function('bits_len', Bits, B64)
bbit_ = z3.Function('bits_at', Bits, B64, z3.BoolSort())
bpush_ = z3.Function('bits_push', Bits, z3.BoolSort(), Bits)
bempty = z3.Const('bits_empty', Bits)


def blen(b):
    if z3.is_app(b):
        if b.decl().eq(bpush_): return simp(blen(b.arg(0)) + 1)
        if z3.eq(b, bempty): return bv(0, 64)
        if b.decl().kind() == z3.Z3_OP_ITE: return If(b.arg(0), blen(b.arg(1)), blen(b.arg(2)))
    l = blen_(b)
    Facts.add(('blen', l), z3.ULT(l, bv(1 << 40, 64)))
    return l


def bbit(b, i):
    """Bit i of b, false outside (the contract of get().unwrap_or(false))."""
    if z3.is_app(b):
        if b.decl().eq(bpush_): return If(simp(i == blen(b.arg(0))), b.arg(1), bbit(b.arg(0), i))
        if z3.eq(b, bempty): return z3.BoolVal(False)
        if b.decl().kind() == z3.Z3_OP_ITE: return If(b.arg(0), bbit(b.arg(1), i), bbit(b.arg(2), i))
    r = bbit_(b, simp(i))
    Facts.add(('bbit', r), Implies(r, z3.ULT(i, blen(b))))
    return r


val_ = z3.Function('bits_val', Bits, B64, B64, B64)


def bval(b, i, n):
    """Unsigned value of the n bits from i (most significant first), missing bits read as 0."""
    i = bv(i, 64) if isinstance(i, int) else i
    n = bv(n, 64) if isinstance(n, int) else n
    k = conc(n)
    if k is not None and k <= 64:
        if k == 0: return bv(0, 64)
        bs = [If(bbit(b, simp(i + j)), bv(1, 1), bv(0, 1)) for j in range(k)]
        c = z3.Concat(*bs) if k > 1 else bs[0]
        return resize(c, 64, False)
    return val_(b, i, n)


@model('re:bitvec::slice::api::<impl .*BitSlice.*>::get', 're:bitvec.*BitSlice.*::get')
def m_bget(m, st, a, info):
    b = dv(m, st, a[0]); i = a[1]
    if not z3.is_bv(i): raise Unsupported('bit slice get with a range')
    return opt(info['rty'], z3.ULT(i, blen(b)), SRef(bbit(b, i)))


@model('re:bitvec::.*Bit(Vec|Slice).*::len')
def m_blen(m, st, a, info): return blen(dv(m, st, a[0]))


@model('re:bitvec::.*Bit(Vec|Slice).*::is_empty')
def m_bempty(m, st, a, info): return simp(blen(dv(m, st, a[0])) == 0)


@model('re:bitvec::.*BitVec.*::(with_capacity|new)')
def m_bnew(m, st, a, info): return bempty


@model('re:mirshim::hook_new')
def m_hooknew(m, st, a, info): return bempty


@model('re:bitvec::.*BitVec.*::push', 're:mirshim::hook_push')
def m_bpush(m, st, a, info):
    b = dv(m, st, a[0])
    setref(m, st, a[0], bpush_(b, a[1]))
    return unit(m, info['rty'])


# ------------------------------------------------------------------ dereference and conversion
@model('std::ops::Deref::deref', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', 'std::string::String::as_str',
       'std::vec::Vec::<T, A>::as_slice', 're:.*BitVec.*::as_bitslice', 'std::ops::DerefMut::deref_mut')
def m_deref(m, st, a, info):
    v = dv(m, st, a[0])
    if isinstance(v, S): return v
    if isinstance(v, Opq) and v.kind == 'static': return m_lazylock(m, st, a, info)
    if isinstance(v, (Opq, Agg)) or (z3.is_expr(v) and v.sort() == Bits): return SRef(v)
    return NotImplemented


@model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::string::ToString::to_string')
def m_clone(m, st, a, info):
    v = dv(m, st, a[0])
    if isinstance(v, S): return v
    if info['name'].endswith('to_string'):
        t = info['targs'][0] if info['targs'] else None
        s = display(m, v, t)
        return s
    if z3.is_expr(v) or isinstance(v, Opq): return v
    if isinstance(v, FnVal): return v
    return NotImplemented


@model('std::convert::Into::into', 'std::convert::From::from', 'std::string::String::from', 'std::str::<impl str>::to_string',
       'std::str::<impl str>::to_owned', 'std::string::String::into_boxed_str', 'std::str::<impl str>::into_string')
def m_into(m, st, a, info):
    v = a[0]
    if isinstance(v, SRef) and isinstance(v.v, S): v = v.v
    r = info['rty']
    if isinstance(v, S) and (r is None or m.kind(r) in ('string', 'str') or (m.kind(r) == 'ref')): return v
    if z3.is_expr(v) and r is not None:
        k = m.kind(r)
        src = info['targs'][0] if info['targs'] else None
        if z3.is_bv(v) and k in ('int', 'uint', 'char'):
            # lossless integer conversions; the source type is the argument's type
            at = info['atys'][0] if info['atys'] else None
            if at is None: return NotImplemented
            return resize(v, m.T[r].get('bits', 32), m.is_signed(at))
        if z3.is_bv(v) and k == 'float' and info['atys'] and info['atys'][0] is not None:
            at = info['atys'][0]
            if m.kind(at) in ('int', 'uint'): return fp.i2f(v, m.is_signed(at))
            if m.kind(at) == 'float' and m.T[at]['bits'] == 64: return v
        if z3.is_bool(v) and k in ('int', 'uint'): return If(v, bv(1, m.T[r]['bits']), bv(0, m.T[r]['bits']))
    return NotImplemented


@model('std::hint::must_use', 'std::convert::identity')
def m_id(m, st, a, info): return a[0]


@model('std::default::Default::default')
def m_default(m, st, a, info):
    r = info['rty']
    if r is None: return NotImplemented
    return default(m, r)


def default(m, r):
    k = m.kind(r); t = m.T[r]
    if k == 'bool': return z3.BoolVal(False)
    if k in ('int', 'uint', 'float'): return bv(0, t['bits'])
    if k == 'string': return lit('')
    if k == 'ref' and m.kind(t['to']) == 'str': return lit('')
    if k == 'vec': return vempty(m, r)
    if t['s'].startswith('std::collections::HashMap<'): return mempty(m, r)
    return NotImplemented


# ------------------------------------------------------------------ comparison
def structural(m, ty, depth=0):
    """Equality of this type is structural on the verifier's representation."""
    t = m.T[ty]; k = m.kind(ty)
    if k in ('bool', 'int', 'uint', 'char', 'string', 'str'): return True
    if k == 'ref': return structural(m, t['to'], depth)
    if k == 'opaque': return any(x in t['s'] for x in ('DateTime', 'NaiveDate', 'NaiveTime'))
    if k == 'enum' and depth < 3 and not t.get('local'):
        return all(structural(m, f[1], depth + 1) for v in t['variants'] for f in v['fields'])
    if k == 'tuple': return all(structural(m, e, depth + 1) for e in t['elems'])
    return False


def eq_(m, st, a, info):
    x, y = dv(m, st, a[0]), dv(m, st, a[1])
    if isinstance(x, S) and isinstance(y, S): return seq(x, y)
    ts = [t for t in (info['atys'] or []) if t is not None]
    if not ts: return None
    t = ts[0]
    while m.kind(t) == 'ref': t = m.T[t]['to']
    if m.kind(t) == 'float': return m.fcmp('eq', x, y)
    if structural(m, t): return m.eqv(x, y)
    return None


@model('std::cmp::PartialEq::eq')
def m_eq(m, st, a, info):
    r = eq_(m, st, a, info)
    return NotImplemented if r is None else r


@model('std::cmp::PartialEq::ne')
def m_ne(m, st, a, info):
    r = eq_(m, st, a, info)
    return NotImplemented if r is None else Not(r)


dle_ = z3.Function('datetime_le', z3.DeclareSort('DateTime'), z3.DeclareSort('DateTime'), z3.BoolSort())


@model('std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::ge', 'std::cmp::PartialOrd::gt')
def m_ord(m, st, a, info):
    op = info['name'][-2:]
    t = [t for t in (info['atys'] or []) if t is not None]
    tn = m.T[t[0]]['s'] if t else ''
    if 'log::' in tn: return z3.Bool(m.name('log_enabled'))
    x, y = dv(m, st, a[0]), dv(m, st, a[1])
    if z3.is_expr(x) and x.sort().name() == 'DateTime':
        if op == 'le': return dle_(x, y)
        if op == 'ge': return dle_(y, x)
        if op == 'lt': return Not(dle_(y, x))
        return Not(dle_(x, y))
    if z3.is_bv(x) and z3.is_bv(y) and t:
        k = t[0]
        while m.kind(k) == 'ref': k = m.T[k]['to']
        return m.binop({'le': 'Le', 'lt': 'Lt', 'ge': 'Ge', 'gt': 'Gt'}[op], x, y, k)
    return NotImplemented


@model('std::cmp::Ord::min', 'std::cmp::Ord::max', 'std::cmp::min', 'std::cmp::max')
def m_minmax(m, st, a, info):
    x, y = a
    if not (z3.is_bv(x) and z3.is_bv(y)) or info['rty'] is None: return NotImplemented
    lt = m.binop('Le', x, y, info['rty'])
    return simp(If(lt, x, y) if info['name'].endswith('min') else If(lt, y, x))


# ------------------------------------------------------------------ strings
@model('std::str::<impl str>::len', 'std::string::String::len')
def m_slen(m, st, a, info): return slen(dv(m, st, a[0]))


@model('std::str::<impl str>::is_empty', 'std::string::String::is_empty')
def m_sempty(m, st, a, info): return simp(slen(dv(m, st, a[0])) == 0)


@model('std::string::String::new', 'std::string::String::with_capacity')
def m_snew(m, st, a, info): return lit('')


def ofchar(c):
    k = conc(c)
    if k is not None: return lit(chr(k)) if k < 0x80 else SBytes(chr(k).encode('utf8'))
    c = simp(c)
    t = fromch_(c)
    sp = span(t)
    if sp: Facts.add(('chars', t), Implies(sp[3], t == csub_(*sp[:3])), Implies(sp[3], z3.UGT(len_(t), 0)))
    Facts.add(('ofchar', t), Implies(z3.ULT(c, bv(128, 32)), And(len_(t) == 1, byte_(t, bv(0, 64)) == z3.Extract(7, 0, c))))
    return SVar(t)


def sofchar(c):
    """ofchar with a canonical term also for constants (used where code and specification must agree)."""
    return ofchar(c)


@model('std::string::String::push')
def m_spush(m, st, a, info):
    s = dv(m, st, a[0])
    setref(m, st, a[0], scat(s, ofchar(a[1])))
    return unit(m, info['rty'])


@model('std::string::String::push_str', 'std::ops::AddAssign::add_assign')
def m_pushstr(m, st, a, info):
    s = dv(m, st, a[0]); x = dv(m, st, a[1])
    if not isinstance(s, S): return NotImplemented
    setref(m, st, a[0], scat(s, x))
    return unit(m, info['rty'])


@model('std::ops::Add::add')
def m_sadd(m, st, a, info):
    if isinstance(a[0], S): return scat(a[0], dv(m, st, a[1]))
    return NotImplemented


@model('std::slice::<impl [T]>::concat', 'std::slice::<impl [T]>::join')
def m_concat(m, st, a, info):
    v = dv(m, st, a[0])
    xs = v.f if isinstance(v, Agg) else v.items if isinstance(v, Opq) and v.kind == 'lst' else None
    if xs is None: return NotImplemented
    xs = [dv(m, st, x) for x in xs]
    if not all(isinstance(x, S) for x in xs): return NotImplemented
    sep = dv(m, st, a[1]) if len(a) > 1 else None
    if sep is not None and not isinstance(sep, S): return NotImplemented
    return scat(*[y for n, x in enumerate(xs) for y in ([sep] if n and sep is not None else []) + [x]])


@model('std::string::String::clear')
def m_sclear(m, st, a, info):
    setref(m, st, a[0], lit('')); return unit(m, info['rty'])


@model('std::string::String::truncate')
def m_struncate(m, st, a, info):
    s = dv(m, st, a[0]); n = a[1]
    m.oblige(st, 'C01', 'no panic: truncate on a character boundary', simp(Or(z3.UGT(n, slen(s)), boundary(s, n))), m.where(info['line']))
    setref(m, st, a[0], site(simp(z3.UGE(n, slen(s))), s, ssub(s, bv(0, 64), n))); return unit(m, info['rty'])


def cutout(m, st, a, info):
    s = dv(m, st, a[0]); lo, hi, wf = rng(m, a[1], slen(s)); lo, hi = simp(lo), simp(hi)
    ok, x = substr(m, s, a[1])
    m.oblige(st, 'C01', 'no panic: string range in range and on a character boundary', ok, m.where(info['line']))
    return ssub(s, bv(0, 64), lo), x, ssub(s, hi, slen(s))


@model('std::string::String::replace_range')
def m_replrange(m, st, a, info):
    x, _, z = cutout(m, st, a, info)
    setref(m, st, a[0], scat(x, dv(m, st, a[2]), z)); return unit(m, info['rty'])


@model('std::string::String::drain')
def m_sdrain(m, st, a, info):
    # taken out at once: the borrow of the string ends with the iterator
    x, y, z = cutout(m, st, a, info)
    setref(m, st, a[0], scat(x, z)); return it(Opq('chars', s=y), bv(0, 64), nchars(y))


@model('std::str::<impl str>::splitn')
def m_splitn(m, st, a, info):
    if conc(a[1]) != 2: raise Unsupported('splitn')
    s = dv(m, st, a[0]); c = pat(m, st, a[2])
    h = has(s, c); p = fpos(s, c)
    parts = (site(h, ssub(s, bv(0, 64), p), s), ssub(s, simp(p + 1), slen(s)))
    return it(Opq('own', v=Opq('lst', items=parts)), bv(0, 64), simp(If(h, bv(2, 64), bv(1, 64))))


@model('std::string::String::insert_str')
def m_insstr(m, st, a, info):
    if conc(a[1]) != 0: raise Unsupported('insert_str')
    s = dv(m, st, a[0])
    setref(m, st, a[0], scat(dv(m, st, a[2]), s)); return unit(m, info['rty'])


def pat(m, st, v):
    """A search pattern as one ASCII char."""
    v = dv(m, st, v)
    if z3.is_bv(v): return v
    if isinstance(v, SBytes) and v.const() is not None and len(v.const()) == 1: return bv(v.const()[0], 32)
    raise Unsupported('search pattern %r' % (v,))


@model('std::str::<impl str>::find', 'std::str::<impl str>::rfind')
def m_find(m, st, a, info):
    s = dv(m, st, a[0]); c = pat(m, st, a[1])
    F = rpos if info['name'].endswith('rfind') else fpos
    return opt(info['rty'], has(s, c), F(s, c))


@model('std::str::<impl str>::contains')
def m_contains(m, st, a, info): return has(dv(m, st, a[0]), pat(m, st, a[1]))


def prefix(m, st, s, p):
    p = dv(m, st, p)
    if z3.is_bv(p):
        k = conc(p)
        if k is None or k >= 128: raise Unsupported('prefix pattern')
        p = SBytes([k])
    if not isinstance(p, SBytes): raise Unsupported('prefix pattern')
    n = len(p.bs)
    return n, And(z3.UGE(slen(s), bv(n, 64)), *[simp(sbyte(s, k) == x) for k, x in enumerate(p.bs)])


@model('std::str::<impl str>::starts_with')
def m_starts(m, st, a, info): return simp(prefix(m, st, dv(m, st, a[0]), a[1])[1])


@model('std::str::<impl str>::strip_prefix')
def m_strip(m, st, a, info):
    s = dv(m, st, a[0]); n, c = prefix(m, st, s, a[1])
    return opt(info['rty'], c, ssub(s, bv(n, 64), slen(s)))


@model('std::str::<impl str>::ends_with')
def m_ends(m, st, a, info):
    s = dv(m, st, a[0]); p = dv(m, st, a[1])
    if z3.is_bv(p) and conc(p) is not None and conc(p) < 128: p = SBytes([conc(p)])
    if not isinstance(p, SBytes): raise Unsupported('suffix pattern')
    n = len(p.bs); l = slen(s)
    return simp(And(z3.UGE(l, bv(n, 64)), *[simp(sbyte(s, simp(l - n + k)) == x) for k, x in enumerate(p.bs)]))


def rng(m, v, ln):
    """(lo, hi, well-formed) of a range value."""
    if isinstance(v, FnVal): return bv(0, 64), ln, z3.BoolVal(True)
    t = m.T[v.ty]['name'].split('::')[-1] if v.ty is not None else '?'
    if t == 'RangeFull': return bv(0, 64), ln, z3.BoolVal(True)
    if t == 'Range': return v.f[0], v.f[1], z3.BoolVal(True)
    if t == 'RangeFrom': return v.f[0], ln, z3.BoolVal(True)
    if t == 'RangeTo': return bv(0, 64), v.f[0], z3.BoolVal(True)
    if t == 'RangeToInclusive': return bv(0, 64), simp(v.f[0] + 1), v.f[0] != bv(-1, 64)
    if t == 'RangeInclusive': return v.f[0], simp(v.f[1] + 1), And(v.f[1] != bv(-1, 64), Not(v.f[2]))
    raise Unsupported('range type ' + t)


def substr(m, s, r):
    lo, hi, wf = rng(m, r, slen(s))
    c = And(wf, z3.ULE(lo, hi), z3.ULE(hi, slen(s)), boundary(s, lo), boundary(s, hi))
    return simp(c), ssub(s, lo, hi)


@model('std::str::<impl str>::get')
def m_sget(m, st, a, info):
    c, x = substr(m, dv(m, st, a[0]), a[1])
    return opt(info['rty'], c, x)


@model('std::ops::Index::index')
def m_sindex(m, st, a, info):
    v = dv(m, st, a[0])
    if isinstance(v, S):
        c, x = substr(m, v, a[1])
        m.oblige(st, 'C01', 'no panic: string slice in range and on a character boundary', c, m.where(info['line']))
        return x
    if isinstance(v, (Opq, Agg)) and z3.is_bv(a[1]):
        m.oblige(st, 'C01', 'no panic: index in range', simp(z3.ULT(a[1], m.vlen(v))), m.where(info['line']))
        return m.mkref(m.vget(v, a[1]), None)
    if z3.is_expr(v) and v.sort() == Bits and z3.is_bv(a[1]):
        m.oblige(st, 'C01', 'no panic: index in range', simp(z3.ULT(a[1], blen(v))), m.where(info['line']))
        return SRef(bbit(v, a[1]))
    if isinstance(v, Opq) and v.kind == 'map': raise Unsupported('map indexing')
    return NotImplemented


@model('std::str::<impl str>::split_at')
def m_splitat(m, st, a, info):
    s = dv(m, st, a[0])
    m.oblige(st, 'C01', 'no panic: split_at on a character boundary', simp(And(z3.ULE(a[1], slen(s)), boundary(s, a[1]))), m.where(info['line']))
    return Agg(info['rty'], [ssub(s, bv(0, 64), a[1]), ssub(s, a[1], slen(s))])


@model('std::str::<impl str>::split_once', 'std::str::<impl str>::rsplit_once')
def m_splitonce(m, st, a, info):
    s = dv(m, st, a[0]); c = pat(m, st, a[1])
    p = (rpos if 'rsplit' in info['name'] else fpos)(s, c)
    tt = m.T[info['rty']]['args'][0]
    return opt(info['rty'], has(s, c), Agg(tt, [ssub(s, bv(0, 64), p), ssub(s, simp(p + 1), slen(s))]))


@model('std::str::<impl str>::trim_end', 'std::str::<impl str>::trim_right')
def m_trim(m, st, a, info):
    s = dv(m, st, a[0])
    return trim_end(s)


def ssubterm(s, n): return z3.If(slen(s) == n, sterm(s), sterm(ssub(s, bv(0, 64), n)))


def trim_end(s):
    if isinstance(s, SIte): return site(s.c, trim_end(s.a), trim_end(s.b))
    if isinstance(s, SBytes) and s.const() is not None: return lit(s.const().decode().rstrip())
    t = trim_(sterm(s))
    Facts.add(('trim', t), z3.ULE(len_(t), slen(s)), ssubterm(s, len_(t)) == t, boundary(s, len_(t)))
    return SVar(t)


trimboth_ = z3.Function('str_trim', Str, Str)
trimst_ = z3.Function('str_trim_start', Str, Str)


@model('std::str::<impl str>::trim', 'std::str::<impl str>::trim_start')
def m_trim2(m, st, a, info):
    s = dv(m, st, a[0])
    t = (trimst_ if info['name'].endswith('start') else trimboth_)(sterm(s))
    Facts.add(('trim2', t), z3.ULE(len_(t), slen(s)))
    return SVar(t)


@model('std::str::<impl str>::is_char_boundary')
def m_bound(m, st, a, info): return simp(boundary(dv(m, st, a[0]), a[1]))


@model('std::str::<impl str>::is_ascii')
def m_isascii(m, st, a, info): return ascii_(sterm(dv(m, st, a[0])))


# numbers
_pf = {}


def pfun(tn):
    if tn not in _pf:
        b = {'f64': 64, 'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64}[tn]
        _pf[tn] = (z3.Function('parse_ok_' + tn, Str, z3.BoolSort()), z3.Function('parse_' + tn, Str, z3.BitVecSort(b)), b)
    return _pf[tn]


def parse(s, tn):
    """(ok, value) of s.parse::<tn>()."""
    ok, val, b = pfun(tn)
    if isinstance(s, SIte):
        a, c = parse(s.a, tn), parse(s.b, tn)
        return If(s.c, a[0], c[0]), If(s.c, a[1], c[1])
    if isinstance(s, SBytes) and s.const() is not None:
        x = s.const()
        if tn != 'f64':
            sg = tn[0] == 'i'
            n = None
            if re.fullmatch(rb'[+-]?[0-9]+' if sg else rb'\+?[0-9]+', x):
                n = int(x)
                lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if sg else (0, (1 << b) - 1)
                if not lo <= n <= hi: n = None
            return z3.BoolVal(n is not None), bv(n or 0, b)
        if re.fullmatch(rb'[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)', x): return z3.BoolVal(True), fp.fconst(float(x))
        if x == b'': return z3.BoolVal(False), bv(0, b)
    t = sterm(s)
    o = ok(t)
    Facts.add(('parse', tn, t), Implies(o, z3.UGT(slen(s), bv(0, 64))))
    return o, val(t)


@model('std::str::<impl str>::parse')
def m_parse(m, st, a, info):
    T = info['targs'][-1]
    tn = m.T[T]['s']
    if tn not in ('f64', 'u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'usize'): raise Unsupported('parse::<%s>' % tn)
    s = dv(m, st, a[0])
    ok, v = parse(s, tn)
    et = m.T[info['rty']]['args'][1]
    return res(info['rty'], ok, v, m.fresh(et, 'parse_error'))


@model('std::str::FromStr::from_str')
def m_fromstr(m, st, a, info):
    ok = m.T[info['rty']]['args'][0]
    tn = m.T[ok]['s']
    if m.kind(ok) == 'string': return NotImplemented
    s = dv(m, st, a[0])
    if tn not in ('f64', 'u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'usize'): return NotImplemented
    o, v = parse(s, tn)
    return res(info['rty'], o, v, m.fresh(m.T[info['rty']]['args'][1], 'parse_error'))


# ------------------------------------------------------------------ iterators
def it(src, i, n): return Opq('it', src=src, i=i, n=n)


def elem(m, st, src, i, line=0):
    k = src.kind
    if k == 'chars': return schar(src.s, i)
    if k == 'charidx': raise Unsupported('char_indices element')
    if k == 'bytes': return sbyte(src.s, i)
    if k == 'split': return field(src.s, src.c, i)
    if k == 'slice':
        v = m.vget(src.v, i)
        return v if False else SRef(v)
    if k == 'own': return m.vget(src.v, i)
    if k == 'enum': return Agg(src.ty, [simp(i - src.base), elem(m, st, src.src, i, line)])
    if k == 'rev': return elem(m, st, src.src, simp(src.last - i), line)
    if k == 'zip': return Agg(src.ty, [elem(m, st, src.a, simp(i - src.i0 + src.ia), line), elem(m, st, src.b, simp(i - src.i0 + src.ib), line)])
    if k == 'copied': return dv(m, st, elem(m, st, src.src, i, line))
    if k == 'step': return elem(m, st, src.src, simp(src.i0 + (i - src.i0) * src.k), line)
    if k == 'range': return resize(simp(src.lo + i), src.bits, False)
    raise Unsupported('iterator ' + k)


def asit(m, st, v):
    v = dv(m, st, v)
    if isinstance(v, Opq) and v.kind == 'it': return v
    if isinstance(v, Agg) and v.ty is not None and m.T[v.ty].get('name', '').endswith('::Range') and z3.is_bv(v.f[0]):
        lo, hi = v.f[0], v.f[1]
        sg = m.is_signed(m.T[v.ty]['args'][0])
        n = If(lo < hi if sg else z3.ULT(lo, hi), resize(hi - lo, 64, False), bv(0, 64))
        return it(Opq('range', lo=resize(lo, 64, sg), bits=lo.size()), bv(0, 64), simp(n))
    if isinstance(v, Agg) and v.ty is not None and m.T[v.ty].get('name', '').endswith('::RangeInclusive') and z3.is_bv(v.f[0]) and v.f[0].size() <= 32:
        lo, hi, ex = v.f
        sg = m.is_signed(m.T[v.ty]['args'][0])
        n = If(And(Not(ex), lo <= hi if sg else z3.ULE(lo, hi)), resize(hi, 64, sg) - resize(lo, 64, sg) + 1, bv(0, 64))
        return it(Opq('range', lo=resize(lo, 64, sg), bits=lo.size()), bv(0, 64), simp(n))
    if isinstance(v, Opq) and v.kind in ('vsplit', 'vec', 'lst'): return it(Opq('own', v=v), bv(0, 64), m.vlen(v))
    return None


@model('std::str::<impl str>::chars')
def m_chars(m, st, a, info):
    s = dv(m, st, a[0])
    return it(Opq('chars', s=s), bv(0, 64), nchars(s))


@model('std::str::<impl str>::bytes')
def m_bytes(m, st, a, info):
    s = dv(m, st, a[0])
    return it(Opq('bytes', s=s), bv(0, 64), slen(s))


@model('std::str::<impl str>::as_bytes', 'std::string::String::as_bytes', 'std::string::String::into_bytes')
def m_asbytes(m, st, a, info): return SRef(Opq('sbytes', s=dv(m, st, a[0])))


@model('std::str::<impl str>::split')
def m_split(m, st, a, info):
    s = dv(m, st, a[0]); c = pat(m, st, a[1])
    return it(Opq('split', s=s, c=c), bv(0, 64), nfields(s, c))


@model('std::slice::<impl [T]>::iter', 'std::vec::Vec::<T, A>::iter')
def m_iter(m, st, a, info):
    v = dv(m, st, a[0])
    if isinstance(v, Opq) and v.kind == 'sbytes': return it(Opq('slicebytes', s=v.s), bv(0, 64), slen(v.s))
    return it(Opq('slice', v=v), bv(0, 64), m.vlen(v))


@model('std::iter::IntoIterator::into_iter')
def m_intoiter(m, st, a, info):
    v = a[0]
    if isinstance(v, Opq) and v.kind == 'it': return v
    if isinstance(v, Agg) and v.ty is not None and 'Range' in m.T[v.ty].get('name', ''): return v
    if isinstance(v, Opq) and v.kind in ('vsplit', 'vec', 'lst'): return it(Opq('own', v=v), bv(0, 64), m.vlen(v))
    if isinstance(v, Agg) and v.ty is not None and m.T[v.ty]['k'] == 'array': return it(Opq('own', v=v), bv(0, 64), m.vlen(v))
    if isinstance(v, SRef):
        w = dv(m, st, v)
        if isinstance(w, (Opq, Agg)) and (isinstance(w, Agg) or w.kind in ('vsplit', 'vec', 'lst')):
            return it(Opq('slice', v=w), bv(0, 64), m.vlen(w))
    if isinstance(v, Ref): return v
    return NotImplemented


@model('std::iter::Iterator::enumerate')
def m_enum(m, st, a, info):
    x = asit(m, st, a[0])
    if x is None: return NotImplemented
    # element type: the tuple type is recovered at next()
    return it(Opq('enum', src=x.src, base=x.i, ty=None), x.i, x.n)


@model('std::iter::Iterator::copied', 'std::iter::Iterator::cloned')
def m_copied(m, st, a, info):
    x = asit(m, st, a[0])
    if x is None: return NotImplemented
    return it(Opq('copied', src=x.src), x.i, x.n)


@model('std::iter::Iterator::rev')
def m_rev(m, st, a, info):
    x = asit(m, st, a[0])
    if x is None: return NotImplemented
    return it(Opq('rev', src=x.src, last=simp(x.i + x.n - 1)), x.i, x.n)


@model('std::iter::Iterator::step_by')
def m_stepby(m, st, a, info):
    x = asit(m, st, a[0]); k = conc(a[1])
    if x is None or not k: return NotImplemented
    n = If(z3.ULT(x.i, x.n), z3.UDiv(x.n - x.i + (k - 1), bv(k, 64)), bv(0, 64))
    return it(Opq('step', src=x.src, i0=x.i, k=bv(k, 64)), x.i, simp(x.i + n))


@model('std::iter::Iterator::zip')
def m_zip(m, st, a, info):
    x, y = asit(m, st, a[0]), asit(m, st, a[1])
    if x is None or y is None: return NotImplemented
    return it(Opq('zip', a=x.src, b=y.src, i0=bv(0, 64), ia=x.i, ib=y.i, ty=None), bv(0, 64), umin(simp(If(z3.ULE(x.i, x.n), x.n - x.i, bv(0, 64))), simp(If(z3.ULE(y.i, y.n), y.n - y.i, bv(0, 64)))))


def umin(a, b): return simp(If(z3.ULE(a, b), a, b))


@model('std::iter::Iterator::skip')
def m_skip(m, st, a, info):
    x = asit(m, st, a[0])
    if x is None: return NotImplemented
    return x.upd(i=umin(simp(x.i + a[1]), x.n))


@model('std::iter::Iterator::take')
def m_take(m, st, a, info):
    x = asit(m, st, a[0])
    if x is None: return NotImplemented
    k = conc(a[1])
    r = x.upd(n=umin(simp(x.i + a[1]), x.n))
    # a small constant bound on what is left lets a loop over it be unrolled
    return r.upd(cap=bv(k, 64)) if k is not None and k <= 16 and conc(simp(r.n - r.i)) is None else r


def progress(m, r, k):
    if isinstance(r, Ref):
        for L in getattr(m, 'loopstack', []): L['prog'][(r.root, r.path)] = k


def fewleft(m, st, c, lo, hi):
    """lo < hi with hi - lo a small constant although lo is not one: true, and the loop over it is unrolled."""
    k = conc(simp(hi - lo))
    if conc(c) is not None or k is None or not 0 <= k <= 16: return c, None
    return (z3.BoolVal(True), k) if k > 0 and m.valid(st.pc, c) else (c, None)


@model('std::iter::Iterator::next')
def m_next(m, st, a, info):
    v = dv(m, st, a[0])
    rty = info['rty']
    if isinstance(v, Opq) and v.kind == 'it':
        c = simp(z3.ULT(v.i, v.n))
        if is_false(c): return none(rty)
        cap = conc(v.d['cap']) if 'cap' in v.d else None
        if cap == 0: return none(rty)
        e = elem(m, st, v.src, v.i)
        if isinstance(e, Agg) and e.ty is None: e = Agg(m.T[rty]['args'][0], e.f)
        v = v.upd(i=simp(If(c, v.i + 1, v.i)))
        if cap is not None:
            v = v.upd(cap=bv(cap - 1, 64)); progress(m, a[0], cap)
        setref(m, st, a[0], v)
        return opt(rty, c, e)
    if isinstance(v, Agg) and v.ty is not None:
        t = m.T[v.ty]; n = t.get('name', '')
        if n.endswith('::Range'):
            sg = m.is_signed(t['args'][0]); s, e = v.f
            if not z3.is_bv(s): return NotImplemented
            c = simp(s < e if sg else z3.ULT(s, e))
            if is_true(c) and conc(s) is not None: progress(m, a[0], conc(s))
            c, k = fewleft(m, st, c, s, e)
            if k is not None: progress(m, a[0], k)
            setref(m, st, a[0], Agg(v.ty, [simp(If(c, s + 1, s)), e]))
            return opt(rty, c, s)
        if n.endswith('::RangeFrom'):
            s = v.f[0]
            ov = m.overflow('Add', s, bv(1, s.size()), m.is_signed(t['args'][0]))
            m.oblige(st, 'C01', 'no panic: counter overflow', Not(ov), m.where(info['line']))
            setref(m, st, a[0], Agg(v.ty, [simp(s + 1)]))
            return some(rty, s)
        if n.endswith('::RangeInclusive'):
            sg = m.is_signed(t['args'][0]); s, e, x = v.f
            if not z3.is_bv(s): return NotImplemented
            le = (s <= e) if sg else z3.ULE(s, e)
            lt = simp(s < e if sg else z3.ULT(s, e))
            c = simp(And(Not(x), simp(le)))
            if is_false(simp(x)):
                l2, k = fewleft(m, st, lt, s, e)
                if k is not None: lt = l2; c = l2; progress(m, a[0], k)
                elif conc(simp(e - s)) == 0: c = z3.BoolVal(True)
            setref(m, st, a[0], Agg(v.ty, [simp(If(And(c, lt), s + 1, s)), e, simp(If(And(c, Not(lt)), z3.BoolVal(True), x))]))
            return opt(rty, c, s)
    return NotImplemented


@model('std::iter::Iterator::nth')
def m_nth(m, st, a, info):
    v = dv(m, st, a[0])
    if not (isinstance(v, Opq) and v.kind == 'it'): return NotImplemented
    p = simp(v.i + a[1])
    c = simp(And(z3.ULT(a[1], bv(1 << 40, 64)), z3.ULT(p, v.n)))
    e = elem(m, st, v.src, p)
    if isinstance(e, Agg) and e.ty is None: e = Agg(m.T[info['rty']]['args'][0], e.f)
    setref(m, st, a[0], v.upd(i=simp(If(c, p + 1, v.n))))
    return opt(info['rty'], c, e)


@model('std::iter::Iterator::count')
def m_count(m, st, a, info):
    v = asit(m, st, a[0])
    if v is None: return NotImplemented
    return simp(v.n - v.i)


def csub(s, i, j):
    t = csub_(sterm(s), i, j)
    Facts.add(('csub', t), Implies(z3.ULE(i, j), (len_(t) == 0) == (i == j)))
    return SVar(t)


@model('std::iter::Iterator::collect')
def m_collect(m, st, a, info):
    v = asit(m, st, a[0])
    r = info['rty']
    if v is None or r is None: return NotImplemented
    k = m.kind(r)
    if k == 'string' and v.src.kind == 'chars': return csub(v.src.s, v.i, v.n)
    if k == 'vec':
        if v.src.kind == 'split' and simp(v.n).eq(simp(nfields(v.src.s, v.src.c))): return Opq('vsplit', s=v.src.s, c=v.src.c, lo=v.i)
        ci, cn = conc(v.i), conc(v.n)
        if ci is not None and cn is not None and cn - ci <= 64:
            return Opq('lst', items=tuple(elem(m, st, v.src, bv(j, 64)) for j in range(ci, cn)))
    return NotImplemented


# ------------------------------------------------------------------ slices and vectors
@model('std::slice::<impl [T]>::get', 'std::vec::Vec::<T, A>::get')
def m_get(m, st, a, info):
    v = dv(m, st, a[0])
    if isinstance(v, Opq) and v.kind == 'sbytes':
        if not z3.is_bv(a[1]): raise Unsupported('byte range')
        return opt(info['rty'], z3.ULT(a[1], slen(v.s)), SRef(sbyte(v.s, a[1])))
    if not z3.is_bv(a[1]): raise Unsupported('slice get with a range')
    c = simp(z3.ULT(a[1], m.vlen(v)))
    if is_false(c): return none(info['rty'])
    return opt(info['rty'], c, SRef(m.vget(v, a[1])))


@model('std::slice::<impl [T]>::len', 'std::vec::Vec::<T, A>::len')
def m_vlen(m, st, a, info):
    v = dv(m, st, a[0])
    if isinstance(v, Opq) and v.kind == 'sbytes': return slen(v.s)
    return m.vlen(v)


@model('std::slice::<impl [T]>::is_empty', 'std::vec::Vec::<T, A>::is_empty')
def m_vempty_(m, st, a, info): return simp(m.vlen(dv(m, st, a[0])) == 0)


@model('std::slice::<impl [T]>::first')
def m_first(m, st, a, info):
    v = dv(m, st, a[0])
    return opt(info['rty'], z3.UGT(m.vlen(v), bv(0, 64)), SRef(m.vget(v, bv(0, 64))))


def vempty(m, r):
    return Opq('vec', t=z3.Const('vec_empty_%s' % m.T[m.T[r]['args'][0]]['s'], m.sort(r)), elem=m.T[r]['args'][0])


def vpush(m, v, x):
    so = v.t.sort()
    f = z3.Function('vec_push_%s' % so.name(), so, m.sort(v.elem), so)
    return Opq('vec', t=f(v.t, m.pack(x, v.elem)), elem=v.elem)


@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
def m_vnew(m, st, a, info): return vempty(m, info['rty'])


@model('std::vec::Vec::<T, A>::push')
def m_vpush(m, st, a, info):
    v = dv(m, st, a[0])
    setref(m, st, a[0], vpush(m, v, a[1]))
    return unit(m, info['rty'])


# ------------------------------------------------------------------ hash maps
@model('re:std::collections::(HashMap|BTreeMap|hash::map::HashMap)::<.*>::new', 're:std::collections::(HashMap|hash::map::HashMap)::<.*>::with_capacity')
def m_mnew(m, st, a, info): return mempty(m, info['rty'])


def mempty(m, r):
    t = m.T[r]
    ks, vs = m.sort(t['args'][0]), m.sort(t['args'][1])
    return Opq('map', has=z3.K(ks, z3.BoolVal(False)), val=z3.Const('map_any_%s' % vs.name(), z3.ArraySort(ks, vs)), cnt=bv(0, 64), kt=t['args'][0], vt=t['args'][1])


def mkey(m, st, v, k):
    x = dv(m, st, k)
    return sterm(x) if isinstance(x, S) else m.pack(x, v.kt)


HM = r're:std::collections::(HashMap|BTreeMap|hash::map::HashMap)::<.*>::'


@model(HM + 'insert')
def m_minsert(m, st, a, info):
    v = dv(m, st, a[0]); k = mkey(m, st, v, a[1]); x = m.pack(a[2], v.vt)
    h = simp(z3.Select(v.has, k))
    old = m.unpack(z3.Select(v.val, k), v.vt)
    setref(m, st, a[0], v.upd(has=z3.Store(v.has, k, z3.BoolVal(True)), val=z3.Store(v.val, k, x), cnt=simp(If(h, v.cnt, v.cnt + 1))))
    return opt(info['rty'], h, old)


@model(HM + 'remove')
def m_mremove(m, st, a, info):
    v = dv(m, st, a[0]); k = mkey(m, st, v, a[1])
    h = simp(z3.Select(v.has, k))
    old = m.unpack(z3.Select(v.val, k), v.vt)
    setref(m, st, a[0], v.upd(has=z3.Store(v.has, k, z3.BoolVal(False)), cnt=simp(If(h, v.cnt - 1, v.cnt))))
    return opt(info['rty'], h, old)


@model(HM + 'contains_key')
def m_mcontains(m, st, a, info):
    v = dv(m, st, a[0])
    return simp(z3.Select(v.has, mkey(m, st, v, a[1])))


@model(HM + 'get')
def m_mget(m, st, a, info):
    v = dv(m, st, a[0]); k = mkey(m, st, v, a[1])
    x = m.unpack(z3.Select(v.val, k), v.vt)
    return opt(info['rty'], simp(z3.Select(v.has, k)), SRef(x))


@model(HM + 'entry')
def m_mentry(m, st, a, info):
    v = dv(m, st, a[0]); k = mkey(m, st, v, a[1]); r = a[0]
    names = [x['name'] for x in m.T[info['rty']]['variants']]
    oc, va = names.index('Occupied'), names.index('Vacant')
    e = Opq('entry', r=r, k=k)
    return Enum(info['rty'], simp(If(z3.Select(v.has, k), bv(oc, 16), bv(va, 16))), {oc: [e], va: [e]})


ENT = r're:std::collections::(hash_map|hash::map|btree_map)::'


@model(ENT + 'OccupiedEntry::<.*>::(remove|insert|get)')
def m_occ(m, st, a, info):
    e = dv(m, st, a[0]); v = dv(m, st, e.r); old = m.unpack(z3.Select(v.val, e.k), v.vt)
    op = info['name'].split('::')[-1]
    if op == 'get': return SRef(old)
    if op == 'remove': setref(m, st, e.r, v.upd(has=z3.Store(v.has, e.k, z3.BoolVal(False)), cnt=simp(v.cnt - 1)))
    else: setref(m, st, e.r, v.upd(val=z3.Store(v.val, e.k, m.pack(a[1], v.vt))))
    return old


@model(ENT + 'VacantEntry::<.*>::insert')
def m_vac(m, st, a, info):
    e = dv(m, st, a[0]); v = dv(m, st, e.r); x = m.pack(a[1], v.vt)
    setref(m, st, e.r, v.upd(has=z3.Store(v.has, e.k, z3.BoolVal(True)), val=z3.Store(v.val, e.k, x), cnt=simp(v.cnt + 1)))
    return SRef(m.unpack(x, v.vt))


@model(ENT + 'Entry::<.*>::or_insert')
def m_orinsert(m, st, a, info):
    e = a[0].p[0][0]; v = dv(m, st, e.r)
    h = simp(z3.Select(v.has, e.k)); x = If(h, z3.Select(v.val, e.k), m.pack(a[1], v.vt))
    setref(m, st, e.r, v.upd(has=z3.Store(v.has, e.k, z3.BoolVal(True)), val=z3.Store(v.val, e.k, x), cnt=simp(If(h, v.cnt, v.cnt + 1))))
    return SRef(m.unpack(x, v.vt))


@model(HM + 'len')
def m_mlen(m, st, a, info): return dv(m, st, a[0]).cnt


@model(HM + 'is_empty')
def m_mempty(m, st, a, info): return simp(dv(m, st, a[0]).cnt == 0)


@model(HM + 'clear')
def m_mclear(m, st, a, info):
    v = dv(m, st, a[0])
    setref(m, st, a[0], v.upd(has=z3.K(v.has.sort().domain(), z3.BoolVal(False)), cnt=bv(0, 64)))
    return unit(m, info['rty'])


# ------------------------------------------------------------------ formatting
@model('re:std::fmt::rt::Argument::<.*>::new_.*')
def m_fmtarg(m, st, a, info):
    return Opq('fmtarg', how=info['name'].split('::new_')[1], v=SRef(dv(m, st, a[0])), ty=info['targs'][-1] if info['targs'] else None)


@model('re:std::fmt::Arguments::<.*>::(from_str|new_const|new_v1|new|from_str_nonconst)')
def m_fmtargs(m, st, a, info):
    n = info['name'].split('::')[-1]
    if n in ('from_str', 'new_const', 'from_str_nonconst'):
        x = dv(m, st, a[0])
        return Opq('fmt', s=x if isinstance(x, S) else SAny(z3.Const(m.name('fmt'), Str)))
    tmpl = dv(m, st, a[0]); args = dv(m, st, a[1])
    if isinstance(tmpl, Agg): bs = [conc(x) for x in tmpl.f]
    elif isinstance(tmpl, SBytes): bs = list(tmpl.const())
    else: raise Unsupported('format template')
    return Opq('fmt', s=render(m, bs, args.f))


@model("re:std::fmt::Formatter::<.*>::(write_fmt|write_str|pad)", 're:std::fmt::Write::(write_str|write_fmt|write_char)')
def m_fmtwrite(m, st, a, info):
    f = dv(m, st, a[0]); x = dv(m, st, a[1])
    if isinstance(x, Opq) and x.kind == 'fmt': x = x.s
    if z3.is_bv(x) and x.size() == 32 and conc(x) is not None and conc(x) < 128: x = SBytes([conc(x)])
    if not isinstance(x, S): return NotImplemented
    if isinstance(f, Opq) and f.kind == 'fmtr': setref(m, st, a[0], Opq('fmtr', s=scat(f.s, x)))
    elif isinstance(f, S): setref(m, st, a[0], scat(f, x))
    else: return NotImplemented
    return Enum(info['rty'], 0, {0: [unit(m, m.T[info['rty']]['args'][0])]})


def render(m, b, args):
    i = 0; out = []; ai = 0
    while i < len(b):
        c = b[i]; i += 1
        if c == 0: break
        if c < 0x80: out.append(SBytes(b[i:i + c])); i += c; continue
        if c == 0x80:
            n = b[i] | b[i + 1] << 8; i += 2
            out.append(SBytes(b[i:i + n])); i += n; continue
        flags, width, prec = 0, None, None
        if c != 0xC0:
            if c & 1: flags = int.from_bytes(bytes(b[i:i + 4]), 'little'); i += 4
            if c & 2: width = b[i] | b[i + 1] << 8; i += 2
            if c & 4: prec = b[i] | b[i + 1] << 8; i += 2
            if c & 8: ai = b[i] | b[i + 1] << 8; i += 2
            if c & 0x30: raise Unsupported('dynamic width')
        x = fmt1(m, args[ai], flags, width, prec, c != 0xC0)
        ai += 1
        out.append(x)
    # composite arguments stay atoms, so that equal strings built differently give equal terms; a format without any
    # text of its own is a plain concatenation
    if any(isinstance(x, SBytes) for x in out):
        out = [atom(x) for x in out]
    if any(isinstance(x, SAny) for x in out): return SAny(z3.Const(m.name('text'), Str))
    return scat(*out)


def atom(x): return SAtom(x) if isinstance(x, (SCat, SIte)) and not isinstance(x, SAny) else x


def fmt1(m, a, flags, width, prec, special):
    v = a.v.v; ty = a.ty
    while ty is not None and m.kind(ty) == 'ref': ty = m.T[ty]['to']
    if isinstance(v, Poison): return SAny(z3.Const(m.name('text'), Str))
    how = a.how
    if not special or (flags & ~0x60000020 & 0x1fffffff == 0 and width is None and prec is None and not flags & 0x1f800000):
        if how == 'display': return display(m, v, ty)
        if how == 'debug' and z3.is_bv(v) and ty is not None and m.kind(ty) in ('int', 'uint'): return display(m, v, ty)
    if z3.is_bv(v) and v.size() == 8 and width == 2 and prec is None and ty is not None and m.kind(ty) == 'uint':
        zero = bool(flags & (1 << 24))
        upper = (how == 'upper_hex') or (how == 'debug' and flags & (1 << 26))
        lower = (how == 'lower_hex') or (how == 'debug' and flags & (1 << 25))
        alt = flags & (1 << 23)
        if (upper or lower) and zero and not alt:
            return SBytes([hexdigit(z3.Extract(7, 4, v), bool(upper)), hexdigit(z3.Extract(3, 0, v), bool(upper))])
    return SAny(z3.Const(m.name('text'), Str))


def display(m, v, ty):
    while isinstance(v, SRef): v = v.v
    if isinstance(v, S): return v
    if ty is not None:
        while m.kind(ty) == 'ref': ty = m.T[ty]['to']
        k = m.kind(ty)
        if k == 'uint' and z3.is_bv(v): return disp_uint(v)
        if k == 'int' and z3.is_bv(v): return disp_int(v)
        if k == 'char' and z3.is_bv(v): return ofchar(v)
    return SAny(z3.Const(m.name('text'), Str))


@model('std::fmt::format', 'std::fmt::fmt::format')
def m_format(m, st, a, info): return a[0].s


# ------------------------------------------------------------------ logging, panics
@model('log::max_level')
def m_maxlevel(m, st, a, info): return z3.Const(m.name('maxlevel'), m.opq_sort('LevelFilter'))


@model('re:log::__private_api::.*')
def m_log(m, st, a, info):
    r = info['rty']
    if r is not None and m.kind(r) == 'tuple': return unit(m, r)
    if info['name'].endswith('enabled'): return z3.Bool(m.name('log_enabled'))
    return Poison('log location')


@model('re:std::panicking::.*', 're:std::rt::(panic|begin_panic).*', 're:std::option::(unwrap_failed|expect_failed)', 're:std::result::unwrap_failed',
       're:std::str::slice_error_fail.*', 're:std::rt::panic_fmt', 're:std::slice::.*_fail.*', 're:std::panic::.*')
def m_panic(m, st, a, info):
    m.oblige(st, 'C01', 'no panic: ' + info['name'].split('::')[-1], z3.BoolVal(False), m.where(info['line']))
    return NORETURN


@model('std::char::from_u32', 'std::char::convert::from_u32', 'std::char::methods::<impl char>::from_u32')
def m_fromu32(m, st, a, info):
    x = a[0]
    ok = And(z3.ULT(x, bv(0x110000, 32)), Not(And(z3.UGE(x, bv(0xD800, 32)), z3.ULE(x, bv(0xDFFF, 32)))))
    return opt(info['rty'], ok, x)


@model('re:std::char::methods::<impl char>::is_ascii_digit')
def m_isdigit(m, st, a, info):
    c = dv(m, st, a[0])
    return simp(And(z3.UGE(c, bv(48, 32)), z3.ULE(c, bv(57, 32))))


@model('re:std::char::methods::<impl char>::is_ascii', 're:std::num::<impl u8>::is_ascii')
def m_cisascii(m, st, a, info):
    c = dv(m, st, a[0])
    return simp(z3.ULT(c, bv(128, c.size())))


@model('re:std::(f64|num)::<impl f64>::powi', 're:std::f64::.*::powi')
def m_powi(m, st, a, info): return fp.powi(a[0], a[1])


@model('re:std::(f64|num)::<impl f64>::abs', 're:std::f64::.*::abs')
def m_fabs(m, st, a, info): return simp(a[0] & bv((1 << 63) - 1, 64))


@model('re:std::num::<impl [iu](8|16|32|64|size)>::(wrapping|checked|saturating)_(add|sub|mul|shl|shr)')
def m_arith(m, st, a, info):
    md, op = info['name'].split('::')[-1].split('_')
    ty = info['atys'][0] if info['atys'] and info['atys'][0] is not None else None
    if ty is None: return NotImplemented
    o = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'shl': 'Shl', 'shr': 'Shr'}[op]
    r = m.binop(o, a[0], a[1], ty); ov = m.overflow(o, a[0], a[1], m.is_signed(ty))
    if md == 'wrapping': return r
    if md == 'checked': return opt(info['rty'], Not(ov), r)
    if m.is_signed(ty) or op not in ('add', 'sub'): return NotImplemented
    return simp(If(ov, bv(0 if op == 'sub' else -1, a[0].size()), r))


@model('re:(std|core)::intrinsics::saturating_(add|sub)')
def m_satint(m, st, a, info): return m_arith(m, st, a, info)


@model('re:(std|core)::intrinsics::cold_path', 're:(std|core)::hint::(cold_path|spin_loop)')
def m_cold(m, st, a, info): return unit(m, info['rty'])


# ------------------------------------------------------------------ regex (anchored sequences of ASCII classes)
class Rx:
    """Meaning of `^` item* with items single ASCII classes, an optional final `item+`, and groups."""

    def __init__(self, p):
        if not p.startswith('^'): raise Unsupported('unanchored regex')
        i = 1; self.items = []; self.groups = {}; opn = []; ng = 0; self.plus = False; self.anchored_end = False
        while i < len(p):
            if self.plus and p[i] not in ')$': raise Unsupported('regex after +')
            c = p[i]
            if c == '(':
                if p[i + 1:i + 2] == '?': raise Unsupported('regex group flags')
                ng += 1; opn.append((ng, len(self.items))); i += 1
            elif c == ')':
                g, s = opn.pop(); self.groups[g] = (s, len(self.items), self.plus); i += 1
            elif c == '[':
                j = p.index(']', i); body = p[i + 1:j]
                if body.startswith('^') or '\\' in body: raise Unsupported('regex class')
                rs = []; k = 0
                while k < len(body):
                    if k + 2 < len(body) and body[k + 1] == '-': rs.append((ord(body[k]), ord(body[k + 2]))); k += 3
                    else: rs.append((ord(body[k]), ord(body[k]))); k += 1
                self.items.append(rs); i = j + 1
            elif c == '\\':
                if p[i + 1].isalnum(): raise Unsupported('regex escape')
                self.items.append([(ord(p[i + 1]), ord(p[i + 1]))]); i += 2
            elif c == '+':
                self.plus = True; i += 1
                if p[i:i + 1] == '?': raise Unsupported('lazy +')
            elif c == '{':
                j = p.index('}', i); n = p[i + 1:j]
                if not n.isdigit(): raise Unsupported('regex repetition')
                last = self.items.pop()
                if any(s == len(self.items) + 1 for _, s in opn) or p[i - 1] == ')': raise Unsupported('group repetition')
                self.items += [last] * int(n); i = j + 1
            elif c == '$' and i == len(p) - 1: self.anchored_end = True; i += 1
            elif c in '.*?|$': raise Unsupported('regex operator ' + c)
            else: self.items.append([(ord(c), ord(c))]); i += 1
        if opn or self.anchored_end: raise Unsupported('regex')

    def cls(self, rs, b): return Or(*[simp(b == lo) if lo == hi else simp(And(z3.UGE(b, bv(lo, 8)), z3.ULE(b, bv(hi, 8)))) for lo, hi in rs])

    def ok(self, s):
        n = len(self.items)
        return And(z3.UGE(slen(s), bv(n, 64)), *[self.cls(rs, sbyte(s, k)) for k, rs in enumerate(self.items)])

    def end(self, s):
        n = len(self.items)
        if not self.plus: return bv(n, 64)
        f = z3.Function('run_end_%s' % '_'.join('%d-%d' % r for r in self.items[-1]), Str, B64, B64)
        e = f(sterm(s), bv(n, 64))
        Facts.add(('runend', e), Implies(z3.UGE(slen(s), bv(n, 64)), And(z3.UGE(e, bv(n, 64)), z3.ULE(e, slen(s)))))
        return e

    def group(self, s, g):
        lo, hi, plus = self.groups[g]
        sub = ssub(s, bv(lo, 64), self.end(s) if plus else bv(hi, 64))
        if isinstance(sub, S):
            items = self.items[lo:hi]
            dig = [(48, 57)]
            shape = ''.join('d' if x == dig else '.' if x == [(46, 46)] else 'x' for x in items)
            if re.fullmatch('d+(\\.d+)?', shape):
                o, v = parse(sub, 'f64')
                Facts.add(('rxnum', sterm(sub)), Implies(self.ok(s), o))
        return sub


# A static with interior mutability: what is read from it may be anything, except that a lazily initialised one holds what its
# initialiser returns (only initialisers that capture nothing; one initialiser per static).
@model(r're:std::sync::atomic::Atomic.*::(load|fetch_\w+|swap|into_inner)')
def m_atomic(m, st, a, info):
    if dv(m, st, a[0]).kind != 'static': raise Unsupported('an atomic that is not a static')
    return m.fresh(info['rty'], 'static')


@model(r're:std::sync::atomic::Atomic.*::store')
def m_atomic_store(m, st, a, info):
    if dv(m, st, a[0]).kind != 'static': raise Unsupported('an atomic that is not a static')
    return Agg(info['rty'], [])


def lazily(m, st, o, f, key):
    if o.kind != 'static': raise Unsupported('a lazy value that is not a static')
    if m.lazy.setdefault(o.name, key) != key: raise Unsupported('two initialisers of a static')
    r = f()
    return NORETURN if r is None else (SRef(r[0]), r[1])


@model('re:std::sync::OnceLock::<.*>::get_or_init', 're:std::cell::OnceCell::<.*>::get_or_init')
def m_oncelock(m, st, a, info):
    o = dv(m, st, a[0]); f = dv(m, st, a[1])
    if isinstance(f, Agg) and f.f: raise Unsupported('initialiser with captures')
    return lazily(m, st, o, lambda: m.call_closure(st, a[1], [], info.get('line')), ('c', f.ty))


@model('re:std::sync::LazyLock::<.*>::force', 're:.*<std::sync::LazyLock<.*> as std::ops::Deref>::deref')
def m_lazylock(m, st, a, info):
    o = dv(m, st, a[0])
    if o.kind != 'static' or len(o.fns) != 1: raise Unsupported('lazy initialiser')
    n = m.P.I[o.fns[0]]['body']
    args = [Agg(k, []) for k in n['locals'][1:1 + n['argc']]]       # a closure without captures, no arguments
    if any(m.T[k]['k'] not in ('closure', 'tuple') for k in n['locals'][1:1 + n['argc']]): raise Unsupported('lazy initialiser')
    return lazily(m, st, o, lambda: m.exec_inst(o.fns[0], args, st), ('f', o.fns[0]))


@model('std::thread::LocalKey::<T>::with')
def m_localkey(m, st, a, info):
    k = dv(m, st, a[0])
    f = next((x for x in k.f if isinstance(x, Opq) and x.kind == 'fnptr'), None) if isinstance(k, Agg) else None
    i = f and m.P.I[f.inst]
    if i and i['def'].endswith('::call_once') and i['args']: i = m.P.I[m.T[i['args'][0]]['inst']]
    n = i and i['def'].split('::{constant')[0]
    init = [i for i, x in (m.P.I.items() if isinstance(m.P.I, dict) else enumerate(m.P.I)) if x and x.get('def') == '%s::__rust_std_internal_init_fn' % n]
    t = m.T[info['targs'][0]]['s']
    if len(init) != 1 or re.search('Cell|Atomic|Mutex|Lock', t): raise Unsupported('thread local value %s %s %s' % (n, t, len(init)))
    v = lazily(m, st, Opq('static', name=n), lambda: m.exec_inst(init[0], [], st), ('f', init[0]))
    return v if v is NORETURN else m.call_closure(v[1], a[1], [v[0]], info.get('line'))


_rx = {}


def rx(p):
    if p not in _rx: _rx[p] = Rx(p)
    return _rx[p]


@model('regex::Regex::new', 'regex::regex::string::Regex::new')
def m_rxnew(m, st, a, info):
    s = dv(m, st, a[0])
    if not isinstance(s, SBytes) or s.const() is None: raise Unsupported('regex pattern')
    p = s.const().decode()
    rx(p)
    return Enum(info['rty'], 0, {0: [Opq('regex', pat=p)]})


@model('regex::Regex::captures')
def m_rxcap(m, st, a, info):
    r = dv(m, st, a[0]); s = dv(m, st, a[1])
    return opt(info['rty'], rx(r.pat).ok(s), Opq('caps', pat=r.pat, s=s))


@model('regex::Regex::is_match')
def m_rxmatch(m, st, a, info):
    r = dv(m, st, a[0]); s = dv(m, st, a[1])
    return simp(rx(r.pat).ok(s))


@model('re:regex::Captures::<.*>::get')
def m_capget(m, st, a, info):
    c = dv(m, st, a[0]); n = conc(a[1])
    if n is None: raise Unsupported('capture index')
    R = rx(c.pat)
    if n == 0: return some(info['rty'], Opq('match', s=ssub(c.s, bv(0, 64), R.end(c.s))))
    if n not in R.groups: return none(info['rty'])
    return some(info['rty'], Opq('match', s=R.group(c.s, n)))


@model('re:regex::Match::<.*>::as_str')
def m_matchstr(m, st, a, info): return dv(m, st, a[0]).s


# ------------------------------------------------------------------ chrono
DT, DA = z3.DeclareSort('DateTime'), z3.DeclareSort('NaiveDate')
date_ = z3.Function('date', B32, B32, B32, DA)
dtime_ = z3.Function('datetime', DA, B32, B32, B32, DT)
year_ = z3.Function('year', DT, B32)
month_ = z3.Function('month', DT, B32)
day_ = z3.Function('day', DT, B32)
NOW = z3.Const('now', DT)


def valid_date(y, mo, d):
    leap = Or(And(simp(z3.SRem(y, bv(4, 32)) == 0), Not(simp(z3.SRem(y, bv(100, 32)) == 0))), simp(z3.SRem(y, bv(400, 32)) == 0))
    m31 = Or(*[simp(mo == k) for k in (1, 3, 5, 7, 8, 10, 12)])
    m30 = Or(*[simp(mo == k) for k in (4, 6, 9, 11)])
    dim = If(m31, bv(31, 32), If(m30, bv(30, 32), If(leap, bv(29, 32), bv(28, 32))))
    return simp(And(z3.UGE(mo, bv(1, 32)), z3.ULE(mo, bv(12, 32)), z3.UGE(d, bv(1, 32)), z3.ULE(d, dim), y >= -262143, y <= 262142))


def valid_time(h, mi, s): return simp(And(z3.ULT(h, bv(24, 32)), z3.ULT(mi, bv(60, 32)), z3.ULT(s, bv(60, 32))))


def mkdate(y, mo, d): return date_(simp(y), simp(mo), simp(d))


def mkdt(da, h, mi, s): return dtime_(da, simp(h), simp(mi), simp(s))


def ymd_of(x):
    y, mo, d = year_(x), month_(x), day_(x)
    Facts.add(('ymd', x), valid_date(y, mo, d))
    if z3.eq(x, NOW): Facts.add(('now',), And(y >= 1970, y <= 200000))
    return y, mo, d


@model('chrono::Utc::now', 'chrono::offset::Utc::now', 're:chrono::.*Utc::now')
def m_now(m, st, a, info): return NOW


@model('re:chrono::Datelike::(year|month|day)')
def m_datelike(m, st, a, info):
    x = dv(m, st, a[0])
    if not z3.is_expr(x) or x.sort() != DT: raise Unsupported('Datelike on a date')
    return dict(zip(('year', 'month', 'day'), ymd_of(x)))[info['name'].split('::')[-1]]


@model('re:chrono::DateTime::<.*>::(naive_utc|from_utc|from_naive_utc_and_offset|with_timezone|to_owned)', 're:chrono::NaiveDateTime::and_utc',
       're:chrono::TimeZone::from_utc_datetime', 're:chrono::.*::and_utc')
def m_dtid(m, st, a, info):
    for x in a:
        y = dv(m, st, x)
        if z3.is_expr(y) and y.sort() == DT: return y
    raise Unsupported('date conversion')


@model('re:chrono::DateTime::<.*>::(date|date_naive)', 're:chrono::NaiveDateTime::date')
def m_date(m, st, a, info):
    x = dv(m, st, a[0])
    if not z3.is_expr(x) or x.sort() != DT: raise Unsupported('date')
    return mkdate(*ymd_of(x))


def lr(m, rty, c, v):
    """LocalResult: Single or None."""
    names = [x['name'].split('::')[-1] for x in m.T[rty]['variants']]
    no, one = names.index('None'), names.index('Single')
    return Enum(rty, simp(If(c, bv(one, 16), bv(no, 16))), {no: [], one: [v]})


@model('re:chrono::TimeZone::ymd', 're:chrono::NaiveDate::from_ymd')
def m_ymd(m, st, a, info):
    y, mo, d = a[-3:]
    m.oblige(st, 'C01', 'no panic: calendar date exists', valid_date(y, mo, d), m.where(info['line']))
    return mkdate(y, mo, d)


@model('re:chrono::TimeZone::ymd_opt')
def m_ymdopt(m, st, a, info):
    y, mo, d = a[-3:]
    return lr(m, info['rty'], valid_date(y, mo, d), mkdate(y, mo, d))


@model('re:chrono::NaiveDate::from_ymd_opt')
def m_fromymdopt(m, st, a, info):
    y, mo, d = a
    return opt(info['rty'], valid_date(y, mo, d), mkdate(y, mo, d))


@model('re:chrono::TimeZone::with_ymd_and_hms')
def m_withymd(m, st, a, info):
    y, mo, d, h, mi, s = a[-6:]
    return lr(m, info['rty'], And(valid_date(y, mo, d), valid_time(h, mi, s)), mkdt(mkdate(y, mo, d), h, mi, s))


@model('re:chrono::(NaiveDate|Date::<.*>|.*Date.*)::and_hms')
def m_andhms(m, st, a, info):
    d = dv(m, st, a[0])
    m.oblige(st, 'C01', 'no panic: time of day exists', valid_time(*a[1:4]), m.where(info['line']))
    return mkdt(d, *a[1:4])


@model('re:chrono::.*::and_hms_opt')
def m_andhmsopt(m, st, a, info):
    d = dv(m, st, a[0])
    if isinstance(d, Enum): return NotImplemented
    if not z3.is_expr(d): raise Unsupported('and_hms_opt on %r' % (d,))
    return opt(info['rty'], valid_time(*a[1:4]), mkdt(d, *a[1:4]))
