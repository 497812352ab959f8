"""The deductive verifier: forward symbolic execution of one MIR body with state merging at joins,
contracts at calls, invariants at loops, and z3 as the back end that discharges the obligations."""
import time, itertools, z3
from vals import *
import strs
from strs import S, SBytes, SVar, Facts, lit, seq, sterm, slen, sbyte, site
import fp


class Poison:
    def __init__(self, why): self.why = why

    def __repr__(self): return 'poison(%s)' % self.why


class SAny(SVar):
    """A string about which the specification says nothing (error texts)."""


class State:
    __slots__ = ('mem', 'pc', 'tag')

    def __init__(self, mem, pc, tag=()): self.mem = mem; self.pc = pc; self.tag = tag

    def fork(self, *conds):
        pc = self.pc + tuple(c for c in conds if not is_true(c))
        return State(dict(self.mem), pc, self.tag)


class Multi(list):
    """Results of a call that was executed with its outcomes kept apart."""


def by_tag(states):
    g = {}
    for s in states: g.setdefault(s.tag, []).append(s)
    return list(g.values())


class Obl:
    def __init__(self, fn, prop, desc, where, pc, goal, nf):
        self.fn, self.prop, self.desc, self.where = fn, prop, desc, where
        self.pc, self.goal, self.nf = pc, goal, nf
        self.status = None; self.model = None; self.time = 0.0; self.weak = False; self.done = False


_cnt = itertools.count()


class Ctx:
    """Verification context of one function under contract."""

    def __init__(self, fn):
        self.fn = fn
        self.epoch = 0; self.known = {}; self.det = {}
        self.facts = []; self.obls = []; self.memo = set()
        self.models = set(); self.inlined = set(); self.contracts = set(); self.loops = []
        self.trace = []
        self.guess = None

    def fact(self, f):
        f = f if z3.is_expr(f) else z3.BoolVal(bool(f))
        if not is_true(f): self.facts.append(f)


class Frame:
    def __init__(self, fid, inst, body, cfg): self.fid, self.inst, self.body, self.cfg = fid, inst, body, cfg


OPEN_STD = ('std::thread::LocalKey', 'std::option::Option', 'std::result::Result', 'std::ops::Range', 'std::ops::RangeInclusive', 'std::cmp::Ordering',
            'std::ops::ControlFlow', 'std::ops::RangeFrom', 'std::ops::RangeTo', 'std::ops::RangeFull', 'std::ops::RangeToInclusive',
            'std::borrow::Cow', 'std::ops::Bound')


def pushed(t):
    """The elements of a vector built by pushes onto an empty one, in order; None for any other."""
    r = []
    while t.num_args() == 2 and t.decl().name().startswith('vec_push_'): r.append(t.arg(1)); t = t.arg(0)
    return r[::-1] if z3.is_const(t) and t.decl().name().startswith('vec_empty_') else None


class Machine:
    def __init__(self, prog, models, contracts):
        self.P = prog; self.T = prog.T
        self.models = models; self.contracts = contracts
        self.cx = None
        self.root_inst = None
        self.lazy = {}
        self.sorts = {}; self.covers = {}
        self.depth = 0
        self.dts = {}
        self.stack = []
        self.prune = False; self.ps = None; self.apps = {}; self.appargs = {}
        self.qtime = 0.0
        self.nq = 0

    # ------------------------------------------------------------------ types and fresh values
    def t(self, k): return self.T[k]

    def opq_sort(self, name):
        if name not in self.sorts: self.sorts[name] = z3.DeclareSort(name.replace(' ', ''))
        return self.sorts[name]

    def name(self, base): return '%s!%d' % (base, next(_cnt))

    def kind(self, k):
        """Verifier-level kind of a type."""
        t = self.T[k]
        if t['k'] in ('struct', 'enum', 'union'):
            n = t['name']
            if n in ('std::string::String', 'alloc::string::String'): return 'string'
            if n in ('std::vec::Vec', 'alloc::vec::Vec'): return 'vec'
            if n in ('std::collections::HashMap', 'std::collections::hash::map::HashMap', 'std::collections::BTreeMap'): return 'map'
            if n.endswith('BitVec') or n.endswith('BitSlice'): return 'bits'
            if n.endswith('chrono::Utc'): return 'unit'
            if t['k'] != 'union' and 'variants' in t and (t.get('local') or n in OPEN_STD or n.endswith(('::LocalResult', 'map::Entry', 'hash_map::Entry'))): return t['k']
            return 'opaque'
        return t['k']

    def sort(self, k):
        """z3 sort used when a value of this type is stored in a container."""
        t = self.T[k]; kd = self.kind(k)
        if kd == 'bool': return z3.BoolSort()
        if kd in ('int', 'uint', 'float'): return z3.BitVecSort(t['bits'])
        if kd == 'char': return z3.BitVecSort(32)
        if kd in ('string', 'str'): return strs.Str
        if kd == 'ref': return self.sort(t['to'])
        if kd == 'bits': return self.opq_sort('Bits')
        if kd == 'opaque': return self.opq_sort(self.osname(k))
        if kd in ('struct', 'enum', 'tuple'): return self.dt(k)
        if kd == 'vec': return self.opq_sort('Vec<%s>' % self.T[t['args'][0]]['s'])
        raise Unsupported('sort of ' + t['s'])

    def osname(self, k):
        n = self.T[k]['s']
        for a in ('DateTime', 'NaiveDateTime', 'NaiveDate', 'Date<', 'NaiveTime'):
            if 'chrono::' in n and n.split('chrono::')[1].startswith(a): return a.strip('<')
        return n

    def dt(self, k):
        key = self.T[k]['s']
        if key in self.dts: return self.dts[key]
        t = self.T[k]
        d = z3.Datatype('dt_' + key.replace(' ', ''))
        if t['k'] == 'tuple': vs = [('tup', [('f%d' % i, e) for i, e in enumerate(t['elems'])])]
        else: vs = [(v['name'], v['fields']) for v in t['variants']]
        for vi, (vn, fs) in enumerate(vs):
            d.declare('c%d' % vi, *[('a%d_%d' % (vi, fi), self.sort(ft)) for fi, (fnm, ft) in enumerate(fs)])
        self.dts[key] = d.create()
        return self.dts[key]

    def pack(self, v, k):
        kd = self.kind(k); t = self.T[k]
        if isinstance(v, Poison): raise Unsupported('pack ' + v.why)
        if isinstance(v, S): return sterm(v)
        if kd == 'ref': return self.pack(v.v, t['to']) if isinstance(v, SRef) else self._bad('pack ref')
        if isinstance(v, Agg):
            d = self.dt(k)
            fs = t['elems'] if t['k'] == 'tuple' else [f[1] for f in t['variants'][0]['fields']]
            return d.constructor(0)(*[self.pack(x, ft) for x, ft in zip(v.f, fs)]) if fs else d.constructor(0)()
        if isinstance(v, Enum):
            d = self.dt(k); r = None
            for vi, var in reversed(list(enumerate(t['variants']))):
                if vi not in v.p: continue
                fs = [f[1] for f in var['fields']]
                c = d.constructor(vi)
                x = c(*[self.pack(y, ft) for y, ft in zip(v.p[vi], fs)]) if fs else c()
                r = x if r is None else If(simp(v.v == vi), x, r)
            return r
        if isinstance(v, Opq) and v.kind == 'vec': return v.t
        if z3.is_expr(v): return v
        raise Unsupported('pack %r' % (v,))

    def _bad(self, m): raise Unsupported(m)

    def unpack(self, e, k):
        kd = self.kind(k); t = self.T[k]
        if kd in ('string', 'str'): return SVar(e)
        if kd == 'ref':
            to = t['to']
            v = self.unpack(e, to)
            return v if self.kind(to) == 'str' else SRef(v)
        if kd in ('struct', 'tuple'):
            d = self.dt(k)
            fs = t['elems'] if t['k'] == 'tuple' else [f[1] for f in t['variants'][0]['fields']]
            return Agg(k, [self.unpack(simp(d.accessor(0, i)(e)), ft) for i, ft in enumerate(fs)])
        if kd == 'enum':
            d = self.dt(k)
            v = bv(0, 16); p = {}
            for vi, var in enumerate(t['variants']):
                if vi: v = If(simp(d.recognizer(vi)(e)), bv(vi, 16), v)
                p[vi] = [self.unpack(simp(d.accessor(vi, i)(e)), f[1]) for i, f in enumerate(var['fields'])]
            return Enum(k, simp(v), p)
        if kd == 'vec': return Opq('vec', t=e, elem=t['args'][0])
        return e

    def fresh(self, k, base, st=None, depth=0):
        t = self.T[k]; kd = self.kind(k)
        if kd == 'bool': return z3.Bool(self.name(base))
        if kd in ('int', 'uint', 'float'): return z3.BitVec(self.name(base), t['bits'])
        if kd == 'char':
            c = z3.BitVec(self.name(base), 32)
            self.cx.fact(And(z3.ULT(c, bv(0x110000, 32)), Not(And(z3.UGE(c, bv(0xD800, 32)), z3.ULE(c, bv(0xDFFF, 32))))))
            return c
        if kd in ('string', 'str'): return SVar(z3.Const(self.name(base), strs.Str))
        if kd == 'ref':
            to = t['to']
            if self.kind(to) == 'str': return self.fresh(to, base, st, depth)
            v = self.fresh(to, base, st, depth)
            if t['mut']:
                if st is None: raise Unsupported('fresh &mut')
                root = ('h', next(_cnt)); st.mem[root] = v
                return Ref(root)
            return SRef(v)
        if kd in ('struct', 'tuple'):
            fs = [('%d' % i, e) for i, e in enumerate(t['elems'])] if kd == 'tuple' else t['variants'][0]['fields']
            return Agg(k, [self.fresh(ft, base + '.' + fn, st, depth + 1) for fn, ft in fs])
        if kd == 'array':
            return Agg(k, [self.fresh(t['elem'], '%s[%d]' % (base, i), st, depth + 1) for i in range(t['len'])])
        if kd == 'enum':
            v = z3.BitVec(self.name(base + '.tag'), 16)
            self.cx.fact(z3.ULT(v, bv(len(t['variants']), 16)))
            p = {}
            for vi, var in enumerate(t['variants']):
                p[vi] = [self.fresh(ft, '%s.%s.%s' % (base, var['name'], fn), st, depth + 1) for fn, ft in var['fields']]
            return Enum(k, v, p)
        if kd == 'bits': return z3.Const(self.name(base), self.opq_sort('Bits'))
        if kd == 'opaque': return z3.Const(self.name(base), self.opq_sort(self.osname(k)))
        if kd == 'map':
            ks, vs = self.sort(t['args'][0]), self.sort(t['args'][1])
            return Opq('map', has=z3.Const(self.name(base + '.has'), z3.ArraySort(ks, z3.BoolSort())),
                       val=z3.Const(self.name(base + '.val'), z3.ArraySort(ks, vs)),
                       cnt=z3.BitVec(self.name(base + '.len'), 64), kt=t['args'][0], vt=t['args'][1])
        if kd == 'vec': return Opq('vec', t=z3.Const(self.name(base), self.sort(k)), elem=t['args'][0])
        if kd == 'unit': return Agg(k, [])
        if kd == 'never': return UNDEF
        if kd in ('closure', 'fndef'): return FnVal(k)
        raise Unsupported('fresh value of ' + t['s'])

    # ------------------------------------------------------------------ value operations
    def eqv(self, a, b):
        """Formula: two values of the same type are equal."""
        if a is b or isinstance(a, SAny) or isinstance(b, SAny): return z3.BoolVal(True)
        if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported('comparing poison')
        if isinstance(a, S) and isinstance(b, S): return seq(a, b)
        if isinstance(a, SRef): a = a.v
        if isinstance(b, SRef): b = b.v
        if isinstance(a, S) and isinstance(b, S): return seq(a, b)
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
            return And(*[self.eqv(x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, Enum) and isinstance(b, Enum):
            r = [simp(a.v == b.v)]
            if is_false(r[0]): return r[0]
            for k in a.p:
                if k in b.p and a.p[k]:
                    c = simp(a.v == k)
                    if is_false(c): continue
                    e = And(*[self.eqv(x, y) for x, y in zip(a.p[k], b.p[k])])
                    r.append(Implies(c, e))
            return And(*r)
        if isinstance(a, Opq) and isinstance(b, Opq) and a.kind == b.kind:
            if a.kind == 'map': return And(simp(a.has == b.has), self.map_val_eq(a, b))
            if a.kind == 'vec': return z3.BoolVal(True) if z3.eq(a.t, b.t) else a.t == b.t
            return And(*[self.eqv(a.d[k], b.d[k]) for k in a.d])
        if z3.is_expr(a) and z3.is_expr(b):
            if z3.eq(a, b): return z3.BoolVal(True)
            if a.sort() != b.sort(): raise Unsupported('sort mismatch %s %s' % (a.sort(), b.sort()))
            return simp(a == b)
        if isinstance(a, (int, str)) and isinstance(b, (int, str)): return z3.BoolVal(a == b)
        if isinstance(a, Ref) and isinstance(b, Ref): return z3.BoolVal(a.root == b.root and a.path == b.path)
        if isinstance(a, FnVal) and isinstance(b, FnVal): return z3.BoolVal(a.ty == b.ty)
        raise Unsupported('equality of %r and %r' % (type(a), type(b)))

    def map_val_eq(self, a, b):
        if z3.eq(a.val, b.val): return z3.BoolVal(True)
        # equal at every present key: compare through a skolem key (refutation of the negation)
        k = z3.Const(self.name('key'), a.has.sort().domain())
        return Implies(z3.Select(a.has, k), z3.Select(a.val, k) == z3.Select(b.val, k))

    def merge_val(self, c, a, b):
        if a is b: return a
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a, Poison): return a
        if isinstance(b, Poison): return b
        try:
            if z3.is_expr(a) and z3.is_expr(b):
                return If(c, a, b)
            if isinstance(a, S) and isinstance(b, S): return site(c, a, b)
            if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
                return Agg(a.ty, [self.merge_val(c, x, y) for x, y in zip(a.f, b.f)])
            if isinstance(a, Enum) and isinstance(b, Enum):
                p = dict(b.p)
                for k, f in a.p.items():
                    p[k] = [self.merge_val(c, x, y) for x, y in zip(f, b.p[k])] if k in b.p else f
                return Enum(a.ty, If(c, a.v, b.v), p)
            if isinstance(a, SRef) and isinstance(b, SRef): return SRef(self.merge_val(c, a.v, b.v))
            if isinstance(a, Ref) and isinstance(b, Ref) and a.root == b.root and a.path == b.path: return a
            if isinstance(a, FnVal) and isinstance(b, FnVal) and a.ty == b.ty: return a
            if all(isinstance(x, FnVal) or isinstance(x, Opq) and x.kind == 'fnptr' for x in (a, b)):
                # one of several functions
                return Opq('fnptr', alts=tuple((And(c, g), i) for g, i in fn_alts(a)) + tuple((And(Not(c), g), i) for g, i in fn_alts(b)))
            if isinstance(a, Opq) and isinstance(b, Opq) and a.kind == b.kind:
                return Opq(a.kind, **{k: self.merge_val(c, a.d[k], b.d[k]) for k in a.d})
            if isinstance(a, (int, str)) and a == b: return a
        except Unsupported as e:
            return Poison(str(e))
        return Poison('merge of %s and %s' % (type(a).__name__, type(b).__name__))

    def merge(self, states):
        if len(states) == 1: return states[0]
        pcs = [s.pc for s in states]
        n = 0
        while all(len(p) > n for p in pcs) and all(z3.eq(p[n], pcs[0][n]) for p in pcs): n += 1
        conds = [And(*p[n:]) for p in pcs]
        o = self.cover(conds)
        pc = pcs[0][:n] + (() if is_true(o) else (o,))
        keys = set(states[0].mem)
        for s in states[1:]: keys &= set(s.mem)
        mem = {}
        for k in keys:
            v = states[-1].mem[k]
            for s, c in zip(states[-2::-1], conds[-2::-1]):
                v = self.merge_val(c, s.mem[k], v)
            mem[k] = v
        return State(mem, pc, states[0].tag if all(s.tag == states[0].tag for s in states) else ())

    def cover(self, conds):
        """The disjunction of the path conditions that meet at a join; true when they leave nothing out."""
        o = Or(*conds)
        if is_true(o): return o
        k = tuple(c.get_id() for c in conds)
        hit = self.covers.get(k)
        if hit is not None: return hit[1]
        s = z3.SolverFor('QF_UF')
        limit(s, 300)
        atoms = {}

        def ab(e):
            # boolean abstraction: only the propositional structure counts
            n = e.get_id()
            if n in atoms: return atoms[n][1]
            if z3.is_true(e) or z3.is_false(e): r = e
            elif z3.is_not(e): r = z3.Not(ab(e.arg(0)))
            elif z3.is_and(e): r = z3.And(*[ab(x) for x in e.children()])
            elif z3.is_or(e): r = z3.Or(*[ab(x) for x in e.children()])
            else: r = z3.Bool('a%d' % n)
            atoms[n] = (e, r)
            return r
        s.add(*[z3.Not(ab(c)) for c in conds])
        if s.check() == z3.unsat: o = z3.BoolVal(True)
        elif len(conds) <= 4: o = z3.simplify(o)
        self.covers[k] = (conds, o)
        return o

    # ------------------------------------------------------------------ places
    def proj(self, st, v, p, fr):
        k = p[0]
        if isinstance(v, Poison): raise Unsupported('read of ' + v.why)
        if k == '*':
            if isinstance(v, Ref): return self.read_path(st, v.root, v.path)
            if isinstance(v, SRef): return v.v
            if isinstance(v, S): return v
            if isinstance(v, Opq): return v
            raise Unsupported('deref of %r' % (v,))
        if k == '.':
            if isinstance(v, Agg): return v.f[p[1]]
            if isinstance(v, tuple): return v[1][p[1]]   # downcast view
            if isinstance(v, Opq) and 'f%d' % p[1] in v.d: return v.d['f%d' % p[1]]
            if isinstance(v, FnVal): return UNDEF
            raise Unsupported('field of %r' % (v,))
        if k == 'as':
            if isinstance(v, Enum):
                if p[1] in v.p: return ('view', v.p[p[1]])
                raise Unsupported('downcast to absent variant')
            if isinstance(v, Agg): return ('view', v.f)
            raise Unsupported('downcast of %r' % (v,))
        if k == '[]':
            i = st.mem[(fr.fid, p[1])]
            return self.index(v, i)
        if k == '[c]':
            if p[3]: raise Unsupported('from_end index')
            return self.index(v, bv(p[1], 64))
        raise Unsupported('projection ' + k)

    def index(self, v, i):
        if isinstance(v, Agg):
            c = conc(i)
            if c is not None:
                if c < len(v.f): return v.f[c]
                raise Unsupported('concrete index out of range')
            if not v.f: raise Unsupported('index in empty array')
            r = v.f[-1]
            for n in range(len(v.f) - 2, -1, -1): r = self.merge_val(simp(i == n), v.f[n], r)
            return r
        if isinstance(v, Opq) and v.kind in ('vsplit', 'vec', 'lst'): return self.vget(v, i)
        raise Unsupported('index of %r' % (v,))

    def vlen(self, v):
        if isinstance(v, Agg): return bv(len(v.f), 64)
        if v.kind == 'vsplit': return simp(strs.nfields(v.s, v.c) - v.lo)
        if v.kind == 'vec':
            x = pushed(v.t)
            if x is not None: return bv(len(x), 64)
            f = z3.Function('vec_len_%s' % v.t.sort().name(), v.t.sort(), z3.BitVecSort(64))
            n = f(v.t)
            Facts.add(('vlen', n), z3.ULT(n, bv(1 << 40, 64)))
            return n
        if v.kind == 'lst': return bv(len(v.items), 64)
        if v.kind == 'sbytes': return strs.slen(v.s)
        raise Unsupported('length of %r' % (v,))

    def vget(self, v, i):
        if isinstance(v, Agg) or v.kind == 'lst': return self.index(v, i) if isinstance(v, Agg) else self.index(Agg(None, v.items), i)
        if v.kind == 'sbytes': return strs.sbyte(v.s, simp(i))
        if v.kind == 'vsplit': return strs.field(v.s, v.c, simp(i + v.lo))
        if v.kind == 'vec':
            x = pushed(v.t)
            if x is not None and conc(i) is not None and conc(i) < len(x): return self.unpack(x[conc(i)], v.elem)
            f = z3.Function('vec_get_%s' % v.t.sort().name(), v.t.sort(), z3.BitVecSort(64), self.sort(v.elem))
            return self.unpack(f(v.t, i), v.elem)
        raise Unsupported('element of %r' % (v,))

    def read_path(self, st, root, path):
        v = st.mem.get(root, UNDEF)
        for p in path:
            if isinstance(v, Poison): raise Unsupported('read of ' + v.why)
            if p[0] == 'i': v = self.index(v, bv(p[1], 64))
            else: v = self.proj(st, v, p, None)
        return v

    def lval(self, st, fr, place):
        """Resolve a place to (root, path) following unique references; None when it is behind a shared one."""
        root, path = (fr.fid, place[0]), ()
        for p in place[1]:
            if p[0] == '*':
                v = self.read_path(st, root, path)
                if isinstance(v, Ref): root, path = v.root, v.path
                elif isinstance(v, (S, Opq)): pass
                else: return None
            elif p[0] == '[]':
                i = conc(st.mem[(fr.fid, p[1])])
                if i is None: raise Unsupported('write through symbolic index')
                path = path + (('i', i),)
            elif p[0] == '[c]': path = path + (('i', p[1]),)
            else: path = path + (tuple(p[:2]),)
        return root, path

    def read(self, st, fr, place):
        v = st.mem.get((fr.fid, place[0]), UNDEF)
        for p in place[1]: v = self.proj(st, v, p, fr)
        if v is UNDEF and not place[1]:
            t = fr.body['locals'][place[0]]
            if self.zst(t): return self.zval(t)
        return v

    def zst(self, k):
        t = self.T[k]
        return (t['k'] == 'tuple' and not t['elems']) or t['k'] in ('fndef',) or self.kind(k) == 'unit' or \
            (t['k'] == 'closure' and self.T[t['upvars']]['k'] == 'tuple' and not self.T[t['upvars']]['elems'])

    def zval(self, k): return FnVal(k) if self.T[k]['k'] == 'fndef' else Agg(k, [])

    def upd(self, v, path, new):
        if not path: return new
        p = path[0]
        if p[0] == 'as':
            if isinstance(v, Enum):
                fs = list(v.p[p[1]])
                q = path[1]
                fs[q[1]] = self.upd(fs[q[1]], path[2:], new)
                d = dict(v.p); d[p[1]] = fs
                return Enum(v.ty, v.v, d)
            raise Unsupported('write into downcast of %r' % (v,))
        if isinstance(v, Agg):
            i = p[1]
            if i >= len(v.f): raise Unsupported('write out of aggregate')
            f = list(v.f); f[i] = self.upd(f[i], path[1:], new)
            return Agg(v.ty, f)
        raise Unsupported('write into %r' % (v,))

    def write_path(self, st, root, path, new):
        st.mem[root] = self.upd(st.mem.get(root, UNDEF), path, new)

    def write(self, st, fr, place, v):
        if not place[1]:
            st.mem[(fr.fid, place[0])] = v
            return
        base = st.mem.get((fr.fid, place[0]), UNDEF)
        if base is UNDEF and place[1][0][0] == '.':
            # field-wise initialisation of a local aggregate
            t = self.T[fr.body['locals'][place[0]]]
            n = len(t['elems']) if t['k'] == 'tuple' else len(t['variants'][0]['fields'])
            st.mem[(fr.fid, place[0])] = Agg(fr.body['locals'][place[0]], [UNDEF] * n)
        lv = self.lval(st, fr, place)
        if lv is None: raise Unsupported('write through shared reference')
        self.write_path(st, lv[0], lv[1], v)

    def place_ty(self, fr, place):
        k = fr.body['locals'][place[0]]
        for p in place[1]:
            if p[0] == '.': k = p[2]
            elif p[0] == '*': k = self.T[k].get('to')
            elif p[0] in ('[]', '[c]'): k = self.T[k].get('elem')
            elif p[0] == 'as': pass
            if k is None: return None
        return k

    # ------------------------------------------------------------------ operands, constants, rvalues
    def cval(self, k, v):
        t = self.T[k]; kd = self.kind(k)
        if 'bad' in v: return Poison('constant of type %s (%s)' % (t['s'], v['bad']))
        if 'zst' in v:
            if t['k'] == 'fndef': return FnVal(k)
            return Agg(k, [])
        if 'u' in v:
            n = int(v['u'])
            if kd == 'bool': return z3.BoolVal(n != 0)
            if kd == 'char': return bv(n, 32)
            return bv(n, t['bits'])
        if 'str' in v: return SBytes(bytes(v['str']))
        if 'ref' in v:
            to = t['to']
            x = v['ref']
            if self.T[to]['k'] == 'slice': return SRef(Agg(to, [self.cval(self.T[to]['elem'], e) for e in x['f']]))
            y = self.cval(to, x)
            return y if self.kind(to) == 'str' else SRef(y)
        if 'fn' in v: return Opq('fnptr', inst=v['fn'])
        if 'static' in v: return SRef(Opq('static', name=v['static'], ty=t.get('to'), fns=tuple(v.get('fns', ()))))
        if 'f' in v:
            if kd == 'array': return Agg(k, [self.cval(t['elem'], e) for e in v['f']])
            if kd == 'tuple': return Agg(k, [self.cval(e, x) for e, x in zip(t['elems'], v['f'])])
            if kd == 'struct': return Agg(k, [self.cval(ft, x) for (_, ft), x in zip(t['variants'][0]['fields'], v['f'])])
            if kd == 'enum':
                vi = v['v']
                return Enum(k, vi, {vi: [self.cval(ft, x) for (_, ft), x in zip(t['variants'][vi]['fields'], v['f'])]})
            if kd == 'unit': return Agg(k, [])
            if kd == 'string' : return Poison('String constant')
        if 'addr' in v and v.get('len') is not None and self.T[t.get('to', 0)]['k'] == 'slice' and v['len'] == 0:
            return SRef(Agg(t['to'], []))
        if 'addr' in v and v.get('len') == 0: return SBytes(b'')
        return Poison('constant of type %s %s' % (t['s'], list(v)))

    def op(self, st, fr, o):
        if o[0] in ('copy', 'move'):
            v = self.read(st, fr, o[1])
            if v is UNDEF:
                raise Unsupported('read of uninitialised place')
            return v
        if o[0] == 'const': return self.cval(o[1], o[2])
        if o[0] == 'rtc': return z3.BoolVal(False)
        raise Unsupported('operand')

    def op_ty(self, fr, o):
        if o[0] == 'const': return o[1]
        if o[0] in ('copy', 'move'): return self.place_ty(fr, o[1])
        return None

    def mkref(self, v, pointee):
        if isinstance(v, S) and pointee is not None and self.kind(pointee) == 'str': return v
        return SRef(v)

    def is_signed(self, k): return k is not None and self.T[k]['k'] == 'int'

    def is_float(self, k): return k is not None and self.T[k]['k'] == 'float'

    def binop(self, o, a, b, ta):
        if isinstance(a, (SRef, Ref, S, Poison)): raise Unsupported('binary op on %r' % (a,))
        sg = self.is_signed(ta)
        if self.is_float(ta):
            m = {'Add': 'fadd', 'Sub': 'fsub', 'Mul': 'fmul', 'Div': 'fdiv', 'Rem': 'frem'}
            if o in m: return fp.fbin(m[o], a, b)
            if o == 'Eq': return self.fcmp('eq', a, b)
            if o == 'Ne': return Not(self.fcmp('eq', a, b))
            if o == 'Lt': return self.fcmp('lt', a, b)
            if o == 'Le': return self.fcmp('le', a, b)
            if o == 'Gt': return self.fcmp('lt', b, a)
            if o == 'Ge': return self.fcmp('le', b, a)
            raise Unsupported('float ' + o)
        if isinstance(a, Agg) and not a.f and o in ('Eq', 'Ne'): return z3.BoolVal(o == 'Eq')
        if z3.is_bool(a):
            if o == 'BitAnd': return And(a, b)
            if o == 'BitOr': return Or(a, b)
            if o in ('BitXor', 'Ne'): return simp(z3.Xor(a, b))
            if o == 'Eq': return simp(a == b)
            if o == 'Lt': return And(Not(a), b)
            if o == 'Le': return Or(Not(a), b)
            if o == 'Gt': return And(a, Not(b))
            if o == 'Ge': return Or(a, Not(b))
            raise Unsupported('bool ' + o)
        o = o.replace('Unchecked', '')
        if o in ('Shl', 'Shr'):
            n = a.size()
            s = resize(b, n, False) if b.size() <= n else z3.Extract(n - 1, 0, b)
            s = simp(s & (n - 1))
            return simp(a << s) if o == 'Shl' else simp(a >> s if sg else z3.LShR(a, s))
        if o == 'Add': return simp(a + b)
        if o == 'Sub': return simp(a - b)
        if o == 'Mul': return simp(a * b)
        if o == 'Div': return simp(a / b if sg else z3.UDiv(a, b))
        if o == 'Rem': return simp(z3.SRem(a, b) if sg else z3.URem(a, b))
        if o == 'BitAnd': return simp(a & b)
        if o == 'BitOr': return simp(a | b)
        if o == 'BitXor': return simp(a ^ b)
        if o == 'Eq': return simp(a == b)
        if o == 'Ne': return simp(a != b)
        if o == 'Lt': return simp(a < b if sg else z3.ULT(a, b))
        if o == 'Le': return simp(a <= b if sg else z3.ULE(a, b))
        if o == 'Gt': return simp(a > b if sg else z3.UGT(a, b))
        if o == 'Ge': return simp(a >= b if sg else z3.UGE(a, b))
        raise Unsupported('binop ' + o)

    def fcmp(self, o, a, b):
        x, y = conc(a), conc(b)
        if x is not None and y is not None:
            x, y = fp.frombits(x), fp.frombits(y)
            return z3.BoolVal({'eq': x == y, 'lt': x < y, 'le': x <= y}[o])
        return {'eq': fp.feq, 'lt': fp.flt, 'le': fp.fle}[o](a, b)

    def overflow(self, o, a, b, sg):
        n = a.size()
        if o in ('Shl', 'Shr'):
            return simp(z3.UGE(b, bv(n, b.size()))) if b.size() >= 8 else z3.BoolVal(False)
        w = 2 * n if o == 'Mul' else n + 2
        e = (lambda x: z3.SignExt(w - n, x)) if sg else (lambda x: z3.ZeroExt(w - n, x))
        A, B = e(a), e(b)
        r = {'Add': A + B, 'Sub': A - B, 'Mul': A * B}[o]
        lo = z3.Extract(n - 1, 0, r)
        return simp(r != e(lo))

    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == 'use': return self.op(st, fr, r[1])
        if k == 'ref':
            pl = r[2]
            if r[1] == 'mut':
                lv = self.lval(st, fr, pl)
                if lv is None: raise Unsupported('&mut through shared reference')
                v = self.read_path(st, *lv)
                if isinstance(v, S) and self.place_ty(fr, pl) is not None and self.kind(self.place_ty(fr, pl)) == 'str': return v
                return Ref(*lv)
            v = self.read(st, fr, pl)
            return self.mkref(v, self.place_ty(fr, pl))
        if k == 'addr':
            pl = r[2]
            lv = self.lval(st, fr, pl)
            if lv is None or 'Const' in r[1]: return SRef(self.read(st, fr, pl))
            return Ref(*lv)
        if k == 'agg':
            kk = r[1]
            ops = [self.op(st, fr, o) for o in r[2]]
            if kk[0] == 'adt':
                if kk[3] is not None: raise Unsupported('union')
                t = self.T[kk[1]]
                if self.kind(kk[1]) == 'enum': return Enum(kk[1], kk[2], {kk[2]: ops})
                if self.kind(kk[1]) == 'unit': return Agg(kk[1], [])
                return Agg(kk[1], ops)
            if kk[0] in ('tuple', 'array', 'closure'): return Agg(kk[1] if len(kk) > 1 and kk[0] != 'array' else dty, ops)
            raise Unsupported('aggregate ' + kk[0])
        if k == 'bin':
            a, b = self.op(st, fr, r[2]), self.op(st, fr, r[3])
            ta = self.op_ty(fr, r[2])
            if r[1] == 'Cmp':
                sg = self.is_signed(ta)
                lt = simp(a < b if sg else z3.ULT(a, b)) if not z3.is_bool(a) else And(Not(a), b)
                return Enum(dty, If(lt, bv(0, 16), If(simp(a == b), bv(1, 16), bv(2, 16))), {0: [], 1: [], 2: []})
            return self.binop(r[1], a, b, ta)
        if k == 'cbin':
            a, b = self.op(st, fr, r[2]), self.op(st, fr, r[3])
            ta = self.op_ty(fr, r[2])
            return Agg(dty, [self.binop(r[1], a, b, ta), self.overflow(r[1], a, b, self.is_signed(ta))])
        if k == 'un':
            a = self.op(st, fr, r[2]); ta = self.op_ty(fr, r[2])
            if r[1] == 'Not': return Not(a) if z3.is_bool(a) else simp(~a)
            if r[1] == 'Neg': return fp.fneg(a) if self.is_float(ta) else simp(-a)
            if r[1] == 'PtrMetadata':
                if isinstance(a, S): return slen(a)
                if isinstance(a, SRef): return self.vlen(a.v)
                if isinstance(a, Ref): return self.vlen(self.read_path(st, a.root, a.path))
            raise Unsupported('unop ' + r[1])
        if k == 'cast':
            a = self.op(st, fr, r[2]); ta = self.op_ty(fr, r[2]); tt = self.T[r[3]]
            ck = r[1]
            if ck == 'IntToInt':
                if z3.is_bool(a): a = If(a, bv(1, 8), bv(0, 8))
                return resize(a, tt.get('bits', 32), self.is_signed(ta))
            if ck == 'IntToFloat':
                if tt['bits'] != 64: raise Unsupported('f32')
                return fp.i2f(a, self.is_signed(ta))
            if ck == 'FloatToInt':
                f = z3.Function('f2i_%s%d' % (tt['k'], tt['bits']), z3.BitVecSort(64), z3.BitVecSort(tt['bits']))
                return f(a)
            if ck.startswith('PointerCoercion') or ck in ('PtrToPtr', 'Subtype'): return a
            if ck == 'Transmute':
                src = self.T[ta] if ta is not None else {'k': '?'}
                if src['k'] in ('uint', 'int', 'char') and tt['k'] in ('uint', 'int', 'char') : return a
                if src['k'] == 'float' or tt['k'] == 'float':
                    if z3.is_bv(a): return a
                if self.T[r[3]]['s'] == (src.get('s')): return a
            raise Unsupported('cast %s to %s' % (ck, tt['s']))
        if k == 'discr':
            v = self.read(st, fr, r[1])
            if not isinstance(v, Enum): raise Unsupported('discriminant of %r' % (v,))
            t = self.T[v.ty]
            n = self.T[t['discr_ty']]['bits'] if 'discr_ty' in t else 64
            ds = [x['discr'] for x in t['variants']]
            if all(d == i for i, d in enumerate(ds)): return resize(v.v, n, False)
            e = bv(ds[0] & ((1 << n) - 1), n)
            for i, d in enumerate(ds):
                if i: e = If(simp(v.v == i), bv(d & ((1 << n) - 1), n), e)
            return simp(e)
        if k == 'len': return self.vlen(self.read(st, fr, r[1]))
        if k == 'repeat':
            v = self.op(st, fr, r[1])
            if r[2] is None or r[2] > 4096: raise Unsupported('repeat')
            return Agg(dty, [v] * r[2])
        raise Unsupported('rvalue ' + k)

    # ------------------------------------------------------------------ obligations and queries
    def oblige(self, st, prop, desc, goal, where='', weak=False):
        if is_true(goal): goal = z3.BoolVal(True)
        o = Obl(self.cx.fn, prop, desc, where, st.pc, goal, len(self.cx.facts))
        o.stack = list(self.stack)
        self.cx.obls.append(o)
        if not is_true(goal): self.cx.fact(Implies(And(*st.pc), goal))
        return o

    def valid(self, pc, goal, timeout=4000, model=False):
        if is_true(goal): return ('unsat', None) if model else True
        t = time.time()
        s = z3.Solver(); limit(s, timeout)
        for f in self.cx.facts: s.add(f)
        for p in pc: s.add(p)
        s.add(z3.Not(goal))
        r = s.check()
        self.qtime += time.time() - t; self.nq += 1
        if model: return str(r), (s.model() if r == z3.sat else None)
        return r == z3.unsat

    def feasible(self, pc, c):
        """False only when the solver shows that the branch cannot be taken."""
        t = time.time()
        if self.ps is None or self.ps[1] != id(self.cx) or self.ps[3] != self.cx.epoch:
            self.ps = [z3.Solver(), id(self.cx), 0, self.cx.epoch]
            limit(self.ps[0], 400)
        s = self.ps[0]
        if len(self.cx.facts) > self.ps[2]:
            if len(self.ps) > 4: s.pop(); del self.ps[4:]
            for f in self.cx.facts[self.ps[2]:]: s.add(f)
            self.ps[2] = len(self.cx.facts)
        if len(self.ps) > 4 and self.ps[4] is not pc: s.pop(); del self.ps[4:]
        if len(self.ps) == 4:
            s.push(); s.add(*pc); self.ps.append(pc)
        s.push()
        s.add(c)
        r = s.check()
        s.pop()
        self.qtime += time.time() - t; self.nq += 1
        return r != z3.unsat

    # ------------------------------------------------------------------ execution
    def where(self, line): return '%s:%s' % (self.P.I[self.stack[-1]]['file'] if self.stack else '?', line)

    def exec_inst(self, inst, args, st, multi=False):
        """Execute the body of an instance; returns (value, state) or None when no path returns."""
        i = self.P.I[inst]
        if self.depth > 40: raise Unsupported('call depth')
        if inst in self.stack and self.stack.count(inst) > 3: raise Unsupported('recursion in ' + i['name'])
        body = i['body']; cfg = self.P.cfg(inst)
        if not cfg.reducible: raise Unsupported('irreducible control flow in ' + i['name'])
        fr = Frame(next(_cnt), inst, body, cfg)
        self.depth += 1; self.stack.append(inst)
        try:
            st = st.fork()
            if body['spread'] is not None and len(args) == body['argc'] : pass
            for n, a in enumerate(args): st.mem[(fr.fid, n + 1)] = a
            outs = self.run(fr, set(cfg.rpo), 0, st, None)
            rets = [s for k, s in outs if k == 'ret']
            if not rets: return None
            out = Multi()
            for g in (by_tag(rets) if multi else [rets]):
                s = self.merge(g)
                v = self.read(s, fr, [0, []])
                for k in [k for k in s.mem if k[0] == fr.fid]: del s.mem[k]
                out.append((v, s))
            return out if multi else out[0]
        finally:
            self.depth -= 1; self.stack.pop()

    def run(self, fr, region, entry, st, header):
        pend = {entry: [st]}
        outs = []
        skip = set()

        def route(t, s):
            if t == 'ret': outs.append(('ret', s))
            elif t == header: outs.append(('back', s))
            elif t in region: pend.setdefault(t, []).append(s)
            else: outs.append((t, s))
        for b in fr.cfg.order:
            if b in skip or b not in pend: continue
            lv = fr.cfg.live_in[b]
            for x in pend[b]:
                for k in [k for k in x.mem if k[0] == fr.fid and k[1] not in lv]: del x.mem[k]
            for g in by_tag(pend.pop(b)):
                s = self.merge(g)
                if b in fr.cfg.loops and b != header:
                    L = fr.cfg.loops[b]
                    skip |= L
                    for t, s2 in self.run_loop(fr, L, b, s): route(t, s2)
                    continue
                for t, s2 in self.block(fr, b, s): route(t, s2)
        return outs

    def run_loop(self, fr, L, h, s):
        import loops
        return loops.run_loop(self, fr, L, h, s)

    def block(self, fr, b, st):
        bb = fr.cfg.blocks[b]
        st = st.fork()
        for x in bb['st']:
            if x[0] == '=':
                self.write(st, fr, x[1], self.assign(st, fr, x))
            elif x[0] == 'setdiscr':
                v = self.read(st, fr, x[1])
                if isinstance(v, Enum): self.write(st, fr, x[1], Enum(v.ty, x[2], v.p))
                else:
                    k = self.place_ty(fr, x[1]); self.write(st, fr, x[1], Enum(k, x[2], {x[2]: []}))
            elif x[0] == 'assume': pass
            else: raise Unsupported('statement ' + x[0])
        t = bb['t']; line = bb['line']
        k = t[0]
        if k == 'goto': return [(t[1], st)]
        if k == 'drop': return [(t[2], st)]
        if k == 'return': return [('ret', st)]
        if k == 'unreachable':
            self.oblige(st, 'C01', 'unreachable code', z3.BoolVal(False), self.where(line))
            return []
        if k == 'abort': return []
        if k == 'switch':
            e = self.op(st, fr, t[1])
            if isinstance(e, Poison): raise Unsupported('switch on ' + e.why)
            outs = []
            neg = []
            targets = {}
            for v, tb in t[2]:
                if z3.is_bool(e): c = e if int(v) else Not(e)
                else: c = simp(e == bv(int(v) & ((1 << e.size()) - 1), e.size()))
                neg.append(Not(c))
                targets.setdefault(tb, []).append(c)
            o = And(*neg)
            if z3.is_bool(e) and len(t[2]) == 1: o = Not(e) if int(t[2][0][0]) else e
            targets.setdefault(t[3], []).append(o)
            live = [(tb, Or(*cs)) for tb, cs in targets.items()]
            dead = [tb for tb, c in live if is_false(simp(c))]
            live = [(tb, simp(c)) for tb, c in live if tb not in dead]
            dead = [d for d in dead if d in fr.cfg.returns]
            if dead and getattr(self, 'loopstack', None):
                for L in self.loopstack:
                    if L['fr'] is fr and b in L['blocks'] and any(d not in L['blocks'] for d in dead) : L['conc'] = True
            # otherwise-unreachable targets
            live = [(tb, c) for tb, c in live if not self.trivially_unreachable(fr, tb, st, c)]
            if self.prune and len(live) > 1: live = [(tb, c) for tb, c in live if self.feasible(st.pc, c)]
            if len(live) == 1 and is_true(live[0][1]): return [(live[0][0], st)]
            if len(live) == 1: return [(live[0][0], st.fork(live[0][1]))]
            return [(tb, st.fork(c)) for tb, c in live]
        if k == 'assert':
            c = self.op(st, fr, t[1])
            if not t[2]: c = Not(c)
            self.oblige(st, 'C01', 'no panic: ' + t[3], simp(c), self.where(line))
            return [(t[4], st)]
        if k == 'call':
            args = [self.op(st, fr, a) for a in t[2]]
            f = t[1]
            if f[0] == 'const': fty = f[1]
            else:
                fv = self.op(st, fr, f)
                if isinstance(fv, FnVal): fty = fv.ty
                elif isinstance(fv, Opq) and fv.kind == 'fnptr' and 'alts' in fv.d:
                    outs = []
                    for g, fty in fv.alts:
                        g = simp(g)
                        if is_false(g) or self.prune and not self.feasible(st.pc, g): continue
                        r = self.call(st.fork(g), fr, fty, args, [self.op_ty(fr, a) for a in t[2]], self.place_ty(fr, t[3]), line)
                        for v, s2 in ((r if isinstance(r, Multi) else [r]) if r is not None and t[4] is not None else []):
                            self.write(s2, fr, t[3], v)
                            outs.append((t[4], s2))
                    return outs
                elif isinstance(fv, Opq) and fv.kind == 'fnptr': fty = ('inst', fv.inst)
                else: raise Unsupported('indirect call')
            atys = [self.op_ty(fr, a) for a in t[2]]
            r = self.call(st, fr, fty, args, atys, self.place_ty(fr, t[3]), line)
            if r is None or t[4] is None: return []
            outs = []
            for v, st in (r if isinstance(r, Multi) else [r]):
                self.write(st, fr, t[3], v)
                outs.append((t[4], st))
            return outs
        raise Unsupported('terminator ' + k)

    def assign(self, st, fr, x):
        try:
            return self.rvalue(st, fr, x[2], self.place_ty(fr, x[1]))
        except Unsupported as e:
            # a value the verifier cannot represent poisons what is computed from it; using it is an error
            if not x[1][1]: return Poison(str(e))
            raise

    def trivially_unreachable(self, fr, tb, st, c):
        bb = fr.cfg.blocks[tb]
        if bb['t'][0] == 'unreachable' and not bb['st']:
            # exhaustive matches: prove the branch impossible right away, else leave the obligation
            return self.valid(st.pc, Not(c), 2000)
        return False

    def call(self, st, fr, fty, args, atys, rty, line):
        if isinstance(fty, tuple):
            inst = fty[1]; name = self.P.I[inst]['def']; targs = self.P.I[inst]['args']
        else:
            t = self.T[fty]
            if t['k'] == 'closure': return self.call_closure(st, Agg(fty, []), args, line)
            name = t['name']; inst = t.get('inst'); targs = t['args']
            if t.get('ctor') is not None:
                vs = self.T[t['ctor']]['variants']
                vi = next(i for i, v in enumerate(vs) if v['name'] == name.split('::')[-1]) if len(vs) > 1 else 0
                if self.T[t['ctor']]['k'] == 'enum': return Enum(t['ctor'], bv(vi, 16), {vi: list(args)}), st
                return Agg(t['ctor'], list(args)), st
            if 'dflt' in t and self.models.get(name) is None and self.is_iter(st, args[0]):
                # a modelled iterator: the trait's default body (the documented meaning of every override)
                self.cx.models.add('default:' + name)
                return self.exec_inst(t['dflt'], args, st)
        rdef = self.P.I[inst]['def'] if inst is not None else name
        local = inst is not None and self.P.I[inst]['local']
        # contracts on the crate's own functions
        if local and self.contracts is not None:
            c = self.contracts.get(rdef)
            if c is not None and inst != self.root_inst:
                try:
                    r = c.apply(self, st, inst, args, rty, line)
                    self.cx.contracts.add(rdef)
                    return r
                except c.Mismatch as e:
                    self.cx.trace.append('contract of %s not applicable: %s' % (rdef, e))
        for nm in ((name, rdef) if not local else ()):
            m = self.models.get(nm)
            if m is not None:
                r = m(self, st, args, dict(name=nm, rdef=rdef, targs=targs, rty=rty, atys=atys, line=line, inst=inst))
                if r is NotImplemented: continue
                self.cx.models.add(nm)
                if r is NORETURN: return None
                if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], State): return r
                return r, st
        if not isinstance(fty, tuple) and 'shim' in self.T[fty]:
            self.cx.models.add('meaning of ' + name)
            return self.exec_inst(self.T[fty]['shim'], args, st)
        if name.startswith('std::ops::Fn') and len(args) == 2 and isinstance(args[1], Agg) and (inst is None or not self.models.get(rdef)):
            return self.call_fnval(st, args[0], args[1].f if isinstance(args[1], Agg) else args[1:], line)
        if inst is not None and 'body' in self.P.I[inst]:
            if local: self.cx.inlined.add(rdef)
            else: self.cx.trace.append('std:' + rdef); self.cx.models.add('body:' + rdef)
            return self.exec_inst(inst, args, st, multi=self.prune and local)
        # trait call on a closure: FnOnce::call_once etc.
        if name.startswith('std::ops::Fn') and args and isinstance(args[0], (Agg, SRef, FnVal, Ref)):
            return self.call_fnval(st, args[0], args[1].f if isinstance(args[1], Agg) else args[1:], line)
        raise Unsupported('call of %s (%s)' % (name, rdef))

    def is_iter(self, st, v):
        while isinstance(v, (SRef, Ref)):
            v = v.v if isinstance(v, SRef) else self.read_path(st, v.root, v.path)
        return isinstance(v, Opq) and v.kind == 'it'

    def call_fnval(self, st, f, args, line=0):
        """Call a closure / fn item value with plain arguments."""
        v = f
        while isinstance(v, (SRef, Ref)):
            v = v.v if isinstance(v, SRef) else self.read_path(st, v.root, v.path)
        if isinstance(v, FnVal):
            t = self.T[v.ty]
            if t['k'] == 'closure': return self.call_closure(st, f, args, line)
            inst = t.get('inst')
            rty = self.P.I[inst]['body']['locals'][0] if inst is not None and 'body' in self.P.I[inst] else None
            if t['name'] and rty is None and inst is not None:
                # tuple struct / variant constructors and modelled functions
                rty = self.ret_ty(inst)
            return self.call(st, None, v.ty, list(args), [None] * len(args), rty, line)
        if isinstance(v, Opq) and v.kind == 'fnptr' and 'inst' in v.d:
            return self.call(st, None, ('inst', v.inst), list(args), [None] * len(args), None, line)
        if isinstance(v, Agg) and v.ty is not None and self.T[v.ty]['k'] == 'closure':
            return self.call_closure(st, f, args, line)
        raise Unsupported('call of value %r' % (v,))

    def ret_ty(self, inst): return None

    def call_closure(self, st, f, args, line):
        # the reference to the closure itself, through any references to references
        while isinstance(f, (SRef, Ref)):
            v = f.v if isinstance(f, SRef) else self.read_path(st, f.root, f.path)
            if not isinstance(v, (SRef, Ref)): break
            f = v
        v = f
        while isinstance(v, (SRef, Ref)):
            v = v.v if isinstance(v, SRef) else self.read_path(st, v.root, v.path)
        ty = v.ty
        inst = self.T[ty].get('inst')
        if inst is None or 'body' not in self.P.I[inst]: raise Unsupported('closure body')
        body = self.P.I[inst]['body']
        envt = self.T[body['locals'][1]]
        if isinstance(v, FnVal): v = Agg(ty, [])
        if envt['k'] == 'ref':
            if envt['mut']:
                if isinstance(f, Ref): env = f
                else:
                    root = ('h', next(_cnt)); st.mem[root] = v; env = Ref(root)
            else: env = SRef(v)
        else: env = v
        return self.exec_inst(inst, [env] + list(args), st)


def fn_alts(v):
    if isinstance(v, FnVal): return ((z3.BoolVal(True), v.ty),)
    return v.alts if 'alts' in v.d else ((z3.BoolVal(True), ('inst', v.inst)),)


NORETURN = object()
