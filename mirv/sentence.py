"""Contracts of NmeaParser::parse_sentence and gnss::gsv::handle: the functions that own the parser state."""
import time, z3
from vals import *
from engine import State
from strs import *
import strs, models, spec, loops
from models import bval, parse, res, opt, dv, setref, vempty, vpush, bempty
import contracts as K
from contracts import (C, Handler, StateHandler, fld, vfld, xor, unfold_xor, badp_, pbits_, payload_facts, coerce, enumv, adt, variant,
                       map_of, with_map, key_term, roles, unchanged, flat, Mismatch)

B64 = K.B64
COMMA = bv(44, 32)


KEYS = {'gnss::gsv::make_gsv_key': (0, 1, 2), 'util::make_fragment_key': (0, 2, 3, 1, 4)}   # order of the arguments in the key


def call_local(m, st, path, args):
    """The value of one of the crate's pure functions (its own body), used inside a specification."""
    ks = m.P.by_def.get('nmea_parser::' + path)
    ks = [k for k in ks or () if m.P.I[k]['body']['argc'] == len(args)]
    if not ks:
        # the helper is gone (inlined, say): its pinned text stands in; a mismatch with it is then no verdict
        m.cx.guess = 'function %s not found' % path
        o = KEYS[path]
        return scat(*[x for n, k in enumerate(o) for x in ([lit(',')] if n else []) + [models.atom(args[k]) if isinstance(args[k], S) else strs.disp_uint(args[k])]])
    n = len(m.cx.obls)
    r = m.exec_inst(ks[0], args, st)
    del m.cx.obls[n:]
    return r[0]


def put(v, k, x): return v.upd(has=z3.Store(v.has, k, z3.BoolVal(True)), val=z3.Store(v.val, k, x), cnt=simp(If(z3.Select(v.has, k), v.cnt, v.cnt + 1)))


def drop(v, k): return v.upd(has=z3.Store(v.has, k, z3.BoolVal(False)), cnt=simp(If(z3.Select(v.has, k), v.cnt - 1, v.cnt)))


# ------------------------------------------------------------------ GSV
class Gsv(StateHandler):
    props = ('C18',)

    def setup(self, m, st, inst):
        a = C.setup(self, m, st, inst)
        self.sp = GsvSpec(m, st, a)
        return a

    def ensures(self, m, pre, st, a, v, rty):
        self.never_corrupted(m, st, v, rty)
        sp = self.sp
        p1 = dv(m, st, sp.ref)
        ety = m.T[rty]['args'][1]; pst = m.T[rty]['args'][0]
        inv = And(simp(v.v == 1), simp(v.p[1][0].v == variant(m, ety, 'InvalidSentence'))) if 1 in v.p else z3.BoolVal(False)
        m.oblige(st, 'C18', 'a malformed part count or number makes the sentence invalid', Implies(sp.bad, inv))
        m.oblige(st, 'C18+C24', 'an invalid part leaves the parser state unchanged', Implies(sp.bad, unchanged(m, sp.p0, p1)))
        if 0 not in v.p: raise Unsupported('handler never succeeds')
        x = v.p[0][0]
        inc, gsv = variant(m, pst, 'Incomplete'), variant(m, pst, 'Gsv')
        new = map_of(m, p1, 'gsv')
        if 'static' in roles(m, p1): m.oblige(st, 'C24+C18', 'static data memory is untouched', unchanged(m, with_map(m, sp.p0, 'gsv', new), p1))
        g = Not(sp.bad)
        miss = And(g, Not(sp.done))
        m.oblige(st, 'C18', 'while parts are missing the result is Incomplete', Implies(miss, And(simp(v.v == 0), simp(x.v == inc))))
        m.oblige(st, 'C18', 'while parts are missing the part is remembered under (type, count, number) and nothing else changes',
                 Implies(miss, And(simp(new.has == sp.s1.has), self.same(m, sp.s1, new))))
        full = And(g, sp.done)
        m.oblige(st, 'C18', 'when all parts 1..count are present the result is a Gsv list', Implies(full, And(simp(v.v == 0), simp(x.v == gsv))))
        if gsv in x.p:
            m.oblige(st, 'C18', 'the list is the satellites of parts 1..count in order, at most four per part', Implies(full, x.p[gsv][0].t == sp.coll(sp.count)))
        m.oblige(st, 'C18', 'the parts used are forgotten and nothing else changes', Implies(full, And(simp(new.has == sp.rem(sp.count)), self.same(m, sp.s1, new))))

    def same(self, m, a, b):
        if z3.eq(a.val, b.val): return z3.BoolVal(True)
        k = z3.Const(m.name('other_part'), a.has.sort().domain())
        return Implies(z3.Select(b.has, k), z3.Select(a.val, k) == z3.Select(b.val, k))

    def templates(self, args, m, fr, cands, moving, hv, entry, s):
        sp = self.sp
        if not sp.ready: return
        L = loops.leaves
        # the number of completed rounds, read off the loop's own range or counter
        rounds = []
        for k, v in hv.items():
            for q, it in loops.iters(v):
                if isinstance(it, Agg) and it.f[0].size() == 32:
                    if len(it.f) == 3: rounds.append(lambda g, k=k, q=q: If(g(k, q + (2,)), g(k, q + (1,)), g(k, q + (0,)) - 1))
                    else: rounds.append(lambda g, k=k, q=q: g(k, q + (0,)) - 1)
        for k, p in moving:
            x = L(hv[k])[p]
            if z3.is_bv(x) and x.size() == 32 and p == (): rounds.append(lambda g, k=k, p=p: g(k, p) - 1); rounds.append(lambda g, k=k, p=p: g(k, p))
        inr = lambda r: z3.ULE(r, sp.count)
        for n, rd in enumerate(rounds):
            cands.append(('rounds <= count', lambda g, rd=rd: inr(rd(g))))
            def f5(g, rd=rd):
                r = rd(g); sp.unfold(r)
                return sp.all(r)
            cands.append(('parts 1..rounds are all present', f5))
            for k, p in moving:
                x = L(hv[k])[p]
                if z3.is_bv(x) and x.size() in (32, 64) and p[-1:] != ('tag',):
                    def f(g, rd=rd, k=k, p=p):
                        r = rd(g); sp.unfold(r); c = resize(g(k, p), 64, False); r64 = resize(r, 64, False)
                        return And(z3.ULE(c, r64), (c == r64) == sp.all(r))
                    cands.append(('found = rounds iff parts 1..rounds are all present', f))
                if z3.is_bool(x):
                    def f4(g, rd=rd, k=k, p=p):
                        r = rd(g); sp.unfold(r)
                        return g(k, p) == sp.all(r)
                    cands.append(('flag = parts 1..rounds are all present', f4))
                    cands.append(('flag = a part of 1..rounds is missing', lambda g, f4=f4: Not(f4(g))))
                if z3.is_expr(x) and z3.is_array(x) and p[-1:] == ('has',):
                    def f2(g, rd=rd, k=k, p=p):
                        r = rd(g); sp.unfold(r)
                        return g(k, p) == sp.rem(r)
                    cands.append(('parts 1..rounds are removed', f2))
                if z3.is_expr(x) and x.sort() == sp.vsort:
                    def f3(g, rd=rd, k=k, p=p):
                        r = rd(g); sp.unfold(r)
                        return g(k, p) == sp.coll(r)
                    cands.append(('list = satellites of parts 1..rounds', f3))


def def_gsv0(has, all_, rem): return [all_(bv(0, 32)), rem(bv(0, 32)) == has]


def def_gsv(has, all_, rem, count, k, kk):
    """Definition of 'parts 1..k are all present' and 'parts 1..k removed' from k to k+1; kk is the key of part k+1."""
    k1 = simp(k + 1)
    return [Implies(z3.ULT(k, count), And(all_(k1) == And(all_(k), z3.Select(has, kk)), rem(k1) == z3.Store(rem(k), kk, z3.BoolVal(False))))]


def lem_gsv(has, all_, rem, count, k, kk):
    """Lemmas, proved by induction in lemmas.py: if all parts are present each one is; removing parts 1..k leaves part k+1 alone."""
    return [Implies(And(all_(count), z3.ULT(k, count)), z3.Select(has, kk)),
            Implies(z3.ULT(k, count), z3.Select(rem(k), kk) == z3.Select(has, kk))]


class GsvSpec:
    """Recursive specification of one GSV step from parser state p0."""

    def __init__(self, m, st, a):
        self.m = m
        self.body = next(dv(m, st, x) for x in a if isinstance(dv(m, st, x), S))
        self.nav = next(x for x in a if isinstance(x, Enum))
        self.ref = next(x for x in a if isinstance(x, Ref))
        self.p0 = dv(m, st, self.ref)
        self.st = st
        self.ready = False
        t = fld(self.body, 0); c, n = fld(self.body, 1), fld(self.body, 2)
        (co, cv), (no, nv) = parse(c, 'u32'), parse(n, 'u32')
        ce, ne = simp(slen(c) == 0), simp(slen(n) == 0)
        self.bad = Or(And(Not(ce), Not(co)), And(Not(ne), Not(no)))
        self.count = If(ce, bv(0, 32), cv); self.num = If(ne, bv(0, 32), nv)
        self.t = t
        old = self.old = map_of(m, self.p0, 'gsv')
        self.s1 = put(old, self.key(self.num), sterm(self.body))
        dat = adt(m, 'GsvData')
        self.dat = dat
        self.vty = next(k for k, x in enumerate(m.T) if x['k'] == 'struct' and x['s'].endswith('Vec<%s>' % m.T[dat]['s']) and m.kind(k) == 'vec')
        self.vsort = m.sort(self.vty)
        hs, vs, ts = self.s1.has.sort(), self.s1.val.sort(), Str
        B32 = z3.BitVecSort(32)
        self.f_all = z3.Function('gsv_all', hs, ts, B32, B32, z3.BoolSort())
        self.f_rem = z3.Function('gsv_removed', hs, ts, B32, B32, hs)
        self.f_coll = z3.Function('gsv_list', vs, ts, B32, B32, self.vsort)
        self.f_kn = z3.Function('gsv_key_number', hs.domain(), B32)
        self.ready = True
        self.done = self.all(self.count)
        self.unfold(bv(0, 32)); self.unfold(self.count, False)

    def key(self, i): return key_term(self.m, self.old, call_local(self.m, self.st, 'gnss::gsv::make_gsv_key', [self.t, self.count, i]))

    def all(self, k): return self.f_all(self.s1.has, sterm(self.t), self.count, simp(k))

    def rem(self, k): return self.f_rem(self.s1.has, sterm(self.t), self.count, simp(k))

    def coll(self, k): return self.f_coll(self.s1.val, sterm(self.t), self.count, simp(k))

    def unfold(self, k, step=True):
        m = self.m
        k = simp(k); k1 = simp(k + 1)
        z = bv(0, 32)
        kk = self.key(k1)
        Facts.add(('gsv0', self.all(z)), *def_gsv0(self.s1.has, self.all, self.rem), self.coll(z) == vempty(m, self.vty).t)
        Facts.add(('gsv', self.all(k)),
                  self.f_kn(kk) == k1,       # the key determines the part number (obligation of make_gsv_key)
                  *def_gsv(self.s1.has, self.all, self.rem, self.count, k, kk),
                  Implies(z3.ULT(k, self.count), self.coll(k1) == self.app4(self.coll(k), SVar(z3.Select(self.s1.val, kk)))),
                  *lem_gsv(self.s1.has, self.all, self.rem, self.count, k, kk))

    def app4(self, v, s):
        m = self.m
        vec = Opq('vec', t=v, elem=self.dat)
        fs = m.T[self.dat]['variants'][0]['fields']
        B = K.SymB(m, sentence=s)
        for j in range(4):
            b = 4 + 4 * j
            prn = B.soft_num(b, 'u8')
            d = dict(source=self.nav, prn_number=prn.p[1][0] if 1 in prn.p else bv(0, 8), elevation=B.soft_num(b + 1, 'u8'), azimuth=B.soft_num(b + 2, 'u16'),
                     snr=B.soft_num(b + 3, 'u8'))
            if set(d) != {f[0] for f in fs}: raise Unsupported('GsvData fields differ from the specification')
            rec = Agg(self.dat, [coerce(m, d[n], t) for n, t in fs])
            vec = m.merge_val(simp(prn.v == 1), vpush(m, vec, rec), vec)
        return vec.t


# ------------------------------------------------------------------ parse_sentence
CASES = ['any', 'other', 'gnss', 'ais', 'VDM', 'VDO', 'VDM1', 'VDO1', 'VDM21', 'VDO21', 'VDM22', 'VDO22']


class Sentence(C):
    """NmeaParser::parse_sentence, by cases on the sentence.  The first case ('any') assumes nothing and carries absence
    of panics, the checksum and the missing comma; every other case assumes an ASCII sentence with a comma and a checksum that
    is absent or right, and what its name says.  Each case is a full run over all of its inputs."""
    props = ('C02', 'C03', 'C16', 'C24')
    cases = tuple((k, star) for k in CASES for star in (True, False))

    def setup(self, m, st, inst):
        kind, star = self.case
        a = C.setup(self, m, st, inst)
        self.ref = next(x for x in a if isinstance(x, Ref))
        s = next(dv(m, st, x) for x in a if isinstance(dv(m, st, x), S))
        m.cx.fact(z3.ULT(slen(s), bv(strs.LIM - 2, 64)))
        self.s = s
        Facts.fix(has_(sterm(s), bv(42, 32)), z3.BoolVal(star))
        p = rpos(s, bv(42, 32))
        self.body = b = ssub(s, bv(0, 64), p) if star else s
        self.given = ssub(s, simp(p + 1), slen(s)) if star else lit('')
        self.A = z3.Bool('sentence_is_ascii')
        if kind != 'any': Facts.fix(self.A, z3.BoolVal(True)); self.A = z3.BoolVal(True)
        for k in range(8): self.ascii(bv(k, 64))
        m.cx.fact(Implies(self.A, nchars(b) == slen(b)))
        n = slen(b)
        ck = If(simp(n == 0), bv(0, 8), xor(b, bv(1, 64), n))
        unfold_xor(b, bv(1, 64), bv(1, 64))
        hx = SBytes([hexdigit(z3.Extract(7, 4, ck)), hexdigit(z3.Extract(3, 0, ck))])
        self.bad = And(Not(simp(slen(self.given) == 0)), Not(seq(hx, self.given)))
        if kind == 'any': return a
        m.prune = True
        m.cx.fact(Not(self.bad))
        h = has(b, COMMA); fp_ = fpos(b, COMMA)
        Facts.fix(h, z3.BoolVal(True))
        t = sterm(s)
        tl = fpos_(sterm(b), COMMA)
        at = lambda k: byte_(t, bv(k, 64))
        if kind == 'other':
            m.cx.fact(Or(z3.UGT(tl, bv(6, 64)), And(z3.ULT(bv(0, 64), tl), at(0) != 36, at(0) != 33), tl == 0))
            return a
        Facts.fix(tl, bv(6, 64))
        m.cx.fact(z3.ULT(bv(6, 64), slen(b)))
        # the first comma is at 6: none before
        for k in range(6): m.cx.fact(at(k) != 44)
        first = 36 if kind == 'gnss' else 33
        Facts.fix(at(0), bv(first, 8))
        # the sentence is ASCII, so the type's characters are its bytes
        for x in (b, ssub(b, bv(0, 64), bv(6, 64))): Facts.fix(chr_(sterm(x), bv(0, 64)), bv(first, 32))
        if kind == 'gnss': return a
        if kind == 'ais':
            m.cx.fact(Not(Or(*[And(*[at(3 + k) == ord(c) for k, c in enumerate(x)]) for x in ('VDM', 'VDO')])))
            return a
        for k, c in enumerate(kind[:3]): Facts.fix(at(3 + k), bv(ord(c), 8))
        self.header()
        n = kind[3:]
        if n == '':
            m.cx.fact(Or(self.malformed, And(self.cnt != 1, self.cnt != 2),
                         And(self.cnt == 2, Or(Not(self.hasid), And(self.num != 1, self.num != 2)))))
            return a
        m.cx.fact(Not(self.malformed))
        m.cx.fact(self.present(1)); m.cx.fact(self.cnt == int(n[0]))
        if n == '1': return a
        m.cx.fact(self.present(2)); m.cx.fact(self.num == int(n[1])); m.cx.fact(self.hasid)
        return a

    def present(self, k): return simp(z3.ULT(bv(k, 64), nfields(self.body, COMMA)))

    def header(self):
        b = self.body
        self.F = F = [fld(b, k) for k in range(6)]
        (o1, cnt), (o2, num), (o3, self.mid) = parse(F[1], 'u8'), parse(F[2], 'u8'), parse(F[3], 'u64')
        self.malformed = Or(And(self.present(1), Not(o1)), And(self.present(2), Not(o2)))
        self.cnt = If(self.present(1), cnt, bv(0, 8)); self.num = If(self.present(2), num, bv(0, 8))
        self.hasid = And(self.present(3), o3)

    def ascii(self, j):
        b = self.body
        Facts.add(('ascii', j), Implies(And(self.A, z3.ULT(j, slen(b))), And(z3.ULT(sbyte(b, j), bv(128, 8)), schar(b, j) == z3.ZeroExt(24, sbyte(b, j)))))

    def peel(self, m, fr, h, s):
        for k, v in s.mem.items():
            if k[0] == fr.fid and isinstance(v, Opq) and v.kind == 'it' and v.src.kind == 'split' and conc(v.i) == 0: return 7
            if k[0] == fr.fid and isinstance(v, Opq) and v.kind == 'it' and v.src.kind == 'enum' and v.src.src.kind == 'split' and conc(v.i) == 0: return 7
        return 0

    def templates(self, args, m, fr, cands, moving, hv, entry, s):
        L = loops.leaves
        b = self.body
        accs = [(k, p) for k, p in moving if z3.is_bv(L(hv[k])[p]) and L(hv[k])[p].size() == 8]
        cs = [(k, p) for k, p in moving if z3.is_bv(L(hv[k])[p]) and L(hv[k])[p].size() == 64]
        for k, p in accs:
            for k2, p2 in cs:
                for off in (0, 1):
                    def f(g, k=k, p=p, k2=k2, p2=p2, off=off):
                        c = simp(g(k2, p2) + off)
                        self.ascii(c); unfold_xor(b, bv(1, 64), c)
                        return Implies(self.A, g(k, p) == If(simp(c == 0), bv(0, 8), xor(b, bv(1, 64), c)))
                    cands.append(('checksum = xor of the characters 1..pos', f))

    def O(self, m, st, prop, desc, g, goal):
        """goal is a thunk; where the path and the guard exclude each other nothing else is left to prove."""
        if not m.prune: return m.oblige(st, prop, desc, Implies(g, goal()))
        k = (id(st), g.get_id())
        if k not in self.feas:
            # where the solver has been slow for long the guard simply stays in the obligation
            t = time.time()
            self.feas[k] = (self.asked > 45 or m.feasible(st.pc, g), g, st)
            self.asked += time.time() - t
        if not self.feas[k][0]:
            o = m.oblige(st, prop, desc, z3.BoolVal(True)); o.goal = Implies(g, z3.BoolVal(False)); o.done = True
            return
        m.oblige(st, prop, desc, Implies(g, goal()))

    def ensures(self, m, pre, st, a, v, rty):
        self.feas = getattr(self, 'feas', {}); self.asked = getattr(self, 'asked', 0)
        kind, star = self.case
        ety, pst = m.T[rty]['args'][1], m.T[rty]['args'][0]
        p0, p1 = dv(m, pre, self.ref), dv(m, st, self.ref)
        A, bad, b = self.A, self.bad, self.body
        err = lambda n: lambda: And(simp(v.v == 1), simp(v.p[1][0].v == variant(m, ety, n))) if 1 in v.p else z3.BoolVal(False)
        same = lambda x, y: lambda: unchanged(m, x, y)
        O = lambda prop, desc, g, goal: self.O(m, st, prop, desc, g, goal)
        T = z3.BoolVal(True)
        if kind == 'any':
            O('C02', 'a sentence whose checksum does not match is rejected as corrupted', And(A, bad), err('CorruptedSentence'))
            O('C02+C24', 'a corrupted sentence leaves the parser state unchanged', And(A, bad), same(p0, p1))
            none_ = And(A, Not(bad), Not(has(b, COMMA)))
            O('C02+C03', 'a sentence with a right (or no) checksum but no comma is invalid', none_, err('InvalidSentence'))
            O('C24', 'a sentence without a comma leaves the parser state unchanged', none_, same(p0, p1))
            return
        # handlers are functions of their arguments; none of them reports corruption (obligation of each handler)
        uns = lambda g: (O('C03', 'an unknown sentence type is unsupported', g, err('UnsupportedSentenceType')),
                         O('C24', 'an unsupported sentence type leaves the parser state unchanged', g, same(p0, p1)))
        if kind in ('other', 'ais'): return uns(T)
        code = lambda t: And(*[simp(sbyte(b, 3 + k) == ord(c)) for k, c in enumerate(t)])
        two = lambda t: And(*[simp(sbyte(b, 1 + k) == ord(c)) for k, c in enumerate(t)])
        if kind == 'gnss':
            nav = self.pick(m, 'NavigationSystem', spec.TALKERS, two)
            known = []
            for n in list(spec.GNSS) + ['gsv']:
                g = code(n.upper()); known.append(g)
                h = K.TABLE['nmea_parser::gnss::%s::handle' % n]
                if n == 'gsv':
                    cv = lambda h=h: h.whole(m, [b, nav, self.ref], pre, rty)
                    O('C03+C18', 'a $--GSV sentence gives what the GSV handler gives for the body, the talker and the state', g, lambda: K.app_eq(m, v, cv()[0]))
                    O('C18+C24', 'a $--GSV sentence updates the state as the GSV handler does', g, lambda: unchanged(m, p1, cv()[1]))
                else:
                    O('C03', 'a $--%s sentence gives what the %s handler gives for the body and the talker' % (n.upper(), n.upper()), g, lambda h=h: K.app_eq(m, v, h.call_value(m, [b, nav], pre, rty)))
                    O('C24', 'a $--%s sentence leaves the parser state unchanged' % n.upper(), g, same(p0, p1))
            return uns(Not(Or(*known)))
        station = self.pick(m, 'Station', spec.STATIONS, two)
        typ = '!' + kind[:3]
        own = z3.BoolVal(kind[:3] == 'VDO')
        F = self.F
        inc = lambda: And(simp(v.v == 0), simp(v.p[0][0].v == variant(m, pst, 'Incomplete'))) if 0 in v.p else z3.BoolVal(False)
        n = kind[3:]
        if n == '':
            mal = self.malformed
            O('C16+C03', 'a malformed fragment count or number makes the sentence invalid', mal, err('InvalidSentence'))
            O('C24+C16', 'a malformed fragment header leaves the parser state unchanged', mal, same(p0, p1))
            O('C16', 'a message of neither one nor two fragments, or a fragment without message id or with a number other than 1 and 2, gives nothing', Not(mal), inc)
            O('C16+C24', 'a message of neither one nor two fragments, or a fragment without message id or with a number other than 1 and 2, leaves the parser state unchanged',
              Not(mal), same(p0, p1))
            return
        if n == '1': return self.decode(m, pre, st, v, rty, T, F[5], p0, p1, station, own, inc, err, 'C03', 'single-fragment')
        i = int(n[1]) - 1
        mf = map_of(m, p0, 'frag')
        kk = [key_term(m, mf, call_local(m, pre, 'util::make_fragment_key', [lit(typ), self.mid, bv(2, 8), bv(j, 8), F[4]])) for j in (1, 2)]
        other = z3.Select(mf.has, kk[1 - i])
        wait, go = Not(other), other
        O('C16', 'fragment %d whose counterpart is not pending gives Incomplete' % (i + 1), wait, inc)
        O('C16+C24', 'fragment %d whose counterpart is not pending is remembered under (type, count, number, id, channel), nothing else changes' % (i + 1),
          wait, same(with_map(m, p0, 'frag', put(mf, kk[i], sterm(F[5]))), p1))
        oth = SVar(z3.Select(mf.val, kk[1 - i]))
        pay = scat(F[5], oth) if i == 0 else scat(oth, F[5])
        p2 = with_map(m, p0, 'frag', drop(mf, kk[1 - i]))
        self.decode(m, pre, st, v, rty, go, pay, p2, p1, station, own, inc, err, 'C16', 'fragment %d completing' % (i + 1))

    def pick(self, m, ty, tbl, two):
        t = adt(m, ty); r = bv(variant(m, t, 'Other'), 16)
        for k, n in tbl.items(): r = If(two(k), bv(variant(m, t, n), 16), r)
        return Enum(t, r, {i: [] for i in range(len(m.T[t]['variants']))})

    def decode(self, m, pre, st, v, rty, g, pay, p0, p1, station, own, inc, err, prop, what):
        O = lambda pr, desc, gg, goal: self.O(m, st, pr, what + ': ' + desc, gg, goal)
        t = sterm(pay)
        payload_facts(pay, bv(0, 64))
        bad = badp_(t)
        same = lambda: unchanged(m, p0, p1)
        also = '' if prop == 'C03' else '+C03'
        O(prop + '+C04', 'a payload outside the alphabet is never decoded', And(g, bad), inc)
        O(prop + '+C24', 'an undecodable payload only consumes the pending counterpart', And(g, bad), same)
        b = pbits_(t)
        mt = bval(b, 0, 6)
        known = []
        g2 = And(g, Not(bad))
        for n in sorted(set(spec.AIS_BY_TYPE.values())):
            c = Or(*[simp(mt == k) for k, x in spec.AIS_BY_TYPE.items() if x == n]); known.append(c)
            h = K.TABLE.get('nmea_parser::ais::%s::handle' % n)
            if h is None: raise Unsupported('no contract for ' + n)
            if isinstance(h, StateHandler):
                root = ('h', 'spec%d' % len(pre.mem)); s3 = State(dict(pre.mem), pre.pc); s3.mem[root] = p0
                cv = lambda h=h: h.whole(m, [b, station, own, Ref(root)], s3, rty)
                O(prop + '+C17', 'a type 24 message gives what its handler gives for bits, station, own-vessel flag and state', And(g2, c), lambda: K.app_eq(m, v, cv()[0]))
                O(prop + '+C17+C24', 'a type 24 message updates the state as its handler does', And(g2, c), lambda: unchanged(m, p1, cv()[1]))
            else:
                O(prop + also, 'messages decoded by %s give what it gives for bits, station and own-vessel flag' % n, And(g2, c), lambda h=h: K.app_eq(m, v, h.call_value(m, [b, station, own], pre, rty)))
                O(prop + '+C24', 'messages decoded by %s leave the rest of the state unchanged' % n, And(g2, c), same)
        oth = And(g2, Not(Or(*known)))
        O(prop + also, 'any other message type is unsupported', oth, err('UnsupportedSentenceType'))
        O(prop + '+C24', 'an unsupported message type leaves the rest of the state unchanged', oth, same)


class T19(Handler):
    props = ('C03',)

    def ensures(self, m, pre, st, a, v, rty):
        e = And(simp(v.v == 1), simp(v.p[1][0].v == variant(m, m.T[rty]['args'][1], 'UnsupportedSentenceType'))) if 1 in v.p else z3.BoolVal(False)
        m.oblige(st, 'C03', 'type 19 is always unsupported', e)


def contracts():
    t24 = K.TABLE['nmea_parser::ais::vdm_t24::handle']
    return [Gsv('gnss::gsv::handle'), T19('ais::vdm_t19::handle'), Sentence('NmeaParser::parse_sentence')]
