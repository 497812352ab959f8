"""Lemmas about the recursive specification functions, proved by induction.  Each one is the very formula the contracts use
(lem_* in contracts.py and sentence.py); its induction uses only the defining equations (def_*)."""
import z3, time
from vals import *
from strs import *
import strs, models
import contracts as K, sentence as G


def val_bound():
    """bits_val(b, i, k) < 2^k for k < 64."""
    b, i, k = z3.Const('b', models.Bits), z3.BitVec('i', 64), z3.BitVec('k', 64)
    P = lambda x: K.lem_val(b, i, simp(x))
    yield 'base', K.def_val(b, i, bv(0, 64)), P(bv(0, 64))
    yield 'step', K.def_val(b, i, k) + [P(k), z3.ULT(k, bv(64, 64))], P(k + 1)


def text_stop():
    """stopped(k) and k <= n give stopped(n) and text(n) = text(k): induction on n from k."""
    b, i, k, n = z3.Const('b', models.Bits), z3.BitVec('i', 64), z3.BitVec('k', 64), z3.BitVec('n', 64)
    P = lambda x: K.lem_stop(b, i, k, simp(x))
    yield 'base', [], P(k)
    yield 'step', K.def_txt(b, i, n) + [P(n), z3.ULE(k, n), n + 1 != 0], P(n + 1)


def gsv_world():
    hs = z3.ArraySort(Str, z3.BoolSort())
    B = z3.BitVecSort(32)
    a, r, key, kn = z3.Function('all', B, z3.BoolSort()), z3.Function('rem', B, hs), z3.Function('key', B, Str), z3.Function('kn', Str, B)
    has, count = z3.Const('has', hs), z3.BitVec('count', 32)
    return a, r, key, kn, has, count


def gsv_present():
    """all(count) and k < count give part k+1 present.  Induction on n <= count of: all(n) and k < n give part k+1 present."""
    a, r, key, kn, has, count = gsv_world()
    n, k = z3.BitVec('n', 32), z3.BitVec('k', 32)
    P = lambda x: Implies(And(a(x), z3.ULT(k, x)), z3.Select(has, key(simp(k + 1))))
    yield 'base', G.def_gsv0(has, a, r), P(bv(0, 32))
    yield 'step', G.def_gsv(has, a, r, count, n, key(simp(n + 1))) + [P(n), z3.ULT(n, count)], P(simp(n + 1))
    yield 'use', [P(count)], G.lem_gsv(has, a, r, count, k, key(simp(k + 1)))[0]


def gsv_removed():
    """Removing parts 1..k leaves every later part alone.  Induction on j of: j < m <= count gives rem(j) at part m = has at part m."""
    a, r, key, kn, has, count = gsv_world()
    j, m, k = z3.BitVec('j', 32), z3.BitVec('m', 32), z3.BitVec('k', 32)
    P = lambda x, y: Implies(And(z3.ULT(x, y), z3.ULE(y, count)), z3.Select(r(x), key(y)) == z3.Select(has, key(y)))
    inj = [kn(key(simp(j + 1))) == simp(j + 1), kn(key(m)) == m]
    yield 'base', G.def_gsv0(has, a, r), P(bv(0, 32), m)
    yield 'step', G.def_gsv(has, a, r, count, j, key(simp(j + 1))) + inj + [P(j, m), z3.ULT(j, count)], P(simp(j + 1), m)
    yield 'use', [P(k, simp(k + 1))], G.lem_gsv(has, a, r, count, k, key(simp(k + 1)))[1]


LEMMAS = {'val_bound': (val_bound, 'C05'), 'text_stop': (text_stop, 'C06'), 'gsv_present': (gsv_present, 'C18'), 'gsv_removed': (gsv_removed, 'C18')}


def names(): return list(LEMMAS)


def prove(name, timeout=20000):
    """One result per induction case, in the form of a verification task."""
    f, prop = LEMMAS[name]
    R = {'lemma': True, 'fn': 'lemma::' + name, 'case': None, 'inst': (f.__doc__ or '').strip(), 'status': 'ok', 'obls': [], 'loops': [], 'models': [], 'inlined': [],
         'contracts': [], 'why': '', 'trace': [], 'consistent': 'sat', 'nfacts': 0}
    t0 = time.time()
    Facts.cur = None
    for what, hyps, goal in f():
        s = z3.Solver(); limit(s, timeout)
        s.add(*hyps); s.add(z3.Not(goal))
        r = s.check()
        R['obls'].append({'prop': prop, 'desc': 'lemma %s: %s' % (name, what), 'where': 'mirv/lemmas.py', 'res': 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown', 'fns': []})
    R['solver'] = R['time'] = time.time() - t0
    return R


if __name__ == '__main__':
    for n in LEMMAS:
        R = prove(n); print(n, [(o['desc'], o['res']) for o in R['obls']], '%.1f' % R['time'])
