"""Loops.  A loop whose exit test is decided by constants is unrolled completely (that is exact, not a
bound).  Any other loop is cut by an invariant: everything the body changes is havocked, candidate
invariants come from the contract's name-agnostic templates and from generic counter/range shapes, and
only candidates z3 proves to hold on entry and to be preserved by an arbitrary iteration are used."""
import z3
from vals import *
from engine import State, Poison, Obl
from strs import S, SVar, SBytes, SSub, SCat, SIte
import strs

CAP = 300


def snapshot(cx): return (len(cx.facts), len(cx.obls), set(cx.memo), len(cx.loops))


def rollback(cx, s):
    cx.epoch += 1
    del cx.facts[s[0]:]; del cx.obls[s[1]:]; cx.memo = set(s[2]); del cx.loops[s[3]:]


def run_loop(m, fr, L, h, s):
    cx = m.cx
    snap = snapshot(cx)
    if not hasattr(m, 'loopstack'): m.loopstack = []
    outs, st, n, ok, last = [], s, 0, True, None
    while True:
        e = {'fr': fr, 'blocks': L, 'conc': False, 'prog': {}}
        m.loopstack.append(e)
        try: r = m.run(fr, L, h, st, h)
        finally: m.loopstack.pop()
        outs += [(t, x) for t, x in r if t != 'back']
        back = [x for t, x in r if t == 'back']
        if not back: break
        n += 1
        # a constant range stepped inside (by an iterator adaptor, say): each iteration takes it further
        prog = e['prog'] and n <= 40 and e['prog'] != last
        last = e['prog']
        if not (e['conc'] or prog) or n > CAP: ok = False; break
        st = m.merge(back)
    if ok:
        return outs
    rollback(cx, snap)
    peel = getattr(cx, 'peel', None)
    k = max(peel(m, fr, h, s) if peel else 0, skipping(m, fr, s))
    outs = []
    for _ in range(k):
        r = m.run(fr, L, h, s, h)
        outs += [(t, x) for t, x in r if t != 'back']
        back = [x for t, x in r if t == 'back']
        if not back: return outs
        s = m.merge(back)
    lv = fr.cfg.live_in[h]
    s = State({k: v for k, v in s.mem.items() if k[0] != fr.fid or k[1] in lv}, s.pc, s.tag)
    return outs + invariant_mode(m, fr, L, h, s)


def skipping(m, fr, s):
    """An iterator that still has to skip does so in the first iteration."""
    for k, v in s.mem.items():
        if k[0] == fr.fid and isinstance(v, Agg) and v.ty is not None and m.T[v.ty].get('name', '').endswith('::Skip') and z3.is_bv(v.f[1]) and conc(v.f[1]): return 1
    return 0


# ---------------------------------------------------------------------------- leaves
def map2(v, f, path=()):
    """Rebuild a value, mapping every symbolic leaf (a z3 term or a string)."""
    if z3.is_expr(v) or isinstance(v, S): return f(path, v)
    if isinstance(v, Agg): return Agg(v.ty, [map2(x, f, path + (i,)) for i, x in enumerate(v.f)])
    if isinstance(v, Enum):
        return Enum(v.ty, f(path + ('tag',), v.v), {k: [map2(x, f, path + (k, i)) for i, x in enumerate(p)] for k, p in v.p.items()})
    if isinstance(v, SRef): return SRef(map2(v.v, f, path + ('*',)))
    if isinstance(v, Opq): return Opq(v.kind, **{k: map2(x, f, path + (k,)) for k, x in v.d.items()})
    return v


def leaves(v):
    r = {}
    map2(v, lambda p, x: r.setdefault(p, x) is None or x)
    return r


def samev(a, b):
    if a is b: return True
    if z3.is_expr(a) and z3.is_expr(b): return z3.eq(a, b)
    if isinstance(a, SVar) and isinstance(b, SVar): return z3.eq(a.t, b.t)
    if isinstance(a, SSub) and isinstance(b, SSub): return samev(a.b, b.b) and z3.eq(a.i, b.i) and z3.eq(a.j, b.j)
    if isinstance(a, SBytes) and isinstance(b, SBytes): return len(a.bs) == len(b.bs) and all(z3.eq(x, y) for x, y in zip(a.bs, b.bs))
    if isinstance(a, SIte) and isinstance(b, SIte): return z3.eq(a.c, b.c) and samev(a.a, b.a) and samev(a.b, b.b)
    if isinstance(a, SCat) and isinstance(b, SCat): return len(a.ps) == len(b.ps) and all(samev(x, y) for x, y in zip(a.ps, b.ps))
    return False


def shape(v):
    if z3.is_expr(v): return ('e', v.sort())
    if isinstance(v, S): return 's'
    if isinstance(v, Agg): return ('A',) + tuple(shape(x) for x in v.f)
    if isinstance(v, SRef): return ('R', shape(v.v))
    if isinstance(v, Opq): return (v.kind,) + tuple((k, shape(x)) for k, x in sorted(v.d.items()))
    if isinstance(v, Enum): return 'E'
    if isinstance(v, Ref): return ('ref', v.root, v.path)
    return type(v).__name__


def havoc(m, v, base):
    """Fresh value of the same shape; every variant payload of an enum is made available."""
    if isinstance(v, Enum) and v.ty is not None:
        t = m.T[v.ty]
        tag = z3.BitVec(m.name(base + '.tag'), 16)
        m.cx.fact(z3.ULT(tag, bv(len(t['variants']), 16)))
        p = {}
        for vi, var in enumerate(t['variants']):
            if vi in v.p: p[vi] = [havoc(m, x, base) for x in v.p[vi]]
            else:
                try: p[vi] = [m.fresh(ft, base + '.' + var['name']) for _, ft in var['fields']]
                except Unsupported as e: p[vi] = [Poison(str(e))] * len(var['fields'])
        return Enum(v.ty, tag, p)
    if isinstance(v, Agg): return Agg(v.ty, [havoc(m, x, base) for x in v.f])
    if isinstance(v, SRef): return SRef(havoc(m, v.v, base))
    if isinstance(v, Opq): return Opq(v.kind, **{k: havoc(m, x, base) for k, x in v.d.items()})
    if isinstance(v, S): return SVar(z3.Const(m.name(base), strs.Str))
    if z3.is_expr(v): return z3.Const(m.name(base), v.sort())
    return v


def wider(m, a, b):
    """Entry value a, back value b of different shape: a value whose havoc covers both, or None."""
    if a is UNDEF or isinstance(a, Poison): return a
    sa, sb = shape(a), shape(b)
    if sa == sb:
        if isinstance(a, Enum) and isinstance(b, Enum):
            p = dict(b.p); p.update(a.p)
            return Enum(a.ty, a.v, p)
        return a
    return Poison('value changes shape in a loop')


def invariant_mode(m, fr, L, h, s):
    cx = m.cx
    fid = fr.fid
    base0 = dict(s.mem)
    changed = {(fid, l) for l in fr.cfg.assigned(L) if (fid, l) in s.mem}
    entry = {}
    for k in changed: entry[k] = s.mem[k]
    keep = {}        # (root, path) -> entry leaf proven syntactically unchanged
    names = fr.body.get('names') or {}

    def header(extra=()):
        mem = dict(base0)
        hv = {}
        for k in changed:
            v = entry[k]
            if v is UNDEF or isinstance(v, Poison): mem[k] = v; continue
            n = havoc(m, v, 'L%d_%s' % (h, k[1]))
            le = leaves(v)
            n = map2(n, lambda p, x: le[p] if (k, p) in keep and p in le else x)
            mem[k] = n; hv[k] = n
        return State(mem, s.pc + tuple(extra), s.tag), hv

    snap = snapshot(cx)
    for rnd in range(40):
        rollback(cx, snap)
        st, hv = header()
        r = m.run(fr, L, h, st, h)
        back = [x for t, x in r if t == 'back']
        again = False
        for b in back:
            for k, v in b.mem.items():
                if k in base0 and k not in changed and not same_tree(v, base0[k]):
                    changed.add(k); entry[k] = base0[k]; again = True
        if again: continue
        for k in list(hv):
            for b in back:
                v = b.mem.get(k, UNDEF)
                w = wider(m, entry[k], v)
                if shape(w) != shape(entry[k]) or isinstance(w, Poison) != isinstance(entry[k], Poison) or \
                        (isinstance(w, Enum) and set(w.p) != set(entry[k].p)):
                    entry[k] = w; again = True
                    if isinstance(w, Poison): break
        if again: continue
        # leaves that no back edge changes keep their entry value
        if rnd < 30:
            new = {}
            for k in hv:
                le, lh = leaves(entry[k]), leaves(hv[k])
                lbs = [leaves(b.mem.get(k, UNDEF)) for b in back]
                for p in lh:
                    if (k, p) in keep or p not in le: continue
                    if all(p in lb and samev(lb[p], lh[p]) for lb in lbs): new[(k, p)] = 1
            if new: keep.update(new); continue
        break
    else:
        raise Unsupported('loop state does not stabilise')
    for k in hv:
        for b in back:
            if not compatible(hv[k], b.mem.get(k, UNDEF)): raise Unsupported('loop reference changes')
    # ---- candidates: functions from a memory to a formula
    getl = lambda mem: (lambda k, p, c={}: leaves_of(mem, k, c).get(p))
    # stage 1: which parts does the loop leave alone (possibly only because of a counter's range)?
    live = []
    for stage in (1, 2):
        moving = [(k, p) for k in sorted(hv, key=str) for p in leaves(hv[k]) if (k, p) not in keep and p in leaves(entry[k])]
        cands = []
        generic(m, cands, moving, hv, entry, keep, stage)
        if stage == 2:
            # a plain counter stays below the fixed locals it starts below
            lim = {}
            for (r, l), v in base0.items():
                if r == fid and (r, l) not in changed and z3.is_bv(v) and conc(v) is None: lim.setdefault((v.size(), v.get_id()), v)
            for k, p in moving:
                e = leaves(entry[k])[p]
                if p == () and z3.is_bv(e) and len(lim) <= 24:
                    for (n, _), b in lim.items():
                        if n == e.size() and n >= 16: cands.append(('counter <= bound', lambda g, k=k, p=p, e=e, b=b: Implies(z3.ULE(e, b), z3.ULE(g(k, p), b))))
            steps(cands, moving, hv, entry, back)
        tmpl = getattr(cx, 'templates', None)
        if tmpl and stage == 2: tmpl(m, fr, cands, moving, hv, entry, s)
        if getattr(m, 'debug', 0): print('stage', stage, fr_name(m, fr), [(k, p, str(leaves(entry[k])[p])[:40]) for k, p in moving])
        live = houdini(m, s, st, back, live, cands, getl)
        if stage == 1:
            new = {x.leaf: 1 for x in live if x.leaf is not None}
            if new:
                keep.update(new)
                st, hv = header()
                live = [x for x in live if x.leaf is None]
                hyp = tuple(x.f(getl(st.mem)) for x in live)
                st = State(st.mem, st.pc + tuple(h for h in hyp if not is_true(h)), st.tag)
                r = m.run(fr, L, h, st, h)
                back = [x for t, x in r if t == 'back']
                # the parts kept are now literally the entry values; re-establish everything from scratch
                live = [x for x in live]
    live = [(x.name, x.f) for x in live]
    # ---- final run with the invariant assumed at the header
    rollback(cx, snap)
    cx.loops.append({'fn': fr_name(m, fr), 'block': h, 'line': fr.cfg.blocks[h]['line'], 'invariants': [n for n, _ in live]})
    st2, hv2 = header()
    getl2 = getl(st2.mem)
    inv2 = [f(getl2) for _, f in live]
    st2 = State(st2.mem, st2.pc + tuple(x for x in inv2 if not is_true(x)), st2.tag)
    r = m.run(fr, L, h, st2, h)
    cx.inv_checked = getattr(cx, 'inv_checked', 0) + 2 * len(live)
    terminates(m, fr, h, st2, hv2, [x for t, x in r if t == 'back'], getl)
    return [(t, x) for t, x in r if t != 'back']


def measures(hv, backs):
    """Ranking functions to try: what an iterator has left, the length of a string, a counter's distance from what it is compared with."""
    r = []
    for k, v in hv.items():
        for q, it in iters(v):
            if isinstance(it, Agg):
                n = it.f[0].size() + 8
                z = lambda e, n=n: z3.ZeroExt(n - e.size(), e)
                if len(it.f) == 3 and z3.is_bool(it.f[2]):
                    r.append(('values left in the range', lambda g, k=k, q=q, z=z, n=n: z(g(k, q + (1,)) - g(k, q + (0,))) + If(g(k, q + (2,)), bv(0, n), bv(1, n))))
                else: r.append(('values left in the range', lambda g, k=k, q=q: g(k, q + (1,)) - g(k, q + (0,))))
            else: r.append(('elements left in the iterator', lambda g, k=k, q=q: g(k, q + ('n',)) - g(k, q + ('i',))))
    for k, v in hv.items():
        for p, x in leaves(v).items():
            if isinstance(x, S): r.append(('length of the rest', lambda g, k=k, p=p: strs.slen(g(k, p))))
            elif z3.is_bv(x) and x.size() >= 8 and p[-1:] != ('tag',):
                for e in bounds_of(x, backs): r.append(('distance from the bound', lambda g, k=k, p=p, e=e: e - g(k, p)))
                r.append(('counter goes down', lambda g, k=k, p=p: g(k, p)))
    return r


def bounds_of(x, backs):
    """Terms the counter is compared with on the way round."""
    out, seen = {}, set()

    def walk(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if e.num_args() == 2 and z3.is_bool(e) and z3.is_bv(e.arg(0)) and e.arg(0).size() == x.size():
            for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                if z3.eq(a, x) and len(out) < 4: out[b.get_id()] = b
        if z3.is_bool(e):
            for c in e.children(): walk(c)
    for b in backs:
        for c in b.pc: walk(c)
    return list(out.values())


def terminates(m, fr, h, st, hv, backs, getl):
    """Some measure goes down on every way round (unsigned, hence well founded)."""
    if not backs: return
    done = None
    g0 = getl(st.mem)
    for name, f in measures(hv, backs):
        try: goals = [(b, simp(z3.ULT(f(getl(b.mem)), f(g0)))) for b in backs]
        except (Unsupported, KeyError, AttributeError, TypeError, z3.Z3Exception): continue
        if all(m.valid(b.pc, g, 2000) for b, g in goals): done = (name, goals); break
    name, goals = done or ('no measure found', [(b, z3.BoolVal(False)) for b in backs])
    where = m.where(fr.cfg.blocks[h]['line'])
    for b, g in goals: m.oblige(b, 'C01', 'the loop terminates (%s)' % name, g, where)


class Cand:
    __slots__ = ('name', 'f', 'leaf')

    def __init__(self, name, f, leaf=None): self.name, self.f, self.leaf = name, f, leaf


def leaves_of(mem, k, c):
    key = (id(mem), k)
    if key not in c: c[key] = (mem, leaves(mem.get(k, UNDEF)))
    return c[key][1]


def falsified(m, pc, goals, timeout):
    """Indices of goals that do not follow from facts and pc (goals: list of formulas or None)."""
    import time
    drop = {i for i, g in enumerate(goals) if g is None}
    todo = [i for i, g in enumerate(goals) if g is not None and not is_true(g)]
    if not todo: return drop
    t0 = time.time()
    base = list(m.cx.facts) + list(pc)
    while todo:
        s = z3.Solver(); limit(s, timeout)
        s.add(*base)
        s.add(z3.Or(*[z3.Not(goals[i]) for i in todo]))
        r = s.check()
        if r == z3.unsat: break
        bad = []
        if r == z3.sat:
            mod = s.model()
            bad = [i for i in todo if z3.is_false(mod.eval(goals[i], model_completion=True))]
        if not bad:
            # undecided together: one by one
            bad = [i for i in todo if not m.valid(pc, goals[i], timeout // 2)]
            drop |= set(bad); break
        drop |= set(bad)
        todo = [i for i in todo if i not in drop]
    m.qtime += time.time() - t0
    return drop


def houdini(m, s, st, backs, live, cands, getl):
    """Largest subset of the candidates (plus the already live ones) that holds on entry and is inductive."""
    def ev(mem, c):
        try:
            r = c.f(getl(mem))
            return r if z3.is_expr(r) else None
        except (Unsupported, KeyError, AttributeError, z3.Z3Exception): return None
    cands = [c if isinstance(c, Cand) else Cand(*c) for c in cands]
    gs = [ev(s.mem, c) for c in cands]
    d = falsified(m, s.pc, gs, 5000)
    live = live + [c for i, c in enumerate(cands) if i not in d]
    while True:
        hyp = [ev(st.mem, c) for c in live]
        drop = {i for i, h in enumerate(hyp) if h is None}
        hyp = [h for h in hyp if h is not None]
        for b in backs:
            gs = [ev(b.mem, c) for c in live]
            drop |= falsified(m, tuple(b.pc) + tuple(hyp), gs, 8000)
        if not drop: return live
        live = [c for i, c in enumerate(live) if i not in drop]


def fr_name(m, fr): return m.P.I[fr.inst]['def']


def same_tree(a, b):
    if a is b: return True
    if isinstance(a, (Poison,)) and isinstance(b, Poison): return True
    if shape(a) != shape(b): return False
    if isinstance(a, Enum) and set(a.p) != set(b.p): return False
    la, lb = leaves(a), leaves(b)
    return set(la) == set(lb) and all(samev(la[p], lb[p]) for p in la)


def compatible(a, b):
    if isinstance(a, Ref): return isinstance(b, Ref) and a.root == b.root and a.path == b.path
    if isinstance(a, (Agg, Enum, SRef, Opq)) and type(a) == type(b):
        if isinstance(a, Agg): return len(a.f) == len(b.f) and all(compatible(x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, SRef): return compatible(a.v, b.v)
        return True
    return True


def generic(m, cands, moving, hv, entry, keep, stage):
    """Counter shapes: x - x0 equals the advance of another counter of the same loop; x stays within the
    bounds of its iterator; counters never go below their start."""
    if stage == 1:
        for k, p in moving:
            e = leaves(entry[k])[p]
            if isinstance(e, S): cands.append(Cand('unchanged', lambda g, k=k, p=p, e=e: strs.seq(g(k, p), e), (k, p)))
            else: cands.append(Cand('unchanged', lambda g, k=k, p=p, e=e: g(k, p) == e, (k, p)))
    ints = []
    for k, p in moving:
        x = leaves(hv[k])[p]
        if z3.is_bv(x) and x.size() in (8, 16, 32, 64) and p[-1:] != ('tag',): ints.append((k, p, leaves(entry[k])[p]))
    for a, (k, p, e) in enumerate(ints):
        if stage == 1:
            cands.append(('counter >= start', lambda g, k=k, p=p, e=e: z3.UGE(g(k, p), e)))
            if e.size() == 32: cands.append(('signed counter >= start', lambda g, k=k, p=p, e=e: g(k, p) >= e))
        for k2, p2, e2 in ints[:a]:
            n = max(e.size(), e2.size())
            if n == 8: continue
            cands.append(('counters advance together', lambda g, k=k, p=p, e=e, k2=k2, p2=p2, e2=e2, n=n:
                          resize(g(k, p), n, False) - resize(e, n, False) == resize(g(k2, p2), n, False) - resize(e2, n, False)))
            if stage == 1: continue
            cands.append(('counters advance oppositely', lambda g, k=k, p=p, e=e, k2=k2, p2=p2, e2=e2, n=n:
                          resize(g(k, p), n, False) - resize(e, n, False) == resize(e2, n, False) - resize(g(k2, p2), n, False)))
            cands.append(('counter below counter', lambda g, k=k, p=p, e=e, k2=k2, p2=p2, e2=e2, n=n:
                          z3.UGE(resize(g(k2, p2), n, False) - resize(e2, n, False), resize(g(k, p), n, False) - resize(e, n, False))))
    for k, v in hv.items():
        for q, it in iters(v):
            if isinstance(it, Agg):
                # Range / RangeInclusive: start never passes end (unless it started beyond)
                s0 = sub_at(entry[k], q)
                if s0 is None: continue
                cands.append(('range start <= end', lambda g, k=k, q=q, s0=s0: Implies(z3.ULE(s0.f[0], s0.f[1]), z3.ULE(g(k, q + (0,)), g(k, q + (1,))))))
                cands.append(('range end is fixed', lambda g, k=k, q=q, s0=s0: g(k, q + (1,)) == s0.f[1]))
            else:
                s0 = sub_at(entry[k], q)
                cands.append(('iterator position <= length', lambda g, k=k, q=q, s0=s0: Implies(z3.ULE(s0.i, s0.n), z3.ULE(g(k, q + ('i',)), g(k, q + ('n',))))))


def steps(cands, moving, hv, entry, back):
    """x advances by a fixed amount d whenever counter y advances by one: x - x0 = d * (y - y0)."""
    ints = []
    for k, p in moving:
        x = leaves(hv[k])[p]
        if z3.is_bv(x) and x.size() in (32, 64) and p[-1:] != ('tag',): ints.append((k, p, x, leaves(entry[k])[p]))
    if len(ints) > 8: return
    own = {x.get_id() for _, _, x, _ in ints}

    def fixed(e, seen):
        if e.get_id() in own: return False
        if e.get_id() in seen: return True
        seen.add(e.get_id())
        return all(fixed(c, seen) for c in e.children())
    for k, p, x, e in ints:
        ds = {}
        for b in back:
            v = leaves(b.mem.get(k, UNDEF)).get(p)
            if v is None or not z3.is_bv(v): ds = {}; break
            d = simp(v - x); ds[d.get_id()] = d
        if len(ds) != 1: continue
        d = list(ds.values())[0]
        if conc(d) in (0, 1) or not fixed(d, set()): continue
        for k2, p2, x2, e2 in ints:
            if (k2, p2) == (k, p) or x2.size() != x.size(): continue
            cands.append(('counter advances by a fixed step', lambda g, k=k, p=p, e=e, k2=k2, p2=p2, e2=e2, d=d: g(k, p) - e == d * (g(k2, p2) - e2)))


def sub_at(v, q):
    for x in q:
        if isinstance(v, Agg): v = v.f[x]
        elif isinstance(v, Opq): v = v.d[x]
        elif isinstance(v, SRef): v = v.v
        else: return None
    return v


def iters(v, q=()):
    if isinstance(v, Agg):
        if len(v.f) in (2, 3) and all(z3.is_expr(x) for x in v.f) and z3.is_bv(v.f[0]) and z3.is_bv(v.f[1]) and v.f[0].sort() == v.f[1].sort() \
                and v.f[0].size() >= 8:
            yield q, v
        for i, x in enumerate(v.f): yield from iters(x, q + (i,))
    elif isinstance(v, Opq):
        if v.kind == 'it': yield q, v
        else:
            for k, x in v.d.items(): yield from iters(x, q + (k,))
