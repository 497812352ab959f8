"""Runs the contracts over the current MIR: one verification task per function under contract."""
import sys, os, re, time, json, hashlib, traceback, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from mir import Program
from vals import *
from engine import Machine, Ctx
from strs import Facts
import models, contracts, lemmas

P = None
TIMEOUT = 20000


def init(path):
    global P
    P = Program(path)


def tasks(P):
    """(contract path, instance) for every function under contract found in the crate; missing ones with None."""
    reg = contracts.Registry(P)
    r = []
    for d, c in reg.t.items():
        ks = [k for k, i in enumerate(P.I) if i and i.get('local') and 'body' in i and i['def'] == d]
        if not ks: r.append((d, None, None))
        for k in ks:
            for case in c.cases: r.append((d, k, case))
    return r + [('lemma::' + n, -1, None) for n in lemmas.names()]


def weight(t):
    """Longest tasks first."""
    d, k, c, _ = t
    return (0 if 'gsv::handle' in d else 1 if c and str(c[0])[-2:] in ('21', '22') else 2 if c else 3 if 'handle' in d else 4, d)


def relevance(Rs):
    """For each task the properties its obligations carry and the contracts its proof relies on."""
    rel = {}
    for R in Rs:
        e = rel.setdefault('%s|%s' % (R['fn'], list(R['case']) if R['case'] else None), {'props': set(), 'uses': set()})
        for o in R['obls']: e['props'] |= set(o['prop'].split('+'))
        e['uses'] |= {u for u in R['contracts'] if not ('parse_sentence' in R['fn'] and u.endswith('::handle'))}
        e['struct'] = structure(R)
    return {k: {'props': sorted(v['props']), 'uses': sorted(v['uses']), 'struct': v['struct']} for k, v in sorted(rel.items())}


def structure(R):
    """What the proof of a function with loops rests on: its loops, the bodies run in line and the assumed meanings used."""
    if not R['loops']: return None
    f = lambda x: re.sub(r'@[^}]*', '', x)
    return hashlib.sha1(json.dumps([sorted(f(l['fn']) for l in R['loops']), sorted({f(x) for x in R['inlined']}), sorted({f(x) for x in R['models']})]).encode()).hexdigest()[:12]


def check(m, facts, o, timeout):
    if o.done or is_true(o.goal): return 'proved', None
    s = z3.Solver(); limit(s, timeout)
    for f in facts[:o.nf]: s.add(f)
    for p in o.pc: s.add(p)
    s.add(z3.Not(o.goal))
    r = s.check()
    if r == z3.unsat: return 'proved', None
    return ('refuted', s.model()) if r == z3.sat else ('unknown', None)


def run_task(a):
    d, inst, case, opts = a
    if inst == -1: return lemmas.prove(d[7:], opts.get('timeout', TIMEOUT))
    t0 = time.time()
    R = {'fn': d, 'case': case, 'inst': P.I[inst]['name'], 'status': 'ok', 'obls': [], 'loops': [], 'models': [], 'inlined': [], 'contracts': [], 'why': ''}
    m = Machine(P, models, contracts.Registry(P))
    cx = Ctx(d); m.cx = cx; Facts.cur = cx; m.root_inst = inst
    c = m.contracts.get(d)
    try:
        c.verify(m, inst, case)
    except Unsupported as e:
        R['status'] = 'unsupported'; R['why'] = str(e)[:300]
    except Exception as e:
        R['status'] = 'unsupported'; R['why'] = 'internal: %r %s' % (e, traceback.format_exc()[-600:])
    st = 0.0
    facts = cx.facts
    vac = None
    for o in cx.obls:
        if time.time() - t0 > opts.get('budget', 240):
            res, mod = 'no time', None
        else:
            t = time.time()
            res, mod = check(m, facts, o, opts.get('timeout', TIMEOUT))
            st += time.time() - t
        x = {'prop': o.prop, 'desc': o.desc, 'where': o.where, 'res': res, 'fns': [P.I[k]['def'] for k in o.stack]}
        f = getattr(o, 'finding', None)
        if f and res == 'proved':
            so = type(o)(o.fn, o.prop, o.desc, o.where, o.pc, o.strict, o.nf)
            r2, m2 = check(m, facts, so, opts.get('timeout', TIMEOUT))
            if r2 != 'proved': x['finding'] = f
            else: x['finding_gone'] = f
        if mod is not None:
            try: x['cex'] = c.cex(m, mod, o) if hasattr(c, 'cex') else None
            except Exception as e: x['cex'] = None; x['cexerr'] = repr(e)[:200]
        R['obls'].append(x)
    if cx.guess and any(o['res'] != 'proved' for o in R['obls']):
        R['status'] = 'unsupported'; R['why'] = cx.guess; R['obls'] = []
    # vacuity: the assumptions alone must not be contradictory
    s = z3.Solver(); limit(s, 5000)
    for f in facts: s.add(f)
    R['consistent'] = str(s.check())
    R['loops'] = cx.loops; R['models'] = sorted(cx.models); R['inlined'] = sorted(cx.inlined); R['contracts'] = sorted(cx.contracts)
    R['trace'] = [t for t in cx.trace if not t.startswith('std:')]
    R['solver'] = st + m.qtime; R['time'] = time.time() - t0; R['nfacts'] = len(facts)
    return R


def run(path, only=None, opts={}, procs=8):
    init(path)
    ts = [(d, k, cs, opts) for d, k, cs in tasks(P) if k is not None and (not only or any(o in d for o in only))]
    with mp.get_context('fork').Pool(procs, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(run_task, ts, 1): yield r


if __name__ == '__main__':
    path = sys.argv[1]
    t = time.time()
    RS = []
    for R in run(path, sys.argv[2:], {'timeout': 10000}):
        bad = [o for o in R['obls'] if o['res'] != 'proved']
        print('%-40s %-16s %-6s obl=%d bad=%d loops=%s cons=%s solver=%.1f t=%.1f %s' % (R['fn'][13:][-40:], str(R["case"] or "") or '', R['status'][:6], len(R['obls']), len(bad),
              [len(l['invariants']) for l in R['loops']], R['consistent'], R['solver'], R['time'], R['why'][-200:]))
        for o in bad[:8]: print('      ', o['res'], o['prop'], o['desc'][:90], o['where'])
        for o in R['obls']:
            if o.get('finding'): print('       finding', o['finding'])
            if o.get('finding_gone'): print('       finding gone', o['finding_gone'])
        RS.append(R)
        for t_ in R['trace'][:3]: print('       trace', t_[:150])
        sys.stdout.flush()
    print('total %.1f' % (time.time() - t))
    if not sys.argv[2:]: json.dump(P.sigs(), open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sigs.json'), 'w'), indent=0, sort_keys=True)
    if not sys.argv[2:]: json.dump(relevance(RS), open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'relevance.json'), 'w'), indent=1)
