#!/usr/bin/env python3-vt
"""check.py <property>: decides one property of /repo's current tree.

1. builds the MIR dump of the crate as rustc lowers it now, and the replay harness that links the crate;
2. verifies, function by function, every contract the property depends on (mirv/);
3. replays: a failed obligation is turned into sentences for the real crate, judged by the same specification.
Exit 0: every obligation of the property discharged (recorded findings are printed).  Exit 1: VIOLATION line."""
import os, sys, json, time, subprocess, fcntl, shutil, multiprocessing as mp, multiprocessing.pool, re, glob
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'mirv'))
REPO = os.environ.get('MIRV_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')
EVID = os.path.join(ROOT, 'evidence')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()


def log(*a): print('[%6.1f]' % (time.time() - T0), *a); sys.stdout.flush()


# ------------------------------------------------------------------ building from the current tree
def sh(cmd, env=None, timeout=800):
    e = dict(os.environ)
    e.pop('RUSTFLAGS', None); e.pop('CARGO_TARGET_DIR', None)
    e['CARGO_INCREMENTAL'] = '0'
    e.update(env or {})
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, 'harness'), env=e, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def forget(d):
    """The crate is compiled anew on every run, whatever file times say."""
    for r, ds, _ in os.walk(d):
        for x in list(ds):
            if x.startswith(('nmea-parser', 'nmea_parser')): shutil.rmtree(os.path.join(r, x), ignore_errors=True); ds.remove(x)


def build_dump(_=None):
    rc, o = sh(['cargo', '+nightly', 'build', '--offline', '-q', '--manifest-path', os.path.join(ROOT, 'mirdump', 'Cargo.toml'), '--target-dir', BUILD + '/mirdump'])
    if rc: return False, o
    rc, o = sh(['rustc', '+nightly', '--edition', '2021', '--crate-type', 'rlib', '--crate-name', 'mirshim', '-Zmir-opt-level=0', '-Cpanic=abort',
                '-o', BUILD + '/libmirshim.rlib', os.path.join(ROOT, 'mirdump', 'shim', 'lib.rs')])
    if rc: return False, o
    out = BUILD + '/mir.json'
    if os.path.exists(out): os.remove(out)
    forget(BUILD + '/mir')
    lib = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True).stdout.strip() + '/lib'
    rc, o = sh(['cargo', '+nightly', 'check', '--offline', '-q', '--target-dir', BUILD + '/mir'],
               {'LD_LIBRARY_PATH': lib, 'RUSTC_WRAPPER': BUILD + '/mirdump/debug/mirdump', 'MIRDUMP_CRATE': 'nmea_parser', 'MIRDUMP_OUT': out, 'MIRSHIM': BUILD + '/libmirshim.rlib',
                'RUSTFLAGS': '-Zmir-opt-level=0 -Zalways-encode-mir -Cpanic=abort -Coverflow-checks=on -Cdebug-assertions=on -Ldependency=' + BUILD})
    return rc == 0 and os.path.exists(out), o


def build_harness(_=None):
    forget(BUILD + '/harness')
    rc, o = sh(['cargo', 'build', '--offline', '-q', '--bin', 'harness', '--target-dir', BUILD + '/harness'])
    if rc == 0 and sh(['cargo', 'build', '--offline', '-q', '--bin', 'names', '--target-dir', BUILD + '/harness'])[0]:
        try: os.remove(BUILD + '/harness/debug/names')
        except OSError: pass
    return rc == 0, o


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with mp.pool.ThreadPool(2) as p:
            a, b = p.apply_async(build_dump), p.apply_async(build_harness)
            (ok1, o1), (ok2, o2) = a.get(), b.get()
    if not ok2: print(o2[-3000:]); log('the crate does not build'); sys.exit(2)
    if not ok1:
        # once more from nothing; a crate that compiles can always be lowered
        shutil.rmtree(BUILD + '/mir', ignore_errors=True)
        ok1, o1 = build_dump()
        if not ok1: print(o1[-3000:]); log('the compiler driver could not lower the crate'); sys.exit(2)
    return ok1, o1


EXE = BUILD + '/harness/debug/harness'
MIR = BUILD + '/mir.json'

# ------------------------------------------------------------------ which inputs exercise which property
AIS = ['t1', 't2', 't3', 't4', 't5', 't6', 't9', 't10', 't18', 't21', 't27', 't24', 't24ab']
GN = ['gga', 'rmc', 'gsa', 'vtg', 'gll']
FAMILIES = {
    'C01': AIS + GN + ['gsv', 'frag', 'general', 'wild', 'keys', 'state', 'again'], 'C02': ['general', 'state', 'again'], 'C03': ['general', 'again', 't1', 't24', 'gsv'] + GN, 'C04': ['general', 'frag', 't1', 't5'],
    'C05': AIS, 'C06': ['t5', 't21', 't24ab', 't24'], 'C07': ['t1', 't4', 't9', 't18', 't21', 't6', 'gga', 'rmc', 'gll'], 'C08': ['t1', 't2', 't3'],
    'C09': ['t18', 't9'], 'C10': ['t27'], 'C11': ['t4'], 'C12': ['t5'], 'C13': ['t5'], 'C14': ['t21'], 'C15': ['t6', 't10'], 'C16': ['frag', 'keys', 'state', 'again', 'general'],
    'C17': ['t24', 't24ab', 'keys', 'state', 'again'], 'C18': ['gsv', 'keys', 'state', 'again'], 'C19': GN, 'C20': ['gga', 'rmc', 'gll'], 'C21': ['gga', 'rmc', 'gll'], 'C22': ['mid'], 'C25': ['names'],
    'C23': ['t1', 't5', 't4', 't21', 't24ab', 'gga', 'vtg', 'gll'], 'C24': ['t24', 'frag', 'gsv', 'general', 't24ab', 'keys', 'state', 'again'] + AIS[:11]}
BY_TYPE = {'vdm_t1t2t3': ['t1', 't2', 't3'], 'vdm_t18': ['t18'], 'vdm_t27': ['t27'], 'vdm_t4': ['t4'], 'vdm_t5': ['t5'], 'vdm_t6': ['t6'], 'vdm_t9': ['t9'],
           'vdm_t10': ['t10'], 'vdm_t21': ['t21'], 'vdm_t24': ['t24', 't24ab']}
MT = {'vdm_t1t2t3': (1, 2, 3), 'vdm_t18': (18,), 'vdm_t27': (27,), 'vdm_t4': (4,), 'vdm_t5': (5,), 'vdm_t6': (6,), 'vdm_t9': (9,), 'vdm_t10': (10,), 'vdm_t21': (21,), 'vdm_t24': (24,)}

# functions whose contract anchors a property: when one is lost or out of reach, the property is decided by the bounded stand-in
ANCHOR = {'C04': ['parse_payload'], 'C05': ['pick_u64', 'pick_i64'], 'C06': ['pick_string'], 'C08': ['vdm_t1t2t3::handle'], 'C09': ['vdm_t18::handle', 'vdm_t9::handle'],
          'C10': ['vdm_t27::handle'], 'C11': ['vdm_t4::handle'], 'C12': ['vdm_t5::handle'], 'C13': ['pick_eta'], 'C14': ['vdm_t21::handle'],
          'C15': ['vdm_t6::handle', 'vdm_t10::handle'], 'C17': ['vdm_t24'], 'C18': ['gsv::'], 'C22': ['country'], 'C19': ['gnss::'], 'C20': ['ddmm_mmm'],
          'C21': ['parse_hhmmss', 'parse_yymmdd_hhmmss'], 'C23': ['::new']}


def model_histories(tasks):
    """Sentences built from the solver's counterexamples."""
    import search, oracle, random
    rng = random.Random(SEED)
    hs = []
    for R in tasks:
        for o in R['obls']:
            c = o.get('cex')
            if o['res'] != 'refuted' or not c: continue
            if 'bits' in c:
                mod = next((k for k in MT if k in R['fn']), None)
                for mt in MT.get(mod, ()):
                    h = []
                    n = search.LEN[mt]
                    for bits in (c['bits'], c['bits'] + '0' * max(0, n - len(c['bits'])), c['bits'] + search.rbits(rng, max(0, n - len(c['bits'])))):
                        b = search.put(bits, 0, 6, mt)
                        for t in ('!AIVDM', '!AIVDO', '!ABVDM', '!ADVDM', '!ANVDM', '!ARVDM', '!ASVDM', '!ATVDM', '!AXVDM', '!BSVDM'): h.append([search.vdm(b, t)])
                        if mt == 24:
                            for p in (0, 1):
                                x = search.base_bits(24, rng, p); x = search.put(x, 8, 30, int((bits[8:38] + '0' * 30)[:30], 2))
                                for q in (0, 1):
                                    y = search.put(b, 38, 2, q)
                                    h += [[search.vdm(x), search.vdm(y)], [search.vdm(y), search.vdm(x)]]
                    # the same message with everything else varied
                    for _ in range(30):
                        k = rng.randrange(6, n); w = rng.randrange(1, 31)
                        h.append([search.vdm(search.put(search.put((c['bits'] + '0' * n)[:max(n, len(c['bits']))], k, min(w, n - k), rng.getrandbits(min(w, n - k))), 0, 6, mt))])
                    hs += h
            if 'mmsi' in c and c['mmsi'] < 1 << 30: hs.append([search.vdm(search.put(search.base_bits(5, rng), 8, 30, c['mmsi']))])
            if 'fields' in c:
                n = re.search(r'gnss::(\w+)::', R['fn']).group(1)
                F = c['fields']
                for k in range(max([len(x) for x in F] + [1])):
                    G = ['$GP' + n.upper()] + [x[min(k, len(x) - 1)] if x else '' for x in F[1:]]
                    G = [re.sub('[,*]', '', x) for x in G]
                    for t in ('$GP', '$GN', '$GL', '$GA', '$BD', '$GI', '$QZ', '$XX'): hs.append([search.cks(','.join([t + n.upper()] + G[1:]))])
    return [h for h in hs if all(s.isascii() for s in h)]


def names():
    """Disagreements of what the crate shows for its codes, defaults and errors with the specification."""
    T = json.load(open(os.path.join(ROOT, 'mirv', 'names.json')))
    import contracts
    want = {'%s %s' % (t, v): s for t, vs in T.items() for v, s in vs.items()}
    want.update({'default ' + t: v for t, v in contracts.DEFAULTS.items()})
    try: r = subprocess.run([EXE[:-len('harness')] + 'names'], capture_output=True, text=True, timeout=30)
    except (OSError, subprocess.TimeoutExpired): return [], 0
    got = dict(l.split('\t', 1) for l in r.stdout.splitlines() if '\t' in l)
    for k in got:
        if k.startswith('error '): want[k] = k.split(' ', 2)[2]
        if k.startswith('from '): want[k] = 'InvalidSentence(%s)' % k.split(' ', 1)[1]
    bad = [(k, v, got.get(k)) for k, v in want.items() if got.get(k) != v]
    return [{'family': 'names', 'history': [k], 'answers': [str(g)], 'props': ['C25'], 'broad': [], 'what': '%s shows %r, expected %r' % (k, g, v)} for k, v, g in bad], len(want)


def one_family(a):
    f, lits, seed, deep, known, deadline, hs = a
    import search
    if f == 'names':
        out, n = names()
        return f, out, n, {}, {}
    if f == 'model':
        J = search.Judge(known); out = []
        for k in range(0, len(hs), 200):
            if time.time() > deadline: break
            for h, an in zip(hs[k:k + 200], search.Runner(EXE).run(hs[k:k + 200])):
                d = search.judge_history(J, h, an)
                if d: out.append({'family': f, 'history': h[:d[0] + 1], 'answers': an[:d[0] + 1], 'props': sorted(d[1]), 'broad': sorted(d[2]), 'what': d[3]})
        return f, out[:200], len(hs), J.hit, J.kinds
    out, st, J = search.sweep(EXE, [f], lits, seed, deep, known, deadline)
    return f, out[:400], sum(st.values()), J.hit, J.kinds


def sweep(fams, seed, deep, known, secs, hs=()):
    import search
    L = search.Lits(REPO, os.path.join(ROOT, 'mirv', 'literals.json'))
    dl = time.time() + secs
    js = [(f, L, seed, deep, known, dl, None) for f in fams]
    if hs: js.insert(0, ('model', L, seed, deep, known, dl, list(hs)))
    out, n, hit, kinds = [], {}, {}, {}
    with mp.get_context('fork').Pool(8) as p:
        for f, o, k, h, kd in p.imap_unordered(one_family, js, 1):
            out += o; n[f] = k; hit.update(h)
            for x in kd: kinds[x] = kinds.get(x, 0) + kd[x]
    return out, n, hit, kinds


# ------------------------------------------------------------------ findings
def findings():
    r = []
    for l in open(os.path.join(ROOT, 'known_findings.txt')):
        m = re.match(r'finding: property=(\w+) id=(\S+) (.*)', l.strip())
        if m: r.append(m.groups())
    return r


# ------------------------------------------------------------------ one property
def relevant(P, prop, all_tasks):
    """Tasks whose obligations carry the property, and those of the contracts they rely on (not across the dispatch: there the
    handlers appear as functions of their arguments)."""
    if prop == 'C01': return all_tasks
    rel = json.load(open(os.path.join(ROOT, 'mirv', 'relevance.json')))
    key = lambda d, c: '%s|%s' % (d, list(c) if c else None)
    want, fns = [], set()
    for d, k, c in all_tasks:
        e = rel.get(key(d, c))
        if e is None or prop in e['props']: fns |= set(e['uses']) if e else set()
    todo = list(fns)
    uses = {}
    for x, e in rel.items(): uses.setdefault(x.split('|')[0], set()).update(e['uses'])
    while todo:
        for g in uses.get(todo.pop(), ()):
            if g not in fns: fns.add(g); todo.append(g)
    return [t for t in all_tasks if rel.get(key(t[0], t[2])) is None or prop in rel[key(t[0], t[2])]['props'] or t[0] in fns]


def main():
    prop = sys.argv[1]
    if prop == '--replay': return replay(sys.argv[2])
    if prop == '--setup': build(); return
    os.makedirs(EVID + '/replay', exist_ok=True)
    deep = TIER == 'thorough'
    ok, msg = build()
    log('built')
    known = [(i, w) for p, i, w in findings() if p == prop]
    allknown = {i for _, i, _ in findings()}
    import prove, contracts, mir
    tasks_run, missing, why = [], [], []
    stats = {'solver': 0.0}
    lost0 = []
    fams = list(FAMILIES[prop])
    # the real crate first: a disagreement found here shortens the time the solver gets for the obligations that fail with it
    bad, counts, hit, kinds = sweep(fams, SEED, deep, allknown, 400 if deep else 90)
    early = any(prop in x['props'] for x in bad)
    if ok:
        try:
            prove.P = mir.Program(MIR)
            ts = prove.tasks(prove.P)
            # a key function that is gone only matters where its users cannot be verified without it
            missing = [d for d, k, _ in ts if k is None and not d.endswith(('::make_gsv_key', '::make_fragment_key'))]
            run = relevant(prove.P, prop, [t for t in ts if t[1] is not None])
        except Exception as e:
            log('the MIR could not be read: %r' % e); why.append('the MIR could not be read: %r' % e); run = []
        opts = {'timeout': (60000 if deep else 20000) if not early else 5000, 'budget': (600 if deep else 240) if not early else 60}
        limit = time.time() + (3000 if deep else 400)
        todo = sorted([(d, k, c, opts) for d, k, c in run], key=prove.weight)
        left = {(d, c) for d, k, c, _ in todo}
        with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
            it = pool.imap_unordered(prove.run_task, todo, 1)
            while left:
                try: R = it.next(max(0.1, limit - time.time()))
                except StopIteration: break
                except mp.TimeoutError: pool.terminate(); break
                except Exception as e: why.append('a verification task died: %r' % e); continue
                left.discard((R['fn'], R['case']))
                tasks_run.append(R); stats['solver'] += R['solver']
        for d, c in left: why.append('%s%s: not verified in the time allowed' % (d, ' %s' % (c,) if c else '')); lost0.append(d)
    else:
        why.append('the compiler driver could not lower the crate: ' + msg[-300:])
    own, dep, failed, gone, found = [], [], [], [], {}
    for R in tasks_run:
        for o in R['obls']:
            o['fn'] = R['fn']; o['case'] = R['case']
            (own if prop in o['prop'].split('+') else dep).append(o)
            if o.get('finding'): found[o['finding']] = o
    # an obligation for which no time was left is not decided: the property falls to the bounded stand-in
    late = {o['fn'] for o in own + dep if o['res'] == 'no time'}
    for d in late: why.append('%s: not every obligation was tried in the time allowed' % d); lost0.append(d)
    failed = [o for o in own if o['res'] not in ('proved', 'no time')]
    depfail = [o for o in dep if o['res'] not in ('proved', 'no time')]
    unsup = [R for R in tasks_run if R['status'] != 'ok']
    for R in unsup: why.append('%s%s: out of the verifier\'s reach (%s)' % (R['fn'], ' %s' % (R['case'],) if R['case'] else '', R['why'][:160]))
    calls = {}
    for R in tasks_run: calls.setdefault(R['fn'], set()).update(R['contracts'])
    for d in calls:
        seen, todo = set(), list(calls[d])
        while todo:
            g = todo.pop()
            if g not in seen: seen.add(g); todo += calls.get(g, ())
        if d in seen: why.append('%s calls itself: termination not shown' % d); lost0.append(d)
    for d in missing: why.append('%s: no such function any more' % d)
    incons = [R['fn'] for R in tasks_run if R['consistent'] == 'unsat']
    if incons: failed += [{'fn': f, 'prop': prop, 'desc': 'the assumptions of %s are contradictory' % f, 'where': '', 'res': 'vacuous', 'case': None} for f in incons]
    lost = [a for a in ANCHOR.get(prop, []) if any(a in x for x in missing + lost0 + [R['fn'] for R in unsup])]
    if prop in ('C02', 'C03', 'C16', 'C24', 'C01') and (unsup or missing or lost0): lost.append('parse_sentence')
    if not own: lost.append('no obligation of the property could be generated')
    log('%d functions/cases verified, %d obligations of %s (%d failed), %d underneath (%d failed), %d out of reach' % (
        len(tasks_run), len(own), prop, len(failed), len(dep), len(depfail), len(unsup) + len(missing)))
    for o in failed[:10]: log('  FAILED %s [%s] %s: %s (%s)' % (o['res'], o['prop'], o['fn'], o['desc'], o['where']))
    for o in depfail[:6]: log('  failed underneath %s [%s] %s: %s' % (o['res'], o['prop'], o['fn'], o['desc']))
    for w in why[:6]: log('  ' + w)

    # ---- replay and bounded stand-in
    trouble = bool(failed or depfail or unsup or missing or lost0 or why or not ok)

    def more(r, tag=''):
        bad.extend(r[0]); hit.update(r[2])
        for k, v in r[1].items(): counts[k + tag] = counts.get(k + tag, 0) + v
        for k, v in r[3].items(): kinds[k] = kinds.get(k, 0) + v

    def mine(x):
        if prop in x['props']: return 3
        if prop in x['broad'] and (failed or lost): return 2
        return 1 if failed else 0
    if trouble and not any(mine(x) >= 2 for x in bad):
        try: hs = model_histories(tasks_run)
        except Exception as e: log('no sentences from the counterexamples: %r' % e); hs = []
        if hs: more(sweep([], SEED, False, allknown, 60, hs))
    if trouble and not any(mine(x) >= 2 for x in bad):
        log('searching for a failing input')
        extra = [f for o in failed + depfail for m, fs in BY_TYPE.items() if m in o['fn'] for f in fs]
        extra += [f for o in failed + depfail for f in GN + ['gsv'] if 'gnss::%s::' % f in o['fn']]
        more(sweep(list(dict.fromkeys(extra + fams)), SEED + 1000, True, allknown, 150 if not deep else 400), '+')
    # A loop that is not the one the invariants were found for: a proof that fails without any failing input says that no invariant
    # was found, not that the property is broken.  The bounded stand-in decides.
    rel = json.load(open(os.path.join(ROOT, 'mirv', 'relevance.json')))
    base = {k: e.get('struct') for k, e in rel.items()}
    novel = {(R['fn'], R['case']) for R in tasks_run if prove.structure(R) and prove.structure(R) != base.get('%s|%s' % (R['fn'], list(R['case']) if R['case'] else None))}
    soft = [o for o in failed if (o['fn'], o['case']) in novel and o['res'] != 'vacuous']
    hits = sorted([x for x in bad if mine(x)], key=lambda x: (-mine(x), x['family'] == 'wild', len(x['history'])))
    log('%d sentences judged, %d disagreements, %d of this property' % (sum(counts.values()), len(bad), len(hits)))

    import search
    rc, vio = 0, 0
    if hits:
        x = search.minimise(EXE, hits[0], allknown) if hits[0]['family'] != 'names' else hits[0]
        path = EVID + '/replay/%s.json' % prop
        json.dump({'property': prop, 'history': x['history'], 'answers': x['answers'], 'what': x['what'], 'family': x['family'], 'obligations': slim(failed + depfail)[:20],
                   'how': 'python3-vt /verif/check.py --replay ' + path}, open(path, 'w'), indent=1)
        log('  ' + x['what'][:600]); log('  sentences: ' + json.dumps(x['history'])[:800])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc, vio = 1, 1
    elif len(failed) > len(soft):
        path = EVID + '/replay/%s.json' % prop
        json.dump({'property': prop, 'failed_obligations': slim(failed), 'verifier': [{k: R[k] for k in ('fn', 'case', 'status', 'why', 'loops', 'trace')} for R in tasks_run
                                                                                      if any(o in failed for o in R['obls'])],
                   'searched': counts}, open(path, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        rc, vio = 1, 1
    elif soft:
        for d in sorted({o['fn'] for o in soft}):
            lost.append(d); why.append('%s: its loops are not those the proof knows, and no invariant strong enough was found' % d)
            log('  ' + why[-1])
    for i, w in known:
        if i in found or i in hit: print('KNOWN-FINDING: property=%s %s (%s)' % (prop, w, i))
        else: log('recorded finding %s no longer observed' % i)
    evidence(prop, tasks_run, own, dep, failed, depfail, why, missing, counts, kinds, stats, vio, lost)
    log('done')
    sys.exit(rc)


def slim(os_): return [{k: o.get(k) for k in ('fn', 'case', 'prop', 'desc', 'where', 'res', 'cex')} for o in os_]


TRUSTED = ['rustc nightly front end and MIR construction (rustc_public)', 'z3 (python3-vt)', 'cvc5 1.1.2 (keys)',
           'mirv, the MIR symbolic evaluator and its loop rule (/verif/mirv/engine.py, loops.py)',
           'mirdump, which writes the MIR out (/verif/mirdump)']
ASSUME = ['contracts of std, chrono, regex and bitvec functions called by the crate are assumed (listed under assumed_contracts); /verif/mirv/models.py states them',
          'floating point operations are uninterpreted functions: equal operands give equal results, nothing else is used about them',
          'the library functions and iterator models terminate; every loop the verifier cuts by an invariant has a ranking obligation (C01), calls under contract are checked not to be recursive', 'the current UTC time is one constant per call, its year between 1970 and 200000',
          'strings are shorter than 2^31 - 2 bytes; memory allocation succeeds', 'integer overflow is checked as in a debug build (panics are violations)',
          'at the dispatch the message handlers are uninterpreted functions of their arguments (their own contracts are verified separately)']


def evidence(prop, R, own, dep, failed, depfail, why, missing, counts, kinds, stats, vio, lost):
    fns = sorted({r['fn'] for r in R})
    loops = sum(len(r['loops']) for r in R)
    cov = {'obligations': len(own) + len(dep), 'discharged': sum(o['res'] == 'proved' for o in own + dep),
           'checker_cmd': 'python3-vt /verif/check.py ' + prop, 'trusted_base': TRUSTED,
           'own_obligations': len(own), 'own_discharged': sum(o['res'] == 'proved' for o in own), 'back_end': 'z3 (bit-vectors, arrays, uninterpreted functions); cvc5 (theory of strings) for the injectivity of the map keys', 'solver_seconds': round(stats['solver'], 2),
           'functions_under_contract': [f for f in fns if not f.startswith('lemma::')], 'lemmas_proved_by_induction': [f[7:] for f in fns if f.startswith('lemma::')], 'verification_tasks': len(R), 'loops_with_inferred_invariants': loops,
           'assumed_contracts': sorted({m for r in R for m in r['models'] if not m.startswith('body:')}),
           'library_bodies_evaluated': sorted({m[5:] for r in R for m in r['models'] if m.startswith('body:')}),
           'inlined_functions': sorted({m for r in R for m in r['inlined']})[:200],
           'contracts_used_at_calls': sorted({m for r in R for m in r['contracts']}),
           'failed': slim(failed)[:20], 'failed_underneath': slim(depfail)[:20], 'out_of_reach': why, 'missing_functions': missing,
           'bounded_stand_in_for': lost, 'bounded_replay': {'label': 'bounded, not counted as proved', 'sentences_per_family': counts, 'answers_by_kind': kinds},
           'assumptions_consistent': all(r['consistent'] == 'sat' for r in R),
           'samples': [{'fn': o['fn'], 'case': o['case'], 'obligation': o['desc'], 'result': o['res']} for o in own[:8]]}
    json.dump({'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'proof', 'coverage': cov, 'assumptions': ASSUME,
               'wall_s': round(time.time() - T0, 1), 'violations': vio}, open(EVID + '/%s.json' % prop, 'w'), indent=1, default=str)


def replay(path):
    ok, msg = build()
    import search
    x = json.load(open(path))
    if 'history' not in x: print('no failing input: ' + json.dumps(x.get('failed_obligations'), indent=1)); sys.exit(0)
    if x.get('family') == 'names':
        d = names()[0]
        for y in d: print(y['what'])
        sys.exit(1 if d else 0)
    a = search.Runner(EXE).run([x['history']])[0]
    d = search.judge_history(search.Judge({i for _, i, _ in findings()}), x['history'], a)
    for s, r in zip(x['history'], a): print(repr(s)); print('   ->', r)
    print('disagrees: %s' % (d[3],) if d else 'agrees with the specification')
    sys.exit(1 if d else 0)


if __name__ == '__main__':
    main()
