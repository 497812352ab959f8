"""Histories of sentences for the real crate, judged by oracle.py: replays failed obligations, and stands in (bounded) for
functions out of the verifier's reach."""
import os, re, sys, json, time, random, subprocess, datetime as D, itertools, zlib
import spec, oracle
from oracle import ConcB, Ref, Judge, ALPHA

CH = {v: k for k, v in ALPHA.items()}
LEN = {1: 168, 2: 168, 3: 168, 4: 168, 5: 424, 6: 200, 9: 168, 10: 72, 18: 168, 19: 312, 21: 360, 24: 168, 27: 96}


def utcnow(): return D.datetime.now(D.timezone.utc).replace(tzinfo=None)


# ------------------------------------------------------------------ building sentences
def armour(bits):
    bits += '0' * (-len(bits) % 6)
    return ''.join(CH[int(bits[i:i + 6], 2)] for i in range(0, len(bits), 6))


def cks(body): return '%s*%02X' % (body, oracle.xor(body)) if body.isascii() else body


def vdm(bits, t='!AIVDM', ch='A'): return cks('%s,1,1,,%s,%s,0' % (t, ch, armour(bits)))


def put(bits, i, n, v):
    v &= (1 << n) - 1
    return (bits + '0' * (i + n - len(bits)))[:i] + format(v, '0%db' % n) + bits[i + n:]


def t6(s): return ''.join(format(ord(c) - 64 if ord(c) >= 64 else ord(c), '06b') for c in s)


def fields_of(mt, part=None):
    """(index, width, kind) of every field the specification reads for message type mt."""
    h = spec.AIS_BY_TYPE[mt]
    r = set()
    rng = random.Random(1)
    for k in range(12):
        B = ConcB(''.join(rng.choice('01') for _ in range(440)), oracle.En('Other'), False, now=D.datetime(2024, 2, 28))
        B.seen = []
        if h == 'vdm_t24': spec.t24(B, part)
        elif h == 'vdm_t19': return [(8, 30, 'u')]
        else: spec.AIS[h][0](B)
        r |= set(B.seen)
    r.add((8, 30, 'u'))
    return sorted(r)


# ------------------------------------------------------------------ literals of the current source
def strip(src):
    """Source without comments and test modules."""
    src = re.sub(r'#\[cfg\(test\)\]\s*mod\b.*', '', src, flags=re.S)
    return re.sub(r'//[^\n]*|/\*.*?\*/', '', src, flags=re.S)


def literals(repo):
    ints, strs, flts = set(), set(), set()
    for d, _, fs in os.walk(os.path.join(repo, 'src')):
        for f in sorted(fs):
            if not f.endswith('.rs'): continue
            s = strip(open(os.path.join(d, f), encoding='utf-8', errors='replace').read())
            for x in re.findall(r'"((?:[^"\\\n]|\\.)*)"', s): strs.add(x)
            for x in re.findall(r"'((?:[^'\\]|\\.))'", s): strs.add(x)
            s = re.sub(r'"(?:[^"\\]|\\.)*"', '""', s)
            for x in re.findall(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?![\d.]*\.\d)', s):
                try: ints.add(int(x.replace('_', ''), 0 if x[:2] in ('0x', '0b') else 10))
                except ValueError: pass
            for x in re.findall(r'(?<![\w.])(\d[\d_]*\.\d+)', s): flts.add(x.replace('_', ''))
    return ints, {x for x in strs if x.isascii() and len(x) < 40}, flts


class Lits:
    def __init__(self, repo, base=None):
        self.ints, self.strs, self.flts = literals(repo)
        try: b = json.load(open(base)) if base else None
        except OSError: b = None
        b = b or {'ints': [], 'strs': [], 'flts': []}
        self.new_i = sorted(self.ints - set(b['ints'])); self.new_s = sorted(self.strs - set(b['strs'])); self.new_f = sorted(self.flts - set(b['flts']))
        n = self.new_i[:12]
        prod = {a * c for a in n for c in n} | {a + c for a in n for c in n}
        self.hot = sorted({x + d for x in n + [x for x in prod if x < 2 ** 40] for d in (-1, 0, 1) if x + d >= 0})
        self.cold = sorted(x for x in self.ints if not 201 <= x <= 799)


# ------------------------------------------------------------------ histories
TXT = ['', 'A', 'TEST', 'A B', ' LEAD', 'TRAIL   ', 'A@B', '@', 'ZZZZZZZZZZZZZZZZZZZZ', '0123456789:;<=>?', '!"#$%&\'()*+,-./', '[\\]^_', '  ', 'NOT-A ']


def field_values(n, kind, L, rng, deep):
    m = (1 << n) - 1
    if kind == 'b': return [0, 1]
    if kind == 't':
        r = []
        new = [x for x in L.new_s if x and re.match(r'[ -_]*\Z', x)]
        small = TXT + ['A' + ' ' * k + 'B' for k in range(2, 9)] + new + [f % x for x in new for f in ('A%s', '%sA', 'A%sA', 'AB%s ', 'AB%s CD')] + [x * 2 for x in new]
        for al in ('A ', 'A @', 'AZ ?', '0 9', 'AB@ _'):
            small += [''.join(rng.choice(al) for _ in range(n // 6)) for _ in range(40 if deep else 3)]
        for s in small:
            b = t6(s)[:n]
            r.append(int((b + '0' * (n - len(b))) or '0', 2))
        for k in range(n // 6):
            r.append(int('000001' * (n // 6), 2) & ~(63 << (n - 6 * k - 6)))
            r.append(int('000001' * (n // 6), 2) | (32 << (n - 6 * k - 6)) & ~(31 << (n - 6 * k - 6)))
            r.append(int('000010' * (k + 1) + '0' * (n - 6 * k - 6), 2))
            r.append(int('000010' * (k + 1) + '100000' * (n // 6 - k - 1), 2))
        for c in range(64): r.append(int(format(c, '06b') * (n // 6), 2))
        if n == 6: r = list(range(64))
        return r
    if n <= (11 if deep else 6): return list(range(m + 1))
    r = [0, 1, 2, 3, 4, 5, 9, 10, m, m - 1, m - 2, m >> 1, (m >> 1) + 1, (m >> 1) - 1, (m >> 1) + 2, m >> 2, 181 * 600000, 91 * 600000, 181 * 600, 91 * 600, 181000, 91000,
         -181 * 600000, -91 * 600000, 180 * 600000, 90 * 600000, 3600, 3599, 3601, 511, 1023, 1022, 600000, -600000, 2 ** 27, 2 ** 17]
    r = [x & m for x in r if -(1 << n) < x <= m]
    r += [x for x in L.hot if x <= m] + [-x & m for x in L.hot if x <= m >> 1]
    if n == 30: r += [k * 1000000 + rng.randrange(1000000) for k in ([201, 306, 799, 970, 111, 0, 1, 99] + ([k for k in range(0, 1000)] if deep else []))]
    if n == 30: r += [x * 1000000 + y for x in L.new_i if x < 1000 for y in (0, 1, 999999)]
    r += [1 << k for k in range(n)] + [m ^ (1 << k) for k in range(n)]
    if deep: r += [x for x in L.cold if x <= m] + [-x & m for x in L.cold if x <= m >> 1]
    r += [rng.getrandbits(n) for _ in range(40 if deep else 6)]
    return list(dict.fromkeys(x & m for x in r))


def rbits(rng, n): return format(rng.getrandbits(n), '0%db' % n) if n else ''


def base_bits(mt, rng, part=None, style=0):
    n = LEN[mt] if part != 0 else 160
    b = rbits(rng, n) if style != 1 else '0' * n
    if style == 2:      # plausible position and text
        for i, w, k in fields_of(mt, part):
            if k == 's' and w in (27, 28): b = put(b, i, w, rng.randrange(-80 * 600000, 80 * 600000))
            if k == 't': b = put(b, i, w, int((t6('VESSEL')[:w] + '0' * w)[:w], 2))
    b = put(b, 0, 6, mt)
    if part is not None: b = put(b, 38, 2, part)
    return b


def g_ais(mt, L, rng, deep, part=None):
    F = fields_of(mt, part)
    for style in (0, 1, 2):
        for rep in range(4 if deep else 1):
            base = base_bits(mt, rng, part, style)
            for i, n, k in F:
                vs = field_values(n, k, L, rng, deep)
                if style and not deep: vs = vs[::3]
                for v in vs:
                    b = put(base, i, n, v)
                    if i >= 6: b = put(b, 0, 6, mt)
                    if part is not None: b = put(b, 38, 2, part)
                    yield b
    for n in range(1, 74 if mt in (5, 21) else 40): yield base_bits(mt, rng, part, 0)[:6 * n] if n > 6 or part is None else base_bits(mt, rng, part, 0)[:48]
    for _ in range(3000 if deep else 120): yield base_bits(mt, rng, part, rng.choice((0, 0, 2)))
    # pairs of fields at notable values
    small = [(i, n, [0, (1 << n) - 1, 1 << (n - 1)] + [x for x in L.hot if x < 1 << n]) for i, n, k in F if k != 't']
    for _ in range(6000 if deep else 150):
        b = base_bits(mt, rng, part, rng.choice((0, 2)))
        for i, n, vs in rng.sample(small, min(len(small), rng.randrange(2, 5))): b = put(b, i, n, rng.choice(vs))
        b = put(b, 0, 6, mt)
        if part is not None: b = put(b, 38, 2, part)
        yield b
    if L.hot:
        for (i, n, _), (j, w, _) in itertools.combinations(small, 2):
            for x in L.hot[:12]:
                for y in L.hot[:12]:
                    if x < 1 << n and y < 1 << w: yield put(put(put(base_bits(mt, rng, part, 0), i, n, x), j, w, y), 0, 6, mt)
    for _ in range(60 if deep else 4): yield base_bits(mt, rng, part, 0) + rbits(rng, 6 * rng.randrange(1, 60))
    # the date has to be noticed in whatever year it is
    if mt == 5:
        now = utcnow()
        for d in range(-3, 4):
            for h, mi in ((0, 0), (23, 59), (24, 60), (24, 0), (12, 60), (now.hour, now.minute), (now.hour, (now.minute + 1) % 60)):
                t = now + D.timedelta(days=d)
                for mo, da in ((t.month, t.day), (0, t.day), (t.month, 0), (0, 0)):
                    b = base_bits(5, rng, None, 0)
                    for x, o, w in ((mo, 274, 4), (da, 278, 5), (h, 283, 5), (mi, 288, 6)): b = put(b, o, w, x)
                    yield b
        for mo in range(16):
            for da in range(32):
                b = base_bits(5, rng, None, 0)
                for x, o, w in ((mo, 274, 4), (da, 278, 5), (rng.randrange(25), 283, 5), (rng.randrange(61), 288, 6)): b = put(b, o, w, x)
                yield b
    if mt == 4:
        for y, mo, d, h, mi, s in itertools.product((0, 1, 1999, 2000, 2024, 2023, 2100, 9999), (0, 1, 2, 4, 12, 13), (0, 1, 28, 29, 30, 31), (0, 23, 24), (0, 59, 60), (0, 59, 60)):
            if not deep and rng.random() < 0.8: continue
            b = base_bits(4, rng, None, 0)
            for x, o, w in ((y, 38, 14), (mo, 52, 4), (d, 56, 5), (h, 61, 5), (mi, 66, 6), (s, 72, 6)): b = put(b, o, w, x)
            yield b


KINDS = ('!AIVDM', '!AIVDO', '!ABVDM', '!BSVDM', '!ANVDO', '!AIVDM', '!ARVDM', '!ATVDO', '!AXVDM', '!ADVDO', '!ASVDM', '!ABVDO', '!AIVDM')


def many(bits_iter, n=40, t=KINDS):
    """Independent single-sentence messages, batched in one history."""
    h = []
    for k, b in enumerate(bits_iter):
        h.append(vdm(b, t[k % len(t)], 'AB'[k % 2]))
        if len(h) >= n: yield h; h = []
    if h: yield h


def g_t24(L, rng, deep):
    """Interleavings of parts for a few vessels."""
    for _ in range(1500 if deep else 150):
        ms = [rng.choice([0, 1, 211339980, 235000000, (1 << 30) - 1, rng.getrandbits(30)] + [x for x in L.hot if x < 1 << 30]) for _ in range(rng.choice((1, 1, 2, 3)))]
        h = []
        for _ in range(rng.randrange(2, 9)):
            p = rng.choice((0, 1, 1, 0, 0, 1, 2, 3))
            b = base_bits(24, rng, p, rng.choice((0, 0, 1, 2)))
            b = put(b, 8, 30, rng.choice(ms))
            for i, n, k in rng.sample(fields_of(24, p % 2), 2):
                if i >= 40: b = put(b, i, n, rng.choice([0, (1 << n) - 1, 1]))
            if rng.random() < .1: b = b[:rng.randrange(40, 160)]
            h.append(vdm(b, rng.choice(('!AIVDM', '!AIVDO'))))
            if rng.random() < .1: h.append(vdm(base_bits(1, rng)))
        yield h
    for f in ('A', 'B'):
        for st in range(3):
            for i, n, k in fields_of(24, 'AB'.index(f)):
                for v in field_values(n, k, L, rng, False)[:80]:
                    m = rng.getrandbits(30)
                    a, b = put(base_bits(24, rng, 0, st), 8, 30, m), put(base_bits(24, rng, 1, st), 8, 30, m)
                    if i >= 40:
                        if f == 'A': a = put(a, i, n, v)
                        else: b = put(b, i, n, v)
                    else: continue
                    yield [vdm(a), vdm(b)] if (v + i) % 2 else [vdm(b), vdm(a)]


def g_frag(L, rng, deep):
    """Two-fragment messages: order, interleaving, keys, repetition, malformed headers."""
    types = [5, 5, 5, 21, 1, 24, 19, 6]
    for _ in range(3000 if deep else 350):
        msgs = []
        h = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            mt = rng.choice(types)
            p = armour(base_bits(mt, rng, rng.randrange(2) if mt == 24 else None, rng.choice((0, 2))))
            cut = rng.choice((0, 1, len(p), len(p) // 2, rng.randrange(len(p) + 1)))
            idd = rng.choice(['0', '1', '1', '2', '3', '+1', '01', '18446744073709551615', '18446744073709551616', '', 'x', '-1'] if rng.random() < .4 else ['1', '2'])
            ch = rng.choice(['A', 'B', '', '1', 'A,']) if rng.random() < .3 else rng.choice('AB')
            t = rng.choice(('!AIVDM', '!AIVDM', '!AIVDO', '!BSVDM'))
            two = [('2', '1', idd, ch, p[:cut]), ('2', '2', idd, ch, p[cut:])]
            if rng.random() < .1: two = [('1', '1', idd, ch, p)]
            if rng.random() < .1: two = [(rng.choice(['0', '3', '', '+2', '02', 'x', '2', '256', '-2']), rng.choice(['0', '3', '', '1', '2', '+1', 'x']), idd, ch, p)]
            ss = [(t,) + x for x in two]
            if rng.random() < .5: ss.reverse()
            if rng.random() < .25: ss.append(rng.choice(ss))
            if rng.random() < .15: ss = ss[:1]
            if rng.random() < .1: ss = [(rng.choice(('!ABVDM', '!AIVDO')),) + ss[0][1:]] + ss[1:]
            if rng.random() < .25:      # a malformed header of the same message in between
                ss.insert(rng.randrange(len(ss) + 1), (t, rng.choice(('2', '2', '3', '0', '1')), rng.choice(('0', '3', '4', '', '255', '2')), idd, ch, p[cut:]))
            msgs.append(ss)
        while any(msgs):
            q = rng.choice([m for m in msgs if m])
            t, c, n, i, ch, p = q.pop(0)
            if rng.random() < .04: p = p[:len(p) // 2] + rng.choice('Xx_~ !') + p[len(p) // 2:]
            s = '%s,%s,%s,%s,%s,%s' % (t, c, n, i, ch, p)
            r = rng.random()
            s = s + ',0' if r < .8 else s + ',' if r < .85 else s if r < .9 else s + ',2,x'
            h.append(cks(s) if rng.random() < .9 else s if rng.random() < .7 else s + '*00')
        yield h


COLLIDE = [('1', '11'), ('11', '1'), ('1', '1,1'), ('11', ''), ('1', ''), ('', '1'), ('12', '1'), ('1', '21'), ('2', '11'), ('21', '1'), ('1', '2'), ('2', '1'), ('1', 'A'), ('1', 'B'), ('1', 'a'), ('1', 'AB'),
           ('10', 'A'), ('01', 'A'), ('0', 'A'), ('256', 'A'), ('4294967297', 'A'), ('65537', 'A'), ('18446744073709551615', 'A'), ('9', 'A'), ('19', 'A')]


def g_keys(L, rng, deep):
    """A first part of one message, a second part of another: every pair of identities that a careless key could confuse."""
    ps = {mt: armour(base_bits(mt, rng)) for mt in (5, 1)}
    ids = [(t, i, c) for i, c in COLLIDE for t in ('!AIVDM',)] + [(t, i, c) for t in ('!AIVDO', '!ABVDM', '!BSVDO', '!ABVDO') for i, c in (('1', 'A'), ('1', '11'))]
    out = []
    for a in ids:
        for b in ids:
            p = ps[5]
            x, y = ('%s,2,1,%s,%s,%s,0' % (a + (p[:40],)), '%s,2,2,%s,%s,%s,0' % (b + (p[40:],)))
            out.append([cks(z) for z in ((x, y) if rng.random() < .5 else (y, x))] + [cks('%s,2,2,%s,%s,%s,0' % (a + (p[40:],))), cks('%s,2,1,%s,%s,%s,0' % (b + (p[:40],)))])
    yield from out
    # lists of satellites with confusable keys
    lists = [('$GPGSV', n) for n in (1, 2, 3, 4, 9, 11, 12, 21)] + [('$GLGSV', 2), ('$GLGSV', 3), ('$GAGSV', 3), ('$XXGSV', 3)]
    for a in lists:
        for b in lists:
            h = ['%s,%d,%d,11,%02d,10,100,40' % (a + (k, k)) for k in range(1, a[1])] + ['%s,%d,%d,11,%02d,20,200,30' % (b + (k, 30 + k)) for k in range(1, b[1] + 1)] + ['%s,%d,%d,11,%02d,10,100,40' % (a + (a[1], a[1]))]
            if rng.random() < .5: h[:a[1] - 1] = h[:a[1] - 1][::-1]
            yield [cks(x) for x in h]
    # vessels with confusable numbers
    for m in (1, 211339980, 999999999, 235000001):
        for d in [1 << k for k in range(30)] + [1, 10, 1000, 1000000]:
            A, Bv = (put(put(base_bits(24, rng, 0), 8, 30, m), 40, 6, 1), put(base_bits(24, rng, 1), 8, 30, (m ^ d) & (2 ** 30 - 1)))
            yield [vdm(A), vdm(Bv)] if rng.random() < .5 else [vdm(Bv), vdm(A)]


def pool(rng, fr):
    """A sentence that should leave what is pending alone (or touch only its own entry)."""
    r = rng.random()
    t, c, i, p = fr
    if r < .15: return cks(rng.choice(list(GBASE.values())))
    if r < .3: return vdm(base_bits(rng.choice((1, 4, 5, 6, 9, 10, 18, 21, 27)), rng), rng.choice(KINDS))
    if r < .4: return vdm(put(rbits(rng, 168), 0, 6, rng.randrange(64)), rng.choice(KINDS))
    if r < .5: return '%s,2,%s,%s,%s,%s,0' % (t, rng.choice('12'), i, c, p) + '*' + rng.choice(('00', 'FF', '1', 'x', '7G'))
    if r < .6: return cks('%s,%s,%s,%s,%s,%s,0' % (t, rng.choice(('2', '3', '0', '1', 'x', '', '255')), rng.choice(('0', '3', 'x', '', '9')), i, c, p))
    if r < .66: return cks('%s,2,%s,%s,%s,%s,0' % (t, rng.choice('12'), rng.choice(('', 'x', '-1')), c, p))
    if r < .72: return cks('%s,1,1,,%s,%s,0' % (t, c, rng.choice(('', '~', 'X', p[:3] + 'Y', p[:5] + ' '))))
    if r < .78: return cks('$GPGSV,%s,%s,11,01,02,03,04' % (rng.choice(('x', '3', '-1', '256', '')), rng.choice(('x', '-1', '7', '9999999999'))))
    if r < .84: return cks(rng.choice(('$GPRMC,1,X', '$GPGSA,X', '$GPGGA,,9', '$GPXXX,1', '!AIXXX,1', 'x,', '', '$', '!', ',', '$GPGLL,1,N')))
    if r < .9: return vdm(put(put(base_bits(24, rng, 0), 8, 30, rng.choice((5, 123456789))), 38, 2, rng.choice((2, 3))))
    if r < .95: return cks('%s,2,%s,%d,%s,%s,0' % (t, rng.choice('12'), rng.randrange(3, 99), c, p))
    return rng.choice(('$GPGGA', 'abc', '$GPGGA,1*00', '!AIVDM', '!AIVDM,1,1,,A,' + p + ',0*00', '*', '**', '$GPVTG,x,,y,,z*'))


def g_state(L, rng, deep):
    """Something pending of every kind, disturbances, then the completions."""
    for _ in range(3000 if deep else 300):
        p = armour(base_bits(rng.choice((5, 5, 21, 1)), rng))
        t, i, c = rng.choice(KINDS), str(rng.randrange(1, 9)), rng.choice('AB')
        cut = rng.randrange(1, len(p))
        F = ['%s,2,1,%s,%s,%s,0' % (t, i, c, p[:cut]), '%s,2,2,%s,%s,%s,0' % (t, i, c, p[cut:])]
        G = ['$GPGSV,3,%d,09,%02d,11,222,33' % (k, k) for k in (1, 2, 3)]
        m = rng.getrandbits(30)
        V = [put(base_bits(24, rng, k), 8, 30, m) for k in (0, 1)]
        rng.shuffle(F); rng.shuffle(G); rng.shuffle(V)
        h = [cks(F[0]), cks(G[0]), cks(G[1]), vdm(V[0], rng.choice(KINDS))]
        rng.shuffle(h)
        h += [pool(rng, (t, c, i, p)) for _ in range(rng.randrange(1, 5))]
        e = [cks(F[1]), cks(G[2]), vdm(V[1], rng.choice(KINDS))]
        rng.shuffle(e)
        # and nothing is left afterwards
        yield h + e + (rng.sample(e, 1) if rng.random() < .3 else [])
    # very many things pending at once: a limit on what is remembered would forget some
    for n in [1100] + ([6000] if deep else []) + sorted({x + x // 8 for x in L.new_i if 1000 < x <= 40000})[:4]: yield from g_many(rng, n)


def g_many(rng, n):
    p = armour(base_bits(5, rng))
    yield [cks('!AIVDM,2,1,%d,A,%s,0' % (k, p[:40])) for k in range(n)] + [cks('!AIVDM,2,2,%d,A,%s,0' % (k, p[40:])) for k in range(n)]
    for ms in (range(1000, 1000 + n), rng.sample(range(10 ** 9), n), [rng.randrange(201, 776) * 10 ** 6 + k for k in range(min(n, 60))]):
        V = [[put(base_bits(24, rng, q), 8, 30, m) for m in ms] for q in (0, 1)]
        yield [vdm(b) for b in V[0]] + [vdm(b) for b in V[1]]
    yield [cks('$GPGSV,%d,1,1,01,02,03,04' % k) for k in range(2, n)] + [cks('$GPGSV,2,2,1,01,02,03,04'), cks('$GPGSV,3,2,1,01,02,03,04'), cks('$GPGSV,3,3,1,01,02,03,04')]
    yield [cks('$GPGSV,2,1,%d,01,02,03,04' % k) for k in range(n)] + [cks('$GPGSV,2,2,1,01,02,03,04')]
    yield [cks('$G%sGSV,2,1,1,%02d,02,03,04' % (c, k)) for k, c in enumerate('ABCDEFGHIJKLMNOPQRSTUVWXYZ')] + [cks('$G%sGSV,2,2,1,%02d,02,03,04' % (c, k)) for k, c in enumerate('ABCDEFGHIJKLMNOPQRSTUVWXYZ')]


def g_again(L, rng, deep):
    """Sentences much like the ones before them, and the same ones many times: only what is pending may be remembered."""
    for _ in range(1500 if deep else 120):
        S = []
        for mt in rng.sample((1, 2, 3, 4, 5, 6, 9, 10, 18, 21, 27), rng.choice((1, 1, 2))):
            b = base_bits(mt, rng, None, rng.choice((0, 0, 2)))
            k = rng.randrange(1, len(b) // 6)
            v = [b, b[:6 * k], b + rbits(rng, 6 * rng.randrange(1, 9)), put(b, 8, 30, rng.getrandbits(30)), put(base_bits(mt, rng), 8, 30, int(b[8:38], 2))]
            for i, n, kd in rng.choices(fields_of(mt), k=3): v.append(put(put(b, i, n, rng.getrandbits(n)), 0, 6, mt))
            v.append(put(b, 0, 6, rng.choice((1, 2, 3, 5, 9, 18, 21, 4, 27, 8))))
            for x in v: S.append(vdm(x, rng.choice(KINDS), rng.choice('AB')))
            for t in rng.sample(KINDS, 3): S.append(vdm(b, t, rng.choice('AB')))
        for n in rng.sample(sorted(GBASE), rng.choice((1, 2))):
            F = GBASE[n].split(',')
            S.append(cks(','.join(F)))
            for k in rng.sample(range(1, len(F)), 3):
                S.append(cks(','.join(F[:k] + [''] + F[k + 1:]))); S.append(cks(','.join(F[:k])))
                S.append(cks(','.join(F[:k] + [rng.choice(fvals(gkinds(n).get(k, 'f64'), L))] + F[k + 1:])))
            S.append(cks(','.join(['$' + rng.choice(sorted(spec.TALKERS)) + F[0][3:]] + F[1:])))
            S.append(','.join(F) + '*00')
        h = []
        for _ in range(14): h.append(rng.choice(S) if not h or rng.random() > .2 else h[-1])
        yield h
    b1, b5 = base_bits(1, rng, None, 2), base_bits(5, rng)
    p = armour(b5)
    K = [cks(GBASE[n]) for n in sorted(GBASE)] + [vdm(b1), vdm(b1, '!AIVDO'), vdm(b5, '!BSVDM'), vdm(base_bits(21, rng)), vdm(base_bits(18, rng)), vdm(put(b1, 0, 6, 8)), '!AIVDM,1,1,,A,13u,0*00', cks('!AIVDM,3,1,9,A,13u,0'),
         cks('!AIVDM,2,3,9,A,13u,0'), cks('!AIVDM,2,1,,A,13u,0'), cks('!AIVDM,1,1,,A,1~,0'), cks('!AIVDM,x,1,,A,1,0'), cks('$GPGSV,1,1,01,03,03,111,00'), cks('$GPGSV,x,1,01,03,03,111,00'), cks('$GPZDA,1,2'), cks('#x,1'), 'abc', '',
         cks('!AIVDM,2,1,77,B,13u,0'), cks('$GLGSV,9,1,01,03,03,111,00'), vdm(put(base_bits(24, rng, 0), 8, 30, 987654321))]
    N = [40] + ([300, 1100] if deep else []) + [x + 3 for x in sorted(L.new_i, reverse=True) if 38 <= x <= 6000][:3]
    for n in N:
        for d in K:
            m = rng.getrandbits(29)
            V = [put(base_bits(24, rng, k), 8, 30, m) for k in (0, 1)]
            yield [cks('!AIVDM,2,1,5,A,%s,0' % p[:40]), cks('!AIVDM,2,2,6,B,%s,0' % p[40:]), cks('$GPGSV,2,1,01,02,03,04'), vdm(V[0])] + [d] * n + [
                cks('!AIVDM,2,2,5,A,%s,0' % p[40:]), cks('!AIVDM,2,1,6,B,%s,0' % p[:40]), cks('$GPGSV,2,2,01,02,03,04'), vdm(V[1])]


def g_gsv(L, rng, deep):
    for _ in range(2500 if deep else 300):
        streams = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            t = rng.choice(['$GPGSV', '$GPGSV', '$GLGSV', '$GAGSV', '$XXGSV', '$QZGSV', '$BDGSV'])
            n = rng.choice((1, 2, 3, 3, 4, 9, 10, 12) if rng.random() < .8 else (0, 1, 15, 30))
            ss = []
            for k in range(1, n + 1):
                sats = []
                for _ in range(rng.choice((4, 4, 4, 3, 2, 1, 0, 5))):
                    sats += [rng.choice(['%02d' % rng.randrange(100), '', '255', '256', 'x', '+7', '0'] if rng.random() < .3 else ['%02d' % rng.randrange(1, 99)]),
                             rng.choice(['%02d' % rng.randrange(91), '', '90', '256', '255']), rng.choice(['%03d' % rng.randrange(360), '', '65535', '65536', '359']),
                             rng.choice(['%02d' % rng.randrange(100), '', '99', '00'])]
                ss.append('%s,%s,%s,%s,%s' % (t, n if rng.random() < .95 else '+%d' % n, k, rng.choice(('11', '', '08')), ','.join(sats)))
            if rng.random() < .5: rng.shuffle(ss)
            if rng.random() < .3 and ss: ss.insert(rng.randrange(len(ss)), rng.choice(ss))
            if rng.random() < .2 and ss: ss.pop(rng.randrange(len(ss)))
            if rng.random() < .1: ss.append('%s,%s,%s,1,01,02,03,04' % (t, rng.choice(('', 'x', '-1', '0', '2', '4294967296')), rng.choice(('', 'x', '0', '5', '4294967295'))))
            streams.append(ss)
        h = []
        while any(streams):
            q = rng.choice([m for m in streams if m])
            h.append(cks(q.pop(0)))
        yield h


GBASE = {'gga': '$GPGGA,123519,4807.038,N,01131.324,E,1,08,0.9,545.4,M,46.9,M,,', 'rmc': '$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E',
         'gsa': '$GPGSA,A,3,04,05,,09,12,,,24,,,,,2.5,1.3,2.1', 'vtg': '$GPVTG,054.7,T,034.4,M,005.5,N,010.2,K,A',
         'gll': '$GPGLL,4916.45,N,12311.12,W,225444,A,A'}
NUMS = ['', '++5', '--5', '+-1', '-+0.5', '0x1f', '1_0', '0', '1', '7', '8', '9', '10', '12', '255', '256', '+5', '-5', '-0.5', '65535', '65536', '1023', '0000', '1.5', '.5', '5.', '1e3', 'nan', 'inf', '-inf', '+', '.', ' 1', '1 ',
        'x', '1x', '0.0', '99.99', '00.1', '4294967296', '1_0', '359.9', '545.4', '-100.25']
COORD = {'lat': ['', '4807.038', '0000.000', '9000.000', '4959.999', '4807.0', '4807.', '4807', '807.038', 'x4807.038', '4807.038x', '48x7.038', '04807.038', '9999.9999', '4860.0', '5128.00000001', '-4807.038', '48.07', '0001.1', '4807.03.8'],
         'lon': ['', '01131.324', '00000.000', '18000.000', '17959.999', '01131.', '01131', '1131.324', '12311.12', '12311.12z', 'x12311.12', '123 11.12', '99999.9', '-12311.12', '00001.1', '012311.12', '1231.12', '10000.000001']}
HMS = ['', '123519', '000000', '235959', '240000', '236000', '235960', '12351', '1235', '12', '123519.00', '123519.999', '+1+2+3', 'aabbcc', '12x519', '1 3519', '-10000', '005959', '230000', '123519x', '000060', '099999']
DMY = ['', '191120', '010100', '311299', '290224', '290223', '310424', '000100', '320124', '011324', '010024', '19112', '1911', '01015', '0101-5', '+1+1+1', 'aabbcc', '311226', '010126', '0101200', '0101', '31129', '280200', '290200', '150650']
CHARS = ['', 'A', 'V', 'N', 'S', 'E', 'W', 'D', 'M', 'a', 'n', 's', 'w', 'X', '1', '2', '3', '0', '4', 'AA', ' ', 'R', 'P', 'F', 'K', 'T', 'C', 'U', 'Q', 'B', 'G', 'L']


def fvals(kind, L):
    new = list(L.new_s) + [str(x) for x in L.hot[:40]] + list(L.new_f) + ['-' + x for x in L.new_f]
    if kind in ('lat', 'lon'): r = COORD[kind]
    elif kind == 'hms': r = HMS
    elif kind == 'dmy': r = DMY
    elif kind == 'NSEW' or isinstance(kind, tuple): r = CHARS
    else: r = NUMS
    return r + [x for x in new if ',' not in x and '*' not in x]


def gkinds(n):
    B = ConcB(fields=[''] * 30, nav=oracle.En('Gps'), now=D.datetime(2024, 1, 1)); B.seen = []
    spec.GNSS[n](B)
    return dict(B.seen)


def g_gnss(n, L, rng, deep):
    base = GBASE[n].split(',')
    K = gkinds(n)
    out = []

    def emit(F):
        out.append(cks(','.join(F)))
    for rep in range(2):
        for k in range(1, len(base) + 3):
            kind = K.get(k, 'f64')
            for v in fvals(kind, L) + (['0'] if deep else []):
                F = list(base) + [''] * max(0, k + 1 - len(base))
                F[k] = v
                emit(F)
            v = base[k] if k < len(base) else ''
            for v in (' ' + v, v + ' ', v.lower(), v.upper(), v + v, v[:-1], '0' + v, '+' + v, '-' + v, '++' + v, '--' + v, '+-' + v, v + '+', v + '0', v + '.', v + '\t'):
                F = list(base) + [''] * max(0, k + 1 - len(base))
                F[k] = v
                emit(F)
        base = [base[0]] + [('%s' % rng.choice(fvals(K.get(k, 'f64'), L)[:6])) for k in range(1, len(base))] if rep == 0 else base
    base = GBASE[n].split(',')
    for k in range(1, len(base) + 1): emit(base[:k])
    for tk in list(spec.TALKERS) + ['XX', 'II', 'gp', 'G', '12', '  ', 'PG'] + [x for x in L.new_s if len(x) == 2]: emit(['$' + tk + base[0][3:]] + base[1:])
    for h in ('N', 'S', 'E', 'W', '', 'X', 'n', 's', 'w', 'S ', ' S', 'W ', ' W', 'SS', 'WW', 'WEST', 'SOUTH', 'SW'):
        for k, kd in K.items():
            if kd == 'NSEW':
                for v in fvals(K.get(k - 1, 'lat'), L):
                    F = list(base); F[k] = h; F[k - 1] = v; emit(F)
    for _ in range(8000 if deep else 400):
        F = list(base) + [''] * rng.choice((0, 0, 1, 5))
        for k in rng.sample(range(1, len(F)), min(len(F) - 1, rng.choice((2, 2, 3, 4)))): F[k] = rng.choice(fvals(K.get(k, 'f64'), L))
        emit(F)
    for _ in range(2000 if deep else 150):
        F = list(base)
        for k, kd in K.items():
            if k >= len(F): continue
            if kd == 'lat': F[k] = '%02d%02d.%s' % (rng.randrange(100), rng.randrange(100), str(rng.randrange(10 ** rng.randrange(1, 7))).zfill(2))
            elif kd == 'lon': F[k] = '%03d%02d.%s' % (rng.randrange(200), rng.randrange(100), str(rng.randrange(10 ** rng.randrange(1, 7))).zfill(2))
            elif kd == 'NSEW': F[k] = rng.choice('NSEW')
            elif kd == 'hms': F[k] = '%02d%02d%02d' % (rng.randrange(26), rng.randrange(63), rng.randrange(63)) + rng.choice(('', '.00', '.5'))
            elif kd == 'dmy': F[k] = '%02d%02d%02d' % (rng.randrange(34), rng.randrange(14), rng.randrange(100))
            elif kd == 'f64': F[k] = rng.choice(('%.1f', '%.3f', '%g', '%05.1f', '%.0f')) % rng.choice((rng.uniform(0, 400), rng.uniform(-50, 50), rng.uniform(0, 5)))
            elif kd in ('u8', 'u16'): F[k] = str(rng.randrange(300))
        emit(F)
    for k in range(0, len(out), 40): yield out[k:k + 40]


def g_general(L, rng, deep):
    """Checksums, sentence types, malformed and odd sentences."""
    good = list(GBASE.values()) + ['!AIVDM,1,1,,A,13u?etPv2;0n:dDPwUM1U1Cb069D,0', '$GPGSV,1,1,01,03,03,111,00']
    out = []
    for b in good:
        c = oracle.xor(b)
        for k in range(256): out.append('%s*%02X' % (b, k))
        for k in range(256): out.append('%s*%02x' % (b, k) if k != c or '%02x' % k != '%02X' % k else b)
        out += [b, b + '*', b + '*%02X*%02X' % (c, oracle.xor(b + '*%02X' % c)), b + '*%X' % (c & 15), b + '*0%02X' % c, b + '*%02X ' % c, b + '*%02X\r\n' % c, b + '\r\n', b + '*%02X,' % c, b + '*GG', b + '*+%X' % (c & 15),
                b + '*%s' % ('%02X' % c)[::-1], b + '*' + ('%02X' % c)[:1], b + '**%02X' % oracle.xor(b + '*')]
        for k in range(1, len(b), 2):
            x = b[:k] + chr(ord(b[k]) ^ (1 << rng.randrange(5))) + b[k + 1:]
            out.append('%s*%02X' % (x, c)); out.append(cks(x.replace('*', '+')))
            out.append('%s*%02X' % (b[:k] + b[k + 1:], c))
        for first in 'X#! $': out.append('%s*%02X' % (first + b[1:], c))
    yield from ([x] for x in out[:0])
    for k in range(0, len(out), 60): yield out[k:k + 60]
    out = []
    codes = ['GGA', 'RMC', 'GSA', 'GSV', 'VTG', 'GLL', 'VDM', 'VDO', 'ALM', 'HDT', 'TRF', 'STN', 'VBW', 'XTC', 'XTE', 'ZDA', 'BOD', 'RMA', 'gga', 'Gga', 'XXX', 'VDX', 'GNS', 'GST', 'DTM', 'MTW', 'ABK', 'BBM', 'VSD', 'TXT', 'ROT', 'VHW', 'DBT']
    codes += [x[-3:] for x in L.new_s if len(x) >= 3]
    talk = list(spec.TALKERS) + list(spec.STATIONS) + ['XX', 'gp', 'II', 'SN', 'P ', '12', 'BS', 'ai'] + [x[:2] for x in L.new_s if len(x) >= 2] + [x[-2:] for x in L.new_s if len(x) >= 2]
    for f in '$!':
        for tk in talk:
            for cd in codes:
                body = ''
                for n in GBASE:
                    if cd.lower() == n: body = GBASE[n][6:]
                if cd == 'GSV': body = ',1,1,01,03,03,111,00'
                if cd[:2] == 'VD': body = ',1,1,,A,13u?etPv2;0n:dDPwUM1U1Cb069D,0'
                out.append(cks(f + tk + cd + (body or ',1,2,3')))
    A = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abz$! '
    for f in '$!':
        for a in A:
            for b in A if deep else rng.sample(A, 8):
                out.append(cks(f + a + b + (GBASE['gll'][3:] if f == '$' else 'VDM,1,1,,A,13u?etPv2;0n:dDPwUM1U1Cb069D,0')))
    for mt in range(64):
        for own in 'MO':
            for ln in (168, 424, 38, 6): out.append(vdm(put(rbits(rng, ln), 0, 6, mt), '!AIVD' + own))
    for t in ['', '$', '!', 'GPGGA', '$GPGGAX', '!AIVDMX', '!AIVDM ', 'x', '#GPGGA', '$GPGG', '!AIVD', '$PGRME', '\\s:x\\!AIVDM', '$GP', '$GGA', '$VDM', '!GGA', '!VDM', '!AVDM', 'AIVDM', '$GPGGA\t']:
        for r in ('', ',', ',1,1,,A,13u?etPv2;0n:dDPwUM1U1Cb069D,0', ',123519,4807.038,N,01131.324,E,1,08,0.9,545.4,M,46.9,M,,'):
            for c in ('', '*', '*00'): out.append(t + r + c)
            out.append(cks(t + r))
    for k in range(0, len(out), 30): yield out[k:k + 30]
    # armour: every character, everywhere
    p = '13u?etPv2;0n:dDPwUM1U1Cb069D'
    out = []
    for c in [chr(x) for x in range(32, 127) if chr(x) not in ',*']:
        for k in (0, 5, 12, len(p) - 1): out.append(cks('!AIVDM,1,1,,A,%s,0' % (p[:k] + c + p[k + 1:])))
    for n in range(0, 80): out.append(cks('!AIVDM,1,1,,A,%s,0' % ''.join(rng.choice(list(ALPHA)) for _ in range(n))))
    for hd in itertools.product(('1', '', '0', '2', '3', '+1', '01', 'x', '256', '-1', ' 1'), ('1', '', '2', '0', 'x', '256'), ('', '1', 'x')):
        out.append(cks('!AIVDM,%s,%s,%s,A,%s,0' % (hd + (p,))))
    for k in range(0, len(out), 30): yield out[k:k + 30]


def g_wild(L, rng, deep):
    """Arbitrary text, non-ASCII included: only absence of panics is judged where the sentence is not ASCII."""
    good = list(GBASE.values()) + ['!AIVDM,1,1,,A,13u?etPv2;0n:dDPwUM1U1Cb069D,0', '$GPGSV,1,1,01,03,03,111,00', '!AIVDM,2,1,1,A,55?MbV02;H;s<HtKR20EHE:0@T4@Dn2222222216L961O5Gf0NSQEp6ClRp8,0']
    al = list('0123456789ABCDEWNSVMO,,,,**$!.+-xeéß€😀 \u0660\u00a0\x00\n\r\t\u200b')
    for _ in range(4000 if deep else 500):
        h = []
        for _ in range(6):
            s = list(rng.choice(good))
            for _ in range(rng.choice((1, 1, 2, 3, 6))):
                k = rng.randrange(len(s))
                r = rng.random()
                if r < .4: s[k] = rng.choice(al)
                elif r < .6: s.insert(k, rng.choice(al))
                elif r < .8 and len(s) > 1: del s[k]
                else: s = s[:k] or ['$']
            s = ''.join(s)
            if 'GSV' in s:
                f = s.split(',')
                if len(f) > 1 and (rparse_big(f[1]) or 0) > 2000: continue
            r = rng.random()
            h.append(s if r < .4 or not s.isascii() else cks(s.replace('*', '')))
        if h: yield h


def rparse_big(x):
    try: return int(x)
    except ValueError: return None


FAM = {}
for mt in (1, 2, 3, 4, 5, 6, 9, 10, 18, 21, 27):
    FAM['t%d' % mt] = lambda L, r, d, mt=mt: many(g_ais(mt, L, r, d))
FAM['t24'] = g_t24
FAM['t24ab'] = lambda L, r, d: ([s] for p in (0, 1) for h in many(g_ais(24, L, r, False, p), 1) for s in h)
FAM['frag'] = g_frag
FAM['keys'] = g_keys
FAM['state'] = g_state
FAM['again'] = g_again
FAM['gsv'] = g_gsv
for n in spec.GNSS: FAM[n] = lambda L, r, d, n=n: g_gnss(n, L, r, d)
FAM['general'] = g_general
FAM['wild'] = g_wild


def mmsis(L, r, d):
    """Every leading three digits; the country digits of other kinds of stations, which are not where those of ships are."""
    for k in range(1074):
        for x in ((0, 999999, r.randrange(1000000)) if d else (r.randrange(1000000),)):
            if k * 1000000 + x < 1 << 30: yield k * 1000000 + x
    for m in range(200, 780) if d else [201, 230, 775] + [r.randrange(201, 776) for _ in range(20)]:
        for x in [m, m * 10, m * 100, m * 1000, m * 10000, m * 100000] + [a * 10000 + m * 10 ** b for b in range(1, 6) for a in (80000, 90000, 97000, 98000, 99000, 11100, 97200, 97400)]: yield x + r.choice((0, 1, 7))
        for a in [x for x in L.new_i if x < 1000]: yield a * 1000000 + m * 1000; yield a * 1000000 + m * 10; yield int(('%d%d00000000' % (a, m))[:9])
    for x in L.hot: yield x & (1 << 30) - 1


FAM['mid'] = lambda L, r, d: many(put(base_bits(5, r), 8, 30, x) for x in mmsis(L, r, d))


# ------------------------------------------------------------------ running
class Runner:
    def __init__(self, exe): self.exe = exe

    def run(self, hs, timeout=60):
        """Answers of the real crate for each history."""
        inp = []
        for h in hs:
            inp.append('N')
            inp += ['S ' + s.encode('utf-8', 'surrogatepass').hex() for s in h]
        try:
            r = subprocess.run([self.exe], input='\n'.join(inp) + '\n', capture_output=True, text=True, timeout=timeout)
            lines = r.stdout.split('\n')[:-1] if r.stdout.endswith('\n') else r.stdout.split('\n')
        except subprocess.TimeoutExpired as e:
            lines = (e.stdout or b'').decode('utf-8', 'replace').split('\n')[:-1]
        n = sum(len(h) for h in hs)
        lines += ['T'] * (n - len(lines))
        it = iter(lines)
        return [[next(it) for _ in h] for h in hs]


def at(ms): return D.datetime(1970, 1, 1) + D.timedelta(milliseconds=int(ms))


def judge_history(J, h, ans):
    """First disagreement of one history, or None."""
    R = Ref()
    for k, (s, a) in enumerate(zip(h, ans)):
        if a.startswith('T'): return None if k and ans[k - 1].startswith('T') else (k, {'C01'}, set(), 'no answer (hang or crash)')
        t = a.split(' ', 3) if a.startswith('R') else None
        t0 = at(t[1]) if t else utcnow()
        snap = (dict(R.frag), dict(R.t24), dict(R.gsv))
        v = J.judge(R.step(s, t0), a)
        if v and t:
            after = (R.frag, R.t24, R.gsv)
            R.frag, R.t24, R.gsv = snap
            v2 = J.judge(R.step(s, at(int(t[2]) + 1)), a)
            if not v2: v = None
            else: R.frag, R.t24, R.gsv = after
        if v: return k, v[0], v[1], v[2]
        if R.vague or a.startswith('P'): return None
    return None


def elsewhere(run, x, known):
    """Whether the disagreement goes away once the earlier sentences that left nothing pending are dropped: then the answer depends on more than C24 allows."""
    h = x['history']
    if len(h) < 2 or len(h) > 3000: return False
    R, owner, old = Ref(), {}, {}
    for j, s in enumerate(h[:-1]):
        R.step(s, utcnow())
        cur = {(n, k): repr(v) for n in ('frag', 't24', 'gsv') for k, v in getattr(R, n).items()}
        owner = {e: owner[e] if e in owner and old.get(e) == v else j for e, v in cur.items()}
        old = cur
    g = [h[j] for j in sorted(set(owner.values()))] + [h[-1]]
    return len(g) < len(h) and judge_history(Judge(known), g, run.run([g], 20)[0]) is None


def sweep(exe, fams, L, seed, deep, known, deadline, stop=None, chunk=150):
    """Runs the families; returns (disagreements, statistics).  stop(props, broad): enough found."""
    J = Judge(known)
    out, st = [], {}
    run = Runner(exe)
    for f in fams:
        rng = random.Random(zlib.crc32(('%s/%s' % (seed, f)).encode()))
        n = 0
        it = FAM[f](L, rng, deep)
        while time.time() < deadline:
            hs = list(itertools.islice(it, chunk))
            if not hs: break
            for h, a in zip(hs, run.run(hs)):
                n += len(h)
                d = judge_history(J, h, a)
                if d: out.append({'family': f, 'history': h[:d[0] + 1], 'answers': a[:d[0] + 1], 'props': sorted(d[1]), 'broad': sorted(d[2]), 'what': d[3]})
            if len(out) > 400 or (stop and stop(out)): break
        st[f] = n
    k = 0
    for x in sorted(out, key=lambda x: len(x['history'])):
        if 'C24' in x['props'] or len(x['history']) < 2: continue
        k += 1
        if k > 40 or time.time() > deadline + 20: break
        try:
            if elsewhere(run, x, known): x['props'] = sorted(set(x['props']) | {'C24'}); x['what'] += ' (and as expected without the sentences that left nothing pending)'
        except Exception: pass
    return out, st, J


def minimise(exe, x, known):
    """Drops sentences of the history that the disagreement does not need."""
    run = Runner(exe)
    h = list(x['history'])

    def bad(h):
        a = run.run([h], 20)[0]
        d = judge_history(Judge(known), h, a)
        return (d, a) if d and set(d[1]) & set(x['props']) else None
    if len(h) > 200: return x
    k = 0
    best = None
    while k < len(h):
        g = h[:k] + h[k + 1:]
        r = bad(g) if g else None
        if r: h = g[:r[0][0] + 1]; best = r
        else: k += 1
    if best:
        d, a = best
        return dict(x, history=h, answers=a[:len(h)], props=sorted(d[1]), broad=sorted(d[2]), what=d[3])
    return x


if __name__ == '__main__':
    exe = sys.argv[1]
    L = Lits('/repo', os.path.join(oracle.HERE, 'literals.json'))
    t = time.time()
    fams = sys.argv[3:] or list(FAM)
    out, st, J = sweep(exe, fams, L, 1, sys.argv[2] == 'deep', {'t5-eta-seconds', 't27-longitude', 't27-latitude', 't27-sog', 't27-cog', 't27-gnss'}, time.time() + 900)
    print(st, sum(st.values()), J.kinds, list(J.hit), '%.1fs' % (time.time() - t))
    for x in out[:12]: print(x['family'], x['props'], x['broad'], x['what'][:300], repr(x['history'][-1])[:200], x['answers'][-1][:50])
    print(len(out))
