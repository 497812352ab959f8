"""The specification tables of spec.py evaluated on concrete sentences: what the parser has to answer, with every part of the
answer labelled by the property that demands it.  Used to replay a failed obligation against the real crate and as the bounded
stand-in where a function is out of the verifier's reach."""
import re, json, os, math, datetime as D
import spec

HERE = os.path.dirname(os.path.abspath(__file__))
MID = json.load(open(os.path.join(HERE, 'mid.json')))


class Some:
    __slots__ = ('v',)

    def __init__(self, v): self.v = v

    def __eq__(self, o): return isinstance(o, Some) and same(self.v, o.v)

    def __repr__(self): return 'Some(%s)' % show(self.v)


class En(str):
    """An enum variant without payload."""

    def __repr__(self): return str(self)


class Any_:
    def __repr__(self): return '<any>'


ANY = Any_()


class Rec:
    __slots__ = ('name', 'f')

    def __init__(self, name, f): self.name, self.f = name, f

    def __repr__(self): return '%s { %s }' % (self.name, ', '.join('%s: %s' % (k, show(v)) for k, v in self.f.items()))


def show(v):
    if v is None: return 'None'
    if isinstance(v, bool): return str(v).lower()
    if isinstance(v, En): return str(v)
    if isinstance(v, str): return json.dumps(v)
    return repr(v)


def same(a, b):
    if a is ANY or b is ANY: return True
    if isinstance(a, bool) or isinstance(b, bool): return a is b
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)): return False
        if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)
        return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)) if not (math.isinf(a) or math.isinf(b)) else a == b
    if isinstance(a, En) != isinstance(b, En): return False
    if isinstance(a, Rec): return isinstance(b, Rec) and a.name == b.name and a.f.keys() == b.f.keys() and all(same(v, b.f[k]) for k, v in a.f.items())
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


# ------------------------------------------------------------------ Rust number syntax
UMAX = {'u8': 255, 'u16': 65535, 'u32': 2 ** 32 - 1, 'u64': 2 ** 64 - 1}
F64 = re.compile(r'[+-]?(inf|infinity|nan|([0-9]+\.?[0-9]*|\.[0-9]+)(e[+-]?[0-9]+)?)\Z', re.I)


def rparse(s, t):
    """Value of str::parse::<t>, or None."""
    if t == 'f64':
        return float(s) if F64.match(s) else None
    if t == 'i32':
        if not re.match(r'[+-]?[0-9]+\Z', s): return None
        v = int(s)
        return v if -2 ** 31 <= v < 2 ** 31 else None
    if not re.match(r'\+?[0-9]+\Z', s): return None
    v = int(s)
    return v if v <= UMAX[t] else None


class DT(tuple):
    """A UTC date and time (year may be outside Python's range)."""

    def __repr__(self): return '%d-%02d-%02dT%02d:%02d:%02dZ' % self[:6]


def mk(y, mo, d, h, mi, s):
    if not (1 <= mo <= 12 and 1 <= d and 0 <= h < 24 and 0 <= mi < 60 and 0 <= s < 60): return None
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    if d > [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]: return None
    return DT((y, mo, d, h, mi, s))


def instant(n): return (n.year, n.month, n.day, n.hour, n.minute, n.second, n.microsecond)


class ConcB:
    """Concrete reading of the specification tables (same interface as contracts.SymB)."""

    def __init__(self, bits='', station=None, own=None, nav=None, fields=None, now=None):
        self.b, self.station, self.own, self.nav, self.F, self.now = bits, station, own, nav, fields, now
        self.fails = []
        self.coords = set()
        self.seen = None

    def u(self, i, n):
        if self.seen is not None: self.seen.append((i, n, 'u'))
        x = self.b[i:i + n]
        return int(x or '0', 2) << (n - len(x))

    def s(self, i, n):
        v = self.u(i, n)
        if self.seen is not None: self.seen[-1] = (i, n, 's')
        return v - (1 << n) if v >> (n - 1) else v

    def flag(self, i):
        if self.seen is not None: self.seen.append((i, 1, 'b'))
        return i < len(self.b) and self.b[i] == '1'

    def text(self, i, n):
        if self.seen is not None: self.seen.append((i, 6 * n, 't'))
        r = ''
        for k in range(n):
            x = self.b[i + 6 * k:i + 6 * k + 6]
            c = int(x or '0', 2) << (6 - len(x))
            if c == 0: break
            r += chr(c + 64 if c < 32 else c)
        return r.rstrip(' ')

    num = staticmethod(lambda k: k)
    eq = staticmethod(lambda a, b: a == b)
    ne = staticmethod(lambda a, b: a != b)
    lt = staticmethod(lambda a, b: a < b)
    le = staticmethod(lambda a, b: a <= b)
    neg = staticmethod(lambda a: -a)
    and_ = staticmethod(lambda *a: all(a))
    or_ = staticmethod(lambda *a: any(a))
    not_ = staticmethod(lambda a: not a)
    ite = staticmethod(lambda c, a, b: a() if c else b())
    opt = staticmethod(lambda c, v: Some(v()) if c else None)
    some = staticmethod(lambda v: Some(v))
    none = staticmethod(lambda: None)
    enumv = staticmethod(lambda t, n: En(n))
    cases = staticmethod(lambda x, d, o: d.get(x, o))
    f = staticmethod(float)
    fdiv = staticmethod(lambda a, c: a / c)
    fmul = staticmethod(lambda a, c: a * c)
    fsq = staticmethod(lambda a: a * a)
    fneg = staticmethod(lambda a: -a)
    nonempty = staticmethod(lambda s: s != '')
    cat = staticmethod(lambda a, b: a + b)

    def code(self, t, x):
        tbl, other = spec.CODES[t]
        return En(tbl.get(x, other))

    def datetime(self, *a):
        r = mk(*a)
        return Some(r) if r else None

    def eta(self, i):
        mo, d, h, mi, sec = self.u(i, 4), self.u(i + 4, 5), self.u(i + 9, 5), self.u(i + 14, 6), self.u(i + 20, 6)
        if self.seen is not None: self.seen.pop()
        if (mo, d, h, mi) == (0, 0, 24, 60): return None

        def build(sc):
            y = self.now.year
            M, Dd = mo or self.now.month, d or self.now.day
            H, MI, S = h, mi, sc
            if H == 24: H, MI, S = 23, 59, 59
            if MI == 60: MI, S = 59, 59
            t = mk(y, M, Dd, H, MI, S)
            if not (t and instant(self.now) <= t + (0,)): t = mk(y + 1, M, Dd, H, MI, S)
            return Some(t) if t else None
        return spec.Alt(build(0), build(min(sec, 59)), 't5-eta-seconds')

    # GNSS
    def fld(self, k): return self.F[k] if k < len(self.F) else ''

    def num_field(self, k, t):
        s = self.fld(k)
        if self.seen is not None: self.seen.append((k, t))
        if s == '': return None
        v = rparse(s, t)
        if v is None: self.fails.append(k); return None
        return Some(v)

    def soft_num(self, k, t):
        v = rparse(self.fld(k), t)
        if self.seen is not None: self.seen.append((k, t))
        return None if v is None else Some(v)

    def or_default(self, o, d, ty): return self.code(ty, o.v if o else d)

    def softchar(self, k, d):
        if self.seen is not None: self.seen.append((k, tuple(d)))
        x = d.get(self.fld(k))
        if x is None: return None
        return Some(En(x[1]) if isinstance(x, tuple) else x)

    def flagchar(self, k, d):
        if self.fld(k) != '' and self.fld(k) not in d: self.fails.append(k)
        return self.softchar(k, d)

    def faa(self, k): return self.softchar(k, {c: ('FaaMode', n) for c, n in spec.FAA.items()})

    def coord(self, a, b, deg, neg):
        if self.seen is not None: self.seen.append((a, 'lat' if deg == 2 else 'lon')); self.seen.append((b, 'NSEW'))
        s, h = self.fld(a), self.fld(b)
        if s == '': return None
        m = re.match('([0-9]{%d})([0-9][0-9]\\.[0-9]+)' % deg, s)
        if not m: self.fails.append(a); self.coords.add(a); return None
        v = float(m.group(1)) + float(m.group(2)) / 60.0
        return Some(-v if h == neg else v)

    def latitude(self, a, b): return self.coord(a, b, 2, 'S')

    def longitude(self, a, b): return self.coord(a, b, 3, 'W')

    def hhmmss(self, k):
        if self.seen is not None: self.seen.append((k, 'hms'))
        s = self.fld(k)
        if len(s) < 6: return None
        v = [rparse(s[i:i + 2], 'u32') for i in (0, 2, 4)]
        if None in v: return None
        n = self.now
        r = mk(n.year, n.month, n.day, *v)
        return Some(r) if r else None

    def date_time(self, d, t):
        if self.seen is not None: self.seen.append((d, 'dmy')); self.seen.append((t, 'hms'))
        d, t = self.fld(d), self.fld(t)
        v = [rparse(d[0:2], 'u32'), rparse(d[2:4], 'u32'), rparse(d[4:6], 'i32')] + [rparse(t[i:i + 2], 'u32') for i in (0, 2, 4)]
        if None in v: return None
        r = mk(self.now.year // 100 * 100 + v[2], v[1], v[0], *v[3:])
        return Some(r) if r else None

    def signed(self, a, b):
        if self.seen is not None: self.seen.append((a, 'f64')); self.seen.append((b, 'NSEW'))
        s, h = self.fld(a), self.fld(b)
        if s == '': return None
        v = rparse(s, 'f64')
        if v is None or h not in ('E', 'W'): self.fails.append(a); return None
        return Some(v if h == 'E' else -v)

    def prns(self, lo, hi):
        r = []
        for k in range(lo, hi):
            if self.seen is not None: self.seen.append((k, 'u8'))
            s = self.fld(k)
            if s == '': continue
            v = rparse(s, 'u8')
            if v is None: self.fails.append(k)
            else: r.append(v)
        return r


# ------------------------------------------------------------------ the reference parser
class Exp:
    """Expected answer: kind 'err' (variant), 'inc', 'rec' (name, fields), 'gsv' (list), 'any'.  props: the properties a different
    answer breaks; broad: those it may break through the functions the answer is computed with."""

    def __init__(self, kind, props, v=None, fields=None, dflt=None, broad=()):
        self.kind, self.props, self.v, self.fields, self.dflt, self.broad = kind, props, v, fields, dflt, set(broad)


ALPHA = {c: i for i, c in enumerate([chr(x) for x in range(48, 88)] + [chr(x) for x in range(96, 120)])}


def unarmour(p):
    if any(c not in ALPHA for c in p): return None
    return ''.join(format(ALPHA[c], '06b') for c in p)


def xor(body):
    c = 0
    for x in body[1:]: c ^= ord(x)
    return c


HANDLER_PROP = {k: v[1] for k, v in spec.AIS.items()}


class Ref:
    """Reference state machine.  step(sentence, now) gives what the parser has to answer."""

    def __init__(self): self.frag, self.t24, self.gsv, self.vague = {}, {}, {}, False

    def step(self, s, now):
        if not s.isascii(): return Exp('any', set())
        star = s.rfind('*')
        body, given = (s[:star], s[star + 1:]) if star >= 0 else (s, '')
        if given != '' and given != '%02X' % xor(body): return Exp('err', {'C02'}, 'CorruptedSentence')
        if ',' not in body: return Exp('err', {'C02', 'C03'}, 'InvalidSentence')
        F = body.split(',')
        t = F[0]
        uns = Exp('err', {'C03'}, 'UnsupportedSentenceType')
        if t[:1] not in ('$', '!'): return uns
        if len(t) > 6: return uns
        if len(t) < 6: self.vague = True; return Exp('any', set())
        if t[0] == '$':
            nav = En(spec.TALKERS.get(t[1:3], 'Other'))
            n = t[3:].lower()
            if n.upper() != t[3:]: return uns
            if n == 'gsv': return self.do_gsv(body, F, nav)
            if n not in spec.GNSS: return uns
            B = ConcB(nav=nav, fields=F, now=now)
            ty, vn, table = spec.GNSS[n](B)
            if B.fails: return Exp('err', {'C20'} if set(B.fails) <= B.coords else {'C19'}, 'InvalidSentence', dflt='C19', broad={'C19', 'C20', 'C03'})
            return Exp('rec', {'C19'}, (vn, ty), table, 'C19', {'C03', 'C20'})
        if t[3:] not in ('VDM', 'VDO'): return uns
        return self.do_ais(t, F, now)

    def do_gsv(self, body, F, nav):
        f = lambda k: F[k] if k < len(F) else ''
        n = [0 if f(k) == '' else rparse(f(k), 'u32') for k in (1, 2)]
        if None in n: return Exp('err', {'C18'}, 'InvalidSentence')
        self.gsv[(F[0], n[0], n[1])] = body
        ks = [(F[0], n[0], k) for k in range(1, n[0] + 1)] if n[0] < 100000 else [None]
        if not all(k in self.gsv for k in ks): return Exp('inc', {'C18'})
        out = []
        for k in ks:
            G = self.gsv.pop(k).split(',')
            B = ConcB(fields=G)
            for j in range(4):
                b = 4 + 4 * j
                p = B.soft_num(b, 'u8')
                if p: out.append(Rec('GsvData', dict(source=nav, prn_number=p.v, elevation=B.soft_num(b + 1, 'u8'), azimuth=B.soft_num(b + 2, 'u16'),
                                                     snr=B.soft_num(b + 3, 'u8'))))
        return Exp('gsv', {'C18'}, out)

    def do_ais(self, t, F, now):
        f = lambda k: F[k] if k < len(F) else ''
        own = t[3:] == 'VDO'
        station = En(spec.STATIONS.get(t[1:3], 'Other'))
        n = [rparse(f(k), 'u8') if k < len(F) else 0 for k in (1, 2)]
        if None in n: return Exp('err', {'C03', 'C16'}, 'InvalidSentence')
        cnt, num = n
        mid = rparse(f(3), 'u64')
        pay = f(5)
        nothing = Exp('inc', {'C16'})
        st = {'C03'}
        if cnt == 2:
            st = {'C16'}
            if mid is None or num not in (1, 2): return nothing
            k = lambda i: ('!' + t[3:], 2, i, mid, f(4))
            if k(3 - num) in self.frag:
                o = self.frag.pop(k(3 - num))
                pay = pay + o if num == 1 else o + pay
            else:
                self.frag[k(num)] = pay
                return nothing
        elif cnt != 1: return nothing
        bits = unarmour(pay)
        if bits is None: return Exp('inc', {'C04'}, broad=st)
        B = ConcB(bits, station, own, now=now)
        mt = B.u(0, 6)
        h = spec.AIS_BY_TYPE.get(mt)
        if h is None or h == 'vdm_t19': return Exp('err', {'C03'}, 'UnsupportedSentenceType', broad=st | {'C04', 'C05'})
        if h == 'vdm_t24': return self.do_t24(B, st)
        fn, prop, vn = spec.AIS[h]
        name, table = fn(B)
        return Exp('rec', {prop}, (vn, name), table, prop, st | {'C03', 'C04', 'C05'})

    def do_t24(self, B, st):
        st = st | {'C17', 'C03', 'C04', 'C05'}
        part, mmsi = B.u(38, 2), B.u(8, 30)
        if part > 1: return Exp('err', {'C17'}, 'InvalidSentence', broad=st)
        name, rec = spec.t24(B, part)
        rec = {k: (v[1] if isinstance(v, tuple) else v) for k, v in rec.items()}
        if mmsi not in self.t24:
            self.t24[mmsi] = rec
            return Exp('inc', {'C17'}, broad=st)
        o = self.t24.pop(mmsi)
        m = {}
        for k in rec:
            if k in ('own_vessel', 'ais_type', 'mmsi', 'ais_version_indicator'): m[k] = rec[k]
            elif k == 'ship_type': m[k] = o[k] if rec[k] == 'NotAvailable' else rec[k]
            elif k == 'cargo_type': m[k] = o[k] if rec[k] == 'Undefined' else rec[k]
            else: m[k] = rec[k] if rec[k] is not None else o[k]
        return Exp('rec', {'C17'}, ('VesselStaticData', name), m, 'C17', st)


# ------------------------------------------------------------------ Rust Debug output
TOK = re.compile(r'\s*("(?:[^"\\]|\\.)*"|\d{4,6}-\d\d-\d\dT[\d:.]+Z?(?:UTC)?|[+-]\d{5,6}-\d\d-\d\dT[\d:.]+Z|-?\d[\d.]*(?:e-?\d+)?|-?inf|NaN|[A-Za-z_][A-Za-z_0-9]*|[{}()\[\],:])')


def unesc(t):
    return re.sub(r'\\(u\{([0-9a-f]+)\}|.)', lambda m: chr(int(m.group(2), 16)) if m.group(2) else {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(m.group(1), m.group(1)), t)


class Dbg:
    def __init__(self, s):
        self.t = TOK.findall(s); self.i = 0

    def peek(self): return self.t[self.i] if self.i < len(self.t) else None

    def next(self): self.i += 1; return self.t[self.i - 1]

    def val(self):
        t = self.next()
        if t[0] == '"': return unesc(t[1:-1])
        if re.match(r'[+-]?\d{4,6}-\d\d-', t):
            m = re.match(r'([+-]?\d+)-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:Z|UTC)?$', t)
            return DT(map(int, m.groups())) if m else t
        if t == 'NaN': return float('nan')
        if t in ('inf', '-inf'): return float(t)
        if t[0].isdigit() or t[0] == '-': return float(t) if re.search(r'[.e]', t) else int(t)
        if t == '[':
            r = []
            while self.peek() != ']':
                r.append(self.val())
                if self.peek() == ',': self.next()
            self.next()
            return r
        if t in ('true', 'false'): return t == 'true'
        if t == 'None': return None
        if self.peek() == '(':
            self.next()
            r = []
            while self.peek() != ')':
                r.append(self.val())
                if self.peek() == ',': self.next()
            self.next()
            return Some(r[0]) if t == 'Some' else (t, r[0] if len(r) == 1 else r)
        if self.peek() == '{':
            self.next()
            r = {}
            while self.peek() != '}':
                k = self.next(); self.next()
                r[k] = self.val()
                if self.peek() == ',': self.next()
            self.next()
            return Rec(t, r)
        return En(t)


def parse_dbg(s): return Dbg(s).val()


# ------------------------------------------------------------------ judging one answer
NORMAL = {'Ok', 'Err'}
TYPED = {'C23': ('nav_status', 'ship_type', 'cargo_type', 'position_fix_type', 'aid_type', 'quality', 'faa_mode'), 'C07': ('latitude', 'longitude'),
         'C24': ('own_vessel', 'station'), 'C13': ('eta',)}
NOTBITS = ('own_vessel', 'station', 'ais_type')


class Judge:
    """Compares the crate's answers with the specification's.  known: findings recorded for the unchanged tree."""

    def __init__(self, known): self.known = known; self.hit = {}; self.n = 0; self.kinds = {}

    def judge(self, exp, line):
        """None, or (properties broken, properties possibly broken underneath, what)."""
        self.n += 1
        if line.startswith('P '): return {'C01'} | exp.props | ({exp.dflt} if exp.dflt else set()), exp.broad, 'panics: ' + line[2:200]
        if line.startswith('T'): return {'C01'} | exp.props, exp.broad, 'no answer'
        if exp.kind == 'any': return None
        parts = [x.rstrip(' ') for x in line.split(' ', 3)[3].split('\x1f')]
        tag, v = parse_dbg(parts[0])
        self.kinds[exp.kind] = self.kinds.get(exp.kind, 0) + 1
        got = parts[0][:300]
        var = v[0] if isinstance(v, tuple) else v
        want = 'Err(%s)' % exp.v if exp.kind == 'err' else {'inc': 'Incomplete', 'gsv': 'Gsv'}.get(exp.kind) or exp.v[0]
        wrong = (exp.props | ({'C02'} if var == 'CorruptedSentence' else set()), exp.broad, 'expected %s, got %s' % (want, got))
        if exp.kind == 'err': return None if tag == 'Err' and var == exp.v else wrong
        if tag != 'Ok': return wrong
        if exp.kind == 'inc': return None if var == 'Incomplete' else wrong
        if not isinstance(v, tuple): return wrong
        if exp.kind == 'gsv':
            if var == 'Gsv' and same(exp.v, v[1]): return None
            return wrong[:2] + ('expected Gsv(%s), got %s' % (show(exp.v)[:600], got),)
        vn, name = exp.v
        if var != vn or not isinstance(v[1], Rec) or v[1].name != name: return wrong
        rec = v[1].f
        props, broad, what = set(), set(), []
        for k, e in exp.fields.items():
            if k not in rec: continue      # renamed field: the record's shape is not part of the property
            ps = {exp.dflt}
            if isinstance(e, tuple): ps |= set(e[0].split('+')); e = e[1]
            g = rec[k]
            if isinstance(e, spec.Alt):
                if same(e.ok, g): continue
                if same(e.known, g) and e.finding in self.known:
                    self.hit[e.finding] = (e.ok, g); continue
                e = e.ok
            if same(e, g): continue
            broad |= exp.broad
            for p, ns in TYPED.items():
                if k in ns: broad.add(p)
            if exp.dflt != 'C19' and k not in NOTBITS: broad |= {'C06', 'C05'} if self.texty(e) or self.texty(g) else {'C05'}
            if k == 'source': ps = {'C03', 'C19'}
            if k in ('own_vessel', 'station'): ps |= {'C03'}
            props |= ps; what.append('%s = %s, expected %s' % (k, show(g), show(e)))
        if props: return props, broad, '%s: %s' % (name, '; '.join(what[:6]))
        for x in parts[1:]:
            n, y = x.split(' ', 1)
            g = parse_dbg(y)
            if n == 'country':
                c = MID.get(str(rec['mmsi'] // 1000000))
                if not same(Some(c) if c else None, g): return {'C22'}, set(), 'country of MMSI %d is %s, expected %s' % (rec['mmsi'], y, c)
            else:
                k = {'lat': 'latitude', 'lon': 'longitude'}[n]
                if not same(rec.get(k), g): return {'C07'}, set(), '%s() gives %s for a record whose field is %s' % (k, y, show(rec.get(k)))
        return None

    @staticmethod
    def texty(v):
        v = v.v if isinstance(v, Some) else v
        return isinstance(v, str) and not isinstance(v, En)
