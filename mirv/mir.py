"""Loads the MIR dump written by mirdump and answers type/CFG questions about it."""
import json, os, re


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.T = d['types']
        self.I = d['insts']
        self.roots = d['roots']
        self.by_def = {}
        for k, i in enumerate(self.I):
            if i and 'body' in i: self.by_def.setdefault(i['def'], []).append(k)
        self._cfg = {}
        self._ts = {}
        self.renamed = {}
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sigs.json')
        if os.path.exists(p): self.follow_renames(json.load(open(p)))
        for k, t in enumerate(self.T): self._ts.setdefault(t['s'], k)

    def sigs(self):
        """Argument and result types of every function of the crate, by path."""
        norm = lambda x: re.sub(r"'\w+ ", '', x).replace('&std::string::String', '&str').replace('&std::vec::Vec<', '&[')
        r = {}
        for k, i in enumerate(self.I):
            if i and i.get('local') and 'body' in i and i['kind'] == 'Item' and '{closure' not in i['def'] and i['def'].startswith('nmea_parser::'):
                b = i['body']
                r.setdefault(i['def'], set()).add('(%s) -> %s' % (', '.join(norm(self.T[t]['s']) for t in b['locals'][1:b['argc'] + 1]), norm(self.T[b['locals'][0]]['s'])))
        return {d: sorted(v) for d, v in r.items()}

    def follow_renames(self, old):
        """A function that is gone is the new function with its signature, if there is exactly one: its contract is then proved
        for (and used at the calls of) the renamed or moved function."""
        now = self.sigs()
        gone = [d for d in old if d not in now]; new = [d for d in now if d not in old]
        if not gone or not new: return
        tail = lambda d: d.split('::')[-1]
        m = {}
        for g in gone:
            c = [d for d in new if now[d] == old[g]]
            rivals = [x for x in gone if old[x] == old[g]]
            byname = [d for d in c if tail(d) == tail(g)]
            if len(byname) == 1: m[byname[0]] = g
            elif len(c) == 1 and len(rivals) == 1: m[c[0]] = g
        for i in self.I:
            if i:
                for d, g in m.items():
                    if i['def'] == d or i['def'].startswith(d + '::{closure'): i['def'] = g + i['def'][len(d):]
        for t in self.T:
            if t['k'] == 'fndef' and t['name'] in m: t['name'] = m[t['name']]
        for d, g in m.items():
            if d in self.by_def: self.by_def[g] = self.by_def.pop(d)
        self.renamed = m

    def find(self, suffix):
        """Instances of a local function given by (a suffix of) its path."""
        r = []
        for k, i in enumerate(self.I):
            if i and i.get('local') and 'body' in i and i['kind'] == 'Item':
                if i['def'] == suffix or i['def'].endswith('::' + suffix): r.append(k)
        return r

    def tname(self, t): return self.T[t].get('name', self.T[t]['s'])

    def type_by_str(self, s): return self._ts.get(s)

    def adt(self, suffix):
        """Type id of a local (non generic) adt by path suffix."""
        for k, t in enumerate(self.T):
            if t['k'] in ('struct', 'enum') and (t['name'] == suffix or t['name'].endswith('::' + suffix)): return k
        return None

    def cfg(self, inst):
        if inst not in self._cfg: self._cfg[inst] = Cfg(self.I[inst]['body'])
        return self._cfg[inst]


def term_succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [b for _, b in t[2]] + [t[3]]
    if k == 'drop': return [t[2]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    if k == 'assert': return [t[4]]
    return []


class Cfg:
    def __init__(self, body):
        self.blocks = body['blocks']
        n = len(self.blocks)
        self.succ = [sorted(set(term_succs(b['t'])), key=lambda x: x) for b in self.blocks]
        ret = {k for k, b in enumerate(self.blocks) if b['t'][0] == 'return'}
        while True:
            new = {k for k in range(n) if k not in ret and any(x in ret for x in self.succ[k])}
            if not new: break
            ret |= new
        self.returns = ret
        seen, post = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.succ[s]))); break
            else:
                post.append(b); stack.pop()
        self.rpo = post[::-1]
        idx = {b: i for i, b in enumerate(self.rpo)}
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]: pred[s].append(b)
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]: a = idom[a]
                                while idx[c] > idx[a]: c = idom[c]
                            new = a
                if idom.get(b) != new: idom[b] = new; changed = True

        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        self.loops = {}
        self.reducible = True
        for b in self.rpo:
            for s in self.succ[b]:
                if idx[s] <= idx[b]:
                    if not dom(s, b): self.reducible = False; continue
                    L = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in L: continue
                        L.add(x); work += pred[x]
        self.live_in = self.liveness()
        # a topological order of the acyclic part
        self.order = self.rpo

    def liveness(self):
        """Locals that may be read from the start of each block (drops read nothing the verifier models)."""
        pinned = set()

        def places(x, out):
            if isinstance(x, list):
                if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list): 
                    out.append(x)
                    for p in x[1]:
                        if p and p[0] == '[]': out.append([p[1], []])
                    return
                for y in x: places(y, out)
            elif isinstance(x, dict):
                for y in x.values(): places(y, out)
        gen, kill = [], []
        for bb in self.blocks:
            g, k = set(), set()

            def use(x):
                o = []
                places(x, o)
                for l, _ in o:
                    if l not in k: g.add(l)

            def dest(pl):
                if pl[1]: use(pl)
                else: k.add(pl[0])
            for st in bb['st']:
                if st[0] in ('=',):
                    r = st[2]
                    if r[0] in ('ref', 'raw', 'addr', 'rawptr') and (r[0] != 'ref' or r[1] != 'shared') and not any(p[0] == '*' for p in r[2][1]): pinned.add(r[2][0])
                    use(r); dest(st[1])
                else: use(st[1:])
            t = bb['t']
            if t[0] == 'call':
                use(t[1]); use(t[2]); dest(t[3])
            elif t[0] == 'switch': use(t[1])
            elif t[0] == 'assert': use(t[1])
            elif t[0] == 'return': use([[0, []]])
            elif t[0] not in ('drop', 'goto', 'unreachable', 'abort'): use(t[1:])
            gen.append(g); kill.append(k)
        live = [set() for _ in self.blocks]
        changed = True
        while changed:
            changed = False
            for b in reversed(self.rpo):
                out = set()
                for x in self.succ[b]: out |= live[x]
                n = gen[b] | (out - kill[b])
                if n != live[b]: live[b] = n; changed = True
        return [l | pinned for l in live]

    def assigned(self, blocks):
        r = set()
        for b in blocks:
            bb = self.blocks[b]
            for s in bb['st']:
                if s[0] in ('=', 'setdiscr') and not any(p[0] == '*' for p in s[1][1]): r.add(s[1][0])
            t = bb['t']
            if t[0] == 'call' and not any(p[0] == '*' for p in t[3][1]): r.add(t[3][0])
        return r
