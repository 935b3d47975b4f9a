"""Facts (monomorphic MIR) loader."""
import json, re
from .names import canonical

def strip_generics(s):
    out = []; d = 0; i = 0
    while i < len(s):
        if s.startswith('::<', i) and not s.startswith('::<impl ', i):
            # skip a balanced generic list
            d = 0; j = i + 2
            while j < len(s):
                if s[j] == '<': d += 1
                elif s[j] == '>' and s[j - 1] != '-':
                    d -= 1
                    if d == 0: break
                j += 1
            i = j + 1
            continue
        out.append(s[i]); i += 1
    return ''.join(out)

_RENAME = {'functions::spawn': 'thread::spawn', 'converts::from_utf8': 'str::from_utf8', 'stdio::_print': 'io::_print', 'stdio::_eprint': 'io::_eprint',
           'bounded::channel': 'mpsc::channel', 'converts::from_utf8_unchecked': 'str::from_utf8_unchecked', 'converts::from_utf8_unchecked_mut': 'str::from_utf8_unchecked_mut', 'unbounded::unbounded_channel': 'mpsc::unbounded_channel'}

def canon(c):
    """short canonical name of a callee that is not in the crate"""
    name = c.get('name', '')
    if 'trait' in c:
        return c['trait'].split('::')[-1].split('<')[0] + '::' + name
    p = c.get('res') or c['decl']
    crate = p.lstrip('<&').split('::')[0]
    p = strip_generics(p)
    # split on :: outside <>
    segs = []; d = 0; cur = ''
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == '<': d += 1
        elif ch == '>' and p[i - 1] != '-': d -= 1
        if d == 0 and p.startswith('::', i):
            segs.append(cur); cur = ''; i += 2; continue
        cur += ch; i += 1
    segs.append(cur)
    def seg(s):
        if s.startswith('<impl '):
            x = s[6:-1]
            if x.startswith('['): return 'slice'
            return x.split('::')[-1].split('<')[0]
        if s.startswith('<'):
            return s.strip('<>').split('::')[-1].split('<')[0].split(' ')[0]
        return s.split('<')[0]
    segs = [seg(s) for s in segs]
    n = '::'.join(segs[-2:])
    n = re.sub(r'^BTree(Map|Set)::', r'Hash\1::', _RENAME.get(n, n))
    if crate in ('tokio', 'regex'): n = crate + '::' + n
    return n

class Fn:
    pass

class Prog:
    def __init__(self, path):
        self.renamed = []
        d = canonical(open(path).read(), self.renamed)
        self.types = d['types']
        self.fns = {}
        self.impls = {}
        for im in d['impls']:
            self.impls.setdefault((im['trait'].split('::')[-1], im['method'], im['self']), []).append(im)
        for f in d['fns']:
            F = Fn()
            F.id = f['id']; F.path = f['path']; F.name = f.get('name'); F.local = f.get('local', False)
            F.error = f.get('error'); F.span = f.get('span'); F.argc = f.get('argc'); F.kind = f.get('kind')
            F.parent = f.get('parent'); F.impl_self = f.get('impl_self'); F.impl_trait = f.get('impl_trait')
            F.auto = f.get('auto', False); F.targs = f.get('targs', []); F.spread = f.get('spread')
            F.locals = f.get('locals', []); F.names = f.get('names', [])
            F.blocks = f.get('blocks', [])
            F.synth = False
            self.fns[F.id] = F
            self._cfg(F)
        self.callees = []
        self._ckey = {}
        self.tyidx = {t['s']: i for i, t in enumerate(self.types)}
        self.nsynth = 0

    def callee_idx(self, c):
        k = json.dumps(c, sort_keys=True)
        i = self._ckey.get(k)
        if i is None:
            i = len(self.callees)
            c = dict(c)
            c['canon'] = canon(c)
            self.callees.append(c); self._ckey[k] = i
        return i

    def succ(self, term):
        k = term[0]
        if k == 'goto': return [term[1]]
        if k == 'switch': return [x[1] for x in term[2]] + [term[3]]
        if k == 'drop': return [term[2]]
        if k == 'assert': return [term[4]]
        if k == 'call': return [] if term[4] is None else [term[4]]
        if k == 'yield': return [term[1]]
        return []

    def _cfg(self, F):
        n = len(F.blocks)
        F.preds = [0] * n
        F.unreach = set(i for i, b in enumerate(F.blocks) if b[1][0] == 'unreach' and not b[0])
        F.headers = {}
        if not n: return
        succ = [self.succ(b[1]) for b in F.blocks]
        # reverse postorder
        seen = [False] * n; order = []
        st = [(0, iter(succ[0]))]; seen[0] = True
        while st:
            b, it = st[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True; st.append((s, iter(succ[s]))); break
            else:
                order.append(b); st.pop()
        order.reverse()
        preds = [[] for _ in range(n)]
        for b in order:
            for s in set(succ[b]): preds[s].append(b)
            for s in succ[b]: F.preds[s] += 1
        # dominators
        num = {b: i for i, b in enumerate(order)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps: continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while num[x] > num[y]: x = idom[x]
                        while num[y] > num[x]: y = idom[y]
                if idom.get(b) != x: idom[b] = x; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        for b in order:
            for s in succ[b]:
                if dom(s, b):
                    body = F.headers.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in body: continue
                        body.add(x); w.extend(preds[x])
        F.idom = idom

    # ------------------------------------------------------------ lookups
    def ty(self, i): return self.types[i]
    def tys(self, i): return self.types[i]['s']
    def find(self, pat, kind=None):
        r = re.compile(pat)
        return [f for f in self.fns.values() if f.local and r.fullmatch(strip_generics(f.path)) and (kind is None or f.kind == kind)]

    # ------------------------------------------------------------ synthetic bodies
    def synth(self, name, argc, text):
        """tiny assembler for model bodies. One block per line: `stmt; stmt; terminator`.
        stmts: _a = <rv> ; rv: _b | &_b.f | _b.f | #n | Kind/v(args) | discr _b
        terminators: goto n | sw _a v:n v:n else:n | call _d = name(args) -> n | ret"""
        F = Fn()
        self.nsynth += 1
        F.id = -self.nsynth; F.path = 'model::' + name; F.name = name; F.local = False; F.error = None
        F.span = ['model', 0]; F.argc = argc; F.kind = 'fn'; F.parent = None; F.impl_self = None; F.impl_trait = None
        F.auto = False; F.targs = []; F.spread = None; F.names = []; F.synth = True
        F.locals = [None] * 40
        blocks = []
        def place(s):
            s = s.strip()
            star = 0
            while s.startswith('*'): star += 1; s = s[1:]
            parts = s.split('.')
            l = int(parts[0][1:])
            pj = ['*'] * star
            for p in parts[1:]:
                if '@' in p:
                    v, i = p.split('@'); pj.append(['d', int(v)]); pj.append(['f', int(i), None])
                else: pj.append(['f', int(p), None])
            return [l, pj]
        def operand(s):
            s = s.strip()
            if s.startswith('#'): return {'c': {'ty': None, 'v': {'i': s[1:]}}}
            if s.startswith('%'): return {'c': {'ty': None, 'v': {'adt': 'unit', 'v': 0, 'f': []}}}
            if s.startswith('='): return {'p': place(s[1:])}
            return {'m': place(s)}
        for line in text.strip().split('\n'):
            parts = [x.strip() for x in line.split(';')]
            ss = []
            for st in parts[:-1]:
                if not st: continue
                d, r = st.split(' = ', 1)
                r = r.strip()
                if r.startswith('&'): rv = {'k': 'ref', 'mut': True, 'fake': False, 'p': place(r[1:])}
                elif r.startswith('discr '): rv = {'k': 'discr', 'p': place(r[6:])}
                elif r.startswith('add '):
                    a, b = r[4:].split(','); rv = {'k': 'bin', 'op': 'Add', 'a': operand(a), 'b': operand(b)}
                elif r.startswith('sub '):
                    a, b = r[4:].split(','); rv = {'k': 'bin', 'op': 'Sub', 'a': operand(a), 'b': operand(b)}
                elif '/' in r:
                    kd, rest = r.split('/', 1)
                    v, args = rest.split('(', 1)
                    args = args.rstrip(')')
                    kd = {'Option': 'core::option::Option', 'Result': 'core::result::Result', 'tuple': 'tuple'}.get(kd, kd)
                    os_ = [operand(x) for x in args.split(',') if x.strip()]
                    if kd == 'tuple': rv = {'k': 'agg', 'ak': 'tuple', 'os': os_}
                    else: rv = {'k': 'agg', 'ak': 'adt', 'path': kd, 'v': int(v), 'os': os_}
                else: rv = {'k': 'use', 'o': operand(r)}
                ss.append(['=', place(d), rv, 0])
            tm = parts[-1]
            if tm.startswith('goto'): term = ['goto', int(tm.split()[1])]
            elif tm == 'ret': term = ['ret']
            elif tm == 'unreach': term = ['unreach']
            elif tm.startswith('sw'):
                w = tm.split()
                ts = []; other = None
                for x in w[2:]:
                    v, b = x.split(':')
                    if v == 'else': other = int(b)
                    else: ts.append([v, int(b)])
                if other is None: ts, other = ts[:-1], ts[-1][1]
                term = ['switch', operand('=' + w[1]), ts, other, 'bool' if w[0] == 'swb' else None, 0]
            elif tm.startswith('call'):
                m = re.fullmatch(r'call (\S+) = m:([\w:]+)\((.*)\) -> (\d+)', tm)
                d, nm, args, tgt = m.groups()
                term = ['call', {'c': {'ty': None, 'v': {'model': nm}}}, [operand(x) for x in args.split(',') if x.strip()], place(d), int(tgt), 0]
            else: raise ValueError(tm)
            blocks.append([ss, term, 0, False])
        F.blocks = blocks
        self.fns[F.id] = F
        self._cfg(F)
        return F.id
