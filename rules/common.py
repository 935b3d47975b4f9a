"""Shared machinery of the rules: anchors, obligations, trace helpers."""
import sys, os, re, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from engine.prog import Prog, strip_generics
from engine.interp import Interp, Abort, assume, is_variant, NVAR, MAXV, prove
from engine.interp import decide as _decide
from engine.models import M
from engine.terms import *
from engine import terms as TM
from engine.graph import *
from engine.graph import Q as _Q

def decide(f, b):
    """the truth of b under the facts: the engine's decision, or a bounded combination of known bounds"""
    r = _decide(f, b)
    if r is not None: return r
    if b.k == 'not':
        r = decide(f, b.a[0]); return None if r is None else not r
    if b.k == 'gt0':
        if prove(f, b.a[0]): return True
        if prove(f, TM.sub(TM.I(1), b.a[0])): return False
    if b.k == 'eq0' and b.a[0].k == 'lin':
        x = b.a[0]
        if prove(f, x) or prove(f, TM.scale(x, -1)): return False
        if prove(f, TM.add(x, TM.I(1))) and prove(f, TM.sub(TM.I(1), x)): return True
    if b.k == 'eq0' and b.a[0].k != 'lin':
        x = b.a[0]                              # a single unsigned quantity (see terms.gt0)
        if prove(f, x): return False
        if prove(f, TM.sub(TM.I(1), x)): return True
    return None
class Undecided(Exception):
    """an anchor is missing or the analysis cannot give an answer: the obligation is not discharged"""

class R:
    def __init__(self, prog, pid):
        self.p = prog; self.pid = pid
        self.obligations = []      # (desc, ok)
        self.violations = []       # dicts
        self.analysed = {}         # function -> number of exploded nodes
        self.rules = []
        self._cache = {}
        self.ntraces = 0
        self.findings = []

    # ------------------------------------------------------------ reporting
    def rule(self, text): self.rules.append(text)
    def ok(self, cond, desc, where=None, detail=''):
        cond = bool(cond)
        self.obligations.append((desc, cond, where))
        if not cond:
            v = {'rule': desc, 'where': str(where) if where else '', 'detail': str(detail)[:1500]}
            if v not in self.violations: self.violations.append(v)
        return cond
    def need(self, xs, what):
        if not xs: raise Undecided('missing: ' + what)
        return xs

    # ------------------------------------------------------------ anchors
    def fns(self, name=None, self_=None, trait=None, path=None, kind=None, instances=True):
        out = []
        for f in self.p.fns.values():
            if not f.local or f.auto or f.synth or not f.blocks: continue
            if name is not None and f.name != name: continue
            if kind is not None and f.kind != kind: continue
            if self_ is not None:
                s = self.impl_self(f)
                if s is None: continue
                s = strip_generics(s)
                if not re.fullmatch(self_, s.split('<')[0].split('::')[-1]): continue
            if trait is not None and trait not in str(f.impl_trait or ''): continue
            if path is not None and not re.search(path, strip_generics(f.path)): continue
            out.append(f)
        return out
    def impl_self(self, f):
        s = f.impl_self
        return self.p.tys(s) if isinstance(s, int) else s
    def the(self, *a, **k):
        x = self.fns(*a, **k)
        self.need(x, f'function {a} {k}')
        return x
    def one(self, *a, **k):
        return self.the(*a, **k)[0]
    def inst(self, f):
        return f.path + (('<' + ', '.join(self.p.tys(x).split('::')[-1] for x in f.targs if self.p.tys(x) not in ('i16', '()'))[:120] + '>') if f.targs else '')

    # ------------------------------------------------------------ running
    def run(self, fn, opaque=None, pre=None, args=None, key=None, part=None, inv=False, inst=None):
        k = (fn.id, key if key is not None else id(opaque) if opaque else None, part, inv)
        if pre is None and args is None and k in self._cache: return self._cache[k]
        it = Interp(self.p, M, opaque)
        if part: it.MAXPART = part
        if inst: it.MAXINST = inst
        it.inv = inv
        try: g = it.run(fn, args, pre)
        except Abort as e: raise Undecided(str(e))
        q = _Q(g)
        q.it = it
        for fr in it.ftab:
            f = fr.fn
            if f.local and not f.synth: self.analysed[self.inst(f)] = self.analysed.get(self.inst(f), 0)
        self.analysed[self.inst(fn)] = self.analysed.get(self.inst(fn), 0) + len(g.nodes)
        if pre is None and args is None: self._cache[k] = q
        q.fns = {fr.fn.id for fr in it.ftab}
        return q
    def traces(self, q, ev=True, cond=True, threads=False):
        try: tr = q.traces(ev=ev, cond=cond, threads=threads)
        except Abort as e: raise Undecided(str(e))
        self.ntraces += len(tr)
        for (nm, ty), (ctx, line) in q.it.unkmut.items():
            x = ty.lstrip('&').replace('mut ', '').split('<')[0]
            if nm == 'Hash::hash' or nm.split('::')[-1] in ('shrink_to_fit', 'shrink_to', 'reserve', 'reserve_exact', 'as_mut', 'by_ref'): continue
            if not re.match(r'(http|hyper|tokio|futures|serde|regex|sha2|digest)', x):
                self.ok(False, f'{self.pid} what is modified in memory is known', f'{q.it.ftab[ctx].fn.path}:{line}', (nm, ty))
        return tr

    # ------------------------------------------------------------ types
    def ty_by_name(self, name):
        """all types (indices) that are the adt called name"""
        return [i for i, x in enumerate(self.p.types) if x['k'] == 'adt' and strip_generics(x.get('path', '')).split('::')[-1] == name]
    def fields(self, name):
        """[(field name, type string)] of a struct"""
        for i in sorted(self.ty_by_name(name), key=lambda i: not self.p.types[i].get('local')):
            x = self.p.types[i]
            if x.get('variants') and x['variants'][0][2] is not None: return x['variants'][0][2]
        raise Undecided('no struct ' + name)

    def kind_of(self, name):
        return 'struct' if any(len(self.p.types[i].get('variants') or []) == 1 for i in self.ty_by_name(name) if self.p.types[i].get('local')) else 'enum'

    def fx(self, struct, name, ty=None):
        """index of a field, by name; else by type when that is unambiguous"""
        fs = self.fields(struct)
        for i, (n, t_) in enumerate(fs):
            if n == name: return i
        c = [i for i, (n, t_) in enumerate(fs) if ty and re.search(ty, self.p.tys(t_))]
        if len(c) == 1: return c[0]
        raise Undecided(f'field {struct}.{name}')

def isv(ff, x, v):
    """is the two-variant value x (Option, Result) of variant v?"""
    if isinstance(ff, list): ff = facts_of(ff)
    d = decide(ff, is_variant(x, v))
    if d is None:
        d = decide(ff, is_variant(x, 1 - v))
        if d is not None: d = not d
    return d
def is_panic(tr):
    return tr and isinstance(tr[-1], End) and tr[-1].kind in ('panic', 'exit')
def end(tr):
    return tr[-1] if tr and isinstance(tr[-1], End) else None
def once(r, q, pred, msg, w):
    """no path goes through two loops whose rounds do what pred says"""
    trs = r.traces(q); heads = set()
    for tr in trs:
        if end(tr).kind != 'back': continue
        at = [i for i, x in enumerate(tr) if isinstance(x, Loop) and x.n == end(tr).val]
        if any(isinstance(x, Ev) and pred(x) for x in tr[at[-1] if at else 0:]): heads.add(end(tr).val)
    for tr in trs:
        k = {x.n for x in tr if isinstance(x, Loop) and x.n in heads}
        r.ok(len(k) <= 1, msg, w, tr)
    return heads

def overflowed(tr):
    """the path stops because a sum or product outgrew its type (a count that no run reaches), not because a difference fell below zero"""
    s = str(end(tr).val) if end(tr) else ''
    return 'verflow' in s and 'Overflow(Sub' not in s
def evnames(tr): return [x.name for x in tr if isinstance(x, Ev)]

# ---------------------------------------------------------------------- normal forms
_n = {}
def N(x):
    """identity of a value: container versions and clones forgotten, rebuilt structs collapsed (eta)"""
    r = _n.get(x)
    if r is not None: return r
    y = erase(x)
    r = _eta(y)
    _n[x] = r
    return r
_e = {}
def _eta(x):
    r = _e.get(x)
    if r is not None: return r
    if x.k in ('int', 'str', 'param', 'newc', 'phi', 'const', 'fn', 'ty', 'ev') or not x.a: r = x
    else:
        y = rebuild(x, _eta)
        if y.k == 'agg' and y.a[2] and not y.a[0].startswith(('closure', 'coroutine', 'array')):
            f = y.a[2]
            if y.a[1] == 0 and f[0].k == 'fld' and f[0].a[1] == 0 and y.a[0] != RES:
                v = f[0].a[0]
                if all(z.k == 'fld' and z.a[0] is v and z.a[1] == i for i, z in enumerate(f)) and len(f) > 1: y = v
            elif f[0].k == 'vfld' and f[0].a[1] == y.a[1] and all(z.k == 'vfld' and z.a[0] is f[0].a[0] and z.a[1] == y.a[1] and z.a[2] == i for i, z in enumerate(f)): y = f[0].a[0]
        r = y
    _e[x] = r
    return r
def tops(x):
    """the modifications of the value itself, outermost first"""
    out = []
    while True:
        if x.k in ('ver', 'vphi'): out.append(x.a[1]); x = x.a[0]
        elif x.k == 'upd': out.append((x.a[1], x.a[2])); x = x.a[0]
        elif x.k == 'clone': x = x.a[1]
        elif x.k in ('deref', 'ref') and isinstance(x.a[0], T): x = x.a[0]
        else: return out
def same(a, b): return N(a) is N(b) and tops(a) == tops(b)

def loc(x):
    """symbolic location of a container: root + fields + map keys"""
    k = x.k
    if k in ('ver', 'vphi', 'upd'): return loc(x.a[0])
    if k == 'clone': return loc(x.a[1])
    if k == 'deref': return loc(x.a[0])
    if k == 'fld': return loc(x.a[0]) + (x.a[1],)
    if k == 'param': return (('p', x.a[0]),)
    if k == 'newc': return (('new', x),)
    if k == 'vfld':
        v = x.a[0]
        if v.k == 'mget': return loc(v.a[0]) + (('at', N(v.a[1])),)
        return loc(v) + (('v', x.a[1], x.a[2]),)
    if k == 'idx': return loc(x.a[0]) + (('i', N(x.a[1])),)
    if k == 'local': return (x,)
    return (N(x),)
def rest(l, prefix):
    """what remains of location l below prefix (the newtype around hash maps is transparent), None if l is elsewhere"""
    i = 0
    for pe in prefix:
        if i < len(l) and l[i] == pe: i += 1
        elif isinstance(pe, tuple) and pe[0] == 'at' and i + 1 < len(l) and l[i] == 0 and l[i + 1] == pe: i += 2
        else: return None
    return l[i:]
def under(l, prefix): return rest(l, prefix) is not None

MUTATORS = ('insert', 'remove', 'clear', 'retain', 'drain', 'push', 'pop', 'push_back', 'push_front', 'pop_back', 'pop_front', 'truncate', 'extend_from_slice',
            'append', 'reverse', 'sort', 'swap_remove', 'dedup', 'split_off', 'resize', 'remove_entry', 'take', 'replace', 'rotate_left', 'rotate_right', 'swap',
            'sort_by', 'sort_by_key', 'sort_unstable', 'fill', 'copy_from_slice', 'extend', 'entry_insert', 'push_str')
class Eff:
    __slots__ = ('op', 'loc', 'args', 'ev', 'i')
    def __repr__(self): return f'{self.op}@{self.loc}({", ".join(show(a, 4) for a in self.args)})'
def effects(tr, roots=None):
    """container mutations and stores on a trace, in order"""
    out = []
    for i, e in enumerate(tr):
        if not isinstance(e, Ev): continue
        m = e.name.split('::')[-1]
        if e.kind == 'store':
            x = Eff(); x.op = 'store'; x.loc = loc(e.snap[0]); x.args = e.snap[1:]; x.ev = e; x.i = i; out.append(x)
        elif '::' in e.name and m in MUTATORS and e.snap and e.name.split('::')[0] in ('HashMap', 'HashSet', 'Vec', 'VecDeque', 'BTreeMap', 'slice', 'String', 'Map', 'BTreeSet', 'BinaryHeap', 'U64HashMap'):
            x = Eff(); x.op = m; x.loc = loc(e.snap[0]); x.args = e.snap[1:]; x.ev = e; x.i = i; out.append(x)
    return out
def map_fact(tr, prefix, key, upto=None):
    """is key present in the map at prefix (as tested on this trace)? True / False / None"""
    k = N(key)
    for x in tr[:upto]:
        if isinstance(x, Cond):
            c = x.t; pol = True
            if c.k == 'not': c = c.a[0]; pol = False
            if c.k == 'is' and c.a[0].k == 'mget':
                m = c.a[0]
                if under(loc(m.a[0]), prefix) and N(m.a[1]) is k and len(loc(m.a[0])) <= len(prefix) + 1:
                    return pol == (c.a[1] == 1)
    return None
def has_eff(tr, i): return any(isinstance(x, Ev) for x in tr[:i])

def ev_where(tr, last=True):
    """a construct to point at: the last located event of a trace"""
    es = [x for x in tr if isinstance(x, Ev)]
    return es[-1].where() if es else ''

# ---------------------------------------------------------------------- who may touch a struct
def _walk_places(f):
    """(kind, place, line, extra) of every place use that can modify memory"""
    for b in f.blocks:
        for s in b[0]:
            if s[0] == '=':
                yield 'write', s[1], s[3] if len(s) > 3 else 0, s[2]
                if s[2]['k'] == 'ref' and s[2].get('mut') and not s[2].get('fake'): yield 'mutref', s[2]['p'], s[3] if len(s) > 3 else 0, None
                if s[2]['k'] == 'rawptr' or s[2]['k'] == 'addr': yield 'mutref', s[2]['p'], s[3] if len(s) > 3 else 0, None
        tm = b[1]
        if tm[0] == 'call': yield 'write', tm[3], tm[5], None
def place_types(p, f, pl):
    """[(type before projection, projection)]"""
    ty = f.locals[pl[0]] if pl[0] < len(f.locals) else None
    out = []
    for e in pl[1]:
        out.append((ty, e))
        if e == '*':
            x = p.types[ty] if ty is not None else {}
            ty = x.get('e') if 'e' in x else (x['args'][0] if x.get('path', '').endswith('boxed::Box') else None)
        elif e == 'o': pass
        elif e[0] == 'f': ty = e[2]
        elif e[0] in ('i', 'ci'):
            x = p.types[ty] if ty is not None else {}
            ty = x.get('e')
    return out, ty
def struct_is(p, ty, name):
    if ty is None: return False
    x = p.types[ty]
    return x['k'] == 'adt' and strip_generics(x.get('path', '')).split('::')[-1] == name
def struct_writers(r, name, fields=None):
    """[(fn, line, how)]: functions that may modify (the given fields of) a struct after construction"""
    p = r.p; out = []
    for f in p.fns.values():
        if not f.local or f.synth or f.auto: continue
        for kind, pl, line, rv in _walk_places(f):
            pts, last = place_types(p, f, pl)
            deref = False; hit = False
            for ty, e in pts:
                if e == '*': deref = True
                if isinstance(e, list) and e[0] == 'f' and struct_is(p, ty, name) and (fields is None or e[1] in fields): hit = True
            if hit: out.append((f, line, kind + ' of field'))
            elif kind == 'write' and deref and struct_is(p, last, name): out.append((f, line, 'overwrites the whole ' + name))
        for b in f.blocks:
            tm = b[1]
            if tm[0] == 'call' and 'c' in tm[1] and 'fn' in tm[1]['c']['v']:
                c = tm[1]['c']['v']['fn']
                if c.get('inst') is not None: continue
                for a in tm[2]:
                    pl = a.get('m') or a.get('p')
                    if not pl: continue
                    _, ty = place_types(p, f, pl)
                    if ty is not None and p.types[ty]['k'] == 'ref' and p.types[ty].get('mut') and struct_is(p, p.types[ty].get('e'), name) and c['name'] in ('replace', 'swap', 'take', 'write'):
                        out.append((f, tm[5], 'passes &mut to ' + c['name']))
    return out
def callgraph(r):
    """callers: fn id -> set of fn ids (closures count as called where they are created)"""
    cg = getattr(r.p, '_callers', None)
    if cg is not None: return cg
    p = r.p; callers = {}; sites = {}
    def refs(f, o):
        # any fn constant mentioned
        if isinstance(o, dict):
            if 'fn' in o and isinstance(o['fn'], dict):
                for n in ('inst', 'sinst'):
                    i = o['fn'].get(n)
                    # polling runs a body that was called where the future was made
                    if i is not None and not (i in p.fns and p.fns[i].kind == 'coroutine'): yield i
            if o.get('k') == 'agg' and o.get('ak') in ('closure', 'coroutine') and o.get('inst') is not None: yield o['inst']
            if 'z' in o and 'ty' in o: pass
            for v in o.values(): yield from refs(f, v)
        elif isinstance(o, list):
            for v in o: yield from refs(f, v)
    for f in p.fns.values():
        if f.synth: continue
        for b in f.blocks:
            for i in refs(f, b): callers.setdefault(i, set()).add(f.id)
            for c in _zst_closures(p, b):
                callers.setdefault(c, set()).add(f.id)
    p._callers = callers
    return callers
def _zst_closures(p, o):
    if isinstance(o, dict):
        if o.get('ty') is not None and isinstance(o.get('v'), dict) and o['v'].get('z'):
            ty = p.types[o['ty']]
            if ty['k'] == 'closure' and ty.get('inst') is not None: yield ty['inst']
        for v in o.values(): yield from _zst_closures(p, v)
    elif isinstance(o, list):
        for v in o: yield from _zst_closures(p, v)
def outside(r, writers, roots):
    """of the functions that modify something, those reachable without going through one of the analysed roots"""
    callers = callgraph(r); roots = set(roots); bad = []
    for f, line, how in writers:
        if f.id in roots: continue
        seen = {f.id}; st = [f.id]; escaped = False; n = 0
        while st:
            x = st.pop()
            cs = callers.get(x, set())
            if not cs: escaped = True
            for c in cs:
                if c in roots or c in seen: continue
                seen.add(c); st.append(c)
        if escaped: bad.append((f, line, how))
    return bad

# ---------------------------------------------------------------------- loops
class Lp:
    """a loop test on a trace: counter i against the length of src; state 'in' or 'out'"""
    __slots__ = ('pos', 'src', 'i', 'state', 'lo', 'step', 'raw')
    def __repr__(self): return f'{self.state}({show(self.src, 4)}, i={show(self.i, 2)} from {show(self.lo, 2)} step {self.step})'
def loop_tests(q, tr):
    out = []; bv = getattr(end(tr), 'bv', None) if tr and end(tr) is not None and end(tr).kind == 'back' else None
    for pos, x in enumerate(tr):
        if not isinstance(x, Cond): continue
        c = x.t; neg = False
        if c.k == 'not': c = c.a[0]; neg = True
        if c.k not in ('gt0', 'eq0'): continue
        k0, at = lin_of(c.a[0])
        ph = [(a, n) for a, n in at if (a.k == 'phi' or a.k == 'len' and a.a[0].k == 'vphi') and abs(n) == 1]
        for i, n in ph:
            li = loop_index(q.g, i)
            if li is None: continue
            rest = mk_lin(k0, [(a, m) for a, m in at if a is not i])
            # c: n*i + rest
            l = Lp(); l.pos = pos; l.i = i; l.lo, l.step = li
            if c.k == 'gt0':
                if n == -1: bound = rest; st = 'in'        # rest - i > 0
                else: bound = sub(I(1), rest); st = 'out'   # i + rest > 0  <=> i >= 1 - rest
                if neg: st = 'out' if st == 'in' else 'in'
            else:
                bound = rest if n == -1 else scale(rest, -1)
                st = 'in' if neg else 'out'
            l.src = bound; l.state = st; l.raw = x.t
            if l.step == -1 and is_int(rest) and not is_int(l.lo):
                # counting down from lo: as counting the rounds done
                on = c.k == 'gt0' and n == 1 and rest is I(0) or c.k == 'eq0' and rest is I(0)
                if on: l.state = ('out' if neg else 'in') if c.k == 'gt0' else ('in' if neg else 'out'); l.src = l.lo; l.lo = I(0); l.step = 1; l.i = sub(l.src, i); st = l.state
            if st == 'in' and bv and i.k == 'phi':
                # an iteration that does not move the counter visits the same element again
                grp = phi_group(q.g, i)
                for p_, v in bv:
                    if p_ in grp and v in grp: l.state = 'stuck'
            out.append(l)
    return out
def loops_over(q, tr, S, N_=None):
    """the tests on this trace of loops 0..len(S) in steps of one"""
    n = N(length(N(S)))
    m = length(S)
    return [l for l in loop_tests(q, tr) if l.step == 1 and l.lo is I(0) and (N(l.src) is n or l.src is m)]
def inloop(q, tr, S):
    """the trace is inside an iteration over S when it ends (its last test over S succeeded): the counter, else None"""
    ls = loops_over(q, tr, S)
    return ls[-1].i if ls and ls[-1].state == 'in' else None
def exhausted(q, tr, S, upto=None):
    """S was scanned to its end on this trace (before position upto)"""
    n = N(length(N(S)))
    ls = [l for l in loops_over(q, tr, S) if upto is None or l.pos < upto]
    if ls: return ls[-1].state == 'out'
    # known to be empty
    for x in tr[:upto]:
        if isinstance(x, Cond):
            for y in subterms(x.t):
                if y.k == 'len' and N(y) is n and decide(facts_of(tr, upto), eq0(y)): return True
    return is_int(n) and n.a[0] == 0
def is_zero32(x):
    x = strip_clone(x)
    if x.k == 'rep': return x.a[0] is I(0) and is_int(x.a[1]) and x.a[1].a[0] == 32
    return x.k == 'agg' and x.a[0] == 'array' and len(x.a[2]) == 32 and all(y is I(0) for y in x.a[2])
def evs_named(tr, *names): return [x for x in tr if isinstance(x, Ev) and x.name in names]
def opq(table):
    """opaque boundary from [(regex on path, event name)]"""
    tab = [(re.compile(a), b) for a, b in table]
    def f(fn):
        p = strip_generics(fn.path)
        for a, b in tab:
            if a.search(p): return b
        return None
    return f
def in_step(r, q, x, i):
    """x and i are loop-carried counters that start equal and advance together: they are always equal"""
    if x is i: return True
    if x.k != 'phi' or i.k != 'phi': return False
    def init(p): return {y for y in q.g.phi.get(p, ()) if not any(z is p for z in subterms(y))}
    a, b = init(x), init(i)
    if len(a) != 1 or a != b: return False
    n = 0
    for tr in r.traces(q):
        e = end(tr)
        if e.kind != 'back': continue
        m = dict(e.bv or ())
        if (x in m) != (i in m): return False
        if x not in m: continue
        n += 1
        u, v = TM.sub(m[x], x), TM.sub(m[i], i)
        if u is not v or u.k != 'int': return False
    return n > 0
def conds(tr, upto=None): return [x.t for x in tr[:upto] if isinstance(x, Cond)]
def truth(tr, result, atoms, expected):
    """for every valuation of the atoms (name -> term or None when never evaluated here) that agrees with the branches taken:
    result has the expected truth value.  Returns the first disagreeing valuation or None"""
    import itertools
    names = sorted(atoms)
    for vals in itertools.product((False, True), repeat=len(names)):
        v = dict(zip(names, vals)); f = {}; feas = True
        for n in names:
            for a in atoms[n] if isinstance(atoms[n], tuple) else (atoms[n],):
                if a is not None and not assume(f, a if v[n] else not_(a)): feas = False; break
            if not feas: break
        if not feas: continue
        for c in conds(tr):
            if not assume(f, c): feas = False; break
        if not feas: continue
        e = expected(v)
        if e is None: continue
        d = decide(f, result)
        if d is None or d != e: return v
    return None

# ---------------------------------------------------------------------- types of terms, bytes of terms
def typeof(p, fn, x):
    """type index of a value reachable from the parameters of fn (references and boxes removed), None if unknown"""
    def und(ty):
        n = 0
        while ty is not None and n < 6:
            ti = p.types[ty]
            if ti['k'] in ('ref', 'ptr') and 'e' in ti: ty = ti['e']
            elif ti['k'] == 'adt' and ti.get('path', '').split('::')[-1] in ('Box', 'Arc', 'Rc', 'ManuallyDrop'): ty = ti['args'][0]
            else: break
            n += 1
        return ty
    k = x.k
    if k in ('ver', 'vphi', 'upd', 'deref'): return typeof(p, fn, x.a[0])
    if k == 'clone': return typeof(p, fn, x.a[1])
    if k == 'param': return und(fn.locals[x.a[0] + 1])
    if k == 'mget':
        m = typeof(p, fn, x.a[0])
        return ('opt', und(p.types[m]['args'][1])) if isinstance(m, int) and p.types[m].get('args') and len(p.types[m]['args']) > 1 else None
    if k == 'keyat':
        m = typeof(p, fn, x.a[0])
        return und(p.types[m]['args'][0]) if isinstance(m, int) and p.types[m].get('args') else None
    if k in ('fld', 'vfld', 'idx'):
        b = typeof(p, fn, x.a[0])
        if isinstance(b, tuple): return b[1] if k == 'vfld' else None
        if b is None: return None
        ti = p.types[b]
        if k == 'idx':
            return und(ti['e']) if 'e' in ti else und(ti['args'][0]) if ti.get('args') else None
        v, i = (0, x.a[1]) if k == 'fld' else (x.a[1], x.a[2])
        if 'es' in ti: return und(ti['es'][i]) if i < len(ti['es']) else None
        vs = ti.get('variants')
        if vs and v < len(vs) and vs[v][2] is not None and i < len(vs[v][2]): return und(vs[v][2][i][1])
        if ti.get('path', '').endswith('option::Option') and k == 'vfld': return und(ti['args'][0])
    return None
def arraylen(p, fn, x):
    ty = typeof(p, fn, x)
    if not isinstance(ty, int): return None
    ti = p.types[ty]
    m = re.fullmatch(r'\[u8; (\d+)\]', p.tys(ty))
    return int(m.group(1)) if m else None
def segs(p, fn, x):
    """the bytes of x as [(length, term)]; Undecided if a length is unknown"""
    x0 = x
    if x.k == 'clone': return segs(p, fn, x.a[1])
    if x.k == 'newc': return []
    if x.k == 'agg' and x.a[0] == 'array': return [(1, y) for y in x.a[2]]
    if x.k == 'rep' and is_int(x.a[1]): return [(1, x.a[0])] * x.a[1].a[0]
    if x.k in ('bytes_le', 'bytes_be'): return [(x.a[1], x)] if x.a[1] > 1 else [(1, x.a[0])]
    if x.k == 'ver' and x.a[1].k == 'ev':
        n, sn = x.a[1].a[1], x.a[1].a[2]
        if n == 'Vec::push': return segs(p, fn, x.a[0]) + [(1, sn[1])]
        if n in ('Vec::extend_from_slice', 'Vec::append', 'Vec::extend'): return segs(p, fn, x.a[0]) + segs(p, fn, sn[1])
    if x.k == 'sconcat': return segs(p, fn, x.a[0]) + segs(p, fn, x.a[1])
    if x.k == 'app' and x.a[0] == 'slice::concat' and strip_clone(x.a[1][0]).k == 'agg' and strip_clone(x.a[1][0]).a[0] == 'array':
        return [s for y in strip_clone(x.a[1][0]).a[2] for s in segs(p, fn, y)]
    if x.k == 'agg' and len(x.a[2]) == 1: return segs(p, fn, x.a[2][0])
    l = length(x)
    if is_int(l): return [(l.a[0], x)]
    l = arraylen(p, fn, x)
    if l is not None: return [(l, x)]
    raise Undecided('length of ' + show(x0, 6))
def fmt_parts(x):
    """a formatted text as ['literal' | ('arg', trait, term)]; None if not understood"""
    x = strip_clone(x)
    while x.k in ('format', 'app') and x.k == 'format': x = x.a[0]
    if x.k == 'str': return [x.a[0]]
    if x.k != 'fmt': return None
    tpl, args = x.a[0], x.a[1]
    if tpl.k == 'str': return [tpl.a[0]]
    if not (tpl.k == 'agg' and all(is_int(b) for b in tpl.a[2])): return None
    b = bytes(y.a[0] for y in tpl.a[2]); out = []; i = 0; n = 0
    while i < len(b):
        c = b[i]; i += 1
        if c == 0: break
        if c < 0x80: out.append(b[i:i + c].decode('utf8', 'replace')); i += c
        elif c == 0x80:
            l = b[i] | b[i + 1] << 8; i += 2
            out.append(b[i:i + l].decode('utf8', 'replace')); i += l
        elif c >= 0xC0:
            opt = []
            if c & 1: opt.append(('flags', int.from_bytes(b[i:i + 4], 'little'))); i += 4
            if c & 2: opt.append(('width', int.from_bytes(b[i:i + 2], 'little'))); i += 2
            if c & 4: opt.append(('precision', int.from_bytes(b[i:i + 2], 'little'))); i += 2
            if c & 48: opt.append(('dynamic', c & 48))
            j = n
            if c & 8: j = b[i] | b[i + 1] << 8; i += 2
            n = j + 1
            if j >= len(args): return None
            a = args[j]
            out.append(('arg', a.a[0] if a.k == 'fmtarg' else '?', a.a[1] if a.k == 'fmtarg' else a, tuple(opt)))
        else: return None
    return out

def text(x):
    """a text as the list of its pieces: literals (str) and terms, however it was put together; adjacent literals joined"""
    def go(x, d=0):
        y = strip_clone(x)
        while y.k in ('deref', 'to_string') or y.k == 'app' and y.a[0] in ('to_string', 'String::from') or y.k == 'ref' and y.a[0][0] == 'X' and not y.a[1]:
            y = strip_clone(y.a[0][1] if y.k == 'ref' else y.a[0] if y.k != 'app' else y.a[1][0])
        if d > 12: return [y]
        if y.k == 'str': return [y.a[0]]
        if y.k in ('format', 'fmt'):
            ps = fmt_parts(y)
            if ps is None: return [y]
            out = []
            for p in ps:
                if isinstance(p, str): out.append(p)
                elif p[1] == 'display' and not p[3]: out += go(p[2], d + 1)
                else: out.append(p)
            return out
        if y.k == 'sconcat': return go(y.a[0], d + 1) + go(y.a[1], d + 1)
        if y.k == 'newc' and y.a[0] == 'String': return []
        if y.k == 'ver' and y.a[1].k == 'ev' and y.a[1].a[1] in ('String::push_str', 'String::push') and len(y.a[1].a[2]) == 2:
            z = y.a[1].a[2][1]
            return go(y.a[0], d + 1) + ([chr(z.a[0])] if is_int(z) else go(z, d + 1))
        if y.k == 'app' and y.a[0] in ('slice::concat', 'slice::join'):
            a = y.a[1][0]
            if a.k == 'agg' and a.a[0] == 'array':
                sep = go(y.a[1][1], d + 1) if y.a[0].endswith('join') else []
                out = []
                for i, z in enumerate(a.a[2]): out += (sep if i else []) + go(z, d + 1)
                return out
        return [y]
    out = []
    for p in go(x):
        if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
        elif p != '': out.append(p)
    return out
def parts(tr):
    """a trace cut at its loop heads"""
    out = [[]]
    for x in tr:
        if isinstance(x, Loop): out.append([])
        else: out[-1].append(x)
    return out
def equals(ff, a, b):
    """a and b are the same value, given the facts"""
    if same(a, b): return True
    a, b = strip_clone(a), strip_clone(b)
    if a.k != 'agg' and b.k == 'agg': a, b = b, a
    if a.k != 'agg': return decide(ff, eqv(a, b)) is True
    v = a.a[1]
    if b.k == 'agg': return b.a[1] == v and len(a.a[2]) == len(b.a[2]) and all(equals(ff, x, y) for x, y in zip(a.a[2], b.a[2]))
    if v == 0 and a.a[2] and a.a[0] not in (OPT, RES) and all(equals(ff, x, fld(b, i)) for i, x in enumerate(a.a[2])): return True
    if isv(ff, N(b), v) is not True: return False
    return all(equals(ff, x, vfld(b, v, i)) for i, x in enumerate(a.a[2]))

def faithful_clones(r, names):
    """a copy of such a value is that value: what the analyses take a clone for"""
    n = 0
    for f in [f for f in r.p.fns.values() if f.local and not f.synth and f.blocks and f.name == 'clone' and 'Clone' in str(f.impl_trait or f.path)]:
        ty = strip_generics(r.impl_self(f) or '').split('<')[0].split('::')[-1]
        if ty not in names: continue
        n += 1; w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, key='clone'); p0 = t('param', 0)
        def copies(x, y, ff):
            x = N(strip_clone(x)); y = N(y)
            if x is y: return True
            if x.k != 'agg': return False
            if x.a[1] == 0 and r.kind_of(ty) == 'struct' and y is p0: return all(copies(z, fld(y, i), ff) for i, z in enumerate(x.a[2]))
            return isv(ff, y, x.a[1]) is True and all(copies(z, vfld(y, x.a[1], i), ff) for i, z in enumerate(x.a[2])) if x.a[2] else isv(ff, y, x.a[1]) is True
        for tr in r.traces(q):
            e = end(tr)
            if is_panic(tr) and 'unreachable' in str(e.val): continue
            r.ok(e.kind == 'ret' and copies(e.val, p0, facts_of(tr)) and not effects(tr), f'{r.pid} a copy of a value is that value', w, tr)
    return n
def texts_total(r):
    """putting a value of the program's own types into a text does not fail (to_string and format! stop on an error of Display)"""
    n = 0
    for f in [f for f in r.p.fns.values() if f.local and not f.synth and not f.auto and f.blocks and f.name == 'fmt' and 'fmt::' in str(f.impl_trait or f.path)]:
        n += 1; w = f'{r.inst(f)}:{f.span[1]}'
        for tr in r.traces(r.run(f, opq([(r'base58(_check)?::encode', 'encode'), (r'hex::encode$', 'encode')]), key='text')):
            e = end(tr)
            r.ok(not is_panic(tr), f'{r.pid} making a text of a value does not fail', w, tr)
            if e.kind == 'ret' and isv(facts_of(tr), e.val, 0) is not True:
                r.ok(any(y.k in ('ev', 'app') and re.search('fmt|Formatter|write_', str(y.a[:2])) for y in subterms(N(e.val))), f'{r.pid} making a text of a value reports no error of its own', w, tr)
    return n
def calls(r):
    """[(fn, line, name, callee)] of every call of a known function in the program"""
    out = getattr(r.p, '_calls', None)
    if out is None:
        out = []
        for f in r.p.fns.values():
            if not f.local or f.synth: continue
            for b in f.blocks:
                tm = b[1]
                if tm[0] == 'call' and 'c' in tm[1] and isinstance(tm[1]['c']['v'], dict) and 'fn' in tm[1]['c']['v']:
                    c = tm[1]['c']['v']['fn']
                    out.append((f, tm[5], strip_generics(c.get('decl') or c.get('res') or c['name']), c))
        r.p._calls = out
    return out
