"""Queries over exploded graphs: finite trace sets (every loop represented by one generic iteration), guards, loop coverage."""
from .terms import *
from . import terms as TM
from .interp import decide, assume, Interp, Event, Abort, NVAR, is_variant

class Ev:
    """an event on a trace"""
    __slots__ = ('name', 'snap', 'ret', 'line', 'file', 'fn', 'e', 'kind')
    def __init__(self, e):
        self.name = e.name; self.snap = e.snap; self.ret = e.ret; self.e = e; self.kind = e.kind
        self.line = e.line; self.fn = e.fn.path; self.file = e.fn.span[0] if e.fn.span else '?'
    def key(self): return ('e', self.name, self.snap, self.ret, self.line, self.fn)
    def __hash__(self): return hash(self.key())
    def __eq__(self, o): return isinstance(o, Ev) and self.key() == o.key()
    def __repr__(self): return f'{self.name}({", ".join(show(x, 4) for x in self.snap)})'
    def where(self): return f'{self.fn}:{self.line}'
class Cond:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __hash__(self): return hash(('c', self.t))
    def __eq__(self, o): return isinstance(o, Cond) and self.t is o.t
    def __repr__(self): return f'[{show(self.t, 4)}]'
class Loop:
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __hash__(self): return hash(('l', self.n))
    def __eq__(self, o): return isinstance(o, Loop) and self.n == o.n
    def __repr__(self): return f'loop{self.n}'
class End:
    __slots__ = ('kind', 'val', 'node', 'bv')
    def __init__(self, k, v=None, node=None, bv=None): self.kind = k; self.val = v; self.node = node; self.bv = bv
    def __hash__(self): return hash(('E', self.kind, self.val if self.kind != 'panic' else 0))
    def __eq__(self, o): return isinstance(o, End) and self.kind == o.kind and self.bv == o.bv and (self.kind == 'panic' or self.val is o.val or self.val == o.val)
    def __repr__(self): return f'<{self.kind} {show(self.val, 3) if isinstance(self.val, T) else self.val if self.val is not None else ""}>'

class Q:
    MAX = 60000
    def __init__(self, g):
        self.g = g
        self._order()

    def _order(self):
        """DFS from the entries: back edges and loop heads"""
        g = self.g
        color = {}
        self.back = set(); self.heads = set()
        for kind, root in g.entries:
            if color.get(root.id): continue
            st = [(root, iter(root.out))]; color[root.id] = 1
            while st:
                n, it = st[-1]
                for (m, lab) in it:
                    c = color.get(m.id)
                    if c is None:
                        color[m.id] = 1; st.append((m, iter(m.out))); break
                    if c == 1:
                        self.back.add((n.id, m.id)); self.heads.add(m.id)
                else:
                    color[n.id] = 2; st.pop()

    def traces(self, ev=None, cond=None, start=None, threads=False):
        """all distinct projections of finite paths. ev / cond select what is kept (True = all)."""
        keep_ev = (lambda e: True) if ev is True else (ev or (lambda e: False))
        keep_c = (lambda c: True) if cond is True else (cond or (lambda c: False))
        memo = {}
        g = self.g
        if start is None: start = [n for k, n in g.entries if k == 'root'][0]
        order = []
        # postorder over forward edges
        seen = {start.id}
        st = [(start, iter(start.out))]
        while st:
            n, it = st[-1]
            for (m, lab) in it:
                if (n.id, m.id) in self.back: continue
                if m.id not in seen:
                    seen.add(m.id); st.append((m, iter(m.out))); break
            else:
                order.append(n); st.pop()
        for n in order:
            acc = set()
            if n.term is not None:
                k, v = n.term
                acc.add((End(k, v, n.id),))
            for (m, lab) in n.out:
                if (n.id, m.id) in self.back: tails = {(End('back', m.id, n.id, g.bv.get((n.id, m.id))),)}
                else: tails = memo.get(m.id, set())
                if lab is None: acc |= tails; continue
                if isinstance(lab, Event):
                    if keep_ev(lab):
                        x = Ev(lab)
                        for tl in tails: acc.add((x,) + tl)
                    else: acc |= tails
                elif lab[0] == 'cond':
                    pre = tuple(Cond(c) for c in lab[1] if keep_c(c))
                    if pre:
                        for tl in tails: acc.add(pre + tl)
                    else: acc |= tails
                elif lab[0] == 'thread':
                    if threads:
                        for tl in tails: acc.add((Cond(t('thread')),) + tl)
                else: acc |= tails
            if n.id in self.heads:
                acc = {(Loop(n.id),) + tl for tl in acc}
            if len(acc) > self.MAX: raise Abort('too many traces in ' + g.fn.path)
            memo[n.id] = acc
        return [list(x) for x in memo[start.id]]

    # ------------------------------------------------------------ events
    def events(self, name=None, kind=None):
        out = []; seen = set()
        for e in self.g.events:
            if kind and e.kind != kind: continue
            if name and not (e.name == name if isinstance(name, str) else e.name in name if isinstance(name, (tuple, set, frozenset, list)) else name(e)): continue
            x = Ev(e)
            if x in seen: continue
            seen.add(x); out.append(x)
        return out
    def returns(self):
        """contents of the returned value on every returning path"""
        return [e.snap[0] for e in self.events('return')]

def facts_of(trace, upto=None):
    """path facts of a trace prefix"""
    f = {}
    for x in trace[:upto]:
        if isinstance(x, Cond): assume(f, x.t)
    return f
def holds(trace, i, cond):
    return decide(facts_of(trace, i), cond)

# ---------------------------------------------------------------------- terms modulo mutation
_er = {}
def erase(x):
    """forget container versions: identity of what is designated, not its state"""
    r = _er.get(x)
    if r is not None: return r
    if x.k in ('ver', 'vphi'): r = erase(x.a[0])
    elif x.k == 'upd': r = erase(x.a[0])
    elif x.k == 'clone': r = erase(x.a[1])
    elif x.k in ('int', 'str', 'param', 'newc', 'phi', 'const', 'fn', 'ty', 'ev'): r = x
    elif x.k in ('len', 'idx', 'mget'): r = t(x.k, *[erase(y) for y in x.a])
    else: r = rebuild(x, erase)
    _er[x] = r
    return r
def rebuild(x, f):
    def g(y):
        if isinstance(y, T): return f(y)
        if isinstance(y, tuple): return tuple(g(z) for z in y)
        return y
    a = tuple(g(y) for y in x.a)
    if a == x.a: return x
    k = x.k
    if k == 'lin': 
        r = I(a[0])
        for b, c in a[1]: r = add(r, scale(b, c))
        return r
    if k == 'fld': return fld(*a)
    if k == 'vfld': return vfld(*a)
    if k == 'idx': return idx(*a)
    if k == 'len': return length(*a)
    if k == 'slice': return slc(*a)
    if k == 'mget': return TM.mget(*a)
    if k == 'gt0': return TM.gt0(*a)
    if k == 'eq0': return TM.eq0(*a)
    if k == 'not': return TM.not_(*a)
    if k == 'is': return is_variant(*a)
    if k == 'eq': return TM.eqv(*a)
    if k == 'div': return TM.div(*a)
    if k == 'mod': return TM.mod(*a)
    if k == 'le' and a[0].k == 'bytes_le': return a[0].a[0]
    if k == 'be' and a[0].k == 'bytes_be': return a[0].a[0]
    return t(k, *a)
def subst(x, m, memo=None):
    memo = {} if memo is None else memo
    def go(y):
        if y in m: return m[y]
        r = memo.get(y)
        if r is None:
            r = rebuild(y, go) if y.a else y
            memo[y] = r
        return r
    return go(x)
def deep(x):
    """strip clones everywhere (value equality)"""
    return erase(x)

# ---------------------------------------------------------------------- loops over elements
def loop_index(g, i):
    """i is a counter: phi with inputs {lo, i + step} -> (lo, step)"""
    if i.k == 'len' and i.a[0].k == 'vphi': return grown(g, i.a[0])
    if i.k != 'phi': return None
    grp = phi_group(g, i); lo = set(); step = None
    for m in grp:
        for x in g.phi.get(m, ()):
            if x in grp: continue
            k0, at = lin_of(x)
            y = [v for v, n in at if v in grp and n == 1]
            if len(at) == 1 and y and k0 != 0:
                if step is not None and step != k0: return None
                step = k0
            else: lo.add(x)
    if step is None or len(lo) != 1: return None
    return next(iter(lo)), step
def grown(g, v):
    """v is a list that starts empty and gets one more element on every round -> (0, 1)"""
    start = False; step = None; seen = set(); todo = [(v, 0)]
    while todo:
        x, n = todo.pop()
        if (x, n) in seen: continue
        seen.add((x, n))
        if n > 4: return None
        for y in g.phi.get(x, ()):
            m = 0
            while y.k == 'ver' and y.a[1].k == 'ev' and y.a[1].a[1] in ('Vec::push', 'VecDeque::push_back') and y.a[0].k in ('ver', 'vphi', 'newc'): y = y.a[0]; m += 1
            if y.k == 'newc' and m == n == 0 and y.a[0] in ('Vec', 'VecDeque'): start = True
            elif y is v:
                if n + m != 1: return None
                step = 1
            elif y.k == 'vphi' and y in g.phi: todo.append((y, n + m))
            else: return None
    return (I(0), 1) if start and step else None
def phi_group(g, i):
    """the phis of nested loops that carry the same counter"""
    c = g.__dict__.setdefault('_pg', {})
    if i in c: return c[i]
    grp = {i}; st = [i]
    while st:
        for x in g.phi.get(st.pop(), ()):
            if x.k == 'phi' and x not in grp: grp.add(x); st.append(x)
    # only those that i flows back into
    back = {i}; ch = True
    while ch:
        ch = False
        for m in grp:
            if m not in back:
                st = [m]; seen = {m}
                while st:
                    y = st.pop()
                    for x in g.phi.get(y, ()):
                        for z in ([x] if x.k == 'phi' else [v for v, n in lin_of(x)[1] if v.k == 'phi']):
                            if z in back: back.add(m); ch = True; st = []; break
                            if z in grp and z not in seen: seen.add(z); st.append(z)
    c[i] = back
    return back
def elements(x):
    """(source, index) pairs of elements occurring in a term"""
    return [(y.a[0], y.a[1]) for y in subterms(x) if y.k in ('idx', 'keyat')]
def phis(g, x, seen=None):
    """all values that may flow into x through phis"""
    seen = set() if seen is None else seen
    out = set()
    st = [x]
    while st:
        y = st.pop()
        if y in seen: continue
        seen.add(y)
        if y.k in ('phi', 'vphi') and y in g.phi:
            st.extend(g.phi[y])
        else: out.add(y)
    return out
