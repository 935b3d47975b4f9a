"""Forward dataflow over the inlined (call-string sensitive) MIR graph.

Abstract state = provenance term per memory cell + branch facts.  States meeting at a join are merged when they agree
(ESP-style), at loop heads always (differences become phi terms), until a fixpoint.  The result is an exploded graph
whose edges carry events (calls, stores, drops, panics, returns) and branch conditions; rules are queries on it."""
import sys
from .terms import *
from . import terms as TM

sys.setrecursionlimit(20000)

class Event:
    __slots__ = ('name', 'args', 'snap', 'ret', 'site', 'line', 'fn', 'src', 'dst', 'callee', 'ctx', 'targs', 'kind')
    def __repr__(self):
        return f'{self.name}({", ".join(show(x, 4) for x in self.snap)})'

class Node:
    __slots__ = ('id', 'pos', 'out', 'inn', 'term', 'facts')
    def __init__(self, i, pos):
        self.id = i; self.pos = pos; self.out = []; self.inn = []; self.term = None; self.facts = None

class Graph:
    def __init__(self):
        self.nodes = []
        self.events = []
        self.terminals = []     # (node, kind, value)
        self.phi = {}           # phi term -> set of inputs
        self.entries = []       # (kind, node)
        self.bv = {}            # (node, head) -> values a loop-carried variable takes on this edge
    def new(self, pos=None):
        n = Node(len(self.nodes), pos); self.nodes.append(n); return n
    def edge(self, a, b, label=None):
        a.out.append((b, label)); b.inn.append((a, label))

class Frame:
    __slots__ = ('fn', 'parent', 'bb', 'dest', 'target', 'mode', 'depth', 'chain', 'id')

class State:
    __slots__ = ('ctx', 'bb', 'loc', 'heap', 'facts', 'loops', 'node')
    def copy(self):
        s = State(); s.ctx = self.ctx; s.bb = self.bb
        s.loc = {k: dict(v) for k, v in self.loc.items()}
        s.heap = dict(self.heap); s.facts = dict(self.facts); s.loops = self.loops; s.node = self.node
        return s

# ---------------------------------------------------------------------- facts
def _split(x):
    c, a = lin_of(x)
    return c, mk_lin(0, a)
MAXV = {}
LENMAX = (1 << 63) - 1
def atom_max(f, b):
    """an upper bound of an atom that holds by its type or by how it is computed"""
    m = MAXV.get(b)
    if b.k == 'mod' and is_int(b.a[1]): m = b.a[1].a[0] - 1 if m is None else min(m, b.a[1].a[0] - 1)
    elif b.k == 'len': m = LENMAX if m is None else min(m, LENMAX)      # no allocation exceeds isize::MAX bytes
    elif b.k == 'div' and is_int(b.a[1]) and b.a[1].a[0] > 0:
        c0, at = lin_of(b.a[0])
        q = ub2(f, mk_lin(0, at))
        if q is not None: q = (q + c0) // b.a[1].a[0]; m = q if m is None else min(m, q)
    return m
def static_lb(f, a):
    d = 0
    for b, k in a:
        if k > 0:
            if b not in TM.UNSIGNED: return None
        else:
            m = atom_max(f, b)
            if m is None: return None
            d += k * m
    return d
def lb(f, S):
    r = f.get(('lb', S))
    d = static_lb(f, lin_of(S)[1])
    if r is None: return d
    return r if d is None else max(r, d)
def ub(f, S):
    r = lb(f, scale(S, -1))
    return None if r is None else -r
def ub2(f, S):
    r = lb2(f, scale(S, -1))
    return None if r is None else -r
def lb2(f, S):
    """lower bound of a sum from bounds of its parts"""
    r = lb(f, S)
    c, a = lin_of(S)
    if len(a) > 1 and len(a) <= 4:
        # split off one atom at a time
        tot = 0
        for b, k in a:
            x = lb(f, b) if k > 0 else ub(f, b)
            if x is None: tot = None; break
            tot += k * x
        if tot is not None and (r is None or tot > r): r = tot
        for i in range(len(a)):
            rest = mk_lin(0, a[:i] + a[i + 1:])
            b, k = a[i]
            x = lb(f, b) if k > 0 else ub(f, b)
            y = lb(f, rest)
            if x is not None and y is not None:
                z = k * x + y
                if r is None or z > r: r = z
    return r
def prove(f, x, depth=3, seen=None):
    """x > 0 follows from the facts: a bounded search for a non-negative combination of known bounds"""
    c, S = _split(x)
    return _prove(f, S, 1 - c, depth)
def _prove(f, S, k, depth):
    """S >= k"""
    l = lb2(f, S)
    if is_int(S): l = S.a[0] if l is None else l
    if l is not None and l >= k: return True
    if not depth: return False
    at = dict(lin_of(S)[1])
    for key, l in f.items():
        if key[0] != 'lb' or key[1] is S: continue
        F = key[1]; fa = lin_of(F)[1]
        if not any(b in at and at[b] * n > 0 for b, n in fa): continue
        R = sub(S, F)
        c, R0 = _split(R)
        if len(lin_of(R0)[1]) > 4: continue
        if _prove(f, R0, k - l - c, depth - 1): return True
    return False

def decide(f, b):
    k = b.k
    if k == 'ovf':
        if b.a[0] == 'Sub' and b.a[3] in ('uint', 'char'):
            x, y = b.a[1], b.a[2]
            if prove(f, add(I(1), sub(x, y))): return False
            if decide(f, TM.gt0(sub(y, x))): return True
        elif b.a[0] in ('Add', 'Mul') and b.a[3] == 'uint':
            v = add(b.a[1], b.a[2]) if b.a[0] == 'Add' else mul(b.a[1], b.a[2])
            if prove(f, sub(I(1 << b.a[4]), v), 2): return False
        return f.get(('b', b))
    if k == 'int': return bool(b.a[0])
    if k == 'not':
        r = decide(f, b.a[0]); return None if r is None else not r
    if k == 'gt0':
        c, S = _split(b.a[0])
        l = lb2(f, S)
        if l is not None and l + c > 0: return True
        u = lb2(f, scale(S, -1))
        if u is not None and -u + c <= 0: return False
        if not is_int(S):
            if _prove(f, S, 1 - c, 2): return True
            if _prove(f, scale(S, -1), c, 2): return False
        return None
    if k == 'eq0':
        c, S = _split(b.a[0])
        l = lb2(f, S); u = lb2(f, scale(S, -1)); u = None if u is None else -u
        if l is not None and u is not None and l == u == -c: return True
        if (l is not None and l > -c) or (u is not None and u < -c): return False
        if -c in f.get(('ne', S), ()): return False
        if not is_int(S) and (_prove(f, S, 1 - c, 2) or _prove(f, scale(S, -1), 1 + c, 2)): return False
        return None
    if k == 'is':
        x, n = b.a
        if x.k == 'agg': return x.a[1] == n
        v = f.get(('is', x))
        if v is not None: return v == n
        if n in f.get(('isnot', x), ()): return False
        return None
    if k == 'and':
        p, q = decide(f, b.a[0]), decide(f, b.a[1])
        if p is False or q is False: return False
        if p and q: return True
        return None
    if k == 'or':
        p, q = decide(f, b.a[0]), decide(f, b.a[1])
        if p or q: return True
        if p is False and q is False: return False
        return None
    return f.get(('b', b))
def assume(f, b):
    """f (mutated) := f and b ; returns False when contradictory"""
    d = decide(f, b)
    if d is not None: return d
    k = b.k
    if k == 'gt0':
        c, S = _split(b.a[0])
        f[('lb', S)] = 1 - c
        l = 1 - c
        while l in f.get(('ne', S), ()): l += 1
        f[('lb', S)] = l
        return True
    if k == 'eq0':
        c, S = _split(b.a[0])
        f[('lb', S)] = -c; f[('lb', scale(S, -1))] = c
        return True
    if k == 'is':
        f[('is', b.a[0])] = b.a[1]; return True
    if k == 'and': return assume(f, b.a[0]) and assume(f, b.a[1])
    if k == 'not':
        x = b.a[0]
        if x.k == 'eq0':
            c, S = _split(x.a[0])
            l = lb(f, S)
            if l is not None and l == -c:
                f[('lb', S)] = l + 1; return True
            u = ub(f, S)
            if u is not None and u == -c:
                f[('lb', scale(S, -1))] = -(u - 1); return True
            f[('ne', S)] = f.get(('ne', S), frozenset()) | {-c}
            return True
        if x.k == 'is':
            v, n = x.a
            s = f.get(('isnot', v), frozenset()) | {n}
            nv = NVAR.get(v)
            if nv and len(s) == nv - 1:
                f[('is', v)] = (set(range(nv)) - s).pop()
            else: f[('isnot', v)] = s
            return True
        if x.k == 'or': return assume(f, not_(x.a[0])) and assume(f, not_(x.a[1]))
        f[('b', x)] = False
        if x.k == 'ovf' and x.a[0] == 'Sub' and x.a[3] in ('uint', 'char'): return assume(f, TM.gt0(add(I(1), sub(x.a[1], x.a[2]))))
        return True
    f[('b', b)] = True
    return True

NVAR = {}
def is_variant(v, n, nv=None):
    if nv: NVAR[v] = nv
    if v.k == 'agg': return TRUE if v.a[1] == n else FALSE
    if v.k == 'upd': return is_variant(v.a[0], n, nv)
    return t('is', v, n)

TM.VARIANT[:] = [is_variant]
class Abort(Exception): pass

class Interp:
    MAXPART = 12
    MAXINST = 12
    MAXSTEPS = 60000
    MAXDEPTH = 60
    def __init__(self, prog, models, opaque=None):
        self.p = prog; self.models = models
        from .pre import PRE
        self.pre = PRE
        self.opaque = opaque or (lambda fn: None)
        self.frames = {}
        self.ftab = []
        self.unknown = {}
        self.unkmut = {}
        self.notes = set()
        self.drive = True
        self.inv = False
        self.mutrefs = set()

    # ---------------------------------------------------------------- frames
    def frame(self, fn, parent, bb, dest, target, mode):
        key = (fn.id, parent.id if parent else None, bb, mode)
        fr = self.frames.get(key)
        if fr is None:
            fr = Frame(); fr.fn = fn; fr.parent = parent; fr.bb = bb; fr.dest = dest; fr.target = target; fr.mode = mode
            fr.depth = parent.depth + 1 if parent else 0
            ch = parent.chain if parent else frozenset()
            fr.chain = ch | {fn.id if fn.id not in ch or (fn.id, 1) in ch or not isinstance(fn.id, int) or fn.id >= 0 else (fn.id, 1)}
            fr.id = len(self.ftab); self.ftab.append(fr); self.frames[key] = fr
        return fr

    # ---------------------------------------------------------------- memory
    def cell_get(self, st, cell):
        k = cell[0]
        if k == 'L':
            return st.loc.get(cell[1], {}).get(cell[2], UNDEF)
        if k == 'K': return cell[1]
        v = st.heap.get(cell)
        if v is None: return cell[1] if k == 'X' else UNDEF
        return v
    def cell_set(self, st, cell, v):
        if cell[0] == 'L':
            st.loc.setdefault(cell[1], {})[cell[2]] = v
        elif cell[0] == 'K': pass
        else: st.heap[cell] = v
    def proj(self, v, e):
        k = e[0]
        if k == 'f': return fld(v, e[1])
        if k == 'df': return vfld(v, e[1], e[2])
        if k == 'i': return idx(v, e[1])
        if k == 'sl': return slc(v, e[1], e[2])
        if k == 'mv': return vfld(TM.mget(v, e[1]), 1, 0)
        if k == 'j': return t('jget', v, e[1])
        if k == 'd': return v
        raise Abort('proj ' + str(e))
    def load(self, st, cell, path):
        v = self.cell_get(st, cell)
        for e in path: v = self.proj(v, e)
        return v
    def _upd(self, v, path, new):
        if not path: return new
        e = path[0]
        if e[0] == 'd': return self._upd(v, path[1:], new)
        inner = self._upd(self.proj(v, e), path[1:], new)
        if v.k == 'agg':
            i = None
            if e[0] == 'f': i = e[1]
            elif e[0] == 'df' and v.a[1] == e[1]: i = e[2]
            elif e[0] == 'i' and v.a[0] == 'array' and is_int(e[1]): i = e[1].a[0]
            if i is not None and 0 <= i < len(v.a[2]):
                f = list(v.a[2]); f[i] = inner
                return t('agg', v.a[0], v.a[1], tuple(f))
        if v.k == 'undef' and e[0] == 'f':
            # partially initialised aggregate
            f = [UNDEF] * (e[1] + 1); f[e[1]] = inner
            return t('agg', 'partial', 0, tuple(f))
        if v.k == 'agg' and v.a[0] == 'partial' and e[0] == 'f':
            f = list(v.a[2]) + [UNDEF] * (e[1] + 1 - len(v.a[2])); f[e[1]] = inner
            return t('agg', 'partial', 0, tuple(f))
        if e[0] == 'sl' and v.k != 'undef':
            return t('ver', v, t('ev', 'slicestore', 'slice_store', (slc(v, e[1], e[2]), inner)))
        if v.k == 'upd' and v.a[1] == e: v = v.a[0]
        return t('upd', v, e, inner)
    def store(self, st, cell, path, val):
        if not path: self.cell_set(st, cell, val)
        else: self.cell_set(st, cell, self._upd(self.cell_get(st, cell), path, val))
    def place_term(self, st, cell, path):
        """term naming a memory place (for store events)"""
        if cell[0] == 'X': v = base(cell[1])
        elif cell[0] == 'H': v = t('heap', cell[1])
        elif cell[0] == 'K': v = cell[1]
        else: v = t('local', cell[1], cell[2])
        for e in path:
            if e[0] == 'd': continue
            v = self.proj(v, e)
        return v

    def eval_place(self, st, p):
        fr = self.ftab[st.ctx]
        cell = ('L', st.ctx, p[0]); path = []; ty = fr.fn.locals[p[0]] if p[0] < len(fr.fn.locals) else None
        for e in p[1]:
            if e == '*':
                v = self.load(st, cell, path)
                ty = self.elem_ty(ty)
                if v.k == 'ref': cell, path = v.a[0], list(v.a[1])
                else: cell, path = ('X', deref(v)), []
            elif e == 'o': pass
            else:
                k = e[0]
                if k == 'f':
                    if path and path[-1][0] == 'd': path[-1] = ('df', path[-1][1], e[1])
                    else: path.append(('f', e[1]))
                    ty = e[2]
                elif k == 'd': path.append(('d', e[1]))
                elif k == 'i':
                    path.append(('i', self.cell_get(st, ('L', st.ctx, e[1])))); ty = self.elem_ty(ty)
                elif k == 'ci':
                    if e[3]: i = sub(length(self.load(st, cell, path)), I(e[1]))
                    else: i = I(e[1])
                    path.append(('i', i)); ty = self.elem_ty(ty)
                elif k == 'sub':
                    n = length(self.load(st, cell, path))
                    path.append(('sl', I(e[1]), sub(n, I(e[2])) if e[3] else I(e[2])))
        return cell, tuple(path), ty
    def elem_ty(self, ty):
        if ty is None: return None
        x = self.p.types[ty]
        if 'e' in x: return x['e']
        if x.get('path', '').endswith('boxed::Box') and x.get('args'): return x['args'][0]
        return None
    def nvariants(self, ty):
        if ty is None: return None
        x = self.p.types[ty]
        if x['k'] == 'adt' and x.get('ak') == 'enum': return len(x['variants'])
        return None
    def discr_map(self, ty):
        """discriminant value -> variant index"""
        if ty is None: return None
        x = self.p.types[ty]
        if x['k'] == 'adt' and x.get('ak') == 'enum':
            return {int(v[1]): i for i, v in enumerate(x['variants'])}
        return None

    # ---------------------------------------------------------------- constants / operands
    def const(self, c):
        key = id(c)
        v = self.p.__dict__.setdefault('_cc', {}).get(key)
        if v is None:
            v = self.const_(c); self.p._cc[key] = v
        return v
    def const_(self, c):
        v = c['v']
        if 'fn' in v: return t('fn', self.p.callee_idx(v['fn']))
        if 'model' in v: return t('model', v['model'])
        if 'u' in v:
            return t('const', c.get('def') or c.get('static') or (self.p.tys(c['ty']) if c.get('ty') is not None else '?'))
        if v.get('z'):
            ty = self.p.types[c['ty']]
            if ty['k'] == 'closure': return agg('closure:%s' % ty['inst'], 0, ())
            return t('zst', ty['s'])
        return self.cv(v)
    def cv(self, v):
        if 'i' in v: return I(int(v['i']))
        if 'bool' in v: return TRUE if v['bool'] else FALSE
        if 's' in v: return S(v['s'])
        if 'r' in v: return ref(('K', self.cv(v['r'])))
        if 'a' in v: return agg('array', 0, [self.cv(x) for x in v['a']])
        if 't' in v: return agg('tuple', 0, [self.cv(x) for x in v['t']])
        if 'adt' in v:
            if 'raw' in v: return t('constadt', v['adt'], v['v'], v['raw'])
            return agg(v['adt'], v['v'], [self.cv(x) for x in v['f']])
        if 'adt1' in v: return t('constadt', '', 0, v['adt1'])
        if 'fn' in v: return t('fn', self.p.callee_idx(v['fn']))
        if 'z' in v: return UNIT
        return t('const', str(v.get('u')))
    def operand(self, st, o):
        if 'c' in o: return self.const(o['c'])
        if 'p' in o:
            c, p, ty = self.eval_place(st, o['p'])
            return self.load(st, c, p)
        if 'm' in o:
            c, p, ty = self.eval_place(st, o['m'])
            v = self.load(st, c, p)
            if c[0] in ('L', 'H') and not self.is_plain(ty): self.store(st, c, p, MOVED)
            return v
        return t('opaque', str(o.get('x')))
    def is_plain(self, ty):
        """types whose moved-out state nobody can observe"""
        if ty is None: return False
        return self.p.types[ty]['k'] in ('bool', 'int', 'uint', 'char', 'float', 'ref', 'ptr', 'fndef')
    def op_ty(self, st, o):
        if 'c' in o: return o['c'].get('ty')
        if 'p' in o or 'm' in o:
            pl = o.get('p') or o.get('m')
            fr = self.ftab[st.ctx]
            ty = fr.fn.locals[pl[0]]
            for e in pl[1]:
                if e == '*' or (isinstance(e, list) and e[0] in ('i', 'ci')): ty = self.elem_ty(ty)
                elif isinstance(e, list) and e[0] == 'f': ty = e[2]
            return ty
        return None

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, r):
        k = r['k']
        if k == 'use': return self.operand(st, r['o'])
        if k == 'ref':
            c, p, ty = self.eval_place(st, r['p'])
            if c[0] == 'X' and not p and c[1].k == 'deref': return c[1].a[0]
            return ref(c, p)
        if k == 'bin': return self.binop(st, r)
        if k == 'un':
            v = self.operand(st, r['o']); op = r['op']
            ty = self.op_ty(st, r['o'])
            if op == 'Not':
                if ty is not None and self.p.types[ty]['k'] == 'bool': return not_(v)
                return t('bnot', v)
            if op == 'Neg': return scale(v, -1)
            if op == 'PtrMetadata':
                if v.k == 'ref': return length(self.load(st, *v.a))
                return length(self.cell_get(st, ('X', deref(v))))
            return t('un', op, v)
        if k == 'cast':
            v = self.operand(st, r['o']); ck = r['ck']; to = self.p.types[r['ty']]
            if ck == 'IntToInt':
                ft = self.op_ty(st, r['o'])
                f = self.p.types[ft] if ft is not None else {'k': 'uint', 'bits': 64}
                fb = f.get('bits', {'bool': 1, 'char': 32}.get(f['k'], 64)); tb = to.get('bits', {'bool': 1, 'char': 32}.get(to['k'], 64))
                if f['k'] in ('uint', 'bool', 'char'):
                    TM.UNSIGNED.update(a for a, _ in lin_of(v)[1])
                    c0, at = lin_of(v)
                    if c0 == 0 and len(at) == 1 and at[0][1] == 1 and fb < 64 and MAXV.get(v, 1 << 64) >= 1 << fb: MAXV[v] = (1 << fb) - 1
                if tb < fb:
                    if is_int(v):
                        n = v.a[0] & ((1 << tb) - 1)
                        if to['k'] == 'int' and n >> (tb - 1): n -= 1 << tb
                        return I(n)
                    # value known to fit
                    if f['k'] == 'uint' and to['k'] == 'uint':
                        u = ub(st.facts, mk_lin(0, lin_of(v)[1]))
                        if u is not None and u + lin_of(v)[0] < (1 << tb): return v
                    if v.k == 'sgn' and tb == v.a[1] and to['k'] == 'uint': return v.a[0]
                    return mod(v, I(1 << tb))
                if f['k'] == 'int' and to['k'] == 'uint':
                    # a negative value becomes a huge one
                    if is_int(v): return I(v.a[0] & ((1 << tb) - 1))
                    if v.k == 'sgn' and tb == v.a[1]: return v.a[0]
                    if v.k == 'sgn' or tb > fb and lb(st.facts, mk_lin(0, lin_of(v)[1])) is None: return t('sext', v, I(fb), I(tb))
                if f['k'] == 'uint' and to['k'] == 'int' and fb == tb and fb < 64:
                    u = ub(st.facts, mk_lin(0, lin_of(v)[1]))
                    if not is_int(v) and (u is None or u + lin_of(v)[0] >= 1 << (tb - 1)): return t('sgn', v, tb)
                return v
            if ck.startswith('IntToFloat'): return t('float' if to.get('s') == 'f64' else 'float32', v)
            if ck.startswith('FloatToInt'): return t('f2i', v)
            if ck.startswith('FloatToFloat'): return v if to.get('s') == 'f64' else t('f32', v)
            return v
        if k == 'discr':
            c, p, ty = self.eval_place(st, r['p'])
            v = self.load(st, c, p)
            nv = self.nvariants(ty)
            while v.k == 'upd': v = v.a[0]
            if nv and v.k != 'agg': NVAR[v] = nv
            dm = self.discr_map(ty)
            if v.k == 'agg' and dm:
                for dv, vi in dm.items():
                    if vi == v.a[1]: return I(dv)
            if dm and any(a != b for a, b in dm.items()): return t('discrx', v, tuple(sorted(dm.items())))
            return discr(v)
        if k == 'agg':
            os_ = [self.operand(st, o) for o in r['os']]
            ak = r['ak']
            if ak == 'array': return agg('array', 0, os_)
            if ak == 'tuple': return agg('tuple', 0, os_)
            if ak == 'adt': return agg(r['path'], r['v'], os_)
            if ak == 'closure': return agg('closure:%s' % r['inst'], 0, os_)
            if ak == 'coroutine':
                for x, o in zip(os_, r['os']):
                    if x.k == 'ref':
                        ty = self.op_ty(st, o)
                        if ty is not None and self.p.types[ty].get('mut'): self.mutrefs.add(x)
                return agg('coroutine:%s' % r['inst'], 0, os_)
            if ak == 'rawptr': return os_[0]
            return t('aggx', ak, tuple(os_))
        if k == 'repeat':
            v = self.operand(st, r['o'])
            return t('rep', v, I(int(r['n']))) if r['n'] is not None else t('rep', v, t('const', 'N'))
        return t('opaque', r.get('s', k))
    def binop(self, st, r):
        op = r['op']; ty = self.op_ty(st, r['a'])
        a = self.operand(st, r['a']); b = self.operand(st, r['b'])
        kd = self.p.types[ty]['k'] if ty is not None else 'uint'
        if kd == 'float': return t('f' + op, a, b)
        if kd in ('uint', 'char'):
            fb = self.p.types[ty].get('bits', 64) if ty is not None else 64
            for x in ((a,) if op.startswith('Sh') else (a, b)):
                c0, at = lin_of(x)
                TM.UNSIGNED.update(q for q, _ in at)
                if fb < 64 and c0 == 0 and len(at) == 1 and at[0][1] == 1 and MAXV.get(x, 1 << 64) >= 1 << fb: MAXV[x] = (1 << fb) - 1
        if kd in ('ref', 'ptr', 'fnptr') and op in ('Eq', 'Ne'):
            r_ = eqv(a, b); return r_ if op == 'Eq' else not_(r_)
        ov = op.endswith('WithOverflow')
        if ov: op = op[:-12]
        if op.endswith('Unchecked'): op = op[:-9]
        if op == 'Add': v = add(a, b)
        elif op == 'Sub': v = sub(a, b)
        elif op == 'Mul': v = mul(a, b)
        elif op == 'Div': v = div(a, b)
        elif op == 'Rem': v = mod(a, b)
        elif op == 'BitAnd':
            if kd == 'bool':
                v = b if a is TRUE else a if b is TRUE else FALSE if FALSE in (a, b) else t('and', *sorted((a, b), key=lambda q: q.id))
            else: v = bitand(a, b)
        elif op == 'BitOr':
            if kd == 'bool':
                v = TRUE if TRUE in (a, b) else b if a is FALSE else a if b is FALSE else t('or', *sorted((a, b), key=lambda q: q.id))
            else: v = bitor(a, b)
        elif op == 'BitXor': v = bitxor(a, b)
        elif op == 'Shl': v = shl(a, b)
        elif op == 'Shr': v = shr(a, b)
        elif op == 'Eq': v = self.beq(a, b, kd)
        elif op == 'Ne': v = not_(self.beq(a, b, kd))
        elif op == 'Lt': v = lt(a, b)
        elif op == 'Le': v = le(a, b)
        elif op == 'Gt': v = lt(b, a)
        elif op == 'Ge': v = le(b, a)
        else: v = t('bin', op, a, b)
        if ov:
            o = FALSE if is_int(v) and is_int(a) and is_int(b) and (v.a[0] >= 0 or kd == 'int') else t('ovf', op, a, b, kd, self.p.types[ty].get('bits', 64) if ty is not None else 64)
            return tup(v, o)
        return v
    def beq(self, a, b, kd):
        if kd == 'bool':
            if is_int(a): a, b = b, a
            if is_int(b): return a if b.a[0] else not_(a)
            return t('eq', *sorted((a, b), key=lambda q: q.id))
        return eqi(a, b)

    # ---------------------------------------------------------------- content of references
    def content(self, st, v, ty=None, depth=8):
        if depth == 0: return v
        if v.k == 'ref':
            return self.content(st, self.load(st, *v.a), self.elem_ty(ty), depth - 1)
        if ty is not None and self.p.types[ty]['k'] in ('ref', 'ptr'):
            return self.content(st, self.cell_get(st, ('X', deref(v))), self.elem_ty(ty), depth - 1)
        if v.k == 'agg' and v.a[2]:
            nf = tuple(self.content(st, x, None, depth - 1) if x.k in ('ref', 'agg') else x for x in v.a[2])
            if nf != v.a[2]: return t('agg', v.a[0], v.a[1], nf)
        return v

    # ---------------------------------------------------------------- events
    def emit(self, st, name, args, snap, ret=None, line=0, callee=None, kind='call', newterm=True):
        fr = self.ftab[st.ctx]
        site = t('site', st.ctx, st.bb)
        e = Event()
        e.name = name; e.args = args; e.snap = tuple(snap); e.site = site; e.line = line; e.fn = fr.fn; e.callee = callee; e.kind = kind
        e.ctx = st.ctx
        e.ret = ret if ret is not None else (t('ev', site, name, e.snap) if newterm else UNIT)
        if e.ret.k == 'ev':
            for k in [k for k in st.facts if e.ret in evs(k[1])]: del st.facts[k]
        n = self.g.new((st.ctx, st.bb))
        self.g.edge(st.node, n, e)
        e.src = st.node; e.dst = n
        self.g.events.append(e)
        st.node = n
        self.site_loops[site] = st.loops
        return e.ret
    def terminal(self, st, kind, val=UNIT):
        self.g.terminals.append((st.node, kind, val))
        st.node.term = (kind, val)

    # ---------------------------------------------------------------- main loop
    def run(self, fn, args=None, pre=None):
        """analyse fn as a root; returns the exploded graph"""
        self.headers = {}; self.hinst = {}; self.site_loops = {}
        self.passes = 0; self.cand = {}; self.templ = {}; self.rounds = 0
        while True:
            self.dirty = False
            self.passes += 1
            self.g = Graph(); self.joins = {}; self.jcount = {}; self.hnode = {}; self.steps = 0
            self.work = []
            st = State()
            fr = self.frame(fn, None, None, None, None, 'root')
            st.ctx = fr.id; st.bb = 0; st.loc = {fr.id: {}}; st.heap = {}; st.facts = {}; st.loops = ()
            st.node = self.g.new((fr.id, 0))
            self.g.entries.append(('root', st.node))
            for i in range(fn.argc):
                ty = fn.locals[i + 1]
                v = args[i] if args and i < len(args) and args[i] is not None else None
                if v is None:
                    pt = t('param', i)
                    tk = self.p.types[ty]['k']
                    if tk in ('ref', 'ptr'): v = ref(('X', pt))
                    else:
                        v = pt
                        if tk == 'uint': TM.UNSIGNED.add(pt)
                st.loc[fr.id][i + 1] = v
            if pre: pre(self, st)
            self.work.append(st)
            while self.work:
                s = self.work.pop()
                self.steps += 1
                if self.steps > self.MAXSTEPS: raise Abort(f'state explosion in {fn.path}')
                self.block(s)
            if not self.dirty:
                if not self.inv or self.rounds >= 3 or not self.guess(): break
                self.rounds += 1
            if self.passes > 40 + 20 * self.rounds: raise Abort(f'no fixpoint in {fn.path}')
        self.g.fn = fn; self.g.interp = self; self.g.prog = self.p
        self.g.head = {n.id: self.headers[hk] for hk, n in self.hnode.items() if hk in self.headers}
        return self.g

    def goto(self, st, bb, label=None):
        """continue st at block bb of the current frame"""
        fr = self.ftab[st.ctx]; fn = fr.fn
        if label is not None:
            n = self.g.new((st.ctx, bb)); self.g.edge(st.node, n, label); st.node = n
        if bb in fn.unreach: return
        st.bb = bb
        if st.loops:
            while st.loops:
                l = st.loops[-1]
                if l[0] == st.ctx and bb not in fn.headers[l[1]]: st.loops = st.loops[:-1]
                else: break
        if bb in fn.headers: return self.at_header(st)
        if fn.preds[bb] > 1 or bb == 0:
            if not self.join(st): return
        self.work.append(st)

    def statekey(self, st, facts=True):
        loc = tuple(sorted((c, tuple(sorted((k, v.id) for k, v in d.items()))) for c, d in st.loc.items()))
        heap = tuple(sorted(((c[0],) + tuple(x.id if isinstance(x, T) else x for x in c[1:]), v.id) for c, v in st.heap.items()))
        f = ()
        if facts:
            live = set()
            for d in st.loc.values():
                for v in d.values(): live |= evs(v)
            for v in st.heap.values(): live |= evs(v)
            keep = {}
            for k, v in st.facts.items():
                e = evs(k[1])
                if not e or e & live: keep[k] = v
            st.facts = keep
            f = tuple(sorted((k[0], k[1].id, v if not isinstance(v, frozenset) else tuple(sorted(v))) for k, v in keep.items()))
        return (loc, heap, st.loops, f)

    def join(self, st):
        pos = (st.ctx, st.bb)
        key = self.statekey(st)
        n = self.jcount.get(pos, 0)
        if (pos, key) not in self.joins and n >= self.MAXPART:
            st.facts = {}
            key = self.statekey(st, False)
            if (pos, key) not in self.joins and n >= 3 * self.MAXPART:
                self.notes.add(('widen-join', self.ftab[st.ctx].fn.path, st.bb))
                return self.at_header(st, forced=True)
        x = self.joins.get((pos, key))
        if x is not None:
            self.g.edge(st.node, x); return False
        x = self.g.new(pos)
        self.g.edge(st.node, x)
        self.joins[(pos, key)] = x
        self.jcount[pos] = n + 1
        st.node = x
        return True

    def at_header(self, st, forced=False):
        ctx, bb = st.ctx, st.bb
        inst = None
        for l in st.loops:
            if l[0] == ctx and l[1] == bb: inst = l[2]
        if forced: inst = 'w'
        entry = inst is None
        if entry:
            ek = self.statekey(st)
            tab = self.hinst.setdefault((ctx, bb), {})
            inst = tab.get(ek)
            if inst is None:
                if len(self.hnode_insts((ctx, bb))) >= self.MAXINST: inst = 0
                else: inst = len(tab)
                tab[ek] = inst
            st.loops = st.loops + ((ctx, bb, inst),)
        hk = (ctx, bb, inst) + ((st.loops,) if forced else ())
        tag = t('head', ctx, bb, str(inst) if not forced else 'w' + str(hash(st.loops) % 1000))
        H = self.headers.get(hk)
        bv = None
        if H is None:
            H = st.copy(); H.node = None
            self.headers[hk] = H
        else:
            if self.widen(H, st, tag): self.dirty = True
            bv = tuple(sorted(self.vmap.items(), key=lambda z: z[0].id))
        n = self.hnode.get(hk)
        if n is not None:
            if bv: self.g.bv[(st.node.id, n.id)] = bv
            self.g.edge(st.node, n)
            return False
        n = self.g.new((ctx, bb)); self.hnode[hk] = n
        self.g.edge(st.node, n)
        s = H.copy(); s.node = n
        self.work.append(s)
        return False
    def guess(self):
        """candidate bounds of loop-carried integers (taken from the branches and checks of the loop), assumed at the loop heads
        and withdrawn as soon as an arriving state does not establish them"""
        tags = {}
        for hk, H in self.headers.items(): tags[t('head', hk[0], hk[1], str(hk[2]))] = H
        new = {}
        def cond(c):
            if c.k == 'not': c = c.a[0]
            if c.k in ('and', 'or'):
                for y in c.a: cond(y)
                return
            if c.k == 'ovf' and c.a[0] == 'Sub': x = sub(c.a[1], c.a[2])
            elif c.k in ('gt0', 'eq0'): x = c.a[0]
            else: return
            at = lin_of(x)[1]
            for p, n in at:
                if p.k == 'phi' and abs(n) == 1 and p.a[0] in tags:
                    B = scale(sub(x, scale(p, n)), -n)            # x = n*p + rest: compare p with B
                    for d in (0, 1):
                        new.setdefault(p, set()).add(add(B, I(d)))
        for n in self.g.nodes:
            for m, lab in n.out:
                if isinstance(lab, tuple) and lab and lab[0] == 'cond':
                    for c in lab[1]: cond(c)
        # the same variable carried through nested loops
        adj = {}
        for p, ins in self.g.phi.items():
            if p.k != 'phi': continue
            for x in ins:
                for b, n in lin_of(x)[1]:
                    if b.k == 'phi' and n == 1 and b is not p and is_int(sub(x, b)): adj.setdefault(p, set()).add(b); adj.setdefault(b, set()).add(p)
        st = [(p, B) for p, Bs in new.items() for B in Bs]; seen = set(st)
        while st and len(seen) < 4000:
            p, B = st.pop()
            for r in adj.get(p, ()):
                if (r, B) not in seen: seen.add((r, B)); st.append((r, B))
        any_ = False
        for p, B in seen:
            if p.a[0] not in tags or any(y.k in ('phi', 'vphi') and y.a[0 if y.k == 'phi' else 1] is p.a[0] for y in subterms(B)): continue
            if len(lin_of(B)[1]) > 2: continue
            key = (p.a[0].a[0], p.a[0].a[1], p.a[1])
            if B in self.templ.get(key, ()): continue
            self.templ.setdefault(key, set()).add(B); any_ = True
        if any_: self.headers = {}; self.hinst = {}; self.cand = {}; self.site_loops = {}
        return any_
    def recheck(self, H, st, tag):
        """withdraw the candidate bounds the arriving state does not establish for the values it brings"""
        cs = self.cand.get(tag)
        if not cs: return False
        ch = False
        for S, ks in cs.items():
            if not ks: continue
            S2 = S
            if any(b.k == 'phi' and b.a[0] is tag and b not in self.vmap for b, _ in lin_of(S)[1]):
                ks.clear(); ch = True
            for b, n in lin_of(S)[1]:
                if b in self.vmap: S2 = add(sub(S2, scale(b, n)), scale(self.vmap[b], n))
            for k in sorted(ks, reverse=True):
                if prove(st.facts, add(S2, I(1 - k))): break
                ks.discard(k); ch = True
            f = ('lb', S)
            if ks:
                if H.facts.get(f) != max(ks): H.facts[f] = max(ks); ch = True
            elif f in H.facts: del H.facts[f]; ch = True
        return ch
    def hnode_insts(self, pos):
        return [k for k in self.hnode if k[:2] == pos]

    def vjoin(self, a, b, tag, loc):
        """join of header value a with arriving value b"""
        if (a.k == 'phi' and a.a[0] is tag and a.a[1] == loc) or (a.k == 'vphi' and a.a[1] is tag and a.a[2] == loc): self.vmap[a] = b
        if a is b: return a
        if a.k == 'phi' and a.a[0] is tag and a.a[1] == loc:
            self.g.phi.setdefault(a, set()).add(b); return a
        if a.k == 'vphi' and a.a[1] is tag and a.a[2] == loc:
            if a.a[0] is base(b):
                self.g.phi.setdefault(a, set()).add(b); return a
        if a.k in ('moved', 'undef'): return a
        if b.k in ('moved', 'undef'): return b
        if a.k == 'agg' and b.k == 'agg' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            return t('agg', a.a[0], a.a[1], tuple(self.vjoin(x, y, tag, loc + (i,)) for i, (x, y) in enumerate(zip(a.a[2], b.a[2]))))
        if a.k == 'ref' and b.k == 'ref' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
            ps = []
            for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
                if x == y: ps.append(x)
                elif x[0] == 'i' and y[0] == 'i': ps.append(('i', self.vjoin(x[1], y[1], tag, loc + ('p', i))))
                else: ps = None; break
            if ps is not None: return ref(a.a[0], tuple(ps))
        B = base(a)
        if B is base(b) and (B is not a or B is not b):
            r = t('vphi', B, tag, loc)
        else:
            r = t('phi', tag, loc)
            for x in (a, b):
                if x.k == 'int' or any(q in TM.UNSIGNED for q, _ in lin_of(x)[1]): TM.UNSIGNED.add(r)
        self.g.phi.setdefault(r, set()).update((a, b))
        if r.k == 'phi': self.newphi.append((r, a, b)); self.vmap[r] = b
        return r

    def stale(self, term, hk):
        for e in evs(term):
            if e.k == 'ev':
                ls = self.site_loops.get(e.a[0], ())
                if hk in [x[:2] for x in ls]: return True
        return False

    def widen(self, H, st, tag):
        ch = False
        self.vmap = {}; self.newphi = []; before = dict(H.facts) if self.inv else None
        for c in list(H.loc):
            d = H.loc[c]; s = st.loc.get(c)
            if s is None:
                ch = True; del H.loc[c]; continue
            for k in list(d):
                if k not in s:
                    del d[k]; ch = True; continue
                v = self.vjoin(d[k], s[k], tag, ('L', c, k))
                if v is not d[k]: d[k] = v; ch = True
        for c in list(H.heap):
            b = st.heap.get(c)
            if b is None:
                if c[0] == 'X': b = c[1]
                else: continue
            v = self.vjoin(H.heap[c], b, tag, c)
            if v is not H.heap[c]: H.heap[c] = v; ch = True
        for c in st.heap:
            if c not in H.heap:
                if c[0] == 'X' and not self.stale(c[1], (tag.a[0], tag.a[1])):
                    H.heap[c] = self.vjoin(c[1], st.heap[c], tag, c); ch = True
                elif c[0] == 'H' and not self.stale(c[1], (tag.a[0], tag.a[1])):
                    H.heap[c] = st.heap[c]; ch = True
        if self.inv:
            if self.recheck(H, st, tag): ch = True
            for r, a, b in self.newphi:
                for B in self.templ.get((tag.a[0], tag.a[1], r.a[1]), ()):
                    c, S = _split(sub(B, r))
                    if prove(before, add(sub(B, a), I(1))) and prove(st.facts, add(sub(B, b), I(1))):
                        ks = self.cand.setdefault(tag, {}).setdefault(S, set())
                        ks.add(-c); H.facts[('lb', S)] = max(ks); ch = True
        cs = self.cand.get(tag, {})
        for f in list(H.facts):
            if st.facts.get(f) != H.facts[f]:
                if f[0] == 'lb' and cs.get(f[1]): continue
                if f[0] == 'lb':
                    # keep the weaker bound when it is still implied (only once, to 0)
                    o = lb2(st.facts, f[1])
                    if o is not None and o >= H.facts[f]: continue
                    if o is not None and o >= 0 and H.facts[f] > 0:
                        H.facts[f] = 0; ch = True; continue
                if f[0] == 'ne' and H.facts[f] <= st.facts.get(f, frozenset()): continue
                del H.facts[f]; ch = True
        return ch

    # ---------------------------------------------------------------- one block
    def block(self, st):
        while True:
            fr = self.ftab[st.ctx]; fn = fr.fn
            ss, term, line, cleanup = fn.blocks[st.bb]
            loc = st.loc.setdefault(st.ctx, {})
            for s in ss:
                k = s[0]
                if k == '=':
                    if s[2]['k'] == 'ref' and s[2].get('fake'): continue
                    v = self.rvalue(st, s[2])
                    p = s[1]
                    if not p[1]: loc[p[0]] = v
                    else:
                        c, path, ty = self.eval_place(st, p)
                        if c[0] in ('X', 'H') and '*' in p[1]:
                            pt = self.place_term(st, c, path)
                            self.emit(st, 'store', (ref(c, path), v), (pt, self.content(st, v)), UNIT, s[3], kind='store')
                        self.store(st, c, path, v)
                elif k == 'dead':
                    loc.pop(s[1], None)
                elif k == 'live': pass
                elif k == 'sd':
                    c, path, ty = self.eval_place(st, s[1])
                    self.store(st, c, path, t('setdiscr', self.load(st, c, path), s[2]))
            k = term[0]
            if k == 'goto': return self.goto(st, term[1])
            if k == 'ret': return self.do_return(st)
            if k == 'switch': return self.do_switch(st, term)
            if k == 'drop':
                c, path, ty = self.eval_place(st, term[1])
                v = self.load(st, c, path)
                self.do_drop(st, v, ty, term[3])
                if c[0] in ('L', 'H'): self.store(st, c, path, MOVED)
                return self.goto(st, term[2])
            if k == 'assert':
                v = self.operand(st, term[1])
                cond = v if term[2] else not_(v)
                return self.branch2(st, cond, term[4], ('assert', term[3]), term[5])
            if k == 'call': return self.do_call(st, term)
            if k == 'yield':
                self.emit(st, 'yield', (), (), UNIT, term[3], kind='yield')
                return self.goto(st, term[1])
            if k == 'unreach': return
            if k == 'resume': return
            raise Abort('terminator ' + str(term))

    def branch2(self, st, cond, bb, fail, line):
        """assert-like: cond holds -> bb, else panic"""
        d = decide(st.facts, cond)
        if d is not True:
            s = st.copy()
            if assume(s.facts, not_(cond)):
                n = self.g.new((s.ctx, s.bb)); self.g.edge(s.node, n, ('cond', (not_(cond),))); s.node = n
                self.emit(s, 'panic', (), (S(fail[0]), S(fail[1]), cond), UNIT, line, kind='panic')
                self.terminal(s, 'panic', S(fail[1]))
        if d is False: return
        if d is None:
            if not assume(st.facts, cond): return
            return self.goto(st, bb, ('cond', (cond,)))
        return self.goto(st, bb)

    def do_switch(self, st, term):
        v = self.operand(st, term[1]); dt = {'k': 'bool'} if term[4] == 'bool' else self.p.types[term[4]] if term[4] is not None else None
        targets = [(int(a), b) for a, b in term[2]]
        if is_int(v):
            n = v.a[0]
            for a, b in targets:
                if a == n: return self.goto(st, b)
            return self.goto(st, term[3])
        isb = (dt is not None and dt['k'] == 'bool')
        if v.k == 'discr':
            x = v.a[0]
            conds = [(is_variant(x, a), b) for a, b in targets]
        elif v.k == 'discrx':
            x = v.a[0]; dm = dict(v.a[1])
            conds = [(is_variant(x, dm[a]), b) for a, b in targets]
        elif isb:
            conds = [(v if a else not_(v), b) for a, b in targets]
        else:
            if dt is not None and dt['k'] in ('uint', 'char'): TM.UNSIGNED.update(q for q, _ in lin_of(v)[1])
            conds = [(eqi(v, I(a)), b) for a, b in targets]
        rest = [not_(c) for c, _ in conds]
        fn = self.ftab[st.ctx].fn
        todo = []
        remaining = st.copy()
        alive = True
        for c, b in conds:
            if not alive: break
            d = decide(remaining.facts, c)
            if d is False: continue
            if d is True:
                todo.append((remaining.copy(), b, c)); alive = False; break
            s = remaining.copy()
            if assume(s.facts, c): todo.append((s, b, c))
            if not assume(remaining.facts, not_(c)): alive = False
        if alive and term[3] not in fn.unreach:
            todo.append((remaining, term[3], None))
        elif alive and term[3] in fn.unreach and len(todo) == 1 and False:
            pass
        for s, b, c in todo:
            if c is not None: lab = ('cond', (c,))
            else:
                lab = ('cond', tuple(rest))
                if v.k in ('discr', 'discrx'):
                    n = s.facts.get(('is', v.a[0]))
                    if n is not None: lab = ('cond', (is_variant(v.a[0], n),))
            self.goto(s, b, lab)

    def do_return(self, st):
        fr = self.ftab[st.ctx]
        v = st.loc.get(st.ctx, {}).get(0, UNIT)
        if fr.parent is None:
            n = 0
            while fr.mode == 'root' and self.drive and v.k == 'ref' and n < 4:
                w = self.load(st, *v.a)
                if w.k == 'agg' and (w.a[0].startswith('coroutine:')): v = w
                elif w.k == 'ref': v = w
                else: break
                n += 1
            if v.k == 'ref': v = st.loc.get(st.ctx, {}).get(0, UNIT)
            if fr.mode == 'root' and self.drive and v.k == 'agg' and v.a[0].startswith('coroutine:') and v.a[0] != 'coroutine:None':
                fn = self.p.fns[int(v.a[0][10:])]
                nf = self.frame(fn, None, 'drive', None, None, 'root')
                st.loc.pop(st.ctx, None); st.loops = ()
                st.loc[nf.id] = {1: v, 2: t('taskcx')}
                st.ctx = nf.id
                return self.goto(st, 0)
            if fr.mode == 'root' or fr.mode == 'thread':
                self.emit(st, 'return', (v,), (self.content(st, v, fr.fn.locals[0] if not fr.fn.synth else None),), v, 0, kind='return')
                st.node.facts = (dict(st.facts), st)
                self.terminal(st, 'ret' if fr.mode == 'root' else 'tret', v)
            return
        if fr.mode == 'thread':
            self.emit(st, 'return', (v,), (self.content(st, v, fr.fn.locals[0] if not fr.fn.synth else None),), v, 0, kind='return')
            self.terminal(st, 'tret', v); return
        st.loc.pop(st.ctx, None)
        while st.loops and st.loops[-1][0] == st.ctx: st.loops = st.loops[:-1]
        st.ctx = fr.parent.id; st.bb = fr.bb
        if fr.mode == 'poll': v = agg(POLL, 0, (v,))
        self.assign_dest(st, fr.dest, v)
        if fr.target is None: return
        self.goto(st, fr.target)

    def assign_dest(self, st, dest, v, line=0):
        c, path, ty = self.eval_place(st, dest)
        if c[0] in ('X', 'H') and '*' in dest[1]:
            self.emit(st, 'store', (ref(c, path), v), (self.place_term(st, c, path), self.content(st, v)), UNIT, line, kind='store')
        self.store(st, c, path, v)

    GUARDS = ('Guard', 'Sender', 'Receiver', 'JoinHandle', 'Permit', 'File')
    def do_drop(self, st, v, ty, line):
        if v.k in ('moved', 'undef', 'int'): return
        if ty is None: return
        s = self.p.tys(ty)
        if not any(g in s for g in self.GUARDS): return
        self.emit(st, 'drop', (v,), (self.strip_moved(v), S(s)), UNIT, line, kind='drop')
    def strip_moved(self, v):
        return v

    # ---------------------------------------------------------------- calls
    def push(self, st, fn, args, dest, target, mode='call', line=0):
        parent = self.ftab[st.ctx]
        fr = self.frame(fn, parent, st.bb, dest, target, mode)
        st.loc[fr.id] = {i + 1: a for i, a in enumerate(args)}
        st.ctx = fr.id
        st.bb = 0
        return self.goto(st, 0)

    def enter(self, st, fn, args, dest, target, mode='call', line=0):
        """inline a call of a function with a body"""
        fr = self.ftab[st.ctx]
        if fn.id in fr.chain and (fn.id >= 0 or (fn.id, 1) in fr.chain) or fr.depth > self.MAXDEPTH or not fn.blocks:
            self.notes.add(('not-inlined', fn.path))
            return self.opaque_call(st, fn.path, args, [None] * len(args), dest, target, line)
        return self.push(st, fn, args, dest, target, mode, line)

    def opaque_call(self, st, name, args, tys, dest, target, line, callee=None):
        snap = [self.content(st, a, ty) for a, ty in zip(args, tys)]
        r = self.emit(st, name, tuple(args), snap, None, line, callee)
        self.havoc(st, args, tys, r)
        if target is None:
            self.terminal(st, 'panic', S(name)); return
        self.assign_dest(st, dest, r, line)
        return self.goto(st, target)

    def havoc(self, st, args, tys, r):
        for a, ty in zip(args, tys):
            if a.k == 'agg' and a.a[0].startswith(('closure:', 'coroutine:')): self.havoc_env(st, a, r)
            if ty is None: continue
            x = self.p.types[ty]
            if x['k'] in ('ref', 'ptr') and x.get('mut'):
                v = self.load(st, *a.a) if a.k == 'ref' else a
                if v.k == 'agg' and v.a[0].startswith(('closure:', 'coroutine:')): self.havoc_env(st, v, r)
                else: self.bump(st, a, r)
    def havoc_env(self, st, a, r):
        """what the callee may modify through the variables a closure captured by mutable reference"""
        ups = getattr(self.p, '_ups', None)
        if ups is None:
            ups = self.p._ups = {str(x['inst']): x.get('up') for x in self.p.types if x['k'] in ('closure', 'coroutine') and x.get('inst') is not None}
        up = ups.get(a.a[0].split(':', 1)[1])
        for i, v in enumerate(a.a[2]):
            if v.k == 'agg' and v.a[0].startswith(('closure:', 'coroutine:')): self.havoc_env(st, v, r)
            elif up and i < len(up):
                x = self.p.types[up[i]]
                if x['k'] in ('ref', 'ptr') and x.get('mut'): self.bump(st, v, r)
    def bump(self, st, a, r):
        """the memory behind reference a was modified by event r"""
        if a.k == 'ref':
            old = self.load(st, *a.a)
            if old.k == 'ref': return self.bump(st, old, r)
            self.store(st, a.a[0], a.a[1], t('ver', old, r))
        else:
            c = ('X', deref(a))
            old = self.cell_get(st, c)
            self.cell_set(st, c, t('ver', old, r))
    def ptr(self, st, a):
        """(cell, path) a reference value designates, through references to references"""
        if a.k == 'ref':
            v = self.load(st, *a.a)
            if v.k == 'ref': return self.ptr(st, v)
            return a.a
        return (('X', deref(a)), ())

    def do_call(self, st, term):
        f = term[1]; line = term[5]
        args = None
        dest, target = term[3], term[4]
        if 'c' in f:
            v = f['c']['v']
            args = [self.operand(st, a) for a in term[2]]
            if 'model' in v:
                return self.run_model(st, v['model'], args, [None] * len(args), dest, target, line, None)
            if 'fn' in v:
                callee = self.p.callees[self.p.callee_idx(v['fn'])]
                tys = [self.op_ty(st, a) for a in term[2]]
                return self.call_callee(st, callee, args, tys, dest, target, line)
        fv = self.operand(st, f)
        args = [self.operand(st, a) for a in term[2]]
        tys = [self.op_ty(st, a) for a in term[2]]
        return self.call_value(st, fv, args, dest, target, line)

    def call_callee(self, st, callee, args, tys, dest, target, line):
        if callee.get('ctor'):
            self.assign_dest(st, dest, agg(callee['adt'], callee['variant'], args), line)
            return self.goto(st, target)
        tr = callee.get('trait', '').split('::')[-1]
        nm = callee.get('canon')
        if tr in ('Fn', 'FnMut', 'FnOnce') and callee['name'] in ('call', 'call_mut', 'call_once'):
            a = args[1]
            al = list(a.a[2]) if a.k == 'agg' else [fld(a, i) for i in range(self.tuple_arity(tys[1]))]
            return self.call_value(st, args[0], al, dest, target, line, self.tuple_tys(tys[1]))
        if tr == 'Future' and callee['name'] == 'poll':
            return self.do_poll(st, args, dest, target, line)
        m = self.models.get(nm)
        force = self.models.get('!' + nm) if nm else None
        if force is not None: return self.run_model(st, '!' + nm, args, tys, dest, target, line, callee)
        i = callee.get('inst')
        if i is not None:
            fn = self.p.fns[i]
            o = self.opaque(fn)
            if o and not callable(o): return self.opaque_call(st, o, args, tys, dest, target, line, callee)
            if o:
                # a summary: what the callee was shown to do (or None: analyse it here)
                c = Interp.Call()
                c.name = nm; c.args = args; c.tys = tys; c.callee = callee; c.line = line; c.m = self; c.st = st
                r = o(self, st, c)
                if r is not None: return self.finish(st, r, args, tys, dest, target, line, callee)
            return self.enter(st, fn, args, dest, target, 'call', line)
        if m is not None: return self.run_model(st, nm, args, tys, dest, target, line, callee)
        i = callee.get('sinst')
        if i is not None:
            return self.enter(st, self.p.fns[i], args, dest, target, 'call', line)
        if target is None:
            snap = [self.content(st, a, ty) for a, ty in zip(args, tys)]
            if nm and nm.endswith('process::exit'):
                self.emit(st, 'process::exit', args, snap, UNIT, line, callee, kind='exit'); self.terminal(st, 'exit', snap[0]); return
            self.emit(st, 'panic', tuple(args), (S('call'), S(nm or '?')) + tuple(snap), UNIT, line, callee, kind='panic')
            self.terminal(st, 'panic', S(nm or '?'))
            return
        if nm in self.pre:
            c = Interp.Call()
            c.name = nm; c.args = args; c.tys = tys; c.callee = callee; c.line = line; c.m = self; c.st = st
            if not self.require(st, self.pre[nm](self, st, c), line, callee): return
        self.unknown[nm] = self.unknown.get(nm, 0) + 1
        for a, ty in zip(args, tys):
            if ty is not None and self.p.types[ty]['k'] in ('ref', 'ptr') and self.p.types[ty].get('mut'): self.unkmut[(nm, self.p.tys(ty))] = (st.ctx, line)
        return self.opaque_call(st, nm, args, tys, dest, target, line, callee)

    def tuple_arity(self, ty):
        return len(self.p.types[ty]['es']) if ty is not None and 'es' in self.p.types[ty] else 1
    def tuple_tys(self, ty):
        return self.p.types[ty].get('es') if ty is not None else None

    def resolve_callable(self, st, v):
        n = 0
        while v.k == 'ref' and n < 6:
            v2 = self.load(st, *v.a)
            if v2.k in ('agg', 'fn', 'ref'): v = v2
            else: return v2
            n += 1
        return v
    def fork_thread(self, st, fv):
        """the spawned closure runs on its own path, which starts where it is spawned"""
        v = self.resolve_callable(st, fv)
        s = st.copy()
        n = self.g.new((s.ctx, s.bb)); self.g.edge(st.node, n, ('thread',)); s.node = n
        self.g.entries.append(('thread', n))
        if v.k == 'agg' and v.a[0].startswith('closure:') and v.a[0] != 'closure:None':
            fn = self.p.fns[int(v.a[0][8:])]
            parent = self.ftab[s.ctx]
            if fn.id in parent.chain: return
            fr = self.frame(fn, parent, s.bb, None, None, 'thread')
            fr_ = fr
            s.loc[fr.id] = {1: v}
            s.ctx = fr.id; s.bb = 0
            self.goto(s, 0)
        else:
            self.emit(s, 'call_opaque', (fv,), (self.content(s, fv),), None, 0); self.terminal(s, 'tret')

    def call_value(self, st, fv, args, dest, target, line, tys=None):
        """call a closure / fn item / opaque callable value"""
        v = self.resolve_callable(st, fv)
        if v.k == 'agg' and v.a[0].startswith('closure:') and v.a[0] != 'closure:None':
            fn = self.p.fns[int(v.a[0][8:])]
            selfty = self.p.types[fn.locals[1]]
            if selfty['k'] == 'ref':
                slf = fv
                # innermost reference to the closure value
                while slf.k == 'ref' and self.load(st, *slf.a).k == 'ref': slf = self.load(st, *slf.a)
                if slf.k != 'ref':
                    cell = ('H', t('tmp', st.ctx, st.bb)); st.heap[cell] = v; slf = ref(cell)
            else: slf = v
            return self.enter(st, fn, [slf] + list(args), dest, target, 'call', line)
        if v.k == 'fn':
            c = self.p.callees[v.a[0]]
            return self.call_callee(st, c, list(args), tys or [None] * len(args), dest, target, line)
        if v.k == 'agg' and v.a[0].endswith('#syn'):
            pass
        ft = t('callable', self.content(st, fv))
        snap = [self.content(st, fv)] + [self.content(st, a, ty) for a, ty in zip(args, tys or [None] * len(args))]
        if snap[0] is fv and fv.k not in ('ref',): snap[0] = fv
        r = self.emit(st, 'call_opaque', tuple([fv] + list(args)), snap, None, line)
        if tys: self.havoc(st, args, tys, r)
        self.assign_dest(st, dest, r, line)
        return self.goto(st, target)

    def do_poll(self, st, args, dest, target, line):
        v = args[0]
        # Pin<&mut F> is transparent
        n = 0
        cell = None
        while v.k == 'ref' and n < 8:
            cell = v.a
            v = self.load(st, *cell); n += 1
        if v.k == 'agg' and v.a[0].startswith('coroutine:') and v.a[0] != 'coroutine:None':
            fn = self.p.fns[int(v.a[0][10:])]
            if cell is not None and cell[0][0] in ('L', 'H'): self.store(st, cell[0], cell[1], MOVED)
            o = self.opaque(fn)
            if o:
                r = self.emit(st, 'await:' + o, tuple(v.a[2]), tuple(self.content(st, x) for x in v.a[2]), None, line)
                for x in v.a[2]:
                    if x.k == 'ref' and x in self.mutrefs: self.bump(st, x, r)
                self.assign_dest(st, dest, agg(POLL, 0, (r,)), line)
                return self.goto(st, target)
            fr = self.ftab[st.ctx]
            if fn.id not in fr.chain:
                return self.push(st, fn, [v, t('taskcx')], dest, target, 'poll', line)
        if v.k == 'agg' and v.a[0].startswith('fut:'):
            return self.run_model(st, 'poll:' + v.a[0][4:], list(v.a[2]), [None] * len(v.a[2]), dest, target, line, None)
        if cell is None: c = self.cell_get(st, ('X', deref(v)))
        else: c = v
        r = self.emit(st, 'await', (args[0],), (self.content(st, c),), None, line)
        self.assign_dest(st, dest, agg(POLL, 0, (r,)), line)
        return self.goto(st, target)

    class Call:
        __slots__ = ('name', 'args', 'tys', 'callee', 'line', 'm', 'st')
        def targ(self, i):
            a = self.callee.get('args') if self.callee else None
            return a[i] if a and i < len(a) else None
        def c(self, i):
            return self.m.content(self.st, self.args[i], self.tys[i] if i < len(self.tys) else None)

    def run_model(self, st, name, args, tys, dest, target, line, callee):
        f = self.models[name]
        c = Interp.Call()
        c.name = name; c.args = args; c.tys = tys; c.callee = callee; c.line = line; c.m = self; c.st = st
        pr = self.pre.get(name.lstrip('!'))
        if pr and not self.require(st, pr(self, st, c), line, callee): return
        r = f(self, st, c)
        return self.finish(st, r, args, tys, dest, target, line, callee)
    def require(self, st, conds, line, callee):
        """go on where the conditions hold; where one does not, the call panics"""
        for q, text in conds:
            if q is TRUE: continue
            s = st.copy()
            if assume(s.facts, not_(q)):
                n = self.g.new((s.ctx, s.bb)); self.g.edge(s.node, n, ('cond', (not_(q),))); s.node = n
                self.emit(s, 'panic', (), (S('call'), S(text), q), UNIT, line, callee, kind='panic')
                self.terminal(s, 'panic', S(text))
                if not assume(st.facts, q): return False
                n = self.g.new((st.ctx, st.bb)); self.g.edge(st.node, n, ('cond', (q,))); st.node = n
            elif not assume(st.facts, q): return False
        return True

    def finish(self, st, r, args, tys, dest, target, line, callee):
        if isinstance(r, T):
            if target is None: return
            self.assign_dest(st, dest, r, line)
            return self.goto(st, target)
        if isinstance(r, tuple):
            k = r[0]
            if k == 'frame': return self.enter(st, self.p.fns[r[1]], list(r[2]), dest, target, 'call', line)
            if k == 'call': return self.call_value(st, r[1], list(r[2]), dest, target, line, r[3] if len(r) > 3 else None)
            if k == 'callee': return self.call_callee(st, r[1], list(r[2]), list(r[3]), dest, target, line)
            if k == 'inst':
                fn = self.p.fns[r[1]]
                o = self.opaque(fn)
                if o: return self.opaque_call(st, o, list(r[2]), [fn.locals[j + 1] for j in range(len(r[2]))], dest, target, line, callee)
                return self.enter(st, fn, list(r[2]), dest, target, 'call', line)
            if k == 'poll': return self.do_poll(st, r[1], dest, target, line)
            if k == 'model': return self.run_model(st, r[1], list(r[2]), list(r[3]) if len(r) > 3 else [None] * len(r[2]), dest, target, line, callee)
            if k == 'opaque': return self.opaque_call(st, r[1], args, tys, dest, target, line, callee)
            if k == 'diverge': return
        if isinstance(r, list):
            # outcomes: (conds, value | ('panic', msg) | callable(st)->value)
            base_st = st
            for i, (conds, val) in enumerate(r):
                s = base_st.copy()
                okk = True
                for cnd in conds:
                    if not assume(s.facts, cnd): okk = False; break
                if not okk: continue
                cc = tuple(x for x in conds if x.k != 'int')
                if cc:
                    n = self.g.new((s.ctx, s.bb)); self.g.edge(s.node, n, ('cond', cc)); s.node = n
                if callable(val): val = val(s)
                if isinstance(val, tuple) and val[0] == 'panic':
                    self.emit(s, 'panic', (), (S(val[1]), S(val[2] if len(val) > 2 else ''),) + tuple(val[3:]), UNIT, line, callee, kind='panic')
                    self.terminal(s, 'panic', S(val[1])); continue
                self.finish(s, val, args, tys, dest, target, line, callee)
            return
        raise Abort('bad model result ' + repr(r))
