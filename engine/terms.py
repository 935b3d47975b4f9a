"""Hash-consed provenance terms: the value domain of the dataflow engine.

A value is described by *where it comes from*: constants, parameters, results of call sites, fields/elements/slices of
other values, canonical integer arithmetic, and phi terms at loop heads."""

class T:
    __slots__ = ('k', 'a', 'id', '_evs', '_base')
    def __repr__(self): return show(self)
    def __lt__(self, o): return self.id < o.id

_tab = {}
def t(k, *a):
    key = (k, a)
    x = _tab.get(key)
    if x is None:
        x = T(); x.k = k; x.a = a; x.id = len(_tab); x._evs = None; x._base = None
        _tab[key] = x
    return x

def I(n): return t('int', n)
TRUE, FALSE = I(1), I(0)
UNIT = t('agg', 'tuple', 0, ())
UNDEF = t('undef'); MOVED = t('moved')
def S(s): return t('str', s)
def agg(kind, variant, fields): return t('agg', kind, variant, tuple(fields))
def tup(*xs): return agg('tuple', 0, xs)
def ref(cell, path=()): return t('ref', cell, tuple(path))
OPT = 'core::option::Option'; RES = 'core::result::Result'; POLL = 'core::task::poll::Poll'
def some(x): return agg(OPT, 1, (x,))
NONE = agg(OPT, 0, ())
def ok(x): return agg(RES, 0, (x,))
def err(x): return agg(RES, 1, (x,))
def is_int(x): return x.k == 'int'

# ------------------------------------------------------------------ integers
UNSIGNED = set()
def lin_of(x):
    if x.k == 'int': return x.a[0], ()
    if x.k == 'lin': return x.a[0], x.a[1]
    return 0, ((x, 1),)
def mk_lin(c, atoms):
    atoms = tuple(sorted(((a, k) for a, k in atoms if k != 0), key=lambda p: p[0].id))
    if not atoms: return I(c)
    if c == 0 and len(atoms) == 1 and atoms[0][1] == 1: return atoms[0][0]
    return t('lin', c, atoms)
def add(x, y, s=1):
    c1, a1 = lin_of(x); c2, a2 = lin_of(y)
    d = dict(a1)
    for a, k in a2: d[a] = d.get(a, 0) + s * k
    for a, k in a1 + a2:
        # what is left over by a division: x - n * (x / n)
        if a.k not in ('div', 'mul') or d.get(a, 0) >= 0: continue
        k = d[a]; q, n = (a, I(-k)) if a.k == 'div' else (None, None)
        if a.k == 'mul' and k == -1:
            for u, v in (a.a, a.a[::-1]):
                if u.k == 'div' and u.a[1] is v: q, n = u, v
        if q is None or q.a[1] is not n: continue
        c3, a3 = lin_of(q.a[0])
        if c3 == 0 and len(a3) == 1 and d.get(a3[0][0], 0) == a3[0][1]:
            del d[a]; del d[a3[0][0]]; r = mod(q.a[0], n)
            d[r] = d.get(r, 0) + 1
    return mk_lin(c1 + s * c2, d.items())
def sub(x, y): return add(x, y, -1)
def scale(x, n):
    c, a = lin_of(x)
    return mk_lin(c * n, [(b, k * n) for b, k in a])
def mul(x, y):
    if is_int(x): return scale(y, x.a[0])
    if is_int(y): return scale(x, y.a[0])
    return t('mul', *sorted((x, y), key=lambda q: q.id))
def div(x, y):
    if is_int(x) and is_int(y) and y.a[0] > 0 and x.a[0] >= 0: return I(x.a[0] // y.a[0])
    if is_int(y) and y.a[0] == 1: return x
    if is_int(y) and x.k == 'div' and is_int(x.a[1]) and x.a[1].a[0] > 0 and y.a[0] > 0: return div(x.a[0], I(x.a[1].a[0] * y.a[0]))
    if x.k == 'lin' and is_int(y) and y.a[0] > 0:
        n = y.a[0]; k, at = lin_of(x)
        if all(m % n == 0 for _, m in at) and k % n == 0: return mk_lin(k // n, [(b, m // n) for b, m in at])
        for b, m in at:
            # x less its remainder
            if b.k == 'mod' and m == -1 and b.a[1] is y and mk_lin(k, [(c, j) for c, j in at if c is not b]) is b.a[0]: return div(b.a[0], y)
    return t('div', x, y)
def mod(x, y):
    if is_int(x) and is_int(y) and y.a[0] > 0 and x.a[0] >= 0: return I(x.a[0] % y.a[0])
    if is_int(y) and x.k == 'mod' and is_int(x.a[1]) and y.a[0] > 0 and x.a[1].a[0] <= y.a[0]: return x
    return t('mod', x, y)
def ispow2(n): return n > 0 and n & (n - 1) == 0
def bitand(x, y):
    if is_int(x): x, y = y, x
    if is_int(x) and is_int(y): return I(x.a[0] & y.a[0])
    if is_int(y):
        n = y.a[0]
        if n == 0: return I(0)
        if n > 0 and ispow2(n + 1): return mod(x, I(n + 1))
        return t('and', x, y)
    # x & ((1 << b) - 1)
    for p, q in ((x, y), (y, x)):
        c, a = lin_of(q)
        if c == -1 and len(a) == 1 and a[0][1] == 1 and a[0][0].k == 'pow2': return mod(p, a[0][0])
    return t('and', *sorted((x, y), key=lambda q: q.id))
def bitor(x, y):
    if is_int(x) and is_int(y): return I(x.a[0] | y.a[0])
    if is_int(x) and x.a[0] == 0: return y
    if is_int(y) and y.a[0] == 0: return x
    v = le_parts(x, y)
    if v is not None: return v
    return t('or', *sorted((x, y), key=lambda q: q.id))
def le_parts(x, y):
    """neighbouring bytes put together as a little-endian number: x is the low part"""
    def part(z):
        if z.k == 'le' and z.a[0].k == 'slice': return z.a[0].a[0], z.a[0].a[1], z.a[0].a[2], 1
        k0, at = lin_of(z)
        if k0 or len(at) != 1: return None
        a, m = at[0]
        if a.k == 'idx': return a.a[0], a.a[1], add(a.a[1], I(1)), m
        if a.k == 'le' and a.a[0].k == 'slice': return a.a[0].a[0], a.a[0].a[1], a.a[0].a[2], m
        return None
    p, q = part(x), part(y)
    if p is None or q is None or p[0] is not q[0]: return None
    for u, w in ((p, q), (q, p)):
        if u[2] is w[1] and u[3] == 1:
            n = sub(u[2], u[1])
            if is_int(n) and w[3] == 1 << (8 * n.a[0]) and is_int(sub(w[2], w[1])) and n.a[0] + sub(w[2], w[1]).a[0] <= 8: return t('le', t('slice', u[0], u[1], w[2]))
    return None
def bitxor(x, y):
    if is_int(x) and is_int(y): return I(x.a[0] ^ y.a[0])
    return t('xor', *sorted((x, y), key=lambda q: q.id))
def pow2(y):
    if is_int(y) and 0 <= y.a[0] < 128: return I(1 << y.a[0])
    return t('pow2', y)
def shl(x, y):
    p = pow2(y)
    if is_int(p): return mul(x, p)
    if x is TRUE: return p
    return mul(x, p)
def shr(x, y):
    return div(x, pow2(y))

def gt0(x):
    """x > 0"""
    c, a = lin_of(x)
    if not a: return TRUE if c > 0 else FALSE
    # normalise by gcd of coefficients
    from math import gcd
    g = 0
    for _, k in a: g = gcd(g, abs(k))
    if g > 1:
        # g*S + c > 0  <=>  S > -c/g  <=>  S >= floor(-c/g)+1
        lo = (-c) // g + 1
        return gt0(mk_lin(1 - lo, [(b, k // g) for b, k in a]))
    if len(a) == 1 and a[0][0] in UNSIGNED:
        at, k = a[0]
        if k == 1 and c > 0: return TRUE
        if k == 1 and c == 0: return not_(eq0(at))
        if k == -1 and c == 1: return eq0(at)
        if k == -1 and c <= 0: return FALSE
    if all(k > 0 and b in UNSIGNED for b, k in a) and c > 0: return TRUE
    return t('gt0', mk_lin(c, a))
VARIANT = []
def eq0(x):
    c, a = lin_of(x)
    if not a: return TRUE if c == 0 else FALSE
    if a[0][1] < 0: c, a = -c, tuple((b, -k) for b, k in a)
    if len(a) == 1:
        if c % a[0][1]: return FALSE
        c, a = c // a[0][1], ((a[0][0], 1),)
        if a[0][0].k == 'discr' and VARIANT and c <= 0: return VARIANT[0](a[0][0].a[0], -c)
        if a[0][0].k in BOOLEAN:
            if c == 0: return not_(a[0][0])
            return a[0][0] if c == -1 else FALSE
    return t('eq0', mk_lin(c, a))
BOOLEAN = ('not', 'eq', 'eq0', 'gt0', 'is', 'ovf')
def not_(x):
    if x.k == 'int': return I(1 - x.a[0])
    if x.k == 'not': return x.a[0]
    if x.k == 'gt0': return gt0(sub(I(1), x.a[0]))
    return t('not', x)
def lt(x, y): return gt0(sub(y, x))
def le(x, y): return gt0(add(sub(y, x), I(1)))
def eqi(x, y): return eq0(sub(x, y))
def eqv(x, y):
    """equality of non-integer values"""
    x, y = strip_clone(x), strip_clone(y)
    if x is y: return TRUE
    if x.k == 'str' and y.k == 'str': return I(int(x.a[0] == y.a[0]))
    if x.k == 'agg' and y.k == 'agg' and x.a[0] == y.a[0]:
        if x.a[1] != y.a[1]: return FALSE
        r = [eqv(p, q) if not (is_int(p) or is_int(q)) else eqi(p, q) for p, q in zip(x.a[2], y.a[2])] if len(x.a[2]) == len(y.a[2]) else [FALSE]
        if any(q is FALSE for q in r): return FALSE
        if all(q is TRUE for q in r): return TRUE
        r = [q for q in r if q is not TRUE]
        if len(r) == 1: return r[0]
    if is_int(x) and is_int(y): return eqi(x, y)
    for p, q in ((x, y), (y, x)):
        # a slice of one element against an array of one integer
        if p.k == 'agg' and p.a[0] == 'array' and len(p.a[2]) == 1 and is_int(p.a[2][0]) and q.k == 'slice' and sub(q.a[2], q.a[1]) is I(1): return eqi(idx(q.a[0], q.a[1]), p.a[2][0])
    if x.id > y.id: x, y = y, x
    return t('eq', x, y)

# ------------------------------------------------------------------ structure
def fld(v, i):
    if v.k == 'agg':
        f = v.a[2]
        return f[i] if i < len(f) else UNDEF
    if v.k in ('undef', 'moved', 'ref'): return v
    if v.k == 'upd':
        e = v.a[1]
        if e == ('f', i): return v.a[2]
        if e[0] == 'f': return fld(v.a[0], i)
    return t('fld', v, i)
def vfld(v, var, i):
    if v.k == 'agg':
        f = v.a[2]
        if v.a[1] != var: return UNDEF
        return f[i] if i < len(f) else UNDEF
    if v.k in ('undef', 'moved'): return v
    if v.k == 'upd':
        e = v.a[1]
        if e == ('df', var, i): return v.a[2]
        if e[0] == 'df': return vfld(v.a[0], var, i)
    return t('vfld', v, var, i)
def idx(v, i):
    if v.k in ('undef', 'moved'): return v
    if v.k == 'rep': return v.a[0]
    if v.k == 'agg' and v.a[0] == 'array' and is_int(i) and 0 <= i.a[0] < len(v.a[2]): return v.a[2][i.a[0]]
    if v.k == 'slice': return idx(v.a[0], add(v.a[1], i))
    if v.k == 'clone': return idx(v.a[1], i)
    if v.k == 'upd' and v.a[1][0] == 'i':
        j = v.a[1][1]
        if j is i: return v.a[2]
        d = sub(i, j)
        if is_int(d): return idx(v.a[0], i)
    if v.k == 'ver' and v.a[1].k == 'ev':
        n, sn = v.a[1].a[1], v.a[1].a[2]
        if n in ('Vec::push', 'VecDeque::push_back') and i is length(v.a[0]): return sn[1]
        if n in ('Vec::push', 'VecDeque::push_back') and is_int(i) and is_int(length(v.a[0])): return idx(v.a[0], i)
    if v.k == 'reversed': return idx(v.a[0], sub(sub(length(v.a[0]), I(1)), i))
    return t('idx', v, i)
def length(v):
    if v.k == 'agg' and v.a[0] == 'array': return I(len(v.a[2]))
    if v.k == 'rep':
        return v.a[1]
    if v.k == 'str': return I(len(v.a[0].encode('utf8')) if isinstance(v.a[0], str) else len(v.a[0]))
    if v.k == 'slice': return sub(v.a[2], v.a[1])
    if v.k == 'clone': return length(v.a[1])
    if v.k == 'upd' and v.a[1][0] == 'i': return length(v.a[0])
    if v.k in ('bytes_le', 'bytes_be'): return I(v.a[1])
    if v.k == 'reversed': return length(v.a[0])
    if v.k == 'newc': return I(0)
    if v.k in ('sha256', 'digest'): return I(32)
    if v.k == 'upd' and v.a[1][0] in ('sl', 'i'): return length(v.a[0])
    if v.k == 'ver' and v.a[1].k == 'ev':
        n, sn = v.a[1].a[1], v.a[1].a[2]
        if n in ('Vec::push', 'VecDeque::push_back', 'VecDeque::push_front', 'Vec::insert'): return add(length(v.a[0]), I(1))
        if n in ('Vec::pop', 'VecDeque::pop_back', 'VecDeque::pop_front', 'Vec::remove', 'Vec::swap_remove'): return sub(length(v.a[0]), I(1))
        if n in ('Vec::extend_from_slice', 'Vec::append', 'String::push_str'): return add(length(v.a[0]), length(sn[1]))
        if n.split('::')[-1] == 'clear': return I(0)
        if n == 'Vec::resize': return sn[1]
        if n.startswith('slice::') or n in ('slice_store', 'Read::read', 'Read::read_exact'): return length(v.a[0])
    if v.k == 'vphi' and v.a[0].k == 'rep': return length(v.a[0])
    r = t('len', v)
    UNSIGNED.add(r)
    return r
def slc(v, a, b):
    if v.k == 'slice': return slc(v.a[0], add(v.a[1], a), add(v.a[1], b))
    if v.k == 'clone': return slc(v.a[1], a, b)
    if a is I(0) and b is length(v): return v
    if v.k == 'agg' and v.a[0] == 'array' and is_int(a) and is_int(b) and 0 <= a.a[0] <= b.a[0] <= len(v.a[2]):
        return agg('array', 0, v.a[2][a.a[0]:b.a[0]])
    return t('slice', v, a, b)
def discr(v):
    if v.k == 'agg': return I(v.a[1])
    if v.k == 'upd': return discr(v.a[0])
    return t('discr', v)
def deref(v): return t('deref', v)
def strip_clone(v):
    while v.k == 'clone': v = v.a[1]
    return v

# ------------------------------------------------------------------ identity of mutable containers
def base(v):
    """identity of a container irrespective of its version"""
    b = v._base
    if b is not None: return b
    x = v
    while True:
        if x.k == 'ver': x = x.a[0]
        elif x.k == 'vphi': x = x.a[0]
        elif x.k == 'upd': x = x.a[0]
        else: break
    v._base = x
    return x

def kids(x):
    out = []
    for y in x.a:
        if isinstance(y, T): out.append(y)
        elif isinstance(y, tuple): _tk(y, out)
    return out
def _tk(y, out):
    for z in y:
        if isinstance(z, T): out.append(z)
        elif isinstance(z, tuple): _tk(z, out)
def subterms(x, seen=None):
    seen = set() if seen is None else seen
    st = [x]
    while st:
        y = st.pop()
        if y in seen: continue
        seen.add(y)
        st.extend(kids(y))
    return seen
EMPTY = frozenset()
def evs(x):
    """all call-result / phi / vphi leaves a term depends on"""
    r = x._evs
    if r is not None: return r
    stack = [x]
    while stack:
        y = stack[-1]
        if y._evs is not None: stack.pop(); continue
        ks = kids(y)
        pend = [k for k in ks if k._evs is None]
        if pend: stack.extend(pend); continue
        s = set()
        for k in ks: s |= k._evs
        if y.k in ('ev', 'phi', 'vphi'): s.add(y)
        y._evs = frozenset(s) if s else EMPTY
        stack.pop()
    return x._evs
def contains(x, y):
    return y in subterms(x)
def find(x, pred):
    return [y for y in subterms(x) if pred(y)]

def show(x, d=6):
    if not isinstance(x, T):
        if isinstance(x, tuple): return '(' + ','.join(show(y, d) for y in x) + ')'
        return str(x)
    if d == 0: return '…'
    k, a = x.k, x.a
    if k == 'int': return str(a[0])
    if k == 'str': return repr(a[0])
    if k == 'lin':
        return '(' + '+'.join(([str(a[0])] if a[0] else []) + [(f'{c}*' if c != 1 else '') + show(b, d - 1) for b, c in a[1]]) + ')'
    if k == 'fld': return f'{show(a[0], d)}.{a[1]}'
    if k == 'vfld': return f'{show(a[0], d)}<{a[1]}>.{a[2]}'
    if k == 'idx': return f'{show(a[0], d)}[{show(a[1], d-1)}]'
    if k == 'slice': return f'{show(a[0], d)}[{show(a[1], d-1)}..{show(a[2], d-1)}]'
    if k == 'agg': return f'{a[0].split("::")[-1]}#{a[1]}{{{", ".join(show(y, d-1) for y in a[2][:6])}{"…" if len(a[2])>6 else ""}}}'
    if k == 'ev': return f'{a[1]}@{a[0]}({", ".join(show(y, d-1) for y in a[2])})'
    if k == 'ver': return f'{show(base(x), d-1)}′{a[1].a[1] if a[1].k=="ev" else ""}'
    if k == 'ref': return f'&{show(a[0], d-1)}{"." + show(a[1], d-1) if a[1] else ""}'
    return f'{k}(' + ', '.join(show(y, d - 1) for y in a) + ')'
