"""D01-D06: decoding transactions and blocks, scanning the block files, linking the chain"""
from .common import *
from .store import LOGS, clos, climb
from .http import unref

def W(f): return f'{f.path}:{f.span[1]}'
def inner_slice(r, x):
    """x as (buffer, lo, hi)"""
    x = unref(x)
    if x.k == 'slice': return x.a[0], x.a[1], x.a[2]
    return x, I(0), length(x)
def varint(ff, B, pos):
    """compact size at pos: (bytes taken, value), None when the trace did not tell the forms apart"""
    v = vlen(B, pos)
    if decide(ff, gt0(add(sub(length(B), add(pos, v)), I(1)))) is True: return v, vint(B, pos)
    b = idx(B, pos)
    for m, n in ((253, 2), (254, 4), (255, 8)):
        d = decide(ff, eqi(b, I(m)))
        if d is True: return I(n + 1), t_le(B, add(pos, I(1)), n)
        if d is None and decide(ff, gt0(sub(I(m), b))) is not True: return None
    return I(1), b
def vlen(B, pos): return t('app', 'vlen', (B, pos))
def vint(B, pos): return t('app', 'vint', (B, pos))
def t_le(B, lo, n): return t('le', slc(B, lo, add(lo, I(n))))
def merge(ivs):
    out = []
    for lo, hi in ivs:
        if lo is hi: continue
        if out and out[-1][1] is lo: out[-1] = (out[-1][0], hi)
        else: out.append((lo, hi))
    return out
def count_test(q, items, n):
    """state of the last test of a loop that runs n times ('in', 'out' or None)"""
    st = None; cnt = None; n = N(n)
    for l in loop_tests(q, items):
        if l.step == 1 and l.lo is I(0) and N(l.src) is n: st = l.state; cnt = l.i
        elif l.step == -1 and N(l.lo) is n:
            c = l.raw; neg = c.k == 'not'
            c = c.a[0] if neg else c
            if c in (gt0(l.i),): st = 'out' if neg else 'in'; cnt = l.i
            elif c in (eq0(l.i),): st = 'in' if neg else 'out'; cnt = l.i
    return st
def per_input(q, items, roots):
    """state of the last test of a loop over a list made here (the caller is told which)"""
    st = None
    for l in loop_tests(q, items):
        y = l.src if l.step == 1 and l.lo is I(0) else l.lo if l.step == -1 else None
        if y is None or y.k != 'len' or root_of(y.a[0]).k != 'newc': continue
        y_ = N(y); s = count_test(q, items, y_)
        if s is not None: st = s; roots.add(root_of(y.a[0]))
    return st
class Seg:
    pass
def segments(r, q, tr, root, iB, iO, hasher_ev):
    """the trace cut at its loop heads, with cursor positions and hashed ranges"""
    out = []; s = Seg(); s.items = []; s.head = None; s.cur0 = s.cur = fld(root, iO); s.hash = []; s.hashers = []
    m = {}
    def nb(x):
        # the reader's buffer never changes
        def go(y):
            v = m.get(y)
            if v is None:
                if y.k == 'fld' and y.a[1] == iB and root_of(y.a[0]) is root: v = fld(root, iB)
                else: v = rebuild(y, go) if y.a else y
                m[y] = v
            return v
        return go(x)
    for x in tr:
        if isinstance(x, Loop):
            out.append(s)
            n = Seg(); n.items = []; n.head = x.n; n.hash = []; n.hashers = []
            h = q.g.head[x.n].heap.get(('X', root))
            n.cur0 = n.cur = nb(fld(h, iO)) if h is not None else s.cur
            s = n; continue
        s.items.append(x)
        if isinstance(x, Ev) and x.name == 'store' and root_of(strip1(x.snap[0])) is root:
            pl = x.snap[0]
            if pl.k == 'fld' and pl.a[1] == iO and pl.a[0] is root: s.cur = nb(x.snap[1])
            elif pl is root and x.snap[1].k == 'agg': s.cur = nb(x.snap[1].a[2][iO]); s.bad = x
            else: s.bad = x
        elif isinstance(x, Ev) and x.name == 'Digest::update' and not second_hash(x):
            s.hashers.append(root_of(x.snap[0]))
            d = nb(x.snap[1]); B, lo, hi = inner_slice(r, d)
            s.hash.append((B, lo, hi))
    out.append(s); return out, nb
def second_hash(e):
    """the digest of one hash is given to a fresh one"""
    return e.snap[0].k == 'newc' and unref(e.snap[1]).k in ('digest', 'sha256')
def root_of(x):
    while x.k in ('ver', 'vphi', 'upd', 'ref', 'clone'): x = x.a[1] if x.k == 'clone' else x.a[0]
    return x
def strip1(x):
    while x.k in ('fld', 'vfld', 'idx', 'slice'): x = x.a[0]
    return x
def sources(q, x):
    """the values a loop-carried container may have been made from"""
    seen = set(); todo = [x]; out = set()
    while todo:
        y = todo.pop()
        if y in seen: continue
        seen.add(y)
        if y.k == 'vphi' and y in q.g.phi: todo.extend(q.g.phi[y])
        elif y.k == 'ver': out.add(y); todo.append(y.a[0])
        else: out.add(y)
    return out
def only_pushes(q, x, evs_ok, base=None):
    """a list that starts empty and changes by the given push events only"""
    for y in sources(q, x):
        if y.k == 'newc': continue
        if y.k == 'ver' and y.a[1].k == 'ev' and y.a[1].a[1] in ('Vec::push', 'Vec::reserve', 'Vec::with_capacity'):
            if y.a[1].a[1] == 'Vec::push' and y.a[1] not in evs_ok: return False
            continue
        return False
    return True
def reader_fields(r):
    fs = r.fields('HashingBufferReader')
    iB = [i for i, (n, ty) in enumerate(fs) if r.p.tys(ty) == '&[u8]']; iO = [i for i, (n, ty) in enumerate(fs) if r.p.tys(ty) == 'usize']
    if len(iB) != 1 or len(iO) != 1: raise Undecided('the fields of the reader')
    return iB[0], iO[0]
def data_panic(tr, extra=()):
    """a panic because the data ended (or a length did not fit)"""
    e = [x for x in tr if isinstance(x, Ev) and x.name == 'panic']
    if not e: return False
    s = e[-1].snap; k = s[0].a[0] if s and s[0].k == 'str' else ''
    cs = [y for c in s[2:] if isinstance(c, T) for y in subterms(c)]
    cs += [y for x in tr[-2:] if isinstance(x, Cond) for y in subterms(x.t)] + [y for x in tr[-3:] if isinstance(x, Cond) for y in subterms(x.t)]
    return k in ('bounds', 'split_at', 'copy_from_slice length', 'assert') and any(y.k in ('len', 'ovf') or y.k == 'app' and y.a[0] == 'vlen' or k == 'bounds' and y.k == 'fld' for y in cs)
def ret_of(tr):
    x = [x for x in tr if isinstance(x, Ev) and x.name == 'return']
    return x[-1].snap[0] if x else end(tr).val

# ---------------------------------------------------------------------- D03
def method_kind(r, f):
    """what a method of the reader is for: (kind, width)"""
    p = r.p; ret = p.tys(f.locals[0]); n = f.name; ps = [p.tys(f.locals[i + 1]) for i in range(f.argc)]
    num = re.fullmatch(r'([iu])(8|16|32|64|128)', ret)
    usz = [i for i, x in enumerate(ps) if x == 'usize']
    if f.argc == 1 and ps[0] == '&[u8]' and ret.split('<')[0].split('::')[-1] == 'HashingBufferReader': return 'new', None
    if not ps or 'HashingBufferReader' not in ps[0]: return None, None
    if n.startswith('peek') and num: return 'peek', int(num.group(2)) // 8
    if n in ('offset', 'position') and ret == 'usize' and f.argc == 1: return 'offset', None
    if '_be' in n: return None, None
    if n.startswith('read'):
        if 'var' in n and ret in ('u64', 'usize'): return 'varint', None
        if 'var' in n and ret in ('&[u8]', 'alloc::vec::Vec<u8>'): return 'varbuf', None
        if num: return 'int', int(num.group(2)) // 8
        if ret == 'bool': return 'bool', 1
        a = re.fullmatch(r'\[u8; (\d+)\]', ret)
        if a: return 'array', int(a.group(1))
        if ret in ('&[u8]', 'alloc::vec::Vec<u8>') and len(usz) == 1: return 'buffer', usz[0]
    if n == 'skip' and len(usz) == 1: return 'skip', usz[0]
    return None, None
def check_method(r, f, kind, k):
    """[(holds, rule, detail)]"""
    iB, iO = reader_fields(r); out = []; q = r.run(f, opq(LOGS), key='m', part=40); root = t('param', 0)
    ok = lambda c, rule, d: out.append((bool(c), rule, d))
    hp = [i for i in range(f.argc) if 'Hasher' in r.p.tys(f.locals[i + 1]).replace('HashingBufferReader', '')]
    n = 0
    for u in q.it.unknown: ok(False, 'D03 nothing unknown is used in reading', u)
    for tr in r.traces(q):
        e = end(tr)
        if is_panic(tr):
            ok(data_panic(tr), 'D03 reading stops only where the data ends', tr); continue
        if kind == 'new':
            ok(e.kind == 'ret' and ret_of(tr).k == 'agg' and ret_of(tr).a[2][iO] is I(0) and unref(ret_of(tr).a[2][iB]) in (t('param', 0), deref(t('param', 0)), ref(('X', t('param', 0)))), 'D03 a reader starts at the beginning of its data', ret_of(tr)); n += 1; continue
        sg, nb = segments(r, q, tr, root, iB, iO, None); ff = {}
        for x in tr:
            if isinstance(x, Cond): assume(ff, nb(x.t))
        if not (len(sg) == 1 and e.kind == 'ret'): ok(False, 'D03 reading is a single step', tr); continue
        s = sg[0]; B = deref(fld(root, iB)); C = s.cur0; v = nb(ret_of(tr)); n += 1
        ok(not getattr(s, 'bad', None), 'D03 the reader is only moved forward', getattr(s, 'bad', None))
        # what is read
        L = None; val = None
        if kind == 'int' and v.k == 'sgn': v = v.a[0] if r.p.tys(f.locals[0]).startswith('i') and v.a[1] == 8 * k else v
        if kind == 'int': L = I(k); val = v is idx(B, C) if k == 1 else N(v) is N(t_le(B, C, k))
        elif kind == 'bool':
            L = I(1); z = decide(ff, eq0(idx(B, C)))
            d = None if v is None else v
            val = (z is not None and v.k == 'int' and bool(v.a[0]) != z) or v is not_(eq0(idx(B, C)))
        elif kind == 'array': L = I(k); val = bytes_are(r, v, B, C, k)
        elif kind == 'buffer': L = t('param', k); val = bytes_are(r, v, B, C, L)
        elif kind == 'skip': L = t('param', k); val = True
        elif kind == 'peek': L = I(0); val = v is idx(B, C) if k == 1 else N(v) is N(t_le(B, C, k))
        elif kind == 'offset': L = I(0); val = v is C
        elif kind == 'varint':
            vi = varint(ff, B, C)
            if vi is not None: L, val = vi[0], N(v) is N(vi[1])
        elif kind == 'varbuf':
            vi = varint(ff, B, C)
            if vi is not None: L = add(vi[0], vi[1]); val = bytes_are(r, v, B, add(C, vi[0]), vi[1])
        if L is None: ok(False, 'D03 the form of a compact size is told by its first byte', tr); continue
        ok(val, f'D03 {f.name} returns the bytes at the cursor', v)
        ok(s.cur is add(C, L), f'D03 {f.name} moves the cursor by what it reads', (s.cur, L))
        if hp:
            h = decide(ff, is_variant(t('param', hp[0]), 1))
            got = merge([(lo, hi) for b, lo, hi in s.hash])
            ok(all(b is B for b, _, _ in s.hash), f'D03 {f.name} hashes bytes of the data only', s.hash)
            exp = [(C, add(C, L))] if h is True else []
            ok(h is not None and got == merge(exp), f'D03 {f.name} hashes what it reads, when asked to', (h, got))
        else: ok(not s.hash, f'D03 {f.name} hashes nothing', s.hash)
    ok(n, f'D03 {f.name} was analysed', None)
    return out
def methods(r):
    return [f for f in r.p.fns.values() if f.local and not f.synth and f.kind == 'fn' and f.blocks and f.impl_self is not None and strip_generics(r.p.tys(f.impl_self) if isinstance(f.impl_self, int) else str(f.impl_self)).split('<')[0].split('::')[-1] == 'HashingBufferReader' and method_kind(r, f)[0]]
def D03(r):
    r.rule('for every primitive of the reader, on every path: value, cursor and hashed range as specified for its kind')
    kinds = set()
    for f in methods(r):
        kind, k = method_kind(r, f); kinds.add(kind)
        for c, rule, d in check_method(r, f, kind, k): r.ok(c, rule, W(f), d)
    r.ok({'new', 'int', 'varint', 'buffer'} <= kinds, 'D03 the primitives were found', None, sorted(kinds))
    hasher_type(r)
def hasher_type(r):
    """the crate's own hasher is the double SHA-256 of what it was given"""
    for f in [f for f in r.p.fns.values() if f.local and not f.synth and f.kind == 'fn' and f.blocks and f.argc >= 1 and r.p.tys(f.locals[0]) == '[u8; 32]' and 'Hasher' in r.p.tys(f.locals[1])]:
        for tr in r.traces(r.run(f, opq(LOGS), key='m')):
            if is_panic(tr): r.ok(False, 'D03 finishing a hash cannot fail', W(f), tr); continue
            v = end(tr).val
            r.ok(v.k == 'sha256' and v.a[0].k == 'digest' and root_of(strip1(v.a[0].a[0])) is t('param', 0), 'D03 the hash is the SHA-256 of the SHA-256', W(f), v)
TX = [(r'(^|::)Transaction::from_reader$', 'tx')]
def dopq(r): return dopq2(r, [])
def dopq2(r, tab):
    """compact sizes are summarised once they are shown to be read correctly"""
    k = ('dopq', tuple(tab))
    if k in r._cache: return r._cache[k]
    iB, iO = reader_fields(r); good = set()
    for f in methods(r):
        if method_kind(r, f)[0] == 'varint' and f.argc == 2:
            try:
                if all(c for c, _, _ in check_method(r, f, 'varint', None)): good.add(f.id)
            except Undecided: pass
    base_op = opq(LOGS + tab)
    def summary(m, st, c):
        cell, path = m.ptr(st, c.args[0]); rd = m.load(st, cell, path)
        hcell = m.ptr(st, c.args[1]); hv = m.load(st, *hcell)
        if hv.k != 'agg': return None
        href = None
        if hv.a[1] == 1:
            href = hv.a[2][0]; hc, hpath = m.ptr(st, href)
            hh = m.load(st, hc, hpath)
            if not (hh.k == 'agg' and len(hh.a[2]) == 1 and root_of(hh.a[2][0]).k == 'newc' and root_of(hh.a[2][0]).a[0] == 'sha256'): return None
        B = m.content(st, fld(rd, iB)); cur = fld(rd, iO)
        if fld(rd, iB).k == 'ref' : B = m.content(st, m.load(st, *fld(rd, iB).a))
        elif B.k == 'fld': B = deref(B)
        n, v = vlen(B, cur), vint(B, cur)
        TM.UNSIGNED.update((n, v)); hi = add(cur, n); q = gt0(add(sub(length(B), hi), I(1)))
        def go(s):
            if cell[0] in ('X', 'H'): m.emit(s, 'store', (ref(cell, path), hi), (fld(m.place_term(s, cell, path), iO), hi), UNIT, c.line, kind='store')
            m.store(s, cell, path + (('f', iO),), hi)
            if href is not None:
                hc, hpath = m.ptr(s, href); hp = hpath + (('f', 0),)
                old = m.load(s, hc, hp)
                e = m.emit(s, 'Digest::update', tuple(c.args), (m.content(s, old), slc(B, cur, hi)), None, c.line, c.callee)
                m.store(s, hc, hp, t('ver', old, e))
            return v
        return [((q,), go), ((not_(q),), ('panic', 'bounds', 'compact size', q))]
    def f(fn):
        if fn.id in good: return summary
        return base_op(fn)
    r._cache[k] = f
    return f
def topq(r):
    """decoding one transaction is summarised: the transaction at the cursor, the cursor behind it (D01, D02 decide the decoder itself)"""
    k = ('topq',)
    if k in r._cache: return r._cache[k]
    d = dopq2(r, []); iB, iO = reader_fields(r); fr = from_reader(r)
    def summary(m, st, c):
        cell, path = m.ptr(st, c.args[0]); rd = m.load(st, cell, path)
        B = m.content(st, fld(rd, iB)); cur = fld(rd, iO)
        if fld(rd, iB).k == 'ref': B = m.content(st, m.load(st, *fld(rd, iB).a))
        elif B.k == 'fld': B = deref(B)
        n, v = t('app', 'txlen', (B, cur)), t('app', 'tx', (B, cur)); TM.UNSIGNED.add(n); hi = add(cur, n)
        def go(s):
            if cell[0] in ('X', 'H'): m.emit(s, 'store', (ref(cell, path), hi), (fld(m.place_term(s, cell, path), iO), hi), UNIT, c.line, kind='store')
            m.emit(s, 'tx', (), (B, cur), None, c.line)
            m.store(s, cell, path + (('f', iO),), hi)
            return v
        return [((), go)]
    def f(fn):
        return summary if fn.id == fr.id else d(fn)
    r._cache[k] = f
    return f

# ---------------------------------------------------------------------- D01, D02
def from_reader(r): return r.one('from_reader', 'Transaction')
def walk_tx(r):
    """every trace of the decoder parsed against the grammar; yields (obligation, ok, where, detail) tagged with the property"""
    key = ('walk_tx',)
    if key in r._cache: return r._cache[key]
    out = []
    f = from_reader(r); w = W(f); iB, iO = reader_fields(r); root = t('param', 0)
    q = r.run(f, dopq(r), key='D', part=40, inst=200)
    fl = {n: i for i, (n, ty) in enumerate(r.fields('Transaction'))}
    fo = {n: i for i, (n, ty) in enumerate(r.fields('Output'))}; ft = {n: i for i, (n, ty) in enumerate(r.fields('TransactionOutput'))}
    seen = {'in': 0, 'out': 0, 'wit': 0, 'item': 0, 'ret': 0}
    wroots = set()
    def ok(p, c, rule, d): 
        k = (p, rule, bool(c))
        out.append((p, bool(c), rule, w, None if c else d))
    pushes = {'inputs': set(), 'outputs': set()}; rets = []; hashers = set()
    for u in q.it.unknown: ok('D02', False, 'D02 nothing unknown is used in decoding', u)
    for tr in r.traces(q):
        e = end(tr)
        if is_panic(tr):
            ok('D02', data_panic(tr), 'D02 decoding stops only where the data ends', tr); continue
        sg, nb = segments(r, q, tr, root, iB, iO, 'Digest::update'); ff = {}
        for x in tr:
            if isinstance(x, Cond): assume(ff, nb(x.t))
        B = deref(fld(root, iB))
        def hashed(s, exp, what):
            got = [(lo, hi) for b, lo, hi in s.hash]
            g = all(b is B for b, _, _ in s.hash) and merge(got) == merge(exp)
            ok('D01', g, f'D01 {what}', (what, got, exp))
            hashers.update(s.hashers)
        for s in sg: ok('D02', not getattr(s, 'bad', None), 'D02 the reader is only moved forward', getattr(s, 'bad', None))
        s = sg[0]; C = s.cur0
        p = add(C, I(4)); first = decide(ff, eq0(idx(B, p)))
        if first is None: ok('D02', False, 'D02 the marker byte is examined', tr); continue
        flag = idx(B, add(p, I(1))) if first else I(0)
        if first: p2 = add(p, I(2))
        else: p2 = p
        vi = varint(ff, B, p2)
        if vi is None: ok('D02', False, 'D02 the number of inputs is read', tr); continue
        n_in = vi[1]; pe = add(p2, vi[0])
        # zero inputs on this trace: loops appear all the same
        ok('D02', s.cur is pe, 'D02 version, marker, flag and number of inputs are read', (s.cur, pe))
        hashed(s, [(C, p), (p2, pe)], 'version and number of inputs are hashed, marker and flag are not')
        if len(sg) < 2: ok('D02', False, 'D02 the inputs are read', tr); continue
        s = sg[1]; st = count_test(q, s.items, n_in); K = s.cur0
        vecpush = [x for x in tr if isinstance(x, Ev) and x.name == 'Vec::push']
        if st == 'in':
            seen['in'] += 1
            vi = varint(ff, B, add(K, I(36)))
            g = len(sg) == 2 and e.kind == 'back' and e.val == s.head and vi is not None
            ok('D02', g, 'D02 reading an input leads to the next one', tr)
            if not g: continue
            pe = add(add(K, add(vi[0], I(40))), vi[1])
            ok('D02', s.cur is pe, 'D02 an input is its previous hash, index, script and sequence', (s.cur, pe))
            hashed(s, [(K, pe)], 'every byte of an input is hashed')
            ps = [x for x in s.items if isinstance(x, Ev) and x.name == 'Vec::push' and is_to(x.snap[1], 'TransactionOutput')]
            if not (len(ps) == 1 and len(vecpush) == 1): ok('D02', False, 'D02 an input is recorded once', tr); continue
            v = nb(ps[0].snap[1])
            ok('D02', bytes_are(r, v.a[2][ft['hash']], B, K, 32), 'D02 the previous hash of an input is recorded', v)
            ok('D02', N(v.a[2][ft['index']]) is N(t_le(B, add(K, I(32)), 4)), 'D02 the index of an input is recorded', v)
            pushes['inputs'].add(ps[0].ret); pushes['inputs'].add(ps[0].e and evterm(ps[0])); continue
        if st != 'out': ok('D02', False, 'D02 as many inputs as announced are read', tr); continue
        vi = varint(ff, B, K)
        if vi is None: ok('D02', False, 'D02 the number of outputs is read', tr); continue
        n_out = vi[1]; pe = add(K, vi[0])
        ok('D02', s.cur is pe, 'D02 the number of outputs follows the inputs', (s.cur, pe))
        hashed(s, [(K, pe)], 'the number of outputs is hashed')
        if len(sg) < 3: ok('D02', False, 'D02 the outputs are read', tr); continue
        s = sg[2]; st = count_test(q, s.items, n_out); K = s.cur0
        if st == 'in':
            seen['out'] += 1
            vi = varint(ff, B, add(K, I(8)))
            g = len(sg) == 3 and e.kind == 'back' and e.val == s.head and vi is not None
            ok('D02', g, 'D02 reading an output leads to the next one', tr)
            if not g: continue
            ps0 = add(K, add(vi[0], I(8))); pe = add(ps0, vi[1])
            ok('D02', s.cur is pe, 'D02 an output is its value and script', (s.cur, pe))
            hashed(s, [(K, pe)], 'every byte of an output is hashed')
            ps = [x for x in s.items if isinstance(x, Ev) and x.name == 'Vec::push' and is_to(x.snap[1], 'Output')]
            if not (len(ps) == 1 and len(vecpush) == 1): ok('D02', False, 'D02 an output is recorded once', tr); continue
            v = nb(ps[0].snap[1])
            ok('D02', N(v.a[2][fo['value']]) is N(t_le(B, K, 8)), 'D02 the value of an output is recorded', v)
            ok('D02', bytes_are(r, v.a[2][fo['script']], B, ps0, vi[1]), 'D02 the script of an output is recorded', v)
            pushes['outputs'].add(evterm(ps[0])); continue
        if st != 'out': ok('D02', False, 'D02 as many outputs as announced are read', tr); continue
        seg = is_segwit(ff, flag)
        if seg is None: ok('D02', False, 'D02 the low bit of the flag is examined', tr); continue
        nxt = 3
        if seg:
            hashed(s, [], 'witnesses are not hashed'); ok('D02', s.cur is K, 'D02 witnesses follow the outputs', s.cur)
            if len(sg) < 4: ok('D02', False, 'D02 the witnesses are read', tr); continue
            s = sg[3]; st = count_test(q, s.items, n_in) or per_input(q, s.items, wroots); K = s.cur0
            if st == 'in':
                seen['wit'] += 1
                vi = varint(ff, B, K)
                g = vi is not None and len(sg) == 5 and e.kind == 'back' and s.cur is add(K, vi[0])
                ok('D02', g, 'D02 a witness stack is its number of items and the items', tr)
                hashed(s, [], 'witnesses are not hashed')
                if not g: continue
                nw = vi[1]; s2 = sg[4]; st = count_test(q, s2.items, nw); K2 = s2.cur0
                hashed(s2, [], 'witnesses are not hashed')
                if st == 'in':
                    seen['item'] += 1
                    vi = varint(ff, B, K2)
                    ok('D02', vi is not None and s2.cur is add(add(K2, vi[0]), vi[1]) and e.val == s2.head, 'D02 a witness item is a length and as many bytes', tr)
                else: ok('D02', st == 'out' and s2.cur is K2 and e.val == s.head, 'D02 as many witness items as announced are read', tr)
                ok('D02', not vecpush, 'D02 witnesses are neither inputs nor outputs', tr)
                continue
            if st != 'out': ok('D02', False, 'D02 one witness stack per input is read', tr); continue
            nxt = 4
        pe = add(K, I(4))
        ok('D02', len(sg) == nxt and e.kind == 'ret', 'D02 nothing is read between the witnesses and the lock time', tr)
        ok('D02', s.cur is pe, 'D02 the lock time is the last thing read', (s.cur, pe))
        hashed(s, [(K, pe)], 'the lock time is hashed')
        if e.kind != 'ret': continue
        seen['ret'] += 1; rets.append((ret_of(tr), tr))
        ok('D02', not vecpush, 'D02 nothing else is recorded', tr)
    for v, tr in rets:
        if not is_to(v, 'Transaction'): ok('D02', False, 'D02 a transaction is returned', v); continue
        h = v.a[2][fl['hash']]
        d = h.a[0] if h.k == 'sha256' else None
        d = d.a[0] if d is not None and d.k == 'digest' else None
        ok('D01', d is not None and len(hashers) == 1 and root_of(d) in hashers, 'D01 the id is the double SHA-256 of what was hashed', h)
        if d is not None:
            g = all(y.k == 'newc' or y.k == 'ver' and y.a[1].k == 'ev' and y.a[1].a[1] == 'Digest::update' and unref(y.a[1].a[2][1]).k not in ('digest', 'sha256') for y in sources(q, d))
            ok('D01', g, 'D01 the hash starts empty and only grows', d)
            last = [x for x in tr if isinstance(x, Ev) and x.name == 'Digest::update' and not second_hash(x)][-1]
            fin = [x for x in tr if isinstance(x, Ev) and x.name == 'Digest::finalize']
            ok('D01', fin and tr.index(fin[0]) > tr.index(last) and d.k == 'ver' and d.a[1].k == 'ev' and d.a[1].a[0] == evterm(last).a[0], 'D01 the id covers the lock time', d)
        for n in ('inputs', 'outputs'):
            ok('D02', only_pushes(q, v.a[2][fl[n]], {x for x in pushes[n] if x is not None}), f'D02 the {n} are those read, in order', v.a[2][fl[n]])
        a, b = root_of(v.a[2][fl['inputs']]), root_of(v.a[2][fl['outputs']])
        ok('D02', wroots <= {a}, 'D02 one witness stack per input is read', wroots)
        ok('D02', a is not b, 'D02 inputs and outputs are separate', v)
    for k, n in seen.items(): ok('D02', n, f'D02 the decoder was analysed: {k}', seen)
    res = out
    r._cache[key] = res
    return res
def evterm(x):
    return x.ret if x.ret is not None and x.ret.k == 'ev' else None
def is_to(v, name): return v.k == 'agg' and strip_generics(v.a[0]).split('::')[-1] == name
def bytes_are(r, x, B, lo, n):
    """x is bytes lo..lo+n of B (copied or as an array)"""
    n = I(n) if isinstance(n, int) else n
    x = unref(x)
    e = slc(B, lo, add(lo, n))
    return N(x) is N(e) or x.k == 'app' and x.a[0] in ('array', 'to_vec') and N(x.a[1][0]) is N(e)
def const_bytes(x):
    """a constant array of bytes"""
    x = unref(x)
    if x.k == 'rep' and is_int(x.a[0]) and is_int(x.a[1]): return [x.a[0].a[0]] * x.a[1].a[0]
    if x.k == 'bstr': return list(x.a[0])
    return [y.a[0] for y in x.a[2]] if x.k == 'agg' and x.a[0] == 'array' and all(is_int(y) for y in x.a[2]) else None
def is_segwit(ff, flag):
    if is_int(flag): return bool(flag.a[0] & 1)
    for y in (t('mod', flag, I(2)), bitand(flag, I(1))):
        d = decide(ff, eq0(y))
        if d is not None: return not d
    return None
def D01(r):
    r.rule('along every path of the transaction decoder, the ranges of the data given to the hash between two loop heads are exactly the bytes the cursor passed, except marker, flag and witnesses, and the id is the double SHA-256 of them')
    emit(r, 'D01')
def D02(r):
    r.rule('every path of the transaction decoder is parsed against the grammar: cursor after each element, loop bounds, recorded values')
    emit(r, 'D02')
def emit(r, p):
    res = walk_tx(r); n = 0
    for q, c, rule, w, d in res:
        if q == p: r.ok(c, rule, w, d); n += 1
    r.need(n, p)

# ---------------------------------------------------------------------- D04
def absolute(x, pos):
    """(buffer, position) of position pos in x, which may be a slice to the end of a buffer"""
    x = unref(x)
    if x.k == 'slice' and N(x.a[2]) is N(length(x.a[0])): return absolute(x.a[0], add(pos, x.a[1]))
    return x, pos
def delivers(tr, v, vecs=False):
    """events of the trace that hand on a decoded transaction"""
    return [x for x in tr if isinstance(x, Ev) and x.name in ('call_opaque', 'Vec::push') and any(any(y is v for y in subterms(z)) for z in x.snap[1:])]
def given(x):
    """what a callback was given"""
    x = unref(x)
    return unref(x.a[2][0]) if x.k == 'agg' and x.a[0] == 'tuple' and len(x.a[2]) == 1 else x
def decodes(r, f, q, key, pushed=False):
    """every transaction behind the header is decoded and delivered once, in order; returns (buffers, push events, returned values)"""
    w = f'{r.inst(f)}:{f.span[1]}'; bufs = set(); evs = set(); rets = []; seen = set()
    for u in q.it.unknown: r.ok(False, 'D04 nothing unknown is used in decoding', w, u)
    for tr in r.traces(q):
        e = end(tr); txs = [x for x in tr if isinstance(x, Ev) and x.name == 'tx']
        if is_panic(tr):
            io = any(isinstance(x, Ev) and x.name.split('::')[0] in ('File', 'Seek', 'Read', 'fs') and isv(facts_of(tr), x.ret, 0) is False for x in tr)
            r.ok(io or data_panic(tr), 'D04 decoding stops only where the data ends', w, tr); continue
        st = None; cnts = set()
        for l in loop_tests(q, tr):
            for y in list(subterms(l.src)) + list(subterms(l.lo)):
                if y.k == 'app' and y.a[0] == 'vint':
                    B, p = absolute(*y.a[1])
                    if p is I(80) and count_test(q, tr, y) is not None: cnts.add(l.i); st = (count_test(q, tr, y), B, vlen(*y.a[1]))
        for x in tr:
            if st is None and isinstance(x, Cond) and e.kind == 'ret':
                pass
        if not r.ok(st is not None, 'D04 as many transactions are decoded as the block announces', w, tr): continue
        r.ok(len(cnts) == 1, 'D04 the transactions of a block are decoded once', w, tr)
        st, B, n = st; bufs.add(B)
        if st == 'out':
            seen.add('out')
            r.ok(e.kind == 'ret' and not txs, 'D04 nothing but the announced transactions is decoded', w, tr)
            r.ok(not [x for x in tr if isinstance(x, Ev) and x.name == 'call_opaque'], 'D04 nothing but the decoded transactions is delivered', w, tr)
            rets.append((ret_of(tr), tr)); continue
        seen.add('in')
        if not r.ok(len(txs) == 1 and e.kind == 'back', 'D04 one transaction is decoded at a time', w, tr): continue
        b, c = txs[0].snap; v = t('app', 'tx', (b, c)); bb, cc = absolute(b, c)
        k0, at = lin_of(c); ph = [a for a, m in at if a.k == 'phi' and m == 1]
        good = bb is B and len(ph) == 1 and ph[0] in q.g.phi
        if good:
            def A(x): return absolute(b, subst(c, {ph[0]: x}))[1]
            want = {N(add(I(80), n)), N(add(cc, t('app', 'txlen', (b, c))))}
            good = {N(A(x)) for x in q.g.phi[ph[0]]} == want
        r.ok(good, 'D04 transactions follow the header and one another without a gap', w, (B, b, c, q.g.phi.get(ph[0]) if ph else None))
        ds = delivers(tr, v); good = len(ds) == 1 and len([x for x in tr if isinstance(x, Ev) and x.name == 'call_opaque']) == (1 if not pushed else 0)
        if good:
            d = ds[0]
            good = given(d.snap[1]) is v and d.name == ('Vec::push' if pushed else 'call_opaque') and (pushed or root_of(strip1(unref(d.snap[0]))) is t('param', 1))
            if pushed: evs.add(evterm(d))
        r.ok(good, 'D04 every decoded transaction is delivered once', w, tr)
    r.ok(seen == {'in', 'out'}, 'D04 the cases of decoding a block are present', w, seen)
    return bufs, evs, rets
def D04(r):
    r.rule('on every path: header = double SHA-256 of bytes 0..80 and bytes 4..36; the decoding loop runs as often as the compact size at 80 says, its cursor starts behind it and is where the previous transaction ended, and each result goes to the consumer exactly once')
    fh = {n: i for i, (n, ty) in enumerate(r.fields('BlockHeader'))}
    def header_ok(v, B):
        """v is the header in the first 80 bytes of B"""
        if not is_to(v, 'BlockHeader'): return False
        h = v.a[2][fh['hash']]
        if not (h.k == 'sha256' and h.a[0].k == 'digest' and h.a[0].a[0].k == 'ver'): return False
        d = h.a[0].a[0]
        parts = []                              # the pieces hashed, last first
        while d.k == 'ver' and d.a[1].k == 'ev' and d.a[1].a[1] == 'Digest::update': parts.append(d.a[1].a[2][1]); d = d.a[0]
        if d.k != 'newc' or not parts: return False
        if len(parts) == 1: whole = bytes_are(r, parts[0], B, I(0), 80)
        else:
            pcs = [inner_slice(r, x) for x in reversed(parts)]
            b0, l0, _ = inner_slice(r, B); whole = all(N(b) is N(b0) for b, _, _ in pcs) and merge([(lo, hi) for _, lo, hi in pcs]) == [(l0, add(l0, I(80)))]
        return whole and bytes_are(r, v.a[2][fh['previous_block_hash']], B, I(4), 32)
    r._header_ok = header_ok
    o = topq(r); p0, p1 = t('param', 0), t('param', 1)
    for f in r.the('from_buffer', 'BlockHeader'):
        n = 0
        for tr in r.traces(r.run(f, o, key='T')):
            if is_panic(tr): r.ok(data_panic(tr), 'D04 decoding a header stops only where the data ends', W(f), tr); continue
            n += 1; r.ok(header_ok(ret_of(tr), p0), 'D04 a block is identified by the double SHA-256 of its first 80 bytes and refers to bytes 4 to 35', W(f), ret_of(tr))
        r.ok(n, 'D04 the header decoder was analysed', W(f))
    for f in r.the('from_slice', 'Transaction'):
        for tr in r.traces(r.run(f, o, key='T')):
            v = ret_of(tr) if not is_panic(tr) else None
            r.ok(v is not None and v.k == 'app' and v.a[0] == 'tx' and absolute(*v.a[1]) == (p0, I(0)), 'D04 a transaction on its own is decoded from the beginning of its data', W(f), v)
    fb = {n: i for i, (n, ty) in enumerate(r.fields('Block'))}; iT = [i for n, i in fb.items() if 'Vec<' in r.p.tys(r.fields('Block')[i][1])][0]
    for f in r.the('new', 'Block'):
        q = r.run(f, o, key='T'); bufs, evs, rets = decodes(r, f, q, 'T', pushed=True)
        r.ok(bufs == {p0}, 'D04 a block is decoded from its own data', W(f), bufs)
        for v, tr in rets:
            if not r.ok(is_to(v, 'Block'), 'D04 a block is returned', W(f), v): continue
            r.ok(header_ok(v.a[2][fb['header']], p0), 'D04 the header of a block is that in its data', W(f), v)
            r.ok(v.a[2][fb['height']] is p1, 'D04 a block keeps its height', W(f), v)
            r.ok(only_pushes(q, v.a[2][iT], evs) and v.a[2][iT].k == 'vphi', 'D04 a block holds the decoded transactions in order', W(f), v)
    n = 0
    for f in r.fns(name='transactions', trait='BlockTrait'):
        n += 1; who = r.impl_self(f).split('::')[-1]; w = f'{r.inst(f)}:{f.span[1]}'
        if who == 'Block':
            q = r.run(f, o, key='T'); lst = fld(p0, iT); seen = set()
            for tr in r.traces(q):
                if is_panic(tr): r.ok(False, 'D04 visiting decoded transactions cannot fail', w, tr); continue
                cs = [x for x in tr if isinstance(x, Ev) and x.name == 'call_opaque']; i = inloop(q, tr, lst)
                if i is not None:
                    seen.add('in'); r.ok(len(cs) == 1 and root_of(strip1(unref(cs[0].snap[0]))) is p1 and given(cs[0].snap[1]) is idx(lst, i) and end(tr).kind == 'back', 'D04 every transaction of a block is visited once, in order', w, tr)
                else: seen.add('out'); r.ok(exhausted(q, tr, lst) and not cs and end(tr).kind == 'ret', 'D04 all transactions of a block are visited', w, tr)
            once(r, q, lambda e: e.name == 'call_opaque', 'D04 every transaction of a block is visited once', w)
            r.ok(seen == {'in', 'out'}, 'D04 visiting was analysed', w, seen)
        else: decodes(r, f, r.run(f, o, key='T'), 'T')
    r.need(n, 'BlockTrait::transactions')
    for nm, pos in (('header', ()), ('height', ()), ('hash', ('hash',)), ('previous_block_hash', ('previous_block_hash',))):
        n = 0
        for f in r.fns(name=nm, kind='fn'):
            who = (r.impl_self(f) or (r.p.tys(f.targs[0]) if f.targs else '')).split('::')[-1]
            if not re.search('BlockTrait', strip_generics(f.path)) or who not in ('Block', 'FileBlock'): continue
            fs = {n_: i for i, (n_, ty) in enumerate(r.fields(who))}; n += 1
            exp = fld(p0, fs[nm]) if nm in fs else fld(fld(p0, fs['header']), fh[nm])
            for tr in r.traces(r.run(f, o, key='T')):
                r.ok(not is_panic(tr) and N(unref(ret_of(tr))) is N(exp), f'D04 {nm} of a block is what was decoded', f'{r.inst(f)}:{f.span[1]}', tr)
        r.need(n, 'BlockTrait::' + nm)
    for who in ('Block', 'BlockHeader', 'FileBlock', 'Transaction', 'Output', 'TransactionOutput'):
        fs = r.fields(who)
        # where one is made, and what is returned is compared as a whole (here, D02 and D06)
        al = {g.id for nm, im in {'FileBlock': [('find_longest_chain', None)], 'Block': [('new', 'Block')], 'BlockHeader': [('from_buffer', 'BlockHeader'), ('new', 'Block')]}.get(who, [('from_reader', 'Transaction')]) for g in r.fns(nm) if im is None or (r.impl_self(g) or '').split('::')[-1] == im}
        for f, line, how in struct_writers(r, who, set(range(len(fs)))):
            r.ok(f.id in al or climb(r, f.id, set(al)) == [], f'D04 a decoded {who} is not modified', f'{r.inst(f)}:{line}', how)

# ---------------------------------------------------------------------- D05
MAGIC = 3652501241
def name_regex(x):
    """a regular expression as a list of (set of characters); None when it is not a plain anchored sequence"""
    for a, b in (('^', '$'), ('\\A', '\\z'), ('^', '\\z'), ('\\A', '$')):
        if x.startswith(a) and x.endswith(b) and not x.endswith('\\' + b): x = x[len(a):-len(b)]; break
    else: return None
    out = []; i = 0
    while i < len(x):
        c = x[i]; i += 1
        if c == '\\':
            if i >= len(x) or x[i].isalnum(): return None
            s = frozenset(x[i]); i += 1
        elif c == '[':
            j = x.find(']', i)
            if j < 0 or x[i] == '^': return None
            s = set(); k = i
            while k < j:
                if x[k] in '\\[&~': return None
                if k + 2 < j and x[k + 1] == '-': s |= {chr(z) for z in range(ord(x[k]), ord(x[k + 2]) + 1)}; k += 3
                else: s.add(x[k]); k += 1
            s = frozenset(s); i = j + 1
        elif c in '.*+?()|{}^$': return None
        else: s = frozenset(c)
        n = 1
        if i < len(x) and x[i] == '{':
            j = x.find('}', i)
            if not x[i + 1:j].isdigit(): return None
            n = int(x[i + 1:j]); i = j + 1
        elif i < len(x) and x[i] in '*+?|': return None
        out += [s] * n
    return out
NAMES = [frozenset(c) for c in 'blk'] + [frozenset('0123456789')] * 5 + [frozenset(c) for c in '.dat']
def io_failed(tr, *names):
    ff = facts_of(tr)
    return any(isinstance(x, Ev) and x.name in names and isv(ff, x.ret, 0) is False for x in tr)
def D05(r):
    r.rule('block reading: open the recorded path, seek to the recorded offset, read exactly the recorded length; scan: per iteration one 88-byte read, one recorded block at offset + 8 with the announced length, and a seek to offset + 8 + length, which is where the next iteration counts from; names: every directory entry whose name matches, and each is scanned')
    faithful_clones(r, {'FileBlock', 'BlockFileReader'})
    o = topq(r); p0, p1 = t('param', 0), t('param', 1); D04(_Mute(r)); header_ok = r._header_ok
    fs = {n: i for i, (n, ty) in enumerate(r.fields('FileBlock'))}
    for f in [f for f in r.fns(name='transactions', trait='BlockTrait') if r.impl_self(f).split('::')[-1] == 'FileBlock']:
        w = f'{r.inst(f)}:{f.span[1]}'; n = 0
        for tr in r.traces(r.run(f, o, key='T')):
            if is_panic(tr): continue
            n += 1; op = evs_named(tr, 'File::open'); sk = evs_named(tr, 'Seek::seek'); rd = evs_named(tr, 'Read::read_exact'); others = [x for x in tr if isinstance(x, Ev) and x.name.split('::')[0] in ('File', 'Seek', 'Read', 'fs') and x not in op + sk + rd]
            if not r.ok(len(op) == len(sk) == len(rd) == 1 and not others, 'D05 a block is read by one open, one seek and one read', w, tr): continue
            fh_ = vfld(op[0].ret, 0, 0)
            r.ok(N(unref(op[0].snap[0])) is N(fld(p0, fs['file_path'])), 'D05 a block is read from its own file', w, op)
            r.ok(N(unref(sk[0].snap[0])) is N(fh_) and seek_start(sk[0]) is fld(p0, fs['offset']) and tr.index(sk[0]) < tr.index(rd[0]), 'D05 a block is read at its own offset', w, sk)
            r.ok(N(unref(rd[0].snap[0])) is N(fh_) and N(length(unref(rd[0].snap[1]))) is N(fld(p0, fs['length'])), 'D05 a block is read in its whole length', w, rd)
            buf = t('ver', rd[0].snap[1], evterm(rd[0])) if evterm(rd[0]) is not None else None
            for x in tr:
                if isinstance(x, Ev) and x.name == 'tx':
                    b = absolute(*x.snap)[0]
                    r.ok(b.k == 'ver' and b.a[1] is rd[0].e if hasattr(rd[0], 'e') and isinstance(rd[0].e, T) else b.k == 'ver' and b.a[1].k == 'ev' and b.a[1].a[1] == 'Read::read_exact', 'D05 transactions are decoded from what was read', w, b)
        r.ok(n, 'D05 reading a block was analysed', w)
    scan_file(r, o, header_ok, fs); scan_names(r); scan_all(r)
class _Mute:
    """runs another property's rule without recording its obligations"""
    def __init__(self, r): self.__dict__['r'] = r
    def ok(self, c, *a): return bool(c)
    def rule(self, x): pass
    def __getattr__(self, n): return getattr(self.r, n)
    def __setattr__(self, n, v): setattr(self.r, n, v)
def seek_start(e):
    s = e.snap[1]
    return s.a[2][0] if s.k == 'agg' and s.a[0].split('::')[-1] == 'SeekFrom' and s.a[1] == 0 else None
def seek_cur(e):
    s = e.snap[1]
    return s.a[2][0] if s.k == 'agg' and s.a[0].split('::')[-1] == 'SeekFrom' and s.a[1] == 2 else None
def scan_file(r, o, header_ok, fs):
    p0, p1 = t('param', 0), t('param', 1)
    for f in r.the('scan_block_file'):
        w = W(f); q = r.run(f, o, key='T'); seen = set(); pushes = set(); rets = []; offs = set()
        for u in q.it.unknown: r.ok(False, 'D05 nothing unknown is used in scanning', w, u)
        for tr in r.traces(q):
            ff = facts_of(tr); e = end(tr)
            op = evs_named(tr, 'File::open'); rd = evs_named(tr, 'Read::read', 'Read::read_exact'); sk = evs_named(tr, 'Seek::seek'); ps = [x for x in evs_named(tr, 'Vec::push') if is_to(x.snap[1], 'FileBlock')]
            if not op or not rd or isv(ff, op[0].ret, 0) is False or isv(ff, rd[0].ret, 0) is False:
                r.ok(is_panic(tr) and not ps, 'D05 a file that cannot be read stops the scan', w, tr); continue
            path = unref(op[0].snap[0]); st = list(subterms(path)); hd = vfld(op[0].ret, 0, 0)
            iP = [i for i, (n, ty) in enumerate(r.fields('BlockFileReader')) if 'String' in r.p.tys(ty)][0]
            r.ok(len(op) == 1 and any(N(y) is N(fld(p0, iP)) for y in st) and any(y is p1 for y in st), 'D05 the file scanned is the named one in the directory', w, op)
            if not r.ok(len(rd) == 1 and rd[0].name == 'Read::read' and N(unref(rd[0].snap[0])) is N(hd) and N(length(unref(rd[0].snap[1]))) is I(88), 'D05 a record is read by one read of 88 bytes', w, rd): continue
            n = vfld(rd[0].ret, 0, 0); buf = None
            for x in tr:
                for z in ([x.t] if isinstance(x, Cond) else list(x.snap) if isinstance(x, Ev) else []):
                    for y in subterms(z):
                        if y.k == 'ver' and y.a[1].k == 'ev' and y.a[1].a[1] == 'Read::read': buf = y
            full = decide(ff, eqi(n, I(88)))
            if full is None and decide(ff, lt(n, I(88))): full = False
            if buf is None:
                # nothing of the record looked at
                r.ok(not ps and (full is False and e.kind == 'ret' and (decide(ff, eq0(n)) or zeros_done(q, tr, n)) or e.kind == 'back' and zeros_step(q, tr, n)), 'D05 the end of a file is its end or zero padding', w, tr)
                if e.kind == 'ret': seen.add('end'); rets.append((ret_of(tr), tr))
                continue
            magic = N(t_le(buf, I(0), 4)); mz = mr = None
            for c, z in ((magic, 0), (magic, MAGIC)):
                d = None
                for x in tr:
                    if isinstance(x, Cond):
                        y = N(x.t); ng = y.k == 'not'; y = y.a[0] if ng else y
                        if y is N(eqi(magic, I(z))): d = not ng
                        elif y.k == 'eq':           # compared as four bytes
                            for a, b in (y.a[:2], y.a[1::-1]):
                                if bytes_are(r, a, buf, I(0), 4) and const_bytes(b) == list(z.to_bytes(4, 'little')): d = not ng
                if z == 0: mz = d
                else: mr = d
            if mr: mz = False
            if mz: mr = False
            if full is not True:
                if is_panic(tr): r.ok(not ps and nonzero_seen(q, tr, buf, n) and full is False, 'D05 a partial record that is not padding stops the process', w, tr); seen.add('partial'); continue
                if e.kind == 'ret':
                    r.ok(not ps and zeros_done(q, tr, n) and full is False, 'D05 the end of a file is its end or zero padding', w, tr); seen.add('end'); rets.append((ret_of(tr), tr)); continue
                r.ok(not ps and zeros_step(q, tr, n) and full is False, 'D05 the end of a file is its end or zero padding', w, tr); continue
            if is_panic(tr):
                ov = any(isinstance(x, Cond) and x.t.k == 'ovf' for x in tr[-3:])
                r.ok(mr is False and mz is False and not ps or mr is True and (ov or io_failed(tr, 'Seek::seek')), 'D05 the scan stops the process only at a record with a wrong magic', w, tr)
                if mr is False: seen.add('magic')
                continue
            if e.kind == 'ret':
                r.ok(mz is True and not ps, 'D05 the scan ends only at zero padding', w, tr); seen.add('zero'); rets.append((ret_of(tr), tr)); continue
            seen.add('block')
            if not r.ok(mr is True and len(ps) == 1 and len(sk) == 1 and isv(ff, sk[0].ret, 0) is True, 'D05 a record with the right magic, and no other, is a block', w, tr): continue
            v = ps[0].snap[1]; L = t_le(buf, I(4), 4); off = sub(v.a[2][fs['offset']], I(8)); pushes.add(evterm(ps[0])); bv = dict(e.bv or ())
            r.ok(same(unref(v.a[2][fs['file_path']]), path), 'D05 a block records its file', w, v)
            r.ok(off.k == 'phi' and off in q.g.phi and I(0) in [N(x) for x in q.g.phi[off]], 'D05 the contents of a block start 8 bytes behind its record', w, off)
            r.ok(N(v.a[2][fs['length']]) is N(L), 'D05 the length of a block is the announced one', w, v)
            r.ok(header_ok(v.a[2][fs['header']], slc(buf, I(8), I(88))), 'D05 the header of a block is the one in its record', w, v)
            nx = N(add(add(off, I(8)), L)); to = seek_start(sk[0])
            if to is None and seek_cur(sk[0]) is not None: to = add(add(off, I(88)), seek_cur(sk[0]))   # a whole record was read at off
            at = bv.get(off)
            if at is not None and N(at) is N(vfld(sk[0].ret, 0, 0)): at = to
            r.ok(at is not None and N(at) is nx and to is not None and N(to) is nx and N(unref(sk[0].snap[0])) is N(hd) and tr.index(sk[0]) > tr.index(rd[0]), 'D05 the next record is right behind the block', w, (bv.get(off), sk))
        r.ok({'block', 'zero', 'end', 'magic'} <= seen, 'D05 the cases of a scan are present', w, seen)
        for v, tr in rets: r.ok(only_pushes(q, v, pushes), 'D05 the scan yields the recorded blocks in order', w, v)
def byte_loop(q, tr, n):
    return [l for l in loop_tests(q, tr) if l.step == 1 and l.lo is I(0) and N(l.src) is N(n)]
def zeros_done(q, tr, n):
    l = byte_loop(q, tr, n)
    return bool(l) and l[-1].state == 'out'
def zeros_step(q, tr, n):
    """one more byte found to be zero"""
    l = byte_loop(q, tr, n)
    if not (l and l[-1].state == 'in'): return False
    for x in tr:
        if isinstance(x, Cond):
            c = bool_form(x.t)
            if c is not None and c[1] and c[0].k == 'idx' and c[0].a[1] is l[-1].i: return True
    return False
def bool_form(c):
    """c as (x, is x zero?) through nested boolean tests"""
    pol = True
    while True:
        if c.k == 'not': c = c.a[0]; pol = not pol
        elif c.k == 'eq0' and c.a[0].k in ('eq0', 'not', 'is', 'gt0'): c = c.a[0]; pol = not pol
        else: break
    if c.k == 'app': return (c, not pol)
    return (c.a[0], pol) if c.k == 'eq0' else (c.a[0], not pol) if c.k == 'gt0' else None
def nonzero_seen(q, tr, buf, n):
    l = byte_loop(q, tr, n)
    if not (l and l[-1].state == 'in'): return False
    for x in tr:
        if isinstance(x, Cond):
            c = bool_form(x.t)
            if c is not None and not c[1] and c[0].k == 'idx' and c[0].a[1] is l[-1].i: return True
    return False
def scan_names(r):
    p0 = t('param', 0)
    for f in r.the('file_names'):
        w = W(f); q = r.run(f, opq(LOGS), key='N'); seen = set(); pushes = set(); rets = []; lists = set(); allp = set(); ends = []
        for u in q.it.unknown: r.ok(False, 'D05 nothing unknown is used in listing', w, u)
        for tr in r.traces(q):
            ff = facts_of(tr); e = end(tr)
            if is_panic(tr): continue
            rdd = evs_named(tr, 'fs::read_dir'); nx = evs_named(tr, 'next')
            r.ok(len(rdd) == 1 and root_of(strip1(unref(rdd[0].snap[0]))) is p0, 'D05 the block directory is listed', w, tr)
            res = {y for x in conds(tr) for y in subterms(x) if y.k == 'app' and y.a[0].endswith('Regex::new')}
            good = all(len(y.a[1]) == 1 and y.a[1][0].k == 'str' and name_regex(y.a[1][0].a[0]) == NAMES for y in res) and res
            r.ok(good, 'D05 block files are those named blkNNNNN.dat', w, res)
            ps = evs_named(tr, 'Vec::push')
            if not r.ok(len(nx) == 1, 'D05 the entries are visited one by one', w, tr): continue
            more = isv(ff, nx[0].ret, 1)
            mt = None
            for c in conds(tr):
                b = bool_form(c)
                if b is not None and b[0].k == 'app' and b[0].a[0].endswith('Regex::is_match'): mt = not b[1]; nm = unref(b[0].a[1][1])
            if more is False and e.kind == 'back' and mt is not None and nm.k == 'idx':
                # the names are collected first and the list is then thinned
                ls = loops_over(q, tr, nm.a[0])
                lists.add(nm.a[0])
                r.ok(ls and ls[-1].state == 'in' and ls[-1].i is nm.a[1] and len(ps) == int(mt) and all(same(unref(x.snap[1]), nm) for x in ps), 'D05 every collected name is kept exactly if it matches', w, tr)
                seen.add('yes' if mt else 'no'); pushes |= {evterm(x) for x in ps}; continue
            if more is False:
                seen.add('end'); r.ok(e.kind == 'ret' and not ps, 'D05 all entries are visited', w, tr); rets.append(ret_of(tr) if e.kind == 'ret' else None); ends.append(tr); continue
            if mt is None and more is True and len(ps) == 1 and e.kind == 'back':
                nm = unref(ps[0].snap[1]); allp |= {evterm(x) for x in ps}
                r.ok(any(y is vfld(vfld(nx[0].ret, 1, 0), 0, 0) for y in subterms(nm)) and any(y.k == 'app' and y.a[0].endswith('file_name') for y in subterms(nm)), 'D05 every entry is collected by its name', w, nm); continue
            if mt is None: r.ok(False, 'D05 every entry is tested by its name', w, tr); continue
            r.ok(any(y is vfld(vfld(nx[0].ret, 1, 0), 0, 0) for y in subterms(nm)) and any(y.k == 'app' and y.a[0].endswith('file_name') for y in subterms(nm)), 'D05 every entry is tested by its name', w, nm)
            if mt: seen.add('yes'); r.ok(len(ps) == 1 and same(unref(ps[0].snap[1]), nm) and e.kind == 'back', 'D05 every matching name is listed', w, tr); pushes |= {evterm(x) for x in ps}
            else: seen.add('no'); r.ok(not ps and e.kind == 'back', 'D05 no other name is listed', w, tr)
        r.ok(seen == {'end', 'yes', 'no'}, 'D05 the cases of listing are present', w, seen)
        r.ok(bool(lists) == bool(allp), 'D05 every entry is tested by its name', w, seen)
        for L in lists:
            r.ok(all(y.k == 'newc' or y.k == 'ver' and y.a[1] in allp for y in sources(q, L)), 'D05 the names tested are the names collected', w, L)
            for tr in ends: r.ok(exhausted(q, tr, L), 'D05 every collected name is tested', w, tr)
        for v in rets:
            ok = v is not None
            for y in sources(q, v) if ok else ():
                if y.k == 'newc' or y.k == 'ver' and (y.a[1] in pushes or y.a[1].k == 'ev' and y.a[1].a[1].startswith('slice::sort')): continue
                ok = False
            r.ok(ok, 'D05 the names listed are the ones scanned', w, v)
def gather(r, q, tr, w, rule, item, taken, src_done, results, st):
    """one trace of a loop that collects whole lists: item (the list obtained on this trace, or None)"""
    ff = facts_of(tr); e = end(tr); nx = evs_named(tr, 'next'); ps = evs_named(tr, 'Vec::push'); ex = evs_named(tr, 'Vec::extend_from_slice', 'Vec::append', 'Vec::extend')
    F = [x.snap[0] for x in nx]
    open_ = None
    for x in nx:
        y = x.snap[0]
        if not (y.k == 'vfld' and y.a[0].k == 'phi'): return r.ok(False, rule, w, tr)
        st['phi'].add(y.a[0]); open_ = isv(ff, x.ret, 1)
    if open_ is True:
        st['seen'].add('pass')
        for p in ps: st['push'].add(evterm(p))
        return r.ok(len(ps) == 1 and len(nx) == 1 and same(ps[0].snap[1], vfld(nx[0].ret, 1, 0)) and not item and not ex and e.kind == 'back', rule, w, tr)
    if item is not None:
        st['seen'].add('take')
        bv = dict(e.bv or ()) if e.kind == 'back' else {}
        hold = [p for p, v in bv.items() if v.k == 'agg' and v.a[1] == 1 and len(v.a[2]) == 1 and v.a[2][0].k == 'agg' and v.a[2][0].a[0].startswith('it:seq') and same(v.a[2][0].a[2][0], item) and v.a[2][0].a[2][1] is I(0) and same(v.a[2][0].a[2][2], length(item))]
        if hold:
            st['hold'].update(hold)
            return r.ok(len(hold) == 1 and not ps and not ex and e.kind == 'back' and (nx and all(x.snap[0].a[0] is hold[0] for x in nx) or decide(ff, is_variant(hold[0], 0)) is True), rule, w, tr)
        if ex: 
            st['push'].update(evterm(x) for x in ex); st['seen'].add('pass')
            return r.ok(len(ex) == 1 and not ps and not nx and same(unref(ex[0].snap[1]), item) and e.kind == 'back', rule, w, tr)
        ls = loops_over(q, tr, item)
        if ls and ls[-1].state == 'in':
            st['push'].update(evterm(x) for x in ps); st['seen'].add('pass')
            return r.ok(len(ps) == 1 and same(ps[0].snap[1], idx(item, ls[-1].i)) and e.kind == 'back', rule, w, tr)
        return r.ok(ls and ls[-1].state == 'out' and not ps and e.kind == 'back', rule, w, tr)
    if e.kind == 'ret':
        st['seen'].add('end'); results.append(ret_of(tr))
        pend = [p for p in st['phi']]
        return r.ok(src_done and not ps and not ex, rule, w, tr)
    return r.ok(False, rule, w, tr)
def unlocal(x):
    return root_of(x.a[2][0]) if x.k == 'agg' and x.a[0].startswith('it:local') else x
def scan_all(r):
    p0, p1 = t('param', 0), t('param', 1)
    o = opq(LOGS + [(r'::scan_block_file$', 'scan'), (r'::file_names$', 'names'), (r'(^|[^A-Za-z])ThreadPool(::<.*>)?::new$', 'pool_new'), (r'(^|[^A-Za-z])ThreadPool<.*>::next$', 'pool_next')])
    for f in r.the('scan_block_files'):
        w = W(f); q = r.run(f, o, key='S'); modes = {}
        def me(x): return N(unref(x)) is p0 or N(unref(x)) is N(deref(p0))
        for u in q.it.unknown: r.ok(False, 'D05 nothing unknown is used in scanning', w, u)
        done = set(); trs = r.traces(q)
        for tr in trs:
            if is_panic(tr): r.ok(False, 'D05 collecting the blocks does not fail', w, tr); continue
            nm = evs_named(tr, 'names'); pn = evs_named(tr, 'pool_new'); px = evs_named(tr, 'pool_next'); sc = evs_named(tr, 'scan'); ff = facts_of(tr)
            if not r.ok(len(nm) == 1 and me(nm[0].snap[0]) and len(pn) <= 1, 'D05 the files of the directory are scanned', w, tr): continue
            names = nm[0].ret; st = modes.setdefault('pool' if pn else 'seq', {'phi': set(), 'push': set(), 'hold': set(), 'seen': set(), 'ret': []})
            if pn:
                its = [y for x in pn[0].snap for y in [x] if y.k == 'agg' and y.a[0].startswith('it:seq') and same(y.a[2][0], names) and y.a[2][1] is I(0) and same(y.a[2][2], length(names))]
                r.ok(len(its) == 1 and not sc, 'D05 every listed file goes to the workers', w, pn)
                for c in [x for x in pn[0].snap if clos(x) is not None]:
                    if clos(c) in done: continue
                    done.add(clos(c)); g = r.p.fns[clos(c)]
                    for tg in r.traces(r.run(g, o, key='S')):
                        sg = evs_named(tg, 'scan')
                        r.ok(not is_panic(tg) and len(sg) == 1 and me(subst(sg[0].snap[0], {p0: c})) and N(unref(sg[0].snap[1])) is p1 and ret_of(tg) is sg[0].ret, 'D05 a worker scans the file it is given', W(g), tg)
                r.ok(done, 'D05 a worker scans the file it is given', w, pn)
                r.ok(all(unlocal(root_of(x.snap[0])) is root_of(pn[0].ret) for x in px) and len(px) <= 1, 'D05 the results of the workers are collected', w, px)
                item = vfld(px[0].ret, 1, 0) if px and isv(ff, px[0].ret, 1) is True else None
                fin = bool(px) and isv(ff, px[0].ret, 1) is False
            else:
                i = inloop(q, tr, names)
                r.ok(len(sc) == (1 if i is not None and not (sc == [] and evs_named(tr, 'next')) else 0) or not sc, 'D05 every listed file is scanned once', w, tr)
                item = None
                if sc: r.ok(i is not None and me(sc[0].snap[0]) and N(unref(sc[0].snap[1])) is N(idx(names, i)) and len(sc) == 1, 'D05 every listed file is scanned once', w, tr); item = sc[0].ret
                elif i is not None and end(tr).kind == 'back' and not [x for x in evs_named(tr, 'next') if isv(ff, x.ret, 1) is True]: r.ok(False, 'D05 every listed file is scanned once', w, tr)
                fin = exhausted(q, tr, names)
            gather(r, q, tr, w, 'D05 all blocks of every scanned file are collected', item, None, fin, st['ret'], st)
        for m, st in modes.items():
            r.ok(st['phi'] <= st['hold'] and {'take', 'pass', 'end'} <= st['seen'], 'D05 the cases of collecting are present', w, (m, st))
            for h in st['hold']:
                # what is being collected is only ever a whole result
                r.ok(all(x.k == 'phi' or x.k == 'agg' and (x.a[1] == 0 or x.a[2][0].k == 'agg' and x.a[2][0].a[0].startswith('it:seq')) for x in deep(q, h)), 'D05 all blocks of every scanned file are collected', w, h)
            for tr in trs:
                # nothing is dropped: a list in hand is finished before the next is taken or the end is reported
                if is_panic(tr) or not st['hold'] or ('pool' if evs_named(tr, 'pool_new') else 'seq') != m: continue
                ff = facts_of(tr)
                if end(tr).kind == 'ret' or evs_named(tr, 'scan') or evs_named(tr, 'pool_next'):
                    h = list(st['hold'])[0]; nx = evs_named(tr, 'next')
                    r.ok(nx and isv(ff, nx[-1].ret, 1) is False or decide(ff, is_variant(h, 0)) is True, 'D05 no block of a scanned file is dropped', w, tr)
            for v in st['ret']: r.ok(only_pushes2(q, v, st['push']), 'D05 all blocks of every scanned file are returned', w, v)
        r.need(modes, 'modes of scanning')
def deep(q, x):
    seen = set(); todo = [x]
    while todo:
        y = todo.pop()
        if y in seen: continue
        seen.add(y)
        if y.k in ('phi', 'vphi') and y in q.g.phi: todo.extend(q.g.phi[y])
    return seen
def only_pushes2(q, x, evs):
    return all(y.k == 'newc' or y.k == 'ver' and (y.a[1] in evs or y.a[1].k == 'ev' and y.a[1].a[1] in ('Vec::reserve',)) for y in sources(q, x))

# ---------------------------------------------------------------------- D06
def is_zeros(x):
    x = unref(x)
    return is_zero32(x)
def D06(r):
    r.rule('selection: blocks are kept under their own hash and listed under their previous hash, once each; rounds replace the heads by all their children until there are none; the walk removes the block of the current hash, goes on with its previous hash until that is zero, numbers downwards, and the result is the walk reversed')
    o = topq(r); fs = {n: i for i, (n, ty) in enumerate(r.fields('FileBlock'))}; fh = {n: i for i, (n, ty) in enumerate(r.fields('BlockHeader'))}
    def hash_(b): return fld(fld(b, fs['header']), fh['hash'])
    def prev_(b): return fld(fld(b, fs['header']), fh['previous_block_hash'])
    for f in r.the('find_longest_chain'):
        w = W(f); q = r.run(f, o, key='T'); trs = r.traces(q); IN = t('param', 1)
        for u in q.it.unknown: r.ok(False, 'D06 nothing unknown is used in selecting the chain', w, u)
        # ---- the walk
        walk = [tr for tr in trs if not is_panic(tr) and end(tr).kind == 'back' and [e for e in effects(tr) if e.op == 'remove']]
        if not r.ok(len(walk) >= 1, 'D06 the chain is walked from its tip', w, len(walk)): continue
        e = [e for e in effects(walk[0]) if e.op == 'remove'][0]; M_ = e.loc; cur = e.args[0]
        if not r.ok(M_[0][0] == 'new' and cur.k == 'phi' and cur in q.g.phi, 'D06 the blocks are taken from those found in the files', w, e): continue
        B = vfld(t('mget', M_[0][1], cur), 1, 0)
        starts = [x for x in q.g.phi[cur] if N(x) is not N(prev_(B))]
        good = len(starts) == 1 and starts[0].k == 'idx' and starts[0].a[0].k == 'phi' and starts[0].a[0] in q.g.phi
        if not r.ok(good, 'D06 the walk goes from a last block to the previous one', w, [show(x) for x in q.g.phi[cur]]): continue
        H = starts[0].a[0]; htag = H.a[0]; ins = q.g.phi[H]
        zs = [x for x in ins if x.k == 'agg' and x.a[0] == 'array' and len(x.a[2]) == 1 and is_zeros(x.a[2][0])]; nh = [x for x in ins if x not in zs]
        if not r.ok(len(zs) == 1 and len(nh) == 1 and nh[0].k in ('vphi', 'ver'), 'D06 the search starts below the first block', w, ins): continue
        NHr = root_of(nh[0])
        lists = set(); seen = set(); child = set(); R_ = None
        # the index of children: what is looked up at a head
        for tr in trs:
            for c in conds(tr):
                y = c.a[0] if c.k == 'not' else c
                if y.k == 'is' and y.a[0].k == 'mget' and y.a[0].a[1].k == 'idx' and root_of(y.a[0].a[1].a[0]) is root_of(H): R_ = loc(y.a[0].a[0])
        if not r.ok(R_ is not None and R_ != M_ and R_[0][0] == 'new', 'D06 the children of a block are looked up', w, R_): continue
        hts = set(); rounds = set(); renum = set(); renum_ret = set(); plain = False
        for tr in trs:
            ff = facts_of(tr); en = end(tr); ef = effects(tr)
            mine = [x for x in ef if under(x.loc, M_)]; kids_ = [x for x in ef if under(x.loc, R_)]; ps = [x for x in ef if x.op in ('push', 'extend_from_slice', 'extend', 'append') and x not in mine + kids_]
            eff = [x for x in ef if x not in ps and x not in mine + kids_ and x.op != 'store']
            i = inloop(q, tr, IN)
            if i is not None:
                if is_panic(tr): r.ok(False, 'D06 collecting the blocks cannot fail', w, tr); continue
                b = idx(IN, i); known = map_fact(tr, M_, hash_(b)); hk = N(prev_(b))
                new_ = [loc(x.args[1]) for x in kids_ if x.op == 'insert' and x.loc == R_ and N(x.args[0]) is hk and x.args[1].k == 'newc']
                fresh = [x for x in ps if x.op == 'push' and x.loc in new_]; ps = [x for x in ps if x not in fresh]; kids_ = sorted(kids_ + fresh, key=lambda x: x.i)
                r.ok(en.kind == 'back' and not ps and not eff, 'D06 every block found is considered once', w, tr)
                r.ok(all(x.op == 'insert' and x.loc == M_ and N(x.args[0]) is N(hash_(b)) and same(x.args[1], b) for x in mine), 'D06 a block is kept under its own hash', w, mine)
                if known is True: seen.add('dup'); r.ok(not kids_, 'D06 a block stored twice is considered once', w, kids_); continue
                seen.add('new'); r.ok(known is False, 'D06 a block stored twice is considered once', w, tr)
                r.ok(len(mine) == 1, 'D06 every block is kept', w, mine)
                pres = map_fact(tr, R_, prev_(b)); add_ = 0; good = True
                for x in kids_:
                    if x.op == 'insert' and x.loc == R_ and N(x.args[0]) is hk and pres is False:
                        v = x.args[1]
                        if v.k == 'agg' and v.a[0] == 'array' and len(v.a[2]) == 1 and N(v.a[2][0]) is N(hash_(b)): add_ += 1
                        elif not (v.k == 'newc'): good = False
                        pres = True
                    elif x in fresh and N(x.args[0]) is N(hash_(b)): add_ += 1; good = good and pres is True
                    elif x.op in ('entry_insert',) and N(x.args[0]) is hk: pres = True
                    elif x.op == 'push' and rest(x.loc, R_) == (('at', hk),) and N(x.args[0]) is N(hash_(b)): add_ += 1; good = good and pres is True
                    else: good = False
                r.ok(good and add_ == 1, 'D06 every block is listed once under its previous hash', w, kids_); continue
            if not r.ok(exhausted(q, tr, IN), 'D06 all blocks found are considered before the chain is selected', w, tr): continue
            if not r.ok(not kids_, 'D06 the index of children is complete before the chain is selected', w, kids_): continue
            z = None
            for c in conds(tr):
                y = c.a[0] if c.k == 'not' else c
                if y.k in ('eq', 'eqv') and any(x is cur for x in y.a) and any(is_zeros(x) for x in y.a): z = c.k != 'not'
            if z is not None:
                if is_panic(tr):
                    s = end(tr).val; known = map_fact(tr, M_, cur)
                    r.ok(z is False and (known is False or 'verflow' in str(s)), 'D06 the walk stops only if a block is missing', w, tr); continue
                if z is False:
                    seen.add('walk')
                    good = en.kind == 'back' and len(mine) == 1 and mine[0].op == 'remove' and N(mine[0].args[0]) is cur and map_fact(tr, M_, cur) is True and len(ps) == 1 and ps[0].op == 'push'
                    if not r.ok(good, 'D06 each step of the walk takes the block of the current hash', w, tr): continue
                    lists.add(ps[0].loc); v = ps[0].args[0]; bv = dict(en.bv or ())
                    r.ok(cur in bv and N(bv[cur]) is N(prev_(B)), 'D06 the walk goes on with the previous hash', w, bv.get(cur))
                    if v.k != 'upd' and N(v) is N(B): plain = True; continue   # numbered afterwards
                    if v.k == 'agg' and is_to(v, 'FileBlock') and all(j == fs['height'] or N(x) is N(fld(B, j)) for j, x in enumerate(v.a[2])): v = t('upd', B, ('f', fs['height']), v.a[2][fs['height']])   # taken over field by field
                    g = v.k == 'upd' and N(v.a[0]) is N(B) and v.a[1] == ('f', fs['height'])
                    if not r.ok(g, 'D06 a block is taken as it is, with its height', w, v): continue
                    k0, at = lin_of(v.a[2]); ph = [a for a, m in at if a.k == 'phi' and m == 1]
                    g = len(ph) == 1 and len(at) == 1 and ph[0] in bv and N(bv[ph[0]]) is N(sub(ph[0], I(1)))
                    if not r.ok(g, 'D06 heights go down by one along the walk', w, v): continue
                    h0 = [x for x in q.g.phi[ph[0]] if N(x) is not N(sub(ph[0], I(1)))]
                    hts |= {N(add(x, I(k0))) for x in h0}
                else:
                    one_rev = not mine and not ps and not [x for x in eff if x.op != 'reverse'] and len([x for x in eff if x.op == 'reverse']) <= 1
                    if en.kind == 'back':
                        # each element of the result is given its position as height
                        up = [(p, v) for p, v in en.bv or () if p.k == 'vphi' and p.a[0].k == 'reversed']
                        g = one_rev and len(up) == 1
                        if g:
                            p_, v = up[0]; i_ = next((l.i for l in loop_tests(q, tr) if l.step == 1 and l.lo is I(0) and l.state == 'in' and l.src in (length(p_), length(p_.a[0]))), None)
                            g = i_ is not None and v is t('upd', p_, ('i', i_), t('upd', idx(p_, i_), ('f', fs['height']), i_))
                        if r.ok(g, 'D06 blocks are numbered by their position', w, tr): renum.add(p_)
                        continue
                    seen.add('done'); v = end(tr).val
                    v = ret_of(tr)
                    if v.k == 'vphi' and v.a[0].k == 'reversed' and any(l.state == 'out' and l.step == 1 and l.lo is I(0) and l.src in (length(v), length(v.a[0])) for l in loop_tests(q, tr)): renum_ret.add(v); v = v.a[0]
                    g = en.kind == 'ret' and not mine and not ps and v.k == 'reversed' and not [x for x in eff if x.op != 'reverse'] and len([x for x in eff if x.op == 'reverse']) <= 1
                    if r.ok(g, 'D06 the result is the walk in reverse', w, tr): r._d06 = v.a[0]; rets = loc(v.a[0]); lists.add(rets)
                continue
            # ---- the search for the deepest blocks
            if is_panic(tr):
                r.ok(overflowed(tr) or decide(ff, eq0(length(H))) is True, 'D06 the search cannot fail', w, tr); continue
            r.ok(not mine and not eff, 'D06 searching changes nothing', w, tr)
            j = inloop(q, tr, H)
            if j is not None:
                c = idx(H, j); pres = map_fact(tr, R_, c); cl = vfld(t('mget', R_[0][1], c), 1, 0); n = N(length(N(cl)))
                if pres is False: seen.add('leaf'); r.ok(not ps and en.kind == 'back', 'D06 a block without children ends there', w, tr); continue
                r.ok(pres is True, 'D06 the children of every head are looked up', w, tr)
                ls = [l for l in loop_tests(q, tr) if l.step == 1 and l.lo is I(0) and N(l.src) is n]
                if ps and ps[0].op != 'push':
                    seen |= {'child', 'leaf'}; child.add(evterm(ps[0].ev)); r.ok(len(ps) == 1 and loc_root(ps[0].loc) is NHr and same(unref(ps[0].args[0]), cl) and en.kind == 'back', 'D06 all children of every head are the next heads', w, tr); continue
                if ls and ls[-1].state == 'in':
                    seen.add('child')
                    good = len(ps) == 1 and loc_root(ps[0].loc) is NHr and N(ps[0].args[0]) is N(idx(cl, ls[-1].i)) and en.kind == 'back'
                    r.ok(good, 'D06 all children of every head are the next heads', w, tr)
                    if good: child.add(evterm(ps[0].ev))
                else: r.ok(ls and ls[-1].state == 'out' and not ps and en.kind == 'back', 'D06 all children of every head are the next heads', w, tr)
                continue
            if not r.ok(exhausted(q, tr, H) and not ps, 'D06 all heads are followed', w, tr): continue
            if en.kind == 'back':
                seen.add('round'); bv = dict(en.bv or ())
                emp = [decide(ff, eq0(length(y))) for c in conds(tr) for y in subterms(c) if y.k in ('vphi', 'ver') and root_of(y) is NHr]
                r.ok(False in emp and H in bv and root_of(bv[H]) is NHr, 'D06 a round replaces the heads by their children', w, tr)
                rounds |= {p for p, v in bv.items() if p.k == 'phi' and N(v) is N(add(p, I(1))) and p.a[0] == htag}
            else: r.ok(False, 'D06 the search leads to the walk', w, tr)
        # the walk is entered only when a round found no children
        for tr in trs:
            if any(isinstance(x, Cond) and any(y is cur for y in subterms(x.t)) for x in tr):
                emp = [decide(facts_of(tr), eq0(length(y))) for c in conds(tr) for y in subterms(c) if y.k in ('vphi', 'ver') and root_of(y) is NHr]
                r.ok(True in emp, 'D06 the chain ends at a block of the greatest height', w, tr)
        src = sources(q, nh[0])
        tags = {y.a[1] for y in deep(q, nh[0]) if y.k == 'vphi'}
        r.ok(only_pushes2(q, nh[0], child) and htag not in tags, 'D06 the next heads are exactly the children', w, nh[0])
        if plain: r.ok(not hts and renum and renum == renum_ret, 'D06 the heights count from zero', w, (hts, renum, renum_ret))
        else: r.ok(not renum and len(hts) == 1 and len(rounds) == 1 and hts == {N(sub(list(rounds)[0], I(1)))} and I(0) in q.g.phi[list(rounds)[0]] and len(q.g.phi[list(rounds)[0]]) == 2, 'D06 the heights count from zero', w, (hts, rounds))
        r.ok(len(lists) == 1, 'D06 the walk is what is returned', w, lists)
        pse = {evterm(x.ev) for tr in trs for x in effects(tr) if x.op == 'push' and x.loc in lists}
        if getattr(r, '_d06', None) is not None: r.ok(only_pushes2(q, r._d06, pse), 'D06 the walk is what is returned', w, r._d06)
        r.ok({'new', 'dup', 'walk', 'done', 'child', 'leaf', 'round'} <= seen, 'D06 the cases of selecting the chain are present', w, seen)
    o = opq(LOGS + [(r'::scan_block_files$', 'scan'), (r'::find_longest_chain$', 'select')])
    p0 = t('param', 0)
    for f in r.the('blocks', 'BlockFileReader'):
        for tr in r.traces(r.run(f, o, key='B')):
            sc = evs_named(tr, 'scan'); se = evs_named(tr, 'select')
            good = not is_panic(tr) and not effects(tr) and len(sc) == len(se) == 1 and N(unref(sc[0].snap[0])) is p0 and same(unref(se[0].snap[1]), sc[0].ret) and same(ret_of(tr), se[0].ret)
            r.ok(good, 'D06 the chain is selected from all blocks of the files', W(f), tr)
def loc_root(l): return l[0][1] if l and isinstance(l[0], tuple) and l[0][0] == 'new' and len(l) == 1 else None
RULES = {k: v for k, v in globals().items() if re.fullmatch(r'[A-Z]\d\d', k) and k[0] == 'D'}
