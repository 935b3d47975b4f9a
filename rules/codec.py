"""A01-A08: addresses, checksums and text codecs"""
import math
from .common import *
from engine.interp import prove
from .store import LOGS
from .http import unref
from .decode import W, ret_of, root_of, strip1, _Mute
from . import node as ND

def sym(i):
    x = t('app', 'byte', (I(i),)); TM.UNSIGNED.add(x); return x
def variant(p, ty, name):
    """(path, index) of a variant of the local enum ty"""
    for x in p.types:
        if x['k'] == 'adt' and x.get('local') and strip_generics(x.get('path', '')).split('::')[-1] == ty:
            for i, v in enumerate(x['variants']):
                if v[0] == name: return i
    raise Undecided(f'variant {ty}::{name}')
def feasible(cs, m, extra=()):
    """can all of these conditions hold at once (after the substitution)?"""
    ff = {}; dis = []
    todo = list(extra) + [subst(c, m) if m else c for c in cs]
    while todo:
        c = todo.pop(0)
        if c.k == 'int':
            if c.a[0] == 0: return False
            continue
        neg = c.k == 'not'; x = c.a[0] if neg else c
        if x.k == 'eq':
            a, b = x.a
            if a.k != 'agg' or a.a[0] != 'array': a, b = b, a
            if a.k == 'agg' and a.a[0] == 'array':
                ys = [eqi(y, idx(b, I(i))) for i, y in enumerate(a.a[2])]
                n = eqi(length(b), I(len(a.a[2])))
                if neg: dis.append([n] + ys)
                else: todo += [n] + ys
                continue
        if not assume(ff, c): return False
    for d in dis:
        if all(decide(ff, y) is True for y in d): return False
    return True
def result(v, n):
    """the content of an Ok (0) or Err (1)"""
    return v.a[2][0] if v.k == 'agg' and v.a[0] == RES and v.a[1] == n else None

# ---------------------------------------------------------------------- A01, A02
def classify(r, f, src, forms, text):
    """f(bytes) is Ok(variant(hash bytes)) exactly for the given forms: (length, {position: byte}, variant, hash range)"""
    w = f'{r.inst(f)}:{f.span[1]}'
    q = r.run(f, opq(LOGS), key='cl', part=60); P = t('param', 0); seen = set()
    shapes = []
    for n, fixed, v, (lo, hi) in forms:
        arr = agg('array', 0, [I(fixed[i]) if i in fixed else sym(i) for i in range(n)])
        shapes.append((n, fixed, v, lo, hi, {P: arr}, {P: agg('array', 0, [sym(i) for i in range(n)])}))
    for tr in r.traces(q):
        e = end(tr); cs = conds(tr)
        if not r.ok(e.kind == 'ret', f'{r.pid} {text} always finishes with an answer', w, tr): continue
        v = ret_of(tr); x = result(v, 0)
        if x is None:
            r.ok(v.k == 'agg' and v.a[0] == RES, f'{r.pid} {text} is an address or an error', w, v)
            for n, fixed, vv, lo, hi, m, m2 in shapes:
                r.ok(not feasible(cs, m), f'{r.pid} {text} of the right form is accepted', w, (n, tr))
            continue
        ok_ = False
        for n, fixed, vv, lo, hi, m, m2 in shapes:
            if not (x.k == 'agg' and x.a[1] == vv): continue
            ok_ = True; seen.add(vv)
            r.ok(not feasible(cs, {}, [not_(eqi(length(P), I(n)))]), f'{r.pid} {text} is accepted at its length only', w, (n, tr))
            for i in sorted(fixed):
                r.ok(not feasible(cs, m2, [not_(eqi(sym(i), I(fixed[i])))]), f'{r.pid} {text} is accepted with its fixed bytes only', w, (i, tr))
            if feasible(cs, m):
                h = strip_clone(subst(x.a[2][0], m))
                want = [sym(i) for i in range(lo, hi)]
                r.ok(h.k == 'agg' and list(h.a[2]) == want, f'{r.pid} the address holds exactly the hash bytes', w, h)
        r.ok(ok_, f'{r.pid} {text} gives an address of a known kind', w, x)
    r.ok(seen == {v for _, _, v, _ in forms}, f'{r.pid} both kinds are recognised', w, seen)
def kinds(r): return variant(r.p, 'Address', 'P2PKH'), variant(r.p, 'Address', 'P2SH')
def A01(r):
    r.rule('every path of the classification that gives an address entails the exact script form of that kind, every path that gives none contradicts both forms, and the hash is cut out at the exact position')
    h, s = kinds(r)
    for f in r.the('from_script', 'Address'):
        classify(r, f, 0, [(25, {0: 0x76, 1: 0xA9, 2: 0x14, 23: 0x88, 24: 0xAC}, h, (3, 23)), (23, {0: 0xA9, 1: 0x14, 22: 0x87}, s, (2, 22))], 'a script')
CHK = [(r'base58_check::decode::decode_into$', 'chk_into'), (r'base58_check::decode::Decoder::decode_into$', 'chk_into_'), (r'base58_check::decode::decode$', 'chk_dec'), (r'base58_check::encode::encode$', 'chk_enc')]
def path_opq(table):
    tab = [(re.compile(a), b) for a, b in LOGS + table]
    def f(fn):
        p = re.sub(r"<'[a-z_]+>|<'[a-z_]+, N>|<N>", '', strip_generics(fn.path)).replace('::::', '::')
        for a, b in tab:
            if a.search(p): return b
    return f
def A02(r):
    r.rule('the parser accepts exactly the two 21-byte forms; to_vec is version byte then hash; text goes through Base58Check both ways with room for the whole form; equality compares kind and hash')
    h, s = kinds(r)
    for f in r.the('from_slice', 'Address'):
        classify(r, f, 0, [(21, {0: 0}, h, (1, 21)), (21, {0: 5}, s, (1, 21))], 'the byte form')
    for f in r.the('to_vec', 'Address'):
        w = W(f); q = r.run(f, opq(LOGS), key='tv'); got = set()
        for tr in r.traces(q):
            e = end(tr)
            if not r.ok(e.kind == 'ret', 'A02 the byte form is always produced', w, tr): continue
            ff = facts_of(tr); P = t('param', 0)
            for v, ver in ((h, 0), (s, 5)):
                if decide(ff, is_variant(P, v)) is False or isv(ff, P, v) is False: continue
                sg = flat(segs(r.p, f, e.val)); got.add(v)
                g = len(sg) == 2 and sg[0] == (1, I(ver)) and sg[1][0] == 20 and N(sg[1][1]) is vfld(P, v, 0)
                r.ok(g, 'A02 the byte form is the version followed by the hash', w, (v, sg))
        r.ok(got == {h, s}, 'A02 both kinds have a byte form', w, got)
    op = path_opq(CHK + [('Address::from_slice$', 'addr_slice'), ('Address::to_vec$', 'addr_vec')])
    for f in r.the('from_string', 'Address'):
        w = W(f); q = r.run(f, op, key='fs'); n = 0
        for tr in r.traces(q):
            e = end(tr); ff = facts_of(tr)
            d = evs_named(tr, 'chk_into', 'chk_into_', 'chk_dec')
            if is_panic(tr):
                # the decoder never reports more than the buffer holds (A07)
                c = d[-1] if d else None
                r.ok(c is not None and c.name != 'chk_dec' and not assume(dict(ff), le(vfld(c.ret, 0, 0), length(c.snap[-1]))) or c is not None and beyond(tr, ff, c), 'A02 parsing a text never panics', w, tr)
                continue
            if not r.ok(e.kind == 'ret' and len(d) == 1, 'A02 the text is decoded with its checksum, once', w, tr): continue
            d = d[0]
            r.ok(same(unref(d.snap[-2 if 'into' in d.name else -1]), t('param', 0)), 'A02 the whole text is decoded', w, d)
            buf = d.snap[-1]
            if 'into' in d.name:
                L = length(buf)
                r.ok(is_int(L) and L.a[0] >= 25, 'A02 the buffer has room for version, hash and checksum', w, L)
            p = evs_named(tr, 'addr_slice')
            if isv(ff, d.ret, 0) is True:
                if not r.ok(len(p) == 1, 'A02 the decoded bytes are parsed', w, tr): continue
                n += 1; x = unref(p[0].snap[0]); o = vfld(d.ret, 0, 0)
                if 'into' in d.name: g = x.k == 'slice' and x.a[1] is I(0) and x.a[2] is o and x.a[0].k == 'ver' and x.a[0].a[1] is d.ret
                else: g = x is o
                r.ok(g, 'A02 exactly the decoded bytes are parsed', w, x)
                r.ok(ret_of(tr) is p[0].ret or e.val is p[0].ret or follows(ff, ret_of(tr), p[0].ret), 'A02 the answer is what the bytes say', w, tr)
            else:
                r.ok(isv(ff, d.ret, 1) is True and result(ret_of(tr), 1) is not None, 'A02 a text that does not decode is an error', w, tr)
        r.ok(n, 'A02 texts are parsed', w)
    ts = r.fns('to_string', 'Address') + [f for f in r.fns('fmt', 'Address', 'Display')]
    r.need(ts, 'the text form of addresses')
    for f in ts:
        w = W(f); q = r.run(f, op, key='ts')
        for tr in r.traces(q):
            e = end(tr)
            if not r.ok(e.kind == 'ret', 'A02 the text form is always produced', w, tr): continue
            vs = evs_named(tr, 'addr_vec'); cs = evs_named(tr, 'chk_enc')
            g = len(cs) == 1 and len(vs) == 1 and same(unref(vs[0].snap[0]), t('param', 0)) and same(unref(cs[0].snap[-1]), vs[0].ret)
            r.ok(g, 'A02 the text form is the Base58Check encoding of the byte form', w, tr)
            if not g: continue
            if f.name == 'fmt':
                ws = [x for x in tr if isinstance(x, Ev) and x.name in ('Formatter::write_fmt', 'Formatter::write_str', 'Formatter::pad')]
                pt = fmt_parts(ws[0].snap[1]) if len(ws) == 1 and ws[0].name.endswith('fmt') else [('arg', 'display', ws[0].snap[1], ())] if len(ws) == 1 else None
                r.ok(pt is not None and len(pt) == 1 and pt[0][0] == 'arg' and same(unref(pt[0][2]), cs[0].ret), 'A02 exactly the text form is written', w, tr)
            else: r.ok(same(unref(e.val), cs[0].ret), 'A02 exactly the text form is returned', w, tr)
    ty = [i for i in r.ty_by_name('Address') if r.p.types[i].get('local')]
    for i in ty[:1]:
        with _Pid(r, 'R06', 'A02'): ND.key_eq(r, i)
class _Pid:
    """obligations shared with another property are reported under this one"""
    def __init__(self, r, a, b): self.r = r; self.a = a; self.b = b
    def __enter__(self):
        r = self.r; self.ok = r.ok
        def ok(cond, desc, where=None, detail=''): return self.ok(cond, desc.replace(self.a, self.b, 1), where, detail)
        r.ok = ok
    def __exit__(self, *a): del self.r.ok
def beyond(tr, ff, c):
    """this path needs the decoder to report more bytes than the buffer has"""
    return decide(ff, gt0(sub(vfld(c.ret, 0, 0), length(ver_of(c))))) is True or any(isinstance(x, Cond) and x.t is gt0(sub(vfld(c.ret, 0, 0), length(ver_of(c)))) for x in tr)
def ver_of(c):
    x = c.snap[-1]
    return t('ver', x, c.ret)
def follows(ff, v, res):
    for i in (0, 1):
        if isv(ff, res, i) is True: return v.k == 'agg' and v.a[1] == i and v.a[2][0] is vfld(res, i, 0)
    return False
def flat(sg):
    out = []
    for n, x in sg:
        x = strip_clone(x)
        if x.k == 'agg' and x.a[0] == 'array' and n == len(x.a[2]): out += [(1, y) for y in x.a[2]]
        elif n: out.append((n, x))
    return out

# ---------------------------------------------------------------------- A03
B58 = [(r'base58::decode::Decoder::decode_into$', 'b58_into'), (r'base58::encode::Encoder::encode$', 'b58_enc'), (r'base58::encode::Encoder::encode_into$', 'b58_enc_into')]
def checksum(x):
    """the bytes whose checksum this is (first four bytes of the double hash)"""
    x = unref(x)
    if x.k == 'agg' and x.a[0] == 'array' and len(x.a[2]) == 4:      # its four bytes
        h = {y.a[0] for i, y in enumerate(map(strip_clone, x.a[2])) if y.k == 'idx' and y.a[1] is I(i)}
        return once(once(h.pop())) if len(h) == 1 and all(strip_clone(y).k == 'idx' for y in x.a[2]) else None
    if x.k != 'slice' or x.a[1] is not I(0) or x.a[2] is not I(4): return None
    return once(once(x.a[0]))
def once(h):
    if h is None: return None
    if h.k == 'sha256': return unref(h.a[0])
    if h.k == 'digest' and h.a[0].k == 'ver' and h.a[0].a[0].k == 'newc' and h.a[0].a[1].k == 'ev' and h.a[0].a[1].a[1] == 'Digest::update': return unref(h.a[0].a[1].a[2][1])
    return None
def inst_w(r, f): return f'{r.inst(f)}:{f.span[1]}'
def A03(r):
    r.rule('on every path of a checked decode that succeeds at least four bytes were decoded and the last four were compared equal with the first four of the double SHA-256 of exactly the bytes before; encoding appends the same checksum to exactly the input')
    op = path_opq(B58); nd = ne = 0
    for f in r.the(path=r'^base58_check::decode::', kind='fn'):
        if f.name not in ('decode', 'decode_into'): continue
        w = inst_w(r, f); q = r.run(f, op, key='a3', part=60); n = 0
        pin = [i for i in range(f.argc) if i != out_param(r, f) and 'Decoder' not in r.p.tys(f.locals[i + 1])]
        for tr in r.traces(q):
            e = end(tr); ff = facts_of(tr); ds = evs_named(tr, 'b58_into')
            d = ds[0] if ds else None
            if is_panic(tr):
                r.ok(d is not None and beyond(tr, ff, d), 'A03 checked decoding never panics', w, tr); continue
            if not r.ok(e.kind == 'ret' and len(ds) == 1, 'A03 the text is decoded once', w, tr): continue
            v = ret_of(tr); o = vfld(d.ret, 0, 0); D = ver_of(d)
            r.ok(len(pin) == 1 and same(unref(d.snap[-2]), t('param', pin[0])), 'A03 the whole text is decoded', w, d)
            tail = slc(D, sub(o, I(4)), o); body = slc(D, I(0), sub(o, I(4)))
            match = cmp_sum(tr, ff, tail, body)
            x = result(v, 0)
            if x is not None:
                n += 1
                r.ok(isv(ff, d.ret, 0) is True, 'A03 success needs decoded bytes', w, tr)
                r.ok(decide(ff, gt0(sub(o, I(3)))) is True, 'A03 success needs at least four decoded bytes', w, tr)
                r.ok(match is True, 'A03 success needs the checksum of exactly the bytes before it', w, tr)
                if f.name == 'decode_into':
                    r.ok(x is sub(o, I(4)), 'A03 the length without the checksum is returned', w, x)
                    late = [z for z in effects(tr[tr.index(d) + 1:]) if root_of(strip1(z.ev.snap[0])) is root_of(d.snap[-1])]
                    r.ok(not late, 'A03 the decoded bytes are left alone', w, late)
                else: r.ok(trunc(ff, x, D, sub(o, I(4))), 'A03 exactly the bytes before the checksum are returned', w, x)
            else:
                r.ok(result(v, 1) is not None and (isv(ff, d.ret, 1) is True or decide(ff, gt0(sub(I(4), o))) is True or match is False), 'A03 a text with a right checksum is accepted', w, tr)
        nd += n; r.ok(n, 'A03 checked decoding can succeed', w)
    for f in r.the(path=r'^base58_check::encode::', kind='fn'):
        if f.name not in ('encode', 'encode_into'): continue
        w = inst_w(r, f); q = r.run(f, op, key='a3', part=60)
        pin = [i for i in range(f.argc) if i != out_param(r, f) and 'Encoder' not in r.p.tys(f.locals[i + 1])]
        for tr in r.traces(q):
            e = end(tr); ds = evs_named(tr, 'b58_enc', 'b58_enc_into')
            if not r.ok(e.kind == 'ret' and len(ds) == 1, 'A03 checked encoding encodes once', w, tr): continue
            ne += 1; d = ds[0]; into = d.name.endswith('into')
            x = unref(d.snap[-2 if into else -1]); P = t('param', pin[0])
            r.ok(with_sum(x, P), 'A03 encoding appends the checksum of the input to the input', w, x)
            r.ok(same(unref(e.val), d.ret) or follows(facts_of(tr), ret_of(tr), d.ret), 'A03 the encoded text is returned', w, tr)
            if into: r.ok(root_of(d.snap[-1]) is t('param', out_param(r, f)), 'A03 the text goes to the caller\'s buffer', w, d)
    r.ok(nd and ne, 'A03 checked decoding and encoding found', None, (nd, ne))
def out_param(r, f):
    for i in range(f.argc):
        if r.p.tys(f.locals[i + 1]).startswith('&mut '): return i
    return None
def cmp_sum(tr, ff, tail, body):
    """was the tail compared with the checksum of the body?  True: equal, False: different"""
    res = None
    for x in tr:
        if not isinstance(x, Cond): continue
        for y in subterms(x.t):
            if y.k != 'eq': continue
            for a, b in (y.a, y.a[::-1]):
                c = checksum(b)
                if c is not None and same(unref(a), tail) and same(c, body):
                    d = decide(ff, y)
                    if d is not None: res = d
    if res is not None: return res
    # byte by byte
    got = {}
    for x in tr:
        if not isinstance(x, Cond): continue
        c = x.t; neg = c.k == 'not'; c = c.a[0] if neg else c
        if c.k != 'eq0': continue
        k0, at = lin_of(c.a[0])
        if k0 or len(at) != 2 or at[0][1] + at[1][1]: continue
        for a, b in ((at[0][0], at[1][0]), (at[1][0], at[0][0])):
            if a.k != 'idx' or b.k != 'idx' or not is_int(b.a[1]) or b.a[1].a[0] > 3: continue
            if checksum_of(b.a[0]) is not None and same(checksum_of(b.a[0]), body) and a is idx(tail, b.a[1]): got[b.a[1].a[0]] = not neg
    if False in got.values(): return False
    return True if len(got) == 4 else None
def checksum_of(h):
    if h.k == 'slice': return checksum(h)
    return once(once(h))
def trunc(ff, x, D, n, cap=None):
    """x is the first n bytes of D; cap: facts are about a decoder of hexadecimal, which gives half of the characters"""
    x = unref(x)
    if x.k == 'slice' and x.a[1] is I(0) and x.a[2] is n: return same(x.a[0], D)
    if cap is not None: return same(x, D) and n.k == 'vfld' and decide(ff, le(cap, div(length(unref(n.a[0].a[2][-2])) if n.a[0].k == 'ev' else cap, I(2)))) is True
    return same(x, D) and decide(ff, le(length(D), n)) is True
def with_sum(x, P):
    """P followed by its checksum"""
    if x.k == 'ver' and x.a[1].k == 'ev' and x.a[1].a[1] in ('Vec::extend_from_slice', 'Vec::append', 'Vec::extend'):
        c = checksum(x.a[1].a[2][1])
        if c is None: return False
        b = unref(x.a[0])
        if b.k == 'ver' and b.a[0].k == 'newc' and b.a[1].k == 'ev' and b.a[1].a[1] in ('Vec::extend_from_slice', 'Vec::extend'): b = unref(b.a[1].a[2][1])
        return same(b, P) and (same(c, P) or same(c, unref(x.a[0])))
    if x.k == 'app' and x.a[0] in ('slice::concat', 'slice::join'):
        y = unref(x.a[1][0])
        return y.k == 'agg' and len(y.a[2]) == 2 and same(unref(y.a[2][0]), P) and checksum(y.a[2][1]) is not None and same(checksum(y.a[2][1]), P)
    return False

# ---------------------------------------------------------------------- A04
STD = {58: b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz', 64: b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'}
def table_of(r, f):
    """the constant alphabet inside the codec that f() gives"""
    q = r.run(f, opq(LOGS), key='df'); out = []
    for tr in r.traces(q):
        if end(tr).kind != 'ret': continue
        v = ret_of(tr)
        out += [y for y in subterms(v) if y.k == 'agg' and strip_generics(y.a[0]).split('<')[0].split('::')[-1] == 'Alphabet']
        if not out: return None, v
    return out[0] if len(set(out)) == 1 else None, v
def fold(cs, m):
    """the conditions after constant propagation: False when contradictory, True when all hold, None when not all folded"""
    r_ = True
    for c in cs:
        y = fold_t(subst(c, m))
        if y is FALSE: return False
        if y is not TRUE: r_ = None
    return r_
def fold_t(x):
    if x.k == 'not': return not_(fold_t(x.a[0]))
    if x.k in ('ovf',) :
        a, b = as_int(x.a[1]), as_int(x.a[2])
        if is_int(a) and is_int(b):
            v = {'Add': a.a[0] + b.a[0], 'Sub': a.a[0] - b.a[0], 'Mul': a.a[0] * b.a[0]}.get(x.a[0])
            if v is not None: return I(int(v < 0 or v >> x.a[4]))
    if x.k in ('eq0', 'gt0'):
        v = ev_int(x.a[0])
        if v is not None: return I(int(v == 0 if x.k == 'eq0' else v > 0))
    if x.k == 'eq' and all(y.k == 'agg' for y in x.a): return eqv(*x.a)
    return x
def as_int(x):
    v = ev_int(x) if isinstance(x, T) else None
    return x if v is None else I(v)
def byte_map(r, trs, P, extra):
    """value -> set of results for every value of the byte parameter P (constant propagation)"""
    out = {}
    for c in range(256):
        m = dict(extra); m[P] = I(c); out[c] = []
        for tr in trs:
            f = fold(conds(tr), m)
            if f is False: continue
            e = end(tr)
            if e.kind != 'ret': out[c].append(('panic' if f else 'maybe panic', e)); continue
            v = subst(ret_of(tr), m)
            if f is None: out[c].append(('?', conds(tr)))
            else: out[c].append((v.a[1], as_int(v.a[2][0])) if v.k == 'agg' and v.a[0] == RES else ('value', v))
    return out
def alphabet_ok(r, A, n, w):
    key = ('alpha', A, n)
    if key in r._cache: return
    r._cache[key] = 1
    std = STD[n]
    mine = lambda f: re.search(r'\b%d\b' % n, r.p.tys(f.locals[1]))
    for f in r.need([f for f in r.the('decode', 'Alphabet') if mine(f)], 'the lookup of a character'):
        q = r.run(f, opq(LOGS), key='al', part=60)
        bm = byte_map(r, r.traces(q), t('param', 1), {t('param', 0): A})
        for c in range(256):
            i = std.find(bytes([c]))
            g = len(bm[c]) == 1 and (bm[c][0][0] == 0 and bm[c][0][1] is I(i) if i >= 0 else bm[c][0][0] == 1)
            r.ok(g, 'A04 every byte decodes to its place in the standard alphabet or is an error', W(f), (n, c, bm[c]))
    for f in r.need([f for f in r.the('encode', 'Alphabet') if mine(f)], 'the character of a value'):
        q = r.run(f, opq(LOGS), key='al', part=60); trs = r.traces(q)
        for i in range(n):
            vs = []
            for tr in trs:
                m = {t('param', 0): A, t('param', 1): I(i)}
                if fold(conds(tr), m) is not False: vs.append(as_int(subst(ret_of(tr), m)) if end(tr).kind == 'ret' else end(tr))
            r.ok(len(vs) == 1 and vs[0] is I(std[i]), 'A04 every value encodes to its character of the standard alphabet', W(f), (n, i, vs))
CODEC = [(r'base_common::alphabet::Alphabet::decode$', 'adec'), (r'base_common::alphabet::Alphabet::encode$', 'aenc'), (r'^hex::value$', 'hval')]
def const_codecs(r):
    """the codec that takes no alphabet from its caller uses the standard one"""
    n = 0
    for f in r.the('default'):
        m = re.match(r'base(58_check|58|64)::(de|en)code::', f.path)
        if not m: continue
        sz = 64 if m.group(1) == '64' else 58
        A, v = table_of(r, f)
        if not r.ok(A is not None, 'A04 the default codec has a constant alphabet', W(f), v): continue
        alphabet_ok(r, A, sz, W(f)); n += 1
        if sz == 64: r.ok(any(y.k == 'agg' and 'base_binary' in y.a[0] and I(6) in y.a[2] for y in subterms(v)), 'A04 base64 takes six bits at a time', W(f), v)
    r.ok(n >= 6, 'A04 the default codecs were found', None, n)
def codec_fns(r, path, names):
    return [f for f in r.the(path=path, kind='fn') if f.name in names]
INNER = path_opq(CODEC)
CORE = path_opq([(r'base58::decode::Decoder::decode_into$', 'core'), (r'base58::encode::Encoder::encode_into$', 'core'), (r'base_binary::(de|en)code::(De|En)coder::(de|en)code_into$', 'core')])
def A04(r):
    r.rule('the tables propagate to the standard alphabets for all 256 byte values; every character of the input goes through the table (only the Base64 padding is skipped) and a failure of the table is an error; hexadecimal digits likewise')
    const_codecs(r)
    # decoders
    n = 0
    for f in codec_fns(r, r'^(base58|base_binary)::decode::Decoder', ('decode_into',)) + codec_fns(r, r'^hex::', ('decode_into',)):
        decodes_all(r, f); n += 1
    r.ok(n >= 3, 'A04 the decoders were found', None, n)
    # the public functions use the default codec
    m_ = 0
    for f in r.the(path=r'^base(58|64)::(de|en)code::(de|en)code(_into)?$', kind='fn'):
        q = r.run(f, CORE, key='pub', part=60); w = inst_w(r, f)
        for tr in r.traces(q):
            cs = evs_named(tr, 'core')
            if is_panic(tr) and not cs: continue
            A = [y for c in cs[:1] for y in subterms(c.snap[0]) if y.k == 'agg' and strip_generics(y.a[0]).split('<')[0].split('::')[-1] == 'Alphabet']
            if r.ok(len(cs) == 1 and len(A) == 1, 'A04 the public codec functions use the standard alphabet', w, tr):
                alphabet_ok(r, A[0], 64 if '64' in f.path.split('::')[0] else 58, w); m_ += 1
    r.ok(m_, 'A04 the public codec functions were found')
    # hexadecimal digits
    for f in r.the(path=r'^hex::value$', kind='fn'):
        q = r.run(f, opq(LOGS), key='hv', part=60)
        bm = byte_map(r, r.traces(q), t('param', 0), {})
        for c in range(256):
            ch = chr(c); i = int(ch, 16) if ch in '0123456789abcdefABCDEF' else None
            g = len(bm[c]) == 1 and (bm[c][0][0] == 0 and bm[c][0][1] is I(i) if i is not None else bm[c][0][0] == 1)
            r.ok(g, 'A04 every byte is a hexadecimal digit or an error', W(f), (c, bm[c]))
    k = 0
    for f in r.the(path=r'^hex::encode', kind='fn'):
        k += hex_encodes(r, f)
    r.ok(k, 'A04 hexadecimal encoding found')
def decodes_all(r, f):
    """every element of the input goes through the table, in order; the decoder fails when the table does"""
    w = inst_w(r, f); q = r.run(f, INNER, key='dec', part=60, inv=True); o = out_param(r, f)
    pin = [i for i in range(f.argc) if i != o and 'Decoder' not in r.p.tys(f.locals[i + 1])][0]
    P = t('param', pin); nb = 0; hx = f.path.startswith('hex'); b64 = 'base_binary' in f.path
    for tr in r.traces(q):
        e = end(tr)
        if is_panic(tr): continue
        ff = facts_of(tr); ds = evs_named(tr, 'adec', 'hval')
        bad = [d for d in ds if isv(ff, d.ret, 1) is True]
        for d in ds:
            x = unref(d.snap[1] if d.name == 'adec' else d.snap[0])
            r.ok(x.k == 'idx' and x.a[0] is P, 'A04 a character of the input is looked up', w, d)
            if d.name == 'adec': r.ok(any(y.k == 'param' and y.a[0] == 0 for y in subterms(d.snap[0])), 'A04 it is looked up in the alphabet of the decoder', w, d)
        if bad: r.ok(e.kind == 'ret' and result(ret_of(tr), 1) is not None, 'A04 a byte that is not in the alphabet is an error', w, tr); continue
        ls = input_loops(q, tr, P)
        if e.kind == 'ret' and result(ret_of(tr), 0) is not None:
            g = ls and ls[0][2] == 'out' or exhausted(q, tr, P)
            if not g:
                # a counter known to have reached the end by other bounds (a buffer no longer than needed)
                cz = parity(ff, P); fz = {}; cs = [cz(c) for c in conds(tr)]
                for c in cs: assume(fz, c)
                for a in {y for c in cs for y in subterms(c) if y.k == 'phi'}:
                    for b in {i for o in r.traces(q) for i, _, _ in input_loops(q, o, P)}:
                        # counters of one loop that start and advance alike are equal
                        if a is not b and a.a[0] == b.a[0] and loop_index(q.g, a) is not None and loop_index(q.g, a) == loop_index(q.g, b): assume(fz, le(a, b)); assume(fz, le(b, a))
                g = any(decide(fz, le(cz(length(P)), scale(i, len(es) // loop_index(q.g, i)[1]))) is True for o in r.traces(q) for i, es, _ in input_loops(q, o, P))
            r.ok(g, 'A04 the whole input is decoded', w, tr)
        if e.kind != 'back' or not ls or ls[-1][2] != 'in': continue
        i, wd, _ = ls[-1]
        if len(ls) > 1 and not ds: continue      # a further pass (leading zeros) over an input that was decoded before
        if not any(p in phi_group(q.g, i) for p, _ in e.bv or ()): continue    # an inner loop of the iteration
        nb += 1
        got = [unref(d.snap[1] if d.name == 'adec' else d.snap[0]) for d in ds]
        if not ds and b64: r.ok(decide(ff, eqi(idx(P, i), I(0x3d))) is True, 'A04 only the padding is skipped', w, tr)
        else: r.ok(got == wd, 'A04 every character is decoded, in order', w, (got, wd))
    r.ok(nb, 'A04 the loop over the input was found', w)
def parity(ff, P):
    """an even length written as twice a half"""
    L = length(P)
    if decide(ff, eq0(t('mod', L, I(2)))) is True or decide(ff, eq0(TM.mod(L, I(2)))) is True:
        h = t('app', 'half', (P,)); TM.UNSIGNED.add(h)
        return lambda x: subst(subst(x, {t('div', L, I(2)): h, t('mod', L, I(2)): I(0)}), {L: scale(h, 2)})
    return lambda x: x
def input_loops(q, tr, P):
    """loops over the input: (counter, elements an iteration takes, 'in' / 'out'), in trace order, one entry per counter"""
    ff = facts_of(tr); cz = parity(ff, P); L = cz(length(P)); H = t('app', 'half', (P,)); out = {}
    for x in tr:
        if not isinstance(x, Cond): continue
        c = cz(x.t); neg = c.k == 'not'; c = c.a[0] if neg else c
        if c.k != 'gt0': continue
        k0, at = lin_of(c.a[0])
        for i, n in at:
            if i.k != 'phi' or abs(n) != 1: continue
            li = loop_index(q.g, i)
            if li is None or li[0] is not I(0): continue
            bound = mk_lin(k0, [(a, m) for a, m in at if a is not i])
            st = 'in' if n == -1 else 'out'
            if n == 1: bound = sub(I(1), bound)
            if neg: st = 'out' if st == 'in' else 'in'
            if bound is L and li[1] == 1: out[i] = (i, [idx(P, i)], st)
            elif bound is L and li[1] == 2: out[i] = (i, [idx(P, i), idx(P, add(i, I(1)))], st)
            elif bound is H and li[1] == 1: out[i] = (i, [idx(P, scale(i, 2)), idx(P, add(scale(i, 2), I(1)))], st)
    return list(out.values())
def hex_encodes(r, f):
    """two digits per byte, high half first"""
    w = inst_w(r, f); q = r.run(f, INNER, key='he', part=60, inv=True); n = 0
    for tr in r.traces(q):
        e = end(tr)
        if e.kind != 'back': continue
        ps = added(tr)
        if not r.ok(len(ps) == 2, 'A04 two hexadecimal digits per byte', w, tr): continue
        bs = set(); g = True
        for x, hi in zip(ps, (True, False)):
            if x is None: g = False; continue
            v = unref(x)
            by = [y for y in subterms(v) if y.k in ('idx', 'deref', 'ev', 'vfld') and y is not v]
            ok_ = False
            for b in by:
                if all(subst_eval(v, b, c) == b'0123456789abcdef'[c >> 4 if hi else c & 15] for c in range(256)): ok_ = True; bs.add(b)
            g = g and ok_
        r.ok(g and len(bs) >= 1, 'A04 the digits of a byte are its halves in the standard digits', w, ps); n += 1
    return n
def added(tr):
    """the elements an iteration appends to a list, in order (None in place of what is not understood)"""
    out = []
    for x in tr:
        if not isinstance(x, Ev): continue
        if x.name in ('Vec::push', 'String::push'): out.append(x.snap[1])
        elif x.name in ('Vec::extend_from_slice', 'Vec::extend', 'Vec::append'):
            y = unref(x.snap[1])
            if y.k == 'agg' and y.a[0] == 'array': out += list(y.a[2])
            else: out.append(None)
    return out
def subst_eval(v, b, c):
    x = ev_int(subst(v, {b: I(c)}))
    return x
def ev_int(x):
    """the value of a constant expression"""
    if x.k == 'int': return x.a[0]
    if x.k == 'lin':
        s = x.a[0]
        for a, k in x.a[1]:
            y = ev_int(a)
            if y is None: return None
            s += k * y
        return s
    if x.k in ('div', 'mod', 'mul', 'and', 'or', 'xor'):
        a, b = ev_int(x.a[0]), ev_int(x.a[1])
        if a is None or b is None: return None
        if x.k in ('div', 'mod') and b == 0: return None
        return {'div': lambda: a // b, 'mod': lambda: a % b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[x.k]()
    if x.k == 'pow2':
        a = ev_int(x.a[0]); return None if a is None or a < 0 else 1 << a
    if x.k == 'idx':
        i = ev_int(x.a[1]); v = x.a[0]
        while v.k in ('deref', 'clone', 'ref') and isinstance(v.a[0], T): v = v.a[0]
        if i is not None and v.k == 'agg' and 0 <= i < len(v.a[2]): return ev_int(v.a[2][i])
        if i is not None and v.k == 'str': return (v.a[0].encode() if isinstance(v.a[0], str) else v.a[0])[i]
    if x.k == 'app' and x.a[0] == 'isize::div_euclid':
        a, b = ev_int(x.a[1][0]), ev_int(x.a[1][1])
        if a is None or not b: return None
        q_ = abs(a) // abs(b)
        if a < 0 and abs(a) % abs(b): q_ += 1
        return q_ if (a < 0) == (b < 0) else -q_
    return None
# ---------------------------------------------------------------------- A05
def from_node(x, aw, allow_idx=None):
    """x is the text the node answered (or the given element of the list it answered), untouched"""
    x = unref(x)
    while True:
        if x is vfld(aw, 0, 0): return allow_idx is None
        if x.k in ('ver', 'vphi', 'upd', 'slice', 'reversed'): return False
        if x.k == 'idx':
            if allow_idx is None or x.a[1] is not allow_idx: return False
            allow_idx = None; x = unref(x.a[0]); continue
        if x.k == 'vfld': x = unref(x.a[0]); continue
        if x.k == 'app' and x.a[0] in ('value::from_value', 'Value::as_str', 'Value::as_array', 'de::from_value', 'serde_json::from_value'): x = unref(x.a[1][-1]); continue
        return False
def is_ev(x, name):
    x = unref(x)
    return x if x.k == 'ev' and x.a[1] == name else None
def okv(x):
    """the value that succeeded: x = Ok(value of ev)"""
    x = unref(x)
    return unref(x.a[0]) if x.k == 'vfld' and x.a[1] == 0 else x
def as_json_text(x):
    x = unref(x)
    while x.k in ('json', 'to_string') or x.k == 'agg' and len(x.a[2]) == 1: x = unref(x.a[0] if x.k != 'agg' else x.a[2][0])
    return x
def A05(r):
    r.rule('a hash given to the node is the reversed hexadecimal of the parameter and one it answers is reversed back, whole and untouched; raw data is plain hexadecimal; answers show the reversed hexadecimal of the output\'s own hash; the reversing codec reverses exactly')
    users, op = ND.lookup_fns(r); seen = set()
    for f in users.values():
        q = r.run(f, op, key='lk', part=40); w = inst_w(r, f); n = 0
        for tr in r.traces(q):
            e = end(tr); ff = facts_of(tr)
            if is_panic(tr): continue
            rs = evs_named(tr, 'request')
            if len(rs) != 1: r.ok(False, 'A05 a lookup asks once', w, tr); continue
            m = unref(rs[0].snap[1]); meth = m.a[0] if m.k == 'str' else None
            ps = unref(rs[0].snap[2])
            aw = [x.ret for x in tr if isinstance(x, Ev) and x.name == 'await' and x.snap[0] is rs[0].ret]
            if meth in ('getrawtransaction', 'getblock'):
                g = ND.args_of(ps)
                y = is_ev(as_json_text(g[0]), 'rhexenc') if g else None
                r.ok(y is not None and same(unref(y.a[2][0]), t('param', 1)), 'A05 the hash asked for is sent reversed', w, ps)
            n += 1; seen.add(meth)
            if not aw or isv(ff, aw[0], 0) is not True: continue
            aw = aw[0]
            for x in evs_named(tr, 'hexdec', 'hexdec_into', 'rhexdec', 'rhexdec_into'):
                raw = meth in ('getrawtransaction', 'getblock')
                r.ok(x.name.startswith('hex') == raw, 'A05 hashes are reversed and raw data is not', w, x)
            if e.kind == 'back':
                if meth != 'getrawmempool': continue
                ls = [l for l in loop_tests(q, tr) if l.state == 'in' and l.step == 1 and l.lo is I(0)]
                ins = [x for x in tr if isinstance(x, Ev) and x.name in ('Vec::push', 'VecDeque::push_back')]
                if not r.ok(len(ls) == 1 and len(ins) == 1, 'A05 every hash of the list is taken, once and in order', w, tr): continue
                src = ls[0].src
                r.ok(src.k == 'len' and from_node(src.a[0], aw), 'A05 the list is the one the node answered', w, src)
                v = okv(ins[0].snap[1])
                if v.k == 'ver': v, buf = v.a[1], v
                d = is_ev(v, 'rhexdec_into') or is_ev(v, 'rhexdec') or (is_ev(okv(v.a[1][-1]), 'rhexdec') if v.k == 'app' else None)
                r.ok(d is not None and from_node(d.a[2][0], aw, ls[0].i), 'A05 the element is the reversed hexadecimal of the list\'s element', w, ins[0])
                continue
            v = ret_of(tr) if e.kind == 'ret' else None
            if v is None: continue
            if meth == 'getrawmempool':
                lst = unref(v)
                r.ok(lst.k == 'vphi' and all(y.k == 'newc' or y.k == 'ver' and y.a[1].k == 'ev' and y.a[1].a[1] in ('Vec::push',) and y.a[0] is lst for y in q.g.phi.get(lst, ())), 'A05 the list is returned as collected', w, v)
                r.ok(any(l.state == 'out' and l.src.k == 'len' and from_node(l.src.a[0], aw) for l in loop_tests(q, tr)), 'A05 the whole list is returned', w, tr)
                continue
            x = okv(v.a[2][0]) if v.k == 'agg' and v.a[0] == OPT and v.a[1] == 1 else okv(v)
            if meth == 'getrawtransaction':
                x = is_ev(x, 'txdec'); x = okv(x.a[2][0]) if x is not None else None
            want = 'rhexdec' if meth == 'getblockhash' else 'hexdec'
            d = is_ev(x, want) if x is not None else None
            r.ok(d is not None and from_node(d.a[2][0], aw), f'A05 {meth} gives what the node answered, untouched', w, v)
        r.ok(n, 'A05 the lookup was analysed', w)
    r.ok({'getrawtransaction', 'getblockhash', 'getblock', 'getrawmempool'} <= seen, 'A05 the lookups were found', None, seen)
    # answers
    from . import http as HT
    k = 0
    for rt in HT.routes(r):
        kk = HT.TABLE.get((rt.method, re.sub(r'\{[^{}]*\}', '{}', rt.uri)))
        for tr in rt.traces:
            if end(tr).kind != 'ret' or (HT.response(tr) or (0,))[0] != 200: continue
            kd, s_, d = HT.kind_of(r, rt, tr)
            if kk is None or 'utxo' in str(kk) or 'output' in str(kk):
                r.ok(kd is not None and (kk is None or kd == kk), 'A05 answers show each output\'s hash reversed', rt.where, (kd, d)); k += 1
    r.ok(k, 'A05 answers with hashes found', None, k)
    # plain hexadecimal never shows a hash
    for f, line, d, c in calls(r):
        if re.search(r'(^|::)hex::(encode|encode_iterator)$', d) and not re.search(r'(^|::)(reverse_)?hex::', strip_generics(f.path)):
            r.ok(False, 'A05 no hash is shown unreversed', f'{f.path}:{line}', d)
    reverse_codec(r)
def reverse_codec(r):
    op = path_opq([(r'^hex::decode$', 'hexdec'), (r'^hex::decode_into$', 'hexdec_into'), (r'^hex::value$', 'hval')]); n = 0
    for f in r.the(path=r'^reverse_hex::', kind='fn'):
        w = inst_w(r, f); q = r.run(f, op, key='rv', part=60, inv=True)
        if f.name not in ('decode', 'decode_into', 'encode'): continue
        for tr in r.traces(q):
            e = end(tr); ff = facts_of(tr)
            if f.name == 'encode':
                # the bytes are visited from the last to the first
                if e.kind != 'back': continue
                P = t('param', 0); ps = added(tr)
                ls = [l for l in loop_tests(q, tr) if l.state == 'in']
                r.ok(ps and None not in ps and ls, 'A05 reversed encoding visits every byte', w, tr); n += 1
                for x in ps:
                    el = [y for y in subterms(x) if y.k == 'idx' and y.a[0] is P]
                    g = False
                    for l in ls:
                        L = length(P)
                        if is_int(L) is False and arraylen(r.p, f, P) is not None: L = I(arraylen(r.p, f, P))
                        for LL in {L, length(P)}:
                            if l.step == -1 and N(l.lo) is N(LL) and el == [idx(P, sub(l.i, I(1)))] and l.raw in (gt0(l.i), not_(eq0(l.i))): g = True
                            if l.step == 1 and l.lo is I(0) and N(l.src) is N(LL) and el == [idx(P, sub(sub(LL, I(1)), l.i))]: g = True
                    r.ok(g, 'A05 reversed encoding runs from the last byte to the first', w, (el, ls))
                continue
            if is_panic(tr):
                d = evs_named(tr, 'hexdec_into')
                r.ok(d and beyond(tr, ff, d[0]), 'A05 reversed decoding never panics', w, tr); continue
            ds = evs_named(tr, 'hexdec', 'hexdec_into')
            if e.kind != 'ret' or len(ds) != 1: r.ok(False, 'A05 reversed decoding decodes once', w, tr); continue
            d = ds[0]; v = ret_of(tr); n += 1
            r.ok(same(unref(d.snap[0]), t('param', 0)), 'A05 the whole text is decoded', w, d)
            if isv(ff, d.ret, 1) is True: r.ok(result(v, 1) is not None, 'A05 a decoding error is passed on', w, tr); continue
            x = result(v, 0); o = vfld(d.ret, 0, 0)
            if f.name == 'decode': r.ok(x is not None and x.k == 'reversed' and x.a[0] is o, 'A05 the decoded bytes are reversed', w, v)
            else:
                rv = [z for z in effects(tr[tr.index(d) + 1:])]
                D = ver_of(d)
                g = x is o and len(rv) == 1 and rv[0].op == 'reverse' and inner(rv[0].ev.snap[0], D, o)
                r.ok(g, 'A05 exactly the decoded bytes are reversed', w, (v, rv))
    r.ok(n, 'A05 the reversing codec was found')
def inner(x, D, n):
    x = unref(x)
    return x.k == 'slice' and x.a[0] is D and x.a[1] is I(0) and x.a[2] is n or x is D and length(D) is n
# ---------------------------------------------------------------------- A06
UNCHECKED = re.compile(r'(^|::)(String|str|str::converts)::from_utf8_unchecked(_mut)?$|from_boxed_utf8_unchecked$')
RAW = re.compile(r'(^|::)(str::as_bytes_mut|String::as_mut_vec|String::from_raw_parts|str::from_raw_parts|transmute_copy)$')
APPENDS = ('push', 'extend_from_slice', 'append', 'extend', 'insert', 'resize', 'fill', 'push_back')
KEEPS = ('truncate', 'reverse', 'clear', 'reserve', 'shrink_to_fit', 'pop', 'sort', 'sort_unstable', 'swap', 'rotate_left', 'rotate_right', 'reserve_exact', 'dedup')
def contents(q, x):
    """every value an element of the list may have; None where unknown"""
    out = set(); seen = set(); todo = [x]
    def single(y): out.add(N(y))
    while todo:
        y = todo.pop(); y = unref(y)
        if y in seen: continue
        seen.add(y)
        if y.k == 'newc': continue
        if y.k == 'rep': single(y.a[0])
        elif y.k == 'agg' and y.a[0] == 'array': [single(z) for z in y.a[2]]
        elif y.k == 'str':
            if any(ord(c) > 127 for c in str(y.a[0])): out.add(None)
        elif y.k in ('slice', 'reversed', 'clone'): todo.append(y.a[0])
        elif y.k == 'upd':
            todo.append(y.a[0])
            if y.a[1][0] == 'i': single(y.a[2])
            elif y.a[1][0] == 'sl': todo.append(y.a[2])
            else: out.add(None)
        elif y.k in ('vphi', 'phi'):
            todo += list(q.g.phi.get(y, ()))
            if y.k == 'vphi': todo.append(y.a[0])
            if not q.g.phi.get(y): out.add(None)
        elif y.k == 'ver' and y.a[1].k == 'ev':
            op = y.a[1].a[1].split('::')[-1]; args = y.a[1].a[2]
            todo.append(y.a[0])
            if op in KEEPS: pass
            elif op == 'push' or op in ('insert', 'resize', 'fill', 'push_back') and len(args) > 1: single(args[-1])
            elif op in ('extend_from_slice', 'append', 'extend', 'slice_store', 'copy_from_slice', 'clone_from_slice'): todo.append(args[-1])
            else: out.add(None)
        else: out.add(y if y.k in ('param', 'fld', 'ev', 'vfld') else None)
    return out
def top(x):
    """an upper bound of an unsigned value"""
    us = [u for u in (top_(x), MAXV.get(x)) if u is not None]
    return min(us) if us else None
def top_(x):
    if x.k == 'int': return x.a[0]
    if x.k == 'lin':
        s = x.a[0]
        for a, k in x.a[1]:
            if k > 0:
                u = top(a)
                if u is None: return None
                s += k * u
        return s
    if x.k == 'mod' and is_int(x.a[1]):
        u = top(x.a[0]); return min(x.a[1].a[0] - 1, u) if u is not None else x.a[1].a[0] - 1
    if x.k == 'and':
        us = [u for u in (top(y) for y in x.a) if u is not None]
        return min(us) if us else None
    if x.k == 'div' and is_int(x.a[1]) and x.a[1].a[0] > 0:
        u = top(x.a[0]); return None if u is None else u // x.a[1].a[0]
    if x.k == 'idx':
        b = unref(x.a[0])
        if b.k == 'agg' and b.a[0] == 'array': us = [top(y) for y in b.a[2]]; return None if None in us or not us else max(us)
        if b.k == 'str': return max(map(ord, b.a[0]), default=0)
    return None
def ascii_(q, trs, x, alph):
    if x is None: return False
    if x.k == 'ev' and x.a[1] == 'aenc': return alph
    u = top(x)
    if u is not None and 0 <= u < 128: return True
    # bounded by the checks on the way to where it is stored
    n = 0
    for tr in trs:
        if any(y is x for it in tr if isinstance(it, (Ev, End)) for y in parts_of(it)):
            n += 1
            ff = facts_of(tr)
            if decide(ff, gt0(sub(I(128), x))) is not True: return False
    return n > 0
def parts_of(it):
    if isinstance(it, Ev):
        for z in it.snap:
            if isinstance(z, T): yield from subterms(z)
    else:
        for p_, z in it.bv or (): yield from subterms(z)
def alphabets(r):
    """the encode tables of every alphabet constant of the program, and every place that builds one at run time"""
    tabs = []; built = []
    for f in r.p.fns.values():
        if f.synth: continue
        todo = [f.blocks]
        while todo:
            x = todo.pop()
            if isinstance(x, dict):
                if isinstance(x.get('adt'), str) and x['adt'].split('<')[0].split('::')[-1] == 'Alphabet' and 'f' in x: tabs.append((f, x))
                todo += list(x.values())
            elif isinstance(x, (list, tuple)): todo += list(x)
        for b in f.blocks:
            for s in b[0]:
                if s[0] == '=' and s[2].get('k') == 'agg' and s[2].get('ty') is not None and struct_is(r.p, s[2]['ty'], 'Alphabet'): built.append(f)
    return tabs, built
def A06(r):
    r.rule('every value that may be stored in a buffer handed to an unchecked bytes-to-text conversion is an ASCII constant, an entry of an ASCII table, or bounded below 128; every alphabet of the program holds ASCII only')
    sites = {}; 
    for f, line, d, c in calls(r):
        if UNCHECKED.search(d): sites.setdefault(f.id, (f, []))[1].append(line)
        elif RAW.search(d): r.ok(False, 'A06 text is not rewritten behind its back', f'{f.path}:{line}', d)
        elif d.endswith('::transmute') and re.search(r'\bstr\b|String', r.p.tys(c['args'][-1])): r.ok(False, 'A06 bytes are not recast as text', f'{f.path}:{line}', d)
    for f, line in recast(r): r.ok(False, 'A06 bytes are not recast as text', f'{f.path}:{line}')
    # the tables
    tabs, built = alphabets(r); alph = True
    for f, x in tabs:
        fs = [v['a'] for v in x['f'] if 'a' in v and all('i' in y for y in v['a'])]
        g = len(fs) == 1 and all(0 <= int(y['i']) < 128 for y in fs[0])
        alph &= r.ok(g, 'A06 the alphabet holds ASCII characters only', W(f), len(fs))
    for f in built:
        g = alphabet_checked(r, f)
        alph &= r.ok(g, 'A06 an alphabet built at run time is checked to hold ASCII characters only', W(f))
    ws = [(f, line, h) for f, line, h in struct_writers(r, 'Alphabet') if f not in built]
    alph &= r.ok(not ws, 'A06 alphabets never change', None, [(f.path, l, h) for f, l, h in ws])
    for f in r.fns('encode', 'Alphabet'):
        q = r.run(f, opq(LOGS), key='al', part=60)
        for tr in r.traces(q):
            if end(tr).kind != 'ret': continue
            v = unref(end(tr).val)
            alph &= r.ok(v.k == 'idx' and v.a[0].k in ('fld', 'idx') and any(y is t('param', 0) for y in subterms(v.a[0])), 'A06 the character of a value is an entry of the alphabet', W(f), v)
    cg = callgraph(r); done = set(); todo = [(f, 0) for f, _ in sites.values()]; n = 0
    while todo:
        f, dep = todo.pop()
        if f.id in done: continue
        done.add(f.id)
        w = inst_w(r, f); q = r.run(f, INNER, key='u8', part=60, inv=True); outer = False
        for x in {x for tr in r.traces(q) for x in tr if isinstance(x, Ev) and UNCHECKED.search(x.name)}:
            n += 1
            for v in sorted(contents(q, x.snap[0]), key=str):
                if v is not None and root_of(v) is not None and root_of(v).k == 'param' and v.k in ('param', 'fld') and dep < 4: outer = True; continue
                r.ok(ascii_(q, r.traces(q), v, alph), 'A06 only ASCII bytes become text unchecked', w, (v, x.snap[0]))
        if outer:
            cs = [r.p.fns[i] for i in cg.get(f.id, ()) if i in r.p.fns]
            r.ok(cs, 'A06 the bytes that become text unchecked are known', w)
            todo += [(c, dep + 1) for c in cs]
    r.ok(n >= len(sites), 'A06 every unchecked conversion was analysed', None, (n, len(sites)))
def recast(r):
    """bytes reinterpreted as text"""
    for f in r.p.fns.values():
        if not f.local or f.synth: continue
        for b in f.blocks:
            for s in b[0]:
                if s[0] == '=' and s[2].get('k') == 'cast' and ('Transmute' in s[2]['ck'] or s[2]['ck'].startswith('PtrToPtr')) and re.search(r'\bstr\b|String', r.p.tys(s[2]['ty'])): yield f, s[3] if len(s) > 3 else 0
def alphabet_checked(r, f):
    q = r.run(f, opq(LOGS), key='ac', part=60, inv=True); n = 0
    for tr in r.traces(q):
        v = end(tr).val if end(tr).kind == 'ret' else None
        if v is None: continue
        for y in subterms(v):
            if y.k == 'agg' and strip_generics(y.a[0]).split('<')[0].split('::')[-1] == 'Alphabet':
                n += 1
                if not all(ascii_(q, r.traces(q), z, False) for z in contents(q, y.a[2][0])): return False
    return n > 0
# ---------------------------------------------------------------------- A07
def vname(p, x):
    """the name of the variant an enum value has"""
    if x.k != 'agg': return None
    for ty in p.types:
        if ty['k'] == 'adt' and ty.get('path') == x.a[0] and x.a[1] < len(ty['variants']): return ty['variants'][x.a[1]][0]
    return None
def too_small(p, v):
    e = result(v, 1)
    return e is not None and any(y.k == 'agg' and vname(p, y) == 'BufferTooSmall' for y in subterms(e))
def heads_of(q, trs):
    """loop head -> loop-carried values"""
    out = {}
    for tr in trs:
        e = end(tr)
        if e.kind == 'back':
            for ph, v in e.bv or (): out.setdefault(e.val, {}).setdefault(ph, set()).add(v)
    return out
def sure(ff, c):
    """True / False when it follows from the facts (combining several)"""
    d = decide(ff, c)
    if d is not None: return d
    if c.k == 'not':
        d = sure(ff, c.a[0]); return None if d is None else not d
    if c.k == 'gt0':
        if prove(ff, c.a[0]): return True
        if prove(ff, sub(I(1), c.a[0])): return False
    return None
class Buf:
    """bounds and exactness of writes into the caller's buffer"""
    def __init__(self, r, f):
        self.r = r; self.f = f; self.w = inst_w(r, f); self.o = out_param(r, f); self.OUT = t('param', self.o); self.LEN = length(self.OUT)
        self.q = r.run(f, INNER, key='dec', part=60, inv=True); self.trs = r.traces(self.q)
        pin = [i for i in range(f.argc) if i != self.o and not re.search('(De|En)coder', r.p.tys(f.locals[i + 1]))]
        self.P = t('param', pin[0]); self.heads = heads_of(self.q, self.trs); self._c = {}; self.step = {}
        self.half = {}; self.halves()
        self.group(); self.lockstep()
    def halves(self):
        """a counter that goes up by two is twice one that goes up by one"""
        g = self.q.g
        for h, ps in self.heads.items():
            for p in list(ps):
                li = loop_index(g, p) if p.k == 'phi' else None
                if li is None or li[0] is not I(0) or li[1] != 2 or not all(v is add(p, I(2)) for v in ps[p]): continue
                p2 = t('phi', p.a[0], ('H', p.a[1])); TM.UNSIGNED.add(p2)
                g.phi[p2] = [I(0), add(p2, I(1))]; ps[p2] = {add(p2, I(1))}; del ps[p]; self.half[p] = scale(p2, 2)
    def h(self, x): return subst(x, self.half) if self.half and x.k != 'int' else x
    def bvs(self, e): return [(p, v) if p not in self.half else (lin_of(self.half[p])[1][0][0], TM.div(self.h(v), I(2))) for p, v in e.bv or ()]
    def c(self, x):
        """canonical: the buffer never changes its length"""
        if x in self._c: return self._c[x]
        x0 = x; x = self.h(x); m = {}
        for y in subterms(x):
            if y.k == 'len' and y is not self.LEN and root_of(y.a[0]) is self.OUT: m[y] = self.LEN
            if y in self.step: m[y] = self.step[y]
        z = subst(x, m) if m else x
        self._c[x0] = z
        return z
    def group(self):
        """the loop-carried values that count the bytes produced"""
        q = self.q; ns = set(); self.total = None
        for tr in self.trs:
            if end(tr).kind == 'ret' and result(ret_of(tr), 0) is not None: ns.add(self.h(result(ret_of(tr), 0)))
        self.ns = ns
        todo = [y for n in ns for y in subterms(n) if y.k == 'phi']
        if not todo:
            # a count known beforehand: the stores tell the position
            if len(ns) == 1: self.total = next(iter(ns))
            for tr in self.trs:
                for x in tr:
                    if isinstance(x, Ev) and x.kind == 'store' and x.snap[0].k == 'idx' and root_of(x.snap[0].a[0]) is self.OUT: todo += [y for y in subterms(self.h(x.snap[0].a[1])) if y.k == 'phi']
        G = set()
        while todo:
            y = todo.pop()
            if y in G: continue
            G.add(y)
            for z in q.g.phi.get(y, ()): todo += [u for u in subterms(z) if u.k == 'phi']
        self.G = G
    def lockstep(self):
        """counters that start equal and advance together are one"""
        for h, ps in self.heads.items():
            def shape(p):
                init = {x for x in self.q.g.phi.get(p, ()) if not any(y is p for y in subterms(x))}
                steps = {sub(v, p) for v in ps[p]}
                return (frozenset(init), frozenset(steps)) if len(steps) == 1 and all(map(is_int, steps)) and len(init) == 1 else None
            for g in [p for p in ps if p in self.G]:
                for p in ps:
                    if p is not g and p not in self.G and shape(g) is not None and shape(p) == shape(g): self.step[p] = g
    def reads(self, x, known):
        """positions of the buffer a term looks at"""
        out = []
        for y in subterms(x):
            if y.k == 'idx' and root_of(y.a[0]) is self.OUT: out.append(y)
        return out
    def check(self):
        r, q, w = self.r, self.q, self.w; entry = {}; nok = 0; nstore = 0
        for tr in self.trs:
            e = end(tr); cz = parity(facts_of(tr), self.P); C = lambda x: cz(self.c(x))
            ff = {}; cur = I(0); g0 = I(0); LEN = self.LEN; over = None; seen_over = False
            tot = C(self.total) if self.total is not None else None
            for g in self.G: assume(ff, le(I(0), g))
            ff0 = {}
            for i, x in enumerate(tr):
                if isinstance(x, Loop):
                    hs = self.heads.get(x.n, {})
                    gs = [p for p in hs if p in self.G]
                    for p_ in gs: entry.setdefault(p_, set()).add(cur)
                    if len(gs) == 1: cur = gs[0]; assume(ff, le(cur, LEN)); g0 = cur
                    elif gs: r.ok(False, 'A07 one count of the bytes produced', w, gs); return
                    else: g0 = cur
                elif isinstance(x, Cond):
                    c = C(x.t)
                    for y in self.reads(x.t, cur): self.read(y, cur, ff, C, tr, c)
                    was = sure(ff, le(LEN, cur)); fit = sure(ff, c) is False or not assume(ff, c)
                    if fit: ff = dict(ff); ff['#'] = True; break
                    small = sure(ff, le(LEN, cur)) is True and was is not True and not (tot is not None and sure(ff, le(tot, cur)) is True) or tot is not None and sure(ff, gt0(sub(tot, LEN))) is True
                    if small: over = x
                elif isinstance(x, Ev):
                    if x.kind == 'store' and root_of(strip1(x.snap[0])) is self.OUT:
                        pl = x.snap[0]; nstore += 1
                        for y in self.reads(x.snap[1], cur): self.read(y, cur, ff, C, tr)
                        if not r.ok(pl.k == 'idx', 'A07 the buffer is written byte by byte', w, pl): continue
                        j = C(pl.a[1])
                        if j is C(cur):
                            r.ok(sure(ff, gt0(sub(LEN, cur))) is True, 'A07 a byte is only produced where the buffer has room', w, tr)
                            cur = add(cur, I(1)); assume(ff, le(cur, LEN))
                        else: r.ok(sure(ff, gt0(sub(cur, j))) is True, 'A07 a byte is produced right after those before it', w, (j, cur))
                    else:
                        for z in effects([x]):
                            b = unref(z.ev.snap[0])
                            if root_of(strip1(b)) is not self.OUT: continue
                            g = z.op == 'reverse' and b.k == 'slice' and b.a[1] is I(0) and C(b.a[2]) is C(cur)
                            r.ok(g, 'A07 the bytes produced are only rearranged as a whole', w, z)
            if '#' in ff: continue     # contradictory
            if e.kind == 'panic':
                last = [x.t for x in tr if isinstance(x, Cond)]
                why = self.c(last[-1]) if last else None
                hit = why is None or any(y is LEN or y in self.G or y.k == 'idx' and root_of(y.a[0]) is self.OUT for y in subterms(why, {y for y in subterms(why) if y.k == 'ev'}))   # not what input is looked at
                if hit and not (why is not None and why.k == 'ovf' and why.a[4] == 64 and why.a[0] in ('Add', 'Mul')): r.ok(False, 'A07 no buffer makes it panic', w, tr)
                elif hit: r.ok(True, 'A07 no buffer makes it panic', w)
                continue
            if e.kind == 'back':
                for p_, v in self.bvs(e):
                    for y in self.reads(v, g0): self.read(y, g0, ff, C, tr)
                    if p_ in self.G: r.ok(C(v) is C(cur), 'A07 the count grows with every byte produced', w, (v, cur))
                r.ok(over is None, 'A07 a buffer that is too small is an error', w, tr)
                continue
            v = ret_of(tr)
            x = result(v, 0)
            if x is not None:
                nok += 1; cx = C(x)
                g = cx is C(cur) or sure(ff, le(cur, cx)) is True and sure(ff, le(cx, cur)) is True or tot is not None and cx is tot and (sure(ff, le(tot, cur)) is True or all_done(q, tr, cur, tot, C))
                r.ok(g, 'A07 the answer is the number of bytes produced', w, (x, cur))
                r.ok(over is None, 'A07 a buffer that is too small is an error', w, tr)
            elif too_small(r.p, v):
                r.ok(over is not None, 'A07 only a buffer that is too small is reported as such', w, tr)
            else: r.ok(v.k == 'agg' and over is None, 'A07 a buffer that is too small is reported as such', w, tr)
        for g in self.G:
            ins = self.q.g.phi.get(g, ()) if g in entry else ()   # never reached otherwise
            known = {self.c(x) for x in entry.get(g, ())} | {self.c(v) for h in self.heads.values() for v in h.get(g, ())}
            for x in ins: r.ok(self.c(x) in known or x is g, 'A07 the count starts where it was', self.w, (g, x))
        r.ok(nok and nstore, 'A07 the bytes produced were found', w, (nok, nstore))
    def read(self, y, cur, ff, C, tr, c=None):
        ff = dict(ff)
        if c is not None and c.k == 'gt0': pass
        self.r.ok(sure(ff, gt0(sub(cur, C(y.a[1])))) is True, 'A07 only bytes produced before are looked at', self.w, (y, cur))
def all_done(q, tr, cur, tot, C):
    """the counter ran up to the total"""
    li = loop_index(q.g, cur) if cur.k == 'phi' else None
    if li is None or li[1] != 1 or li[0] is not I(0): return False
    return any(isinstance(x, Cond) and C(x.t) is gt0(sub(add(cur, I(1)), tot)) for x in tr)
_DIG = [0]
def digits58(n):
    """digits of the largest number of n bytes in base 58"""
    while len(_DIG) <= n:
        v = 256 ** len(_DIG) - 1; k = _DIG[-1]
        while 58 ** k <= v: k += 1
        _DIG.append(k)
    return max(n, _DIG[n])
NEED = {'b58dec': lambda n: n, 'b58enc': digits58, 'b64dec': lambda n: 6 * n // 8, 'b64enc': lambda n: 4 * ((n + 2) // 3), 'hexdec': lambda n: n // 2}
CORES = [(r'base58::decode::Decoder::decode_into$', 'b58dec'), (r'base58::encode::Encoder::encode_into$', 'b58enc'), (r'base_binary::decode::Decoder::decode_into$', 'b64dec'), (r'base_binary::encode::Encoder::encode_into$', 'b64enc'), (r'^hex::decode_into$', 'hexdec')]
def A07(r):
    r.rule('in every codec that writes to its caller\'s buffer the count of bytes produced grows by one with every store, stores happen at the count and only below the length of the buffer, running out of room is exactly the error, no panic depends on the buffer, only positions below the count are read, and the count is returned; buffers allocated inside are large enough for every input')
    n = 0
    fs = codec_fns(r, r'^(base58|base_binary)::(de|en)code::(De|En)coder', ('decode_into', 'encode_into')) + codec_fns(r, r'^hex::', ('decode_into',))
    for f in fs: Buf(r, f).check(); n += 1
    r.ok(n >= 5, 'A07 the codecs were found', None, n)
    op = path_opq(CORES); names = [b for _, b in CORES]; k = 0
    for f in r.the(path=r'^(base58|base64|base_binary|base58_check|hex|reverse_hex)::', kind='fn'):
        if f.name not in ('decode', 'encode', 'decode_into', 'encode_into') or f.id in {g.id for g in fs}: continue
        if f.path.startswith('base_common'): continue
        q = r.run(f, op, key='cap', part=60); w = inst_w(r, f)
        for tr in r.traces(q):
            cs = evs_named(tr, *names)
            if len(cs) != 1: continue
            c = cs[0]; buf = unref(c.snap[-1]); inp = unref(c.snap[-2])
            if root_of(buf).k == 'param':
                k += 1; r.ok(buf.k == 'param' and out_param(r, f) == buf.a[0], 'A07 the caller\'s whole buffer is used', w, c)
                if is_panic(tr): r.ok(beyond(tr, facts_of(tr), c), 'A07 no buffer makes it panic', w, tr)
                else: r.ok(passes_on(r, tr, c), 'A07 the outcome is passed on', w, tr)
                continue
            k += 1; cap = length(buf); L = length(inp)
            ff = facts_of(tr); o = vfld(c.ret, 0, 0)
            r.ok(enough(cap, L, NEED[c.name]), 'A07 a buffer allocated inside is large enough for every input', w, (c.name, cap))
            if c.name == 'hexdec' and isv(ff, c.ret, 0) is not False:
                m = {o: div(L, I(2)), length(ver_of(c)): cap}; ff = {}
                if not all(assume(ff, subst(x, m)) for x in conds(tr)): continue
            if is_panic(tr): r.ok(isv(ff, c.ret, 1) is True and c.name.endswith('enc') or beyond(tr, ff, c), 'A07 coding into an own buffer never panics', w, tr); continue
            v = end(tr).val; x = result(v, 0) if v.k == 'agg' else None
            if f.name == 'encode' and not (v.k == 'agg' and v.a[0] == RES): x = v
            if x is None: r.ok(isv(ff, c.ret, 1) is True and passes_on(r, tr, c) or not f.path.startswith(('base58:', 'base64', 'base_binary', 'hex')), 'A07 only a failure of the codec is a failure', w, tr)
            elif f.path.startswith(('base58:', 'base64', 'base_binary', 'hex')) or f.name == 'encode':
                r.ok(isv(ff, c.ret, 0) is True or c.name.endswith('enc'), 'A07 success is success of the codec', w, tr)
                r.ok(trunc(ff, x, ver_of(c), o, cap if c.name == 'hexdec' else None), 'A07 exactly the bytes produced are returned', w, (x, o))
    r.ok(k, 'A07 the functions around the codecs were found', None, k)
ERRS = {'b58dec': 'base58::decode::Error', 'b58enc': 'base58::encode::Error', 'b64dec': 'base_binary::decode::Error', 'b64enc': 'base_binary::encode::Error', 'hexdec': 'hex::Error'}
def passes_on(r, tr, c):
    """a too small buffer is reported as such, and nothing else is"""
    ff = facts_of(tr); v = ret_of(tr); err = vfld(c.ret, 1, 0)
    if v is c.ret: return True
    if isv(ff, c.ret, 1) is not True: return not too_small(r.p, v)
    e = result(v, 1)
    if e is None: return False
    if any(y is err for y in subterms(e)): return True
    for ty in r.p.types:
        if ty['k'] == 'adt' and ty.get('path') == ERRS[c.name]:
            for i, x in enumerate(ty['variants']):
                if x[0] == 'BufferTooSmall':
                    d = isv(ff, err, i)
                    return d is not None and d == too_small(r.p, v)
    return False
def enough(cap, L, need):
    """cap >= need(L) for every length: pointwise up to a bound, and the growth over a period beyond it"""
    k0, at = lin_of(L)
    if len(at) != 1 or at[0][1] != 1: return False
    cap = subst(bits6(cap), {at[0][0]: t('app', 'n', ())}); A = t('app', 'n', ())
    key = (cap, need, k0)
    if key in _ENOUGH: return _ENOUGH[key]
    P = 120
    for y in subterms(cap):
        if y.k in ('div', 'mod') and is_int(y.a[1]) and y.a[1].a[0] > 0: P = math.lcm(P, y.a[1].a[0])
    g = P <= 3000
    if g:
        cs = [ev_int(subst(cap, {A: I(n)})) for n in range(0, 2 * P + 100)]; ns = [need(n + k0) for n in range(0, 2 * P + 100)]
        g = None not in cs and all(a >= b for a, b in zip(cs, ns))
    if g:
        steps = {cs[n + P] - cs[n] for n in range(0, P + 100)}
        g = len(steps) == 1 and steps.pop() >= max(ns[n + P] - ns[n] for n in range(0, P + 100))
    _ENOUGH[key] = g
    return g
_ENOUGH = {}
def bits6(x):
    m = {y: I(6) for y in subterms(x) if y.k == 'fld' and y.a[0].k in ('param', 'deref', 'fld') and y.a[1] == 1}
    return subst(x, m) if m else x
# ---------------------------------------------------------------------- A08
class Conv(Buf):
    """a codec as a conversion: the traces, split at their loops"""
    def __init__(self, r, f):
        super().__init__(r, f); self.ff = {}; self.pz = {}
        self.cut = {id(tr): [i for i, x in enumerate(tr) if isinstance(x, Loop)] for tr in self.trs}
        self.trs = [tr for tr in self.trs if self.possible(tr)]
        self.outs = [tr for tr in self.trs if end(tr).kind == 'ret']
    def loops(self, tr): return [tr[i].n for i in self.cut[id(tr)]]
    def seg(self, tr, h):
        """what happens between reaching loop h and the next loop or the end"""
        cs = self.cut[id(tr)]
        for n, i in enumerate(cs):
            if tr[i].n == h: return tr[i:cs[n + 1] if n + 1 < len(cs) else len(tr)]
        return []
    def possible(self, tr):
        """(never more bytes are counted than the buffer has: A07)"""
        f = {}
        for h in self.loops(tr):
            for p in self.heads.get(h, {}):
                if p in self.G: assume(f, le(p, self.LEN))
        return all(assume(f, self.c(c)) for c in conds(tr))
    def facts(self, tr):
        f = self.ff.get(id(tr))
        if f is None:
            f = {}
            for h in self.loops(tr):
                for p in self.heads.get(h, {}):
                    if p in self.G: assume(f, le(p, self.LEN))
            for c in conds(tr): assume(f, self.c(c))
            self.ff[id(tr)] = f
        return f
    def segfacts(self, tr, h):
        f = {}
        for c in conds(self.seg(tr, h)): assume(f, self.c(c))
        return f
    def steps(self, h):
        """the rounds of loop h that enter no other loop"""
        return [tr for tr in self.trs if end(tr).kind == 'back' and end(tr).val == h and self.loops(tr)[-1] == h]
    def bv(self, tr): return dict(self.bvs(end(tr)))
    def stores(self, items):
        return [x for x in items if isinstance(x, Ev) and x.kind == 'store' and root_of(strip1(x.snap[0])) is self.OUT]
    def inits(self, p): 
        h = self.hd(p)
        back = self.heads[h].get(p, set()) if h is not None else set()
        return {self.c(x) for x in self.q.g.phi.get(p, ()) if x not in back and x is not p}
    def hd(self, p): return next((h for h, ps in self.heads.items() if p in ps), None)
    def at(self, i, pos): return i.k == 'idx' and root_of(strip1(i.a[0])) is self.OUT and self.c(i.a[1]) is self.c(pos)
    def count(self, h):
        """the count of bytes produced in loop h (its own, or the one of the loop around it)"""
        gs = [p for p in self.heads.get(h, {}) if p in self.G]
        if gs: return gs[0]
        return None
    def order(self): return {h for tr in self.trs for h in self.loops(tr)}
    def around(self, tr, h):
        """the count when loop h is reached"""
        ls = self.loops(tr)
        for x in reversed(ls[:ls.index(h) + 1]):
            c = self.count(x)
            if c is not None: return c
        return I(0)
def divs(x, n): return x.a[0] if x.k == 'div' and x.a[1] is I(n) else None
def mods(x, n): return x.a[0] if x.k == 'mod' and x.a[1] is I(n) else None
def too_small_end(B, tr): return end(tr).kind == 'ret' and too_small(B.r.p, ret_of(tr))
def radix(r, f, enc):
    """one positional number system into the other: exact division with remainder, digit by digit"""
    B = Conv(r, f); w = B.w; P = B.P; g = B.q.g; a, b = (256, 58) if enc else (58, 256)
    def elem(x, f=None):
        """the counter of the input element this is"""
        if enc: return x.a[1] if x.k == 'idx' and x.a[0] is P else None
        if x.k == 'vfld' and x.a[1] == 0 and x.a[0].k == 'ev' and x.a[0].a[1] == 'adec':
            y = unref(x.a[0].a[2][1]); return y.a[1] if y.k == 'idx' and y.a[0] is P else None
        return None
    # the loops that take digits off the carry
    D = {}
    for h, ps in B.heads.items():
        for p, vs in ps.items():
            if vs and all(divs(B.c(v), b) is not None or v is p for v in vs) and any(v is not p for v in vs): D[h] = p
    if not r.ok(D, 'A08 the conversion takes digits off a carry', w): return
    reads = {}; done = set()
    for h, c in D.items():
        for tr in B.steps(h):
            T = divs(B.c(B.bv(tr).get(c, c)), b); st = B.stores(B.seg(tr, h)); ff = B.facts(tr)
            if not r.ok(T is not None and len(st) == 1 and st[0].snap[0].k == 'idx', 'A08 every round produces one digit and keeps the quotient', w, tr): continue
            done.add(id(tr)); k = B.c(st[0].snap[0].a[1]); cnt = B.around(tr, h); T = B.c(T)
            r.ok(mods(B.c(st[0].snap[1]), b) is T, 'A08 the digit is the remainder of what the carry is divided by', w, (st[0], T))
            d = sub(T, c); old = [y for y in subterms(d) if y.k == 'idx' and B.at(y, k)]
            if d is I(0):
                r.ok(k is B.c(cnt) or sure(ff, le(cnt, k)) is True, 'A08 no digit is lost', w, (k, cnt, tr))
                own = B.count(h)
                r.ok(own is not None and B.c(B.bv(tr).get(own, own)) is B.c(add(own, I(1))), 'A08 a digit that is added is counted', w, (own, tr))
            else:
                r.ok(len(old) == 1 and d is scale(old[0], a), 'A08 the carry grows by the digit times the base', w, (d, k))
                r.ok(sure(ff, gt0(sub(cnt, k))) is True, 'A08 only digits produced are read', w, (k, cnt))
                kp = next((p for p in B.heads[h] if B.c(p) is k), None)
                if r.ok(kp is not None and B.inits(kp) == {I(0)} and B.c(B.bv(tr).get(kp, I(-1))) is add(k, I(1)), 'A08 the digits are taken from the first on, one after the other', w, (k, kp)): reads[h] = k
    if not r.ok(reads, 'A08 digits produced before take part in the conversion', w): return
    # one element of the input at a time
    hs = {B.loops(tr)[B.loops(tr).index(h) - 1] for h in reads for tr in B.trs if h in B.loops(tr) and B.loops(tr).index(h)}
    if not r.ok(hs and all(B.loops(tr).index(h) for h in reads for tr in B.trs if h in B.loops(tr)), 'A08 the conversion runs once for every element of the input', w, hs): return
    nel = set()
    for tr in B.trs: r.ok(len([h for h in B.loops(tr) if h in hs]) <= 1, 'A08 the conversion runs once for every element of the input', w, tr)
    first = lambda tr: [h for h in B.loops(tr) if h in D]
    idxs = set()
    for tr in B.trs:
        e = end(tr)
        if e.kind != 'back' or e.val not in hs: continue
        h0 = e.val; ds = first(tr)
        if not r.ok(ds and ds[0] in reads, 'A08 every element of the input is converted', w, tr): continue
        nel.add(h0); ff = B.facts(tr); prev = None
        for h in ds:
            c = D[h]; i = B.inits(c)
            if prev is None:
                es = {elem(x) for x in i}
                if r.ok(len(es) == 1 and None not in es, 'A08 the carry starts as the element of the input', w, i): idxs |= es
            else: r.ok(i == {prev}, 'A08 the carry is carried on', w, (i, prev))
            prev = c
            if h in reads:
                r.ok(sure(ff, le(B.around(tr, h), reads[h])) is True, 'A08 every digit produced takes part', w, (reads[h], tr))
        rem = prev; small = False
        for s in B.stores(B.seg(tr, ds[-1])):
            done.add(id(tr))
            v = B.c(s.snap[1])
            r.ok((mods(v, b) is rem or v is rem and (not enc or sure(ff, gt0(sub(I(b), rem))) is True)), 'A08 the digit is the remainder of what the carry is divided by', w, s)
            rem = t('div', rem, I(b)); small = not enc        # a carry of the decoder is below 58
        r.ok(small or rem is prev and sure(ff, eq0(prev)) is True or sure(ff, eq0(rem)) is True, 'A08 the carry is used up', w, tr)
        bv = B.bv(tr)
        for p in B.heads[h0]:
            if p in B.G:
                want = B.count(ds[-1])
                st = len(B.stores(B.seg(tr, ds[-1])))
                r.ok(B.c(bv.get(p, p)) is B.c(add(want if want is not None else B.around(tr, ds[-1]), I(st))), 'A08 the digits produced stay', w, tr)
    r.ok(nel == hs, 'A08 the elements of the input are converted', w, (nel, hs))
    # the leading zeros, the text form, the order
    zs = set(); maps = set(); zval = {}; zpos = {}
    for h in B.heads:
        if h in D or h in hs: continue
        sts = [(tr, s) for tr in B.steps(h) for s in B.stores(B.seg(tr, h))]
        if not sts: continue
        vs = {s.snap[1] for _, s in sts}
        for tr, s in sts:
            done.add(id(tr)); k = s.snap[0].a[1] if s.snap[0].k == 'idx' else None
            if not r.ok(k is not None, 'A08 every byte written has its place', w, s): continue
            v = B.c(unref(s.snap[1]))
            x = digit_of(v)
            if enc and x is not None and x.k == 'idx' and root_of(strip1(x.a[0])) is B.OUT:
                li = loop_index(g, B.c(k)) if k.k == 'phi' else None
                r.ok(B.at(x, k), 'A08 each digit is written as its character', w, s)
                r.ok(li is not None and li[0] is I(0) and li[1] == 1, 'A08 every digit is written as its character', w, k)
                maps.add((h, k))
            else:
                zs.add(h); zval[h] = v
                own = B.count(h); zpos.setdefault(h, set())
                if own is not None:
                    r.ok(B.c(k) is B.c(own) and B.c(B.bv(tr).get(own, own)) is B.c(add(own, I(1))), 'A08 a zero that is added is counted', w, (k, tr)); zpos[h].add(B.c(own))
                else:
                    zi = [z for z in B.heads[h] if z.k == 'phi' and loop_index(g, z) == (I(0), 1)]
                    r.ok(any(B.c(k) is B.c(add(B.around(tr, h), z)) for z in zi), 'A08 a zero that is added is counted', w, (k, tr)); zpos[h].add(B.c(k))
    def zero_ok(tr, h, z):
        """is the character at z the zero, by the tests made in this round?"""
        x = idx(P, z); f = B.segfacts(tr, h)
        if enc: return sure(f, eqi(x, I(0)))
        for y in {y for c in conds(B.seg(tr, h)) for y in subterms(B.c(c))}:
            if digit_of(y) is I(0):
                r.ok(any(z.k == 'param' and z.a[0] == 0 for z in subterms(y.a[2][0])), 'A08 the zero is the one of the alphabet of the decoder', w, y)
                d = sure(f, eqi(x, y))
                if d is not None: return d
        return sure(f, eqi(x, I(49)))      # the first character of the standard alphabet
    B.zero_ok = zero_ok
    for i in idxs:
        # counted from the first element, or from the first that is not a leading zero (those have no value)
        k0, at = lin_of(i); ps = [p for p, m in at if m == 1 and any(p in B.heads[h] for h in hs)]
        if not r.ok(len(ps) == 1, 'A08 the elements of the input are converted in order', w, i): return
        li = loop_index(g, ps[0])
        if not r.ok(li is not None and li[1] == 1, 'A08 the elements of the input are converted in order', w, i): return
        lo = add(sub(i, ps[0]), li[0])
        r.ok(lo is I(0) or lo.k == 'phi' and zeros_of(B, lo), 'A08 the conversion starts with the first element of the input', w, lo)
    for h in zs:
        ok_ = leading(B, h, enc)
        r.ok(ok_, 'A08 as many zeros are added as the input starts with', w, h)
    n = 0
    for tr in B.outs:
        x = result(ret_of(tr), 0); ls = B.loops(tr)
        if x is None:
            e_ = result(ret_of(tr), 1)
            r.ok(too_small(r.p, ret_of(tr)) or not enc and any(d.name == 'adec' and isv(facts_of(tr), d.ret, 1) is True for d in tr if isinstance(d, Ev)), 'A08 nothing else is refused', w, tr)
            continue
        ff = B.facts(tr)
        h0 = next((h for h in ls if h in hs), None)
        if h0 is None:
            r.ok(sure(ff, eq0(length(P))) is True and x is I(0), 'A08 the whole input is converted', w, tr); continue
        n += 1
        for i in [i for i in idxs if any(p in B.heads[h0] for p, _ in lin_of(i)[1])]: r.ok(sure(ff, le(length(P), i)) is True, 'A08 the whole input is converted', w, tr)
        after = ls[ls.index(h0) + 1:]
        zl = [h for h in after if h in zs]; ml = [h for h in after if any(h == m for m, _ in maps)]
        r.ok(len(zl) == 1 and not [h for h in after if h in D], 'A08 the leading zeros are added after the conversion', w, (after, zs))
        if not zl: continue
        r.ok(zpos.get(zl[0], set()) == {B.c(x)}, 'A08 the zeros added are part of the result', w, (zpos, x))
        if enc:
            if not r.ok(len(ml) == 1, 'A08 the digits are written as characters', w, tr): continue
            k = next(k for m, k in maps if m == ml[0])
            c = B.around(tr, ml[0])
            r.ok(sure(ff, le(c, k)) is True, 'A08 every digit is written as its character', w, tr)
            zv = zval[zl[0]]
            r.ok(zv is I(0) if after.index(zl[0]) < after.index(ml[0]) else digit_of(zv) is I(0), 'A08 a zero is written as the character of zero', w, zv)
        else: r.ok(zval[zl[0]] is I(0), 'A08 a leading zero is a zero byte', w, zval[zl[0]])
        rv = [z for z in effects(tr) if root_of(strip1(unref(z.ev.snap[0]))) is B.OUT and z.op == 'reverse']
        pos = [i for i, y in enumerate(tr) if isinstance(y, Ev) and any(z.ev is y for z in rv)]
        r.ok(len(rv) == 1 and pos and pos[0] > B.cut[id(tr)][ls.index(zl[0])], 'A08 the most significant digit comes first', w, rv)
    r.ok(n, 'A08 the conversion can succeed', w)
    for tr in B.trs:
        if end(tr).kind == 'panic': continue
        for s in B.stores(tr): r.ok(id(tr) in done or not ends_ok(B, tr), 'A08 every byte written is a digit or a leading zero', w, s)
def ends_ok(B, tr):
    e = end(tr); return e.kind == 'back' or e.kind == 'ret' and result(ret_of(tr), 0) is not None
def digit_of(v):
    """the digit a character stands for (a result of the alphabet)"""
    if v.k == 'ev' and v.a[1] == 'aenc': return unref(v.a[2][1])
    return None
def leading(B, h, enc):
    """loop h runs once for every leading zero of the input"""
    cands = [p for p in B.heads[h] if p.k == 'phi' and loop_index(B.q.g, p) is not None and loop_index(B.q.g, p)[1] == 1]
    for z in cands:
        li = loop_index(B.q.g, z)
        if li[0] is I(0) and zeros_of(B, z): return True
        # as often as another loop has counted
        for u in [p for h2 in B.heads if h2 != h for p in B.heads[h2] if p.k == 'phi']:
            lim = u
            ok_ = bool(B.steps(h))
            # (all of the input, where that loop came to its end)
            lims = lambda tr: [lim] + ([length(B.P)] if B.hd(u) in B.loops(tr) and sure(B.segfacts(tr, B.hd(u)), le(length(B.P), u)) is True else [])
            for tr in B.steps(h):
                if not any(sure(B.segfacts(tr, h), gt0(sub(add(x, li[0]), z))) is True for x in lims(tr)): ok_ = False
            for tr in B.trs:
                if h in B.loops(tr) and not (end(tr).kind == 'back' and end(tr).val == h) and B.loops(tr)[-1] != h or h in B.loops(tr) and end(tr).kind == 'ret' and result(ret_of(tr), 0) is not None:
                    if not any(sure(B.segfacts(tr, h), le(add(x, li[0]), z)) is True for x in lims(tr)): ok_ = False
            if ok_ and zeros_of(B, u): return True
    return False
def zeros_of(B, z):
    """z counts the leading zeros of the input"""
    li = loop_index(B.q.g, z); h = B.hd(z)
    if li is None or li[0] is not I(0) or li[1] != 1 or h is None: return False
    if not B.steps(h): return False
    # counters that start and advance alike are equal
    return any(zeros_by(B, h, y) for y in B.heads[h] if y.k == 'phi' and loop_index(B.q.g, y) == li)
def zeros_by(B, h, z):
    st = B.steps(h)
    for tr in st:
        if B.zero_ok(tr, h, z) is not True: return False
    for tr in B.trs:
        if h not in B.loops(tr) or end(tr).kind == 'back' and end(tr).val == h or end(tr).kind == 'panic': continue
        f = B.segfacts(tr, h)
        if B.loops(tr)[-1] == h and too_small_end(B, tr): continue
        if sure(f, le(length(B.P), z)) is True or B.zero_ok(tr, h, z) is False: continue
        return False
    return True
def joined(x, lo, hi):
    """x is hi with lo in the free low bits"""
    return x.k == 'or' and set(x.a) == {lo, hi} or x is add(lo, hi)
def value_at(x, env):
    """the value of an integer or boolean term built from what env gives, or None"""
    if x in env: return env[x]
    if is_int(x): return x.a[0]
    if x.k in ('mul', 'div', 'mod', 'and'):
        a, b = (value_at(y, env) for y in x.a[:2])
        if a is None or b is None or x.k in ('div', 'mod') and b == 0: return None
        return a * b if x.k == 'mul' else a // b if x.k == 'div' else a % b if x.k == 'mod' else a & b
    if x.k in ('eq0', 'gt0', 'not'):
        a = value_at(x.a[0], env)
        return None if a is None else (a == 0) if x.k == 'eq0' else (a > 0) if x.k == 'gt0' else not a
    if x.k == 'pow2':
        a = value_at(x.a[0], env); return None if a is None or a < 0 or a > 64 else 2 ** a
    if x.k == 'lin':
        k, at = lin_of(x); n = k
        for y, m in at:
            a = value_at(y, env)
            if a is None: return None
            n += m * a
        return n
    return None
def whole(tr, n, wd, w):
    """the numbers n of characters of w bits the path can hold for: those that make whole bytes ('whole'), that do not ('part'), or None"""
    cs = [c for c in conds(tr) if any(y is n for y in subterms(c)) and c.k != 'ovf' and not (c.k == 'not' and c.a[0].k == 'ovf')]
    got = set(); known = False
    for m in range(65):
        vs = [value_at(c, {n: m, wd: w}) for c in cs]
        if any(v is not None for v in vs): known = True
        if all(v is not False for v in vs): got.add(m * w % 8 == 0)
    if not known: return 'free' if not cs else None
    return 'whole' if got == {True} else 'part' if got == {False} else 'free'
def regroup(r, f, enc):
    """groups of 8 bits into groups of w and back: an accumulator that takes a group in at the low end and gives groups off the high end"""
    B = Conv(r, f); w = B.w; P = B.P; g = B.q.g
    bw = [y for tr in B.trs for c in conds(tr) for y in subterms(c) if y.k == 'fld' and y.a[1] == 1 and y.a[0].k in ('param', 'deref') and any(z.k == 'param' and z.a[0] == 0 for z in subterms(y.a[0]))]
    if not r.ok(bw, 'A08 the width of a character is known', w): return
    wd = bw[0]; src, dst = (I(8), wd) if enc else (wd, I(8))
    p2 = lambda x: TM.pow2(x) if hasattr(TM, 'pow2') else t('pow2', x)
    def elem(x):
        if enc: return x.a[1] if x.k == 'idx' and x.a[0] is P else None
        if x.k == 'vfld' and x.a[1] == 0 and x.a[0].k == 'ev' and x.a[0].a[1] == 'adec':
            y = unref(x.a[0].a[2][1]); return y.a[1] if y.k == 'idx' and y.a[0] is P else None
        return None
    def shl(x, n): return scale(x, 2 ** n.a[0]) if is_int(n) else mulv(x, t('pow2', n))
    def out_of(v):
        """the value written, before it becomes a character"""
        if enc: return digit_of(v)
        m = mods(v, 256)
        return m if m is not None else v
    def low(v, A, n):
        """v is the low n bits of A"""
        return v.k == 'mod' and v.a[0] is A and v.a[1] is t('pow2', n) or v is A and not enc
    H = {}; done = set()
    # rounds that give a group off
    for h, ps in B.heads.items():
        for tr in B.steps(h):
            sts = B.stores(B.seg(tr, h)); bv = B.bv(tr)
            if len(sts) != 1: continue
            v = out_of(B.c(unref(sts[0].snap[1])))
            if v is None: continue
            for p in ps:
                if p.k != 'phi': continue
                for A in ps:
                    if A is p or A.k != 'phi': continue
                    n = sub(p, dst)
                    if v is t('div', A, t('pow2', n)) or v.k == 'mod' and v.a[0] is t('div', A, t('pow2', n)) and v.a[1] is (t('pow2', wd) if enc else I(256)):
                        masked = v.k != 'mod'
                        H[h] = (A, p)
                        r.ok(B.c(bv.get(p, p)) is n, 'A08 the bits given off are counted off', w, bv.get(p, p))
                        x = B.c(bv.get(A, A))
                        r.ok(low(x, A, n) or x is A and not masked, 'A08 the bits that are left stay in the accumulator', w, x)
                        r.ok(sure(B.facts(tr), le(dst, p)) is True, 'A08 only whole groups are given off', w, tr)
                        own = B.count(h)
                        r.ok(own is not None and B.c(sts[0].snap[0].a[1]) is B.c(own) and B.c(bv.get(own, own)) is B.c(add(own, I(1))), 'A08 every group given off is counted', w, (own, tr))
                        done.add(id(tr))
    if not enc:
        for tr in B.trs:
            for k, d in enumerate(tr):
                if not (isinstance(d, Ev) and d.name == 'adec') or len(d.snap) < 2: continue
                y = unref(B.c(d.snap[1]))
                if y.k == 'idx' and y.a[0] is P: r.ok(sure(facts_of(tr, k), eqi(y, I(61))) is False, 'A08 padding is passed over', w, d)
    if not H and not enc and flat_groups(r, B, wd): return
    if not r.ok(len(H) == 1, 'A08 groups of bits are given off from the high end of the accumulator', w, H): return
    (h1, (A1, b1)), = H.items()
    hs = {h for tr in B.trs if h1 in B.loops(tr) for h in B.loops(tr)[:B.loops(tr).index(h1)]}
    ia, ib = B.inits(A1), B.inits(b1)
    b0 = next((p for h in hs for p in B.heads.get(h, ()) if ib == {add(p, src)}), None)
    if not r.ok(b0 is not None, 'A08 the conversion runs once for every element of the input', w, (hs, ib)): return
    h0 = B.hd(b0); A0 = None
    es = set()
    for p in B.heads[h0]:
        if p.k != 'phi' or p is b0: continue
        els = [y for x in ia for y in subterms(x) if elem(y) is not None]
        if len(ia) == 1 and els and any(joined(next(iter(ia)), y, shl(p, src)) for y in els):
            A0 = p; es = {elem(y) for y in els if joined(next(iter(ia)), y, shl(p, src))}
    if not r.ok(A0 is not None and b0 is not None, 'A08 every element of the input enters at the low end of the accumulator', w, (ia, ib)): return
    r.ok(B.inits(A0) == {I(0)} and B.inits(b0) == {I(0)}, 'A08 the accumulator starts empty', w, (B.inits(A0), B.inits(b0)))
    i = es.pop(); li = loop_index(g, i)
    if not r.ok(not es and li is not None and li == (I(0), 1) and B.hd(i) in hs, 'A08 the elements of the input are converted in order', w, i): return
    hf = B.hd(i)
    if hf != h0:
        # a loop that looks for the next character
        for tr in B.steps(hf): r.ok(not enc and sure(B.segfacts(tr, hf), eqi(idx(P, i), I(61))) is True and not B.stores(B.seg(tr, hf)), 'A08 only padding is passed over', w, tr)
    nel = 0
    for tr in B.trs:
        e = end(tr)
        if e.kind != 'back' or e.val != h0: continue
        bv = B.bv(tr); ff = B.facts(tr)
        if h1 in B.loops(tr):
            nel += 1
            r.ok(sure(ff, gt0(sub(dst, b1))) is True, 'A08 every whole group is given off', w, tr)
            r.ok(B.c(bv.get(A0, A0)) is A1 and B.c(bv.get(b0, b0)) is b1, 'A08 the bits left over stay', w, bv)
            want = B.count(h1) or B.around(tr, h1)
        else:
            r.ok(not enc and sure(ff, eqi(idx(P, i), I(61))) is True, 'A08 only padding is passed over', w, tr)
            r.ok(bv.get(A0, A0) is A0 and bv.get(b0, b0) is b0, 'A08 padding changes nothing', w, bv)
            want = B.count(h0)
        for p in B.heads[h0]:
            if p in B.G: r.ok(B.c(bv.get(p, p)) is B.c(want), 'A08 what was produced stays', w, tr)
        r.ok(not B.stores(B.seg(tr, B.loops(tr)[-1])), 'A08 every byte written is a group of bits', w, tr)
    r.ok(nel, 'A08 the elements of the input are converted', w)
    n = 0
    for tr in B.trs:
        e = end(tr); ff = B.facts(tr); ls = B.loops(tr)
        if h0 not in ls:
            if e.kind == 'ret' and result(ret_of(tr), 0) is not None: r.ok(sure(ff, eq0(length(P))) is True and result(ret_of(tr), 0) is I(0), 'A08 the whole input is converted', w, tr)
            continue
        over = sure(ff, le(length(P), i)) is True
        if e.kind == 'ret' and result(ret_of(tr), 0) is None or e.kind == 'panic':
            if e.kind == 'panic' and not enc and over:
                r.ok(sure(ff, eq0(A0)) is False or sure(ff, le(dst, b0)) is True, 'A08 a text that an encoder makes is accepted', w, tr)
            elif e.kind == 'ret':
                r.ok(too_small(r.p, ret_of(tr)) or not enc and (any(d.name == 'adec' and isv(facts_of(tr), d.ret, 1) is True for d in tr if isinstance(d, Ev)) or over and sure(ff, eq0(A0)) is False), 'A08 nothing else is refused', w, tr)
            continue
        if e.kind == 'ret':
            n += 1; r.ok(over, 'A08 the whole input is converted', w, tr)
            rv = [z for z in effects(tr) if root_of(strip1(unref(z.ev.snap[0]))) is B.OUT and z.op == 'reverse']
            r.ok(not rv, 'A08 the groups stay in order', w, rv)
            if enc: r.ok(whole(tr, B.c(result(ret_of(tr), 0)), wd, 6) in ('whole', None), 'A08 the text is padded to whole bytes', w, tr)
        if not over: continue
        # the end of the text
        tail = [s for s in B.stores(tr[B.cut[id(tr)][ls.index(h0)]:])]
        if not enc: r.ok(not tail, 'A08 every byte written is a group of bits', w, tail); continue
        cnt = B.around(tr, h0)
        for y in tr[B.cut[id(tr)][ls.index(h0)]:]:
            if isinstance(y, Loop) and y.n != h0:
                p = B.count(y.n)
                if p is None or B.hd(p) != y.n: continue
                r.ok(B.c(cnt) in B.inits(p), 'A08 every character written is counted', w, (cnt, B.inits(p))); cnt = p
            elif y in tail: r.ok(B.c(y.snap[0].a[1]) is B.c(cnt), 'A08 every character is written after the ones before', w, (cnt, y)); cnt = add(cnt, I(1))
        if e.kind == 'back' and B.count(e.val) is None and e.val != h0: r.ok(not B.stores(B.seg(tr, e.val)), 'A08 every character written is counted', w, tr)
        if e.kind == 'back' and B.count(e.val) is not None: r.ok(B.c(B.bv(tr).get(B.count(e.val), B.count(e.val))) is B.c(cnt), 'A08 every character written is counted', w, (cnt, tr))
        if e.kind == 'ret': r.ok(B.c(result(ret_of(tr), 0)) is B.c(cnt), 'A08 the characters written are the result', w, (cnt, tr))
        ch = [s for s in tail if digit_of(B.c(unref(s.snap[1]))) is not None]; pad = [s for s in tail if s not in ch]
        r.ok(all(B.c(unref(s.snap[1])) is I(61) for s in pad), 'A08 what is added after the groups is padding', w, pad)
        for x in pad: r.ok(whole(tr, B.c(x.snap[0].a[1]), wd, 6) in ('part', None), 'A08 padding only completes bytes', w, (x, tr))
        left = sure(ff, eq0(b0))
        if left is True: r.ok(not ch, 'A08 no group is added', w, ch)
        elif ch or e.kind == 'ret' or pad:
            g_ = len(ch) == 1 and left is False and digit_of(B.c(unref(ch[0].snap[1]))) is shl(A0, sub(wd, b0)) and B.c(ch[0].snap[0].a[1]) is B.c(B.around(tr, h0))
            if e.kind == 'back' and not ch: g_ = True      # (seen on the path that reaches this loop)
            r.ok(g_, 'A08 the bits left over are the high end of a last group', w, (ch, tr))
    r.ok(n, 'A08 the conversion can succeed', w)
def flat_groups(r, B, wd):
    """the decoder without an inner loop: fewer than 8 bits are left over and a character has at most 8, so one byte at most becomes whole"""
    w = B.w; P = B.P; g = B.q.g; n = 0; dst = I(8)
    hs = {end(tr).val for tr in B.trs if end(tr).kind == 'back'}
    if len(hs) != 1: return False
    h0 = hs.pop(); pair = None
    for b0 in B.heads[h0]:
        for A0 in B.heads[h0]:
            if A0 is b0 or A0.k != 'phi' or b0.k != 'phi' or A0 in B.G or b0 in B.G: continue
            for tr in B.steps(h0):
                if B.c(B.bv(tr).get(b0, b0)) is add(b0, sub(wd, dst)) and B.stores(tr): pair = (A0, b0) if any(y is A0 for y in subterms(B.c(B.stores(tr)[0].snap[1]))) else pair
    if pair is None: return False
    A0, b0 = pair; b1 = add(b0, wd)
    r.ok(B.inits(A0) == {I(0)} and B.inits(b0) == {I(0)}, 'A08 the accumulator starts empty', w, (B.inits(A0), B.inits(b0)))
    for tr in B.trs:
        e = end(tr); ff = B.facts(tr); sts = B.stores(tr); bv = B.bv(tr) if e.kind == 'back' else {}
        ds = [d for d in tr if isinstance(d, Ev) and d.name == 'adec']
        if e.kind == 'back':
            if not ds:
                i = [p for p in B.heads[h0] if p.k == 'phi' and sure(ff, eqi(idx(P, p), I(61))) is True]
                r.ok(bool(i) and not sts and all(bv.get(p, p) is p for p in [A0, b0] + [p for p in B.heads[h0] if p in B.G]), 'A08 only padding is passed over', w, tr); continue
            n += 1; el = vfld(ds[0].ret, 0, 0); x = unref(ds[0].snap[1]); li = loop_index(g, x.a[1]) if x.k == 'idx' and x.a[0] is P else None
            r.ok(len(ds) == 1 and li == (I(0), 1), 'A08 the elements of the input are converted in order', w, x)
            A1 = {TM.bitor(TM.mul(A0, TM.pow2(wd)), el), add(TM.mul(A0, TM.pow2(wd)), el)}
            if not sts:
                r.ok(sure(ff, gt0(sub(dst, b1))) is True, 'A08 every whole group is given off', w, tr)
                r.ok(B.c(bv.get(A0, A0)) in A1 and B.c(bv.get(b0, b0)) is b1, 'A08 the bits left over stay', w, bv); continue
            m = sub(b1, dst); v = mods(B.c(sts[0].snap[1]), 256)
            r.ok(len(sts) == 1 and v in {t('div', y, TM.pow2(m)) for y in A1}, 'A08 whole groups are given off from the high end', w, sts)
            r.ok(sure(ff, le(dst, b1)) is True, 'A08 only whole groups are given off', w, tr)
            r.ok(B.c(bv.get(A0, A0)) in A1 | {t('mod', y, TM.pow2(m)) for y in A1} and B.c(bv.get(b0, b0)) is m, 'A08 the bits that are left stay in the accumulator', w, bv)
            continue
        over = any(sure(ff, le(length(P), p)) is True for p in B.heads[h0] if p.k == 'phi')
        if e.kind == 'panic' and over: r.ok(sure(ff, eq0(A0)) is False or sure(ff, le(dst, b0)) is True, 'A08 a text that an encoder makes is accepted', w, tr)
        if e.kind == 'ret' and result(ret_of(tr), 0) is None:
            r.ok(too_small(r.p, ret_of(tr)) or any(isv(facts_of(tr), d.ret, 1) is True for d in ds) or over and sure(ff, eq0(A0)) is False, 'A08 nothing else is refused', w, tr)
        elif e.kind == 'ret': r.ok(over and not sts, 'A08 the whole input is converted', w, tr)
    r.ok(n, 'A08 the elements of the input are converted', w)
    return True
def mulv(x, y): return t('mul', *sorted((x, y), key=lambda q: q.id))
def ticks(B, x):
    """counters of a loop in terms of its rounds"""
    m = {}
    for y in subterms(x):
        if y.k == 'phi':
            li = loop_index(B.q.g, y)
            if li is not None and is_int(li[0]) and B.hd(y) is not None: m[y] = add(li[0], scale(t('app', 'round', (I(0), str(B.hd(y)))), li[1]))
    return subst(x, m) if m else x
def halves(r, f):
    """two digits into a byte, the high half first"""
    B = Conv(r, f); w = B.w; P = B.P; n = 0
    for tr in B.trs:
        if end(tr).kind == 'panic': continue
        for s in B.stores(tr):
            if s.snap[0].k != 'idx': r.ok(False, 'A08 every byte written has its place', w, s); continue
            k = ticks(B, B.c(s.snap[0].a[1])); v = B.c(s.snap[1]); n += 1
            xs = [y for y in subterms(v) if y.k == 'vfld' and y.a[1] == 0 and y.a[0].k == 'ev' and y.a[0].a[1] == 'hval']
            at = {}
            for y in xs:
                z = unref(y.a[0].a[2][0])
                if z.k == 'idx' and z.a[0] is P: at[ticks(B, B.c(z.a[1]))] = y
            hi, lo = at.get(scale(k, 2)), at.get(add(scale(k, 2), I(1)))
            r.ok(len(xs) == 2 and hi is not None and lo is not None and joined(v, lo, scale(hi, 16)), 'A08 a byte is made of its two digits, the high one first', w, (k, v))
    r.ok(n, 'A08 bytes are made of their digits', w)
def A08(r):
    r.rule('Base58: in both directions every round of the conversion stores the remainder and carries the quotient of carry plus digit times source base by the target base, over all digits, until the carry is used up, for every element of the input in order, then one zero for each leading zero, and one reversal; Base64: every group enters the accumulator at the low end, whole groups leave it at the high end and the rest stays, the encoder fills its last group up with zero bits and the decoder passes over padding only; hexadecimal: a byte is its two digits, high one first')
    n = 0
    for f in codec_fns(r, r'^base58::(de|en)code::(De|En)coder', ('decode_into', 'encode_into')):
        radix(r, f, f.name == 'encode_into'); n += 1
    r.ok(n >= 2, 'A08 the Base58 codecs were found', None, n)
    n = 0
    for f in codec_fns(r, r'^base_binary::(de|en)code::(De|En)coder', ('decode_into', 'encode_into')):
        regroup(r, f, f.name == 'encode_into'); n += 1
    r.ok(n >= 2, 'A08 the Base64 codecs were found', None, n)
    n = 0
    for f in codec_fns(r, r'^hex::', ('decode_into',)): halves(r, f); n += 1
    r.ok(n, 'A08 the hexadecimal decoder was found', None, n)
    with _Pid(r, 'A04', 'A08'):
        k = sum(hex_encodes(r, f) for f in r.the(path=r'^hex::encode', kind='fn'))
    r.ok(k, 'A08 the hexadecimal encoder was found', None, k)

RULES = {k: v for k, v in globals().items() if re.fullmatch(r'A0\d', k)}
