"""H01-H06: the HTTP interface (and the routes for L01)"""
from .common import *
from .store import LOGS, clos, strip_deref

METHOD = {0: 'OPTIONS', 1: 'GET', 2: 'POST', 3: 'PUT', 4: 'DELETE', 5: 'HEAD', 6: 'TRACE', 7: 'CONNECT', 8: 'PATCH'}
PARAMS, BODY, STATE = t('param', 2), t('param', 3), t('param', 4)
ROUTE_OPQ = LOGS + [(r'Address::from_string$', 'parse_address'), (r'Address.*::to_string$', 'addr_text'), (r'<.*Address as .*Display>::fmt$', 'addr_fmt'), (r'reverse_hex::encode$', 'rhex')]
BTC = (4726483295884279808,)     # 1e8 as a double

def last(x): return strip_generics(x).split('<')[0].split('::')[-1]
def state_async(r, f):
    """is f an asynchronous method of the shared state?"""
    s = r.impl_self(f)
    return s is not None and last(s) == 'State' and r.p.types[f.locals[0]]['k'] == 'coroutine'
def route_opq(r):
    base = opq(ROUTE_OPQ + [(r'DynamicUri::new$', 'uri')])
    def op(fn):
        n = base(fn)
        if n: return n
        if fn.local and not fn.synth and state_async(r, fn): return 'state:' + fn.name
        return None
    return op

class Route: pass
def routes(r):
    """the registered routes with the traces of their handlers; a route is (method, path, handler)"""
    c = getattr(r, '_routes', None)
    if c is not None: return c
    op = route_opq(r)
    fs = [f for f in r.fns(kind='fn') if last(r.p.tys(f.locals[0])) == 'Server' and last(r.impl_self(f) or '') != 'Server']
    r.need(fs, 'the function that registers the routes')
    rf = [n for n, _ in r.fields('Route')]
    iM, iU, iH = r.fx('Route', 'method', 'Method'), r.fx('Route', 'dynamic_uri', 'Uri'), r.fx('Route', 'handler', 'Fn|Handler')
    out = []; r._default = None
    for f in fs:
        q = r.run(f, op); w = f'{r.inst(f)}:{f.span[1]}'
        trs = [tr for tr in r.traces(q) if end(tr).kind == 'ret']
        r.need(trs, 'a returned server')
        tables = []
        for tr in trs:
            v = end(tr).val; tab = []
            vecs = [y for y in subterms(v) if y.k in ('ver', 'vphi') and base_new(y)]
            # the longest version of the route list
            def chain(y):
                c = []
                while y.k == 'ver' and y.a[1].k == 'ev' and y.a[1].a[1] == 'Vec::push':
                    x = y.a[1].a[2][1]
                    c.append(x); y = y.a[0]
                return list(reversed(c)) if y.k == 'newc' else None
            cs = [chain(y) for y in vecs]
            cs = [c for c in cs if c and all(x.k == 'agg' and last(x.a[0]) == 'Route' for x in c)]
            tab = max(cs, key=len) if cs else []
            # every route made is registered
            made = {e.ret for e in tr if isinstance(e, Ev) and e.name == 'uri'}
            r.ok(made == {x.a[2][iU] for x in tab}, 'H03 every route that is made is registered with the server', w, tr)
            tables.append(tuple(tab))
        r.ok(len(set(tables)) == 1, 'H03 the same routes are registered whatever happens', w, len(set(tables)))
        for x in tables[0]:
            o = Route(); m, u, h = x.a[2][iM], x.a[2][iU], x.a[2][iH]
            mi = m.a[2][0] if m.k == 'agg' and len(m.a[2]) == 1 else m
            o.method = METHOD.get(mi.a[1]) if mi.k in ('agg', 'constadt') else None
            if mi.k == 'constadt': o.method = METHOD.get(mi.a[1])
            o.uri = u.a[2][0].a[0] if u.k == 'ev' and u.a[1] == 'uri' and u.a[2] and strip_deref(u.a[2][0]).k == 'str' else None
            fid = clos(h)
            if fid is None or o.uri is None or o.method is None: raise Undecided(f'route {show(x, 6)}')
            o.fn = r.p.fns[fid]; o.q = r.run(o.fn, op, args=[ref(('X', h))], part=40)
            if o.q.it.unknown: pass
            o.traces = r.traces(o.q); o.where = f'{r.inst(f)}:{f.span[1]} {o.method} {o.uri}'
            m_ = re.search(r'\{([^{}]*)\}', o.uri); o.name = m_.group(1) if m_ else None
            out.append(o)
        d = r.fx('Router', 'default')
        for tr in trs:
            for y in subterms(end(tr).val):
                if y.k == 'agg' and last(y.a[0]) == 'Router': r._default = y.a[2][d]
    r._routes = out
    return out
def base_new(y):
    while y.k in ('ver', 'vphi'): y = y.a[0]
    return y.k == 'newc'

# ---------------------------------------------------------------------- answers
def response(tr):
    """(status, body) of the answer, status None if not a constant"""
    v = strip_clone(end(tr).val)
    if v.k == 'agg' and v.a[0] == 'resp': chain, body = t('app', 'resp_status', (v.a[2][1], v.a[2][0])), v.a[2][2]
    elif v.k == 'app' and v.a[0] == 'response': chain, body = v.a[1]
    else: return None
    st = 200
    x = chain
    while x.k == 'app' and x.a[0] in ('resp_status', 'resp_header'):
        if x.a[0] == 'resp_status':
            c = x.a[1][1]
            st = None
            if c.k == 'constadt':
                raw = c.a[2].a[0] if hasattr(c.a[2], 'k') and c.a[2].a else c.a[2]
                raw = re.sub(r'\D', '', str(raw)) if re.fullmatch(r'\D*\d{3}\D*', str(raw)) else ''
                st = int(raw) if raw else None
            if st is None:
                m = [y for y in subterms(c) if y.k == 'int']
                st = m[0].a[0] if len(m) == 1 else None
            return st, body
        x = x.a[1][0]
    return st, body
def jval(q, x):
    """('leaf', term) | ('obj', {key: value}) | ('list', sequence term)"""
    x = strip_clone(x)
    while x.k == 'deref': x = strip_clone(x.a[0])
    if x.k == 'json': return jval(q, x.a[0])
    if x.k == 'agg' and last(x.a[0]) == 'Value':
        if x.a[1] == 5:
            o = {}; m = x.a[2][0]
            while m.k == 'ver' and m.a[1].k == 'ev' and m.a[1].a[1] == 'Map::insert':
                k, v = m.a[1].a[2][1], m.a[1].a[2][2]
                k = strip_deref(strip_clone(k))
                if k.k != 'str' or k.a[0] in o: return ('leaf', x)
                o[k.a[0]] = jval(q, v); m = m.a[0]
            return ('obj', o) if m.k == 'newc' else ('leaf', x)
        if x.a[1] in (3, 4) and x.a[2]: return jval(q, x.a[2][0])
        return ('leaf', x)
    if base_new(x): return ('list', x)
    return ('leaf', x)
class Seq:
    """a list built as one element per element of src, in order"""
    __slots__ = ('src', 'i', 'elem', 'term', 'eq', 'ctrs')
def mapped(q, V):
    """V = [elem(src[i]) for i in 0..len(src)], else None"""
    V = strip_clone(V)
    while V.k == 'deref': V = strip_clone(V.a[0])
    if V.k != 'vphi': return None
    tag = V.a[1]; ins = q.g.phi.get(V, set()); el = set()
    for x in ins:
        if x.k == 'newc': continue
        if x.k == 'ver' and x.a[0] is V and x.a[1].k == 'ev' and x.a[1].a[1] in ('Vec::push', 'VecDeque::push_back'): el.add(x.a[1].a[2][1]); continue
        return None
    if not el: return None
    # the loop counter of the same loop
    cs = set()
    for e in el:
        for y in subterms(e):
            if y.k == 'phi' and y.a[0] is tag and loop_index(q.g, y) == (I(0), 1) and y not in q.g.phi.get(y, ()): cs.add(y)
    if not cs: return None
    cs = sorted(cs, key=str); i = cs[0]; out = []      # counters of one loop that move by one each round are equal in every round
    for e in el:
        e = subst(e, {j: i for j in cs[1:]})
        # an entry of another list made from the same source, element by element, stands for what was put there
        eq = []
        while True:
            o = next(((y, m) for y in subterms(e) if y.k == 'idx' and y.a[1] is i and y.a[0].k == 'vphi' and y.a[0] is not V for m in [mapped(q, y.a[0])] if m and len(m) == 1), None)
            if o is None: break
            eq.append(o[1][0]); e = subst(e, {o[0]: subst(o[1][0].elem, {o[1][0].i: i})})
        srcs = {N(y.a[0]) for y in subterms(e) if y.k == 'idx' and y.a[1] is i}
        if len(srcs) != 1: return None
        s = Seq(); s.src = next(y.a[0] for y in subterms(e) if y.k == 'idx' and y.a[1] is i); s.i = i; s.elem = e; s.term = V; s.eq = eq; s.ctrs = cs
        out.append(s)
    if len({N(s.src) for s in out}) != 1: return None
    return out
def exh(q, tr, seqs, upto=None):
    eq = [y for x in seqs for y in x.eq]
    if not eq: return exhausted(q, tr, seqs[0].src, upto)
    # two lists of equal length, scanned together to the end of either
    if not all(exh(q, tr, [y], upto) or equal_end(q, tr, seqs[0].src, y) for y in eq): return False
    n = N(length(N(seqs[0].src))); ts = [length(y.term) for y in eq]
    ls = [l for l in loop_tests(q, tr) if l.i in seqs[0].ctrs and (upto is None or l.pos < upto)]
    return bool(ls) and ls[-1].state == 'out' and ls[-1].step == 1 and ls[-1].lo is I(0) and (N(ls[-1].src) is n or ls[-1].src in ts)
def equal_end(q, tr, src, y):
    """the loop that made y ended at the end of its source"""
    ls = [l for l in loop_tests(q, tr) if l.i is y.i and N(y.src) is N(src)]
    return bool(ls) and ls[-1].state == 'out' and N(ls[-1].src) is N(length(N(src)))
def unref(x):
    while True:
        y = strip_clone(x)
        if y.k == 'deref': y = y.a[0]
        if y.k == 'agg' and y.a[0] == 'tuple' and False: pass
        if y is x: return x
        x = y
def is_addr(x, a):
    return same(unref(x), unref(a))
def is_text_of(x, a):
    """x is the text form of address a"""
    x = unref(x)
    if x.k == 'json': return is_text_of(x.a[0], a)
    if x.k == 'ev' and x.a[1] == 'addr_text': return is_addr(x.a[2][0], a)
    if x.k in ('format', 'to_string') or (x.k == 'app' and x.a[0] == 'to_string'):
        ps = fmt_parts(x)
        if ps and len(ps) == 1 and isinstance(ps[0], tuple): return is_addr(ps[0][2], a)
        y = x.a[0] if isinstance(x.a[0], T) else x.a[1][0] if len(x.a) > 1 else None
        return y is not None and is_addr(y, a)
    return False
def is_amount(x, v):
    """x = v / 1e8 as a double"""
    x = unref(x)
    if x.k == 'json': return is_amount(x.a[0], v)
    y = div_parts(x)
    if y is None: return False
    n, d = y
    n = unref(n)
    if n.k == 'float': n = n.a[0]
    elif n.k == 'app' and n.a[0] == 'float': n = n.a[1][0]
    else: return False
    return same(unref(n), unref(v)) and is_btc(d)
def div_parts(x):
    if x.k == 'fDiv': return x.a[0], x.a[1]
    if x.k == 'app' and x.a[0] == 'fDiv': return x.a[1][0], x.a[1][1]
    return None
def is_btc(d):
    if is_int(d): return d.a[0] in BTC
    if d.k == 'float' and is_int(d.a[0]): return d.a[0].a[0] == 100000000
    if d.k == 'app' and d.a[0] == 'float' and is_int(d.a[1][0]): return d.a[1][0].a[0] == 100000000
    return False
def is_utxo(r, j, u, v):
    """j shows output u with value v"""
    if j[0] != 'obj' or set(j[1]) != {'hash', 'vout', 'value'}: return False
    iH, iI = r.fx('TransactionOutput', 'hash', r'\[u8; 32\]'), r.fx('TransactionOutput', 'index', '^u32$')
    h, n, a = (j[1][k] for k in ('hash', 'vout', 'value'))
    if not all(y[0] == 'leaf' for y in (h, n, a)): return False
    hx = unref(h[1])
    return hx.k == 'ev' and hx.a[1] == 'rhex' and same(unref(hx.a[2][0]), unref(fld(unref(u), iH))) and same(unref(n[1]), unref(fld(unref(u), iI))) and is_amount(a[1], v)
def state_calls(tr):
    return [e for e in tr if isinstance(e, Ev) and e.name.startswith('state:')]
def awaited_value(tr, e):
    """what awaiting the call gave on this trace"""
    for x in tr:
        if isinstance(x, Ev) and (x.name == 'await' or x.name.startswith('await:')) and x.snap and x.snap[0] is e.ret: return x.ret
    return None
class SC:
    """a call of a query of the state"""
    __slots__ = ('fn', 'recv', 'arg', 'conf', 'closure', 'list', 'out', 'val', 'ev')
def state_call(r, tr, e):
    """the address (or list), confirmations and closure given to a query"""
    nm = e.name.split(':', 1)[1]
    fs = [f for f in r.fns(nm, 'State') if state_async(r, f)]
    if not fs: raise Undecided('state function ' + nm)
    f = fs[0]; s = SC(); s.fn = f; s.recv = s.arg = s.conf = s.closure = None; s.ev = e; s.list = False
    for i, x in enumerate(e.snap):
        ty = r.p.tys(f.locals[i + 1]); y = unref(x)
        if y.k == 'agg' and y.a[0].startswith('closure:'): s.closure = y
        elif re.search(r'(^|[ &])state::State$|State$', ty) and i == 0: s.recv = y
        elif ty == 'usize': s.conf = y
        elif re.search(r'(Vec<|\[)(\w+::)*Address', ty): s.arg = x; s.list = True
        elif re.search(r'(\w+::)*Address$', ty): s.arg = y
        else: raise Undecided(f'argument {i} of {nm}: {ty}')
    co = r.p.types[f.locals[0]]
    g = r.p.fns.get(co.get('inst'))
    s.out = re.sub(r'[\w]+::', '', r.p.tys(g.locals[0])) if g else ''
    s.val = awaited_value(tr, e)
    return s
def closure_pushes(r, s):
    """the list a listing's callback fills: (captured list variable index, element) if every call adds exactly one element"""
    g = r.p.fns[clos(s.closure)]
    q = r.run(g, route_opq(r), args=[ref(('X', s.closure))]); el = set()
    for tr in r.traces(q):
        if end(tr).kind != 'ret': return None, None, q, tr
        ef = [x for x in effects(tr)]
        ps = [x for x in ef if x.op in ('push', 'push_back')]
        own = [x for x in ef if x.op not in ('push', 'push_back') and x.loc and x.loc[0][0] != 'new']
        if len(ps) != 1 or own: return None, None, q, tr
        el.add((ps[0].loc, ps[0].args[0]))
    if len(el) != 1: return None, None, q, None
    l, e = el.pop()
    return l, e, q, None

# ---------------------------------------------------------------------- why a request was refused
def conf_max(r): return fld(deref_(STATE), r.fx('State', 'confirmations', '^usize$'))
def deref_(x): return t('deref', x)
def query(name): return TM.mget(PARAMS, S(name))
def failing(r, q, tr):
    """the malformations of the request this trace established"""
    ff = facts_of(tr); out = []
    for x in tr:
        if not isinstance(x, Cond): continue
        for y in subterms(x.t):
            if y.k != 'is': continue
            v = y.a[0]
            if v.k == 'ev' and v.a[1] == 'parse_address':
                if isv(ff, v, 1): out.append(('address', v))
            elif v.k == 'mget' and same(v.a[0], PARAMS):
                if isv(ff, v, 0): out.append(('missing', v))
            elif v.k == 'app' and v.a[0] in ('utf8', 'de::from_str', 'de::from_slice'):
                if isv(ff, v, 1): out.append(('body', v))
            elif v.k == 'app' and v.a[0] in ('Value::as_array', 'Value::as_str'):
                if isv(ff, v, 0): out.append(('body', v))
            elif v.k == 'app' and v.a[0] == 'parse':
                if isv(ff, v, 1): out.append(('confirmations', v))
            elif v.k == 'app' and v.a[0].startswith('Value::') and isv(ff, v, 0): out.append(('body', v))
            elif v.k in ('vfld', 'idx', 'fld') and isinstance(v.a[0], T) and any(z.k == 'app' and z.a[0].startswith('de::') for z in subterms(v)) and v.k != 'vfld':
                # matching on the parsed JSON value itself
                if decide(ff, is_variant(v, y.a[1])) is False: out.append(('body', v))
            elif v.k == 'vfld' and v.a[0].k == 'app' and v.a[0].a[0].startswith('de::'):
                if decide(ff, is_variant(v, 4)) is False: out.append(('body', v))
    for y in {z for x in tr if isinstance(x, Cond) for z in subterms(x.t) if z.k == 'vfld' and z.a[0].k == 'app' and z.a[0].a[0] == 'parse'}:
        if decide(ff, lt(conf_max(r), y)): out.append(('confirmations', y))
    return out
def fatal(f, name):
    """malformations that must be refused wherever they are noticed"""
    return f[0] in ('address', 'body', 'confirmations') or (f[0] == 'missing' and f[1].a[1] in (S('addresses'), S(name or '')))

# ---------------------------------------------------------------------- panics
def panic_ok(r, q, tr, request=(), pre=()):
    """can this panic be excluded (or does it need more than 2^64 of something)?"""
    ff = {}
    for x in pre:
        if not assume(ff, x): return True
    for x in tr:
        if isinstance(x, Cond) and not assume(ff, x.t): return True
    cs = [x for x in tr if isinstance(x, Cond)]
    if not cs: return False
    c = cs[-1].t
    if c.k == 'ovf' and c.a[0] in ('Add', 'Mul') and len(c.a) > 4 and c.a[4] == 64:
        return not any(from_request(q, y, request) for y in (c.a[1], c.a[2]))
    b = c.a[0] if c.k == 'not' else c
    if b.k == 'app' and b.a[0] == 'char_boundary':
        # text known to be ASCII, or to start with a literal that ends there
        x, at = b.a[1]
        for y in (z.t for z in cs):
            if y.k != 'app' or not same(unref(y.a[1][0]), unref(x)): continue
            if y.a[0].endswith('is_ascii'): return True
            if y.a[0].endswith('starts_with') and y.a[1][1].k == 'str' and at is I(len(str(y.a[1][1].a[0]).encode())): return True
        from .codec import contents, ascii_
        trs = r.traces(q); vs = contents(q, x)
        return bool(vs) and all(ascii_(q, trs, v, False) for v in vs)
    if b.k == 'is' and b.a[0].k == 'app' and b.a[0].a[0] == 'utf8' and c is not_(is_variant(b.a[0], 0)):
        # only ASCII was put there
        from .codec import contents, ascii_
        trs = r.traces(q); vs = [v for y in b.a[0].a[1] for v in contents(q, y)]
        return bool(vs) and all(ascii_(q, trs, v, False) for v in vs)
    return False
def from_request(q, x, request, seen=None):
    """may this number be a number the requester chose? (looked-up data is not)"""
    seen = set() if seen is None else seen
    if x in request: return True
    if x.k in ('mget', 'idx', 'keyat', 'len'): return False
    if x.k == 'app' and x.a[0] == 'parse': return True
    if x.k == 'phi' and x not in seen:
        seen.add(x)
        if any(from_request(q, z, request, seen) for z in q.g.phi.get(x, ())): return True
    return any(from_request(q, y, request, seen) for y in kids(x))

# ---------------------------------------------------------------------------
def H01(r):
    r.rule('every handler path answers: 200 exactly after one query, 400 with a message exactly after noticing a malformed part, 404 by the router; no reachable panic in the handlers, the router, the queries or the address and hash codecs')
    texts_total(r)
    nok = nbad = 0
    for rt in routes(r):
        for tr in rt.traces:
            e = end(tr)
            sc = state_calls(tr); fl = failing(r, rt.q, tr)
            if e.kind == 'back':
                bad = [x for x in fl if fatal(x, rt.name)]
                r.ok(not bad, 'H01 a malformed part of a request is not skipped', rt.where, (bad, tr)); continue
            if is_panic(tr):
                ff = facts_of(tr)
                miss = rt.name is not None and isv(ff, query(rt.name), 0)
                r.ok(miss or panic_ok(r, rt.q, tr), 'H01 a handler cannot panic', f'{rt.where} {ev_where(tr)}', tr); continue
            rs = response(tr) if e.kind == 'ret' else None
            if not r.ok(rs is not None and rs[0] in (200, 400), 'H01 a handler answers with 200 or 400', rt.where, tr): continue
            st, body = rs
            if st == 200:
                nok += 1
                r.ok(not [x for x in fl if fatal(x, rt.name)], 'H01 a malformed request is not answered with data', rt.where, (fl, tr))
                r.ok(len(sc) == 1 and awaited_value(tr, sc[0]) is not None, 'H01 data is answered from one completed query', rt.where, sc)
            else:
                nbad += 1
                r.ok(fl, 'H01 only a malformed request is refused', rt.where, tr)
                b = strip_clone(body)
                if b.k == 'app' and b.a[0] == 'to_string': b = b.a[1][0]
                elif b.k == 'to_string': b = b.a[0]
                j = jval(rt.q, b)
                r.ok(j[0] == 'obj' and 'message' in j[1] and j[1]['message'][0] == 'leaf', 'H01 a refusal is a JSON object with a message', rt.where, j)
    r.ok(nok >= 6 and nbad >= 6, 'H01 answers found', None, (nok, nbad))
    router_checks(r, 'H01')
    service_checks(r)
    # the queries
    iA = r.fx('State', 'augmentations', 'Augmentation')
    for f in queries_of(r):
        ci = conf_param(r, f); q = r.run(f, opq(LOGS), key='full', part=40); w = f'{r.inst(f)}:{f.span[1]}'
        c = t('param', ci); n = 0
        for tr in r.traces(q):
            if end(tr).kind != 'ret' and not is_panic(tr): continue
            n += 1
            if is_panic(tr):
                # at most the configured confirmations were asked for, and there is an overlay for each (T02)
                lens = {y for x in tr if isinstance(x, Cond) for y in subterms(x.t) if y.k == 'len' and loc(y.a[0])[:2] == (('p', 0), iA)}
                r.ok(panic_ok(r, q, tr, (c,), [le(c, y) for y in lens]), 'H01 a query within the configured confirmations cannot panic', f'{w} {ev_where(tr)}', tr)
        r.ok(n, 'H01 the query was analysed', w)
    # what request data runs through
    for f in codec_roots(r):
        q = r.run(f, opq(LOGS), part=40, inv=True, key='inv'); w = f'{r.inst(f)}:{f.span[1]}'
        for tr in r.traces(q):
            if is_panic(tr): r.ok(panic_ok(r, q, tr, ()), 'H01 converting an address or hash cannot panic', f'{w} {ev_where(tr)}', tr)
        r.ok(True, 'H01 codec analysed', w)
def codec_roots(r):
    fs = r.fns('from_string', 'Address') + [f for f in r.fns('encode', path='reverse_hex::encode')]
    r.need(fs, 'address and hash text functions')
    return fs
def queries_of(r):
    """the state's functions the handlers call"""
    names = set()
    for rt in routes(r):
        for tr in rt.traces:
            for e in state_calls(tr): names.add(e.name.split(':', 1)[1])
    fs = [f for f in r.fns(self_='State') if f.name in names and state_async(r, f)]
    return r.need(fs, 'queries')
def conf_param(r, f):
    c = [i for i in range(f.nargs if hasattr(f, 'nargs') else len(f.locals) - 1) if i + 1 < len(f.locals) and r.p.tys(f.locals[i + 1]) == 'usize']
    if not c: raise Undecided('confirmations parameter of ' + f.name)
    return c[0]

# ---------------------------------------------------------------------- the router
def router(r):
    fs = [f for f in r.the('route', 'Router') if f.kind == 'fn']
    f = r.need(fs, 'Router::route')[0]
    return f, r.run(f, opq(LOGS + [(r'DynamicUri::check$', 'uri_check')]), key='router', part=40)
def router_checks(r, pid):
    f, q = router(r); w = f'{r.inst(f)}:{f.span[1]}'
    iR, iD, iS = r.fx('Router', 'routes', 'Vec'), r.fx('Router', 'default'), r.fx('Router', 'state', 'Arc')
    iM, iU, iH = r.fx('Route', 'method', 'Method'), r.fx('Route', 'dynamic_uri', 'Uri'), r.fx('Route', 'handler', 'Fn|Handler')
    ROUTES = fld(deref_(t('param', 0)), iR); n4 = nc = 0
    RT = None
    routes(r); dflt = r._default
    for tr in r.traces(q):
        e = end(tr); ff = facts_of(tr)
        srcs = [l for l in loop_tests(q, tr) if l.src.k == 'len' and last_field(l.src.a[0]) == iR and l.step == 1 and l.lo is I(0)]
        co = evs_named(tr, 'call_opaque')
        if is_panic(tr):
            r.ok(panic_ok(r, q, tr), f'{pid} routing a request cannot panic', f'{w} {ev_where(tr)}', tr); continue
        if e.kind not in ('ret',): 
            if e.kind == 'back' and pid == 'H01' and not in_inner(tr): 
                pass
            r.ok(e.kind == 'back', f'{pid} the router answers', w, tr); continue
        if co and co[-1].snap and is_route_handler(co[-1].snap[0], iR, iH):
            nc += 1
            c = co[-1]; h = strip_deref(c.snap[0]); rte = route_of(h, iH)
            uc = [x for x in tr if isinstance(x, Ev) and x.name == 'uri_check' and same(strip_deref(x.snap[0]), fld(rte, iU)) and isv(ff, x.ret, 1)]
            r.ok(uc and is_path(uc[-1].snap[1]), f'{pid} a handler runs only for a path its route matches', w, tr)
            me = [x for x in tr if isinstance(x, Cond) and x.t.k == 'eq' and any(same(y, fld(rte, iM)) for y in x.t.a) and any('Request::method' in str(y) for y in x.t.a)]
            r.ok(me, f'{pid} a handler runs only for its route\'s method', w, tr)
            a = awaited_value(tr, c)
            r.ok(a is not None and end(tr).val is a, f'{pid} the handler\'s answer is the answer', w, tr)
            r.ok(len(co) == 1, f'{pid} one handler answers a request', w, tr)
            r.ok(len(c.snap) == 5 and same(unref(c.snap[3]), t('param', 2)) and 'param(1)' in show(c.snap[1], 4), f'{pid} the handler gets the request\'s own body', w, c)
            continue
        # nothing matched
        r.ok(srcs and srcs[-1].state == 'out', f'{pid} a request is refused only after all routes were tried', w, tr)
        if co:
            d = isv(ff, fld(deref_(t('param', 0)), iD), 1)
            if dflt is not None and dflt.k == 'agg' and dflt.a[1] == 0: continue      # there is no default handler
            r.ok(default404(r, dflt), f'{pid} the default handler answers 404', w, tr); n4 += 1
        else:
            rs = response(tr); n4 += 1
            r.ok(rs is not None and rs[0] == 404, f'{pid} an unknown path or method is answered with 404', w, tr)
    r.ok(n4 and nc, f'{pid} router outcomes found', w, (n4, nc))
    # the loop goes on to the next route exactly when this one does not match
    for tr in r.traces(q):
        if end(tr).kind == 'back':
            lp = [x for x in tr if isinstance(x, Loop)]
            if len(lp) == 1 and loop_tests(q, tr) and last_field_len(loop_tests(q, tr)[0].src) == iR:
                ff = facts_of(tr)
                uc = [x for x in tr if isinstance(x, Ev) and x.name == 'uri_check']
                neq = [x for x in tr if isinstance(x, Cond) and x.t.k == 'not' and x.t.a[0].k == 'eq' and 'Request::method' in str(x.t)]
                r.ok(neq or (uc and isv(ff, uc[-1].ret, 0)), f'{pid} a route is passed over only when method or path differ', w, tr)
def in_inner(tr): return len([x for x in tr if isinstance(x, Loop)]) > 1
def last_field(x):
    x = strip_clone(x)
    while x.k in ('ver', 'vphi', 'deref'): x = x.a[0]
    return x.a[1] if x.k == 'fld' else None
def last_field_len(x): return last_field(x.a[0]) if x.k == 'len' else None
def is_route_handler(x, iR, iH):
    x = strip_deref(x)
    return x.k == 'fld' and x.a[1] == iH and x.a[0].k == 'idx' and last_field(x.a[0].a[0]) == iR
def route_of(h, iH): return strip_deref(h).a[0]
def is_path(x):
    x = unref(x)
    return x.k == 'app' and x.a[0] == 'Uri::path' and 'Request::uri' in str(x)
def default404(r, d):
    if d is None or d.k != 'agg' or d.a[1] != 1: return False
    fid = clos(d)
    if fid is None: return False
    q = r.run(r.p.fns[fid], route_opq(r), args=[ref(('X', find_closure(d)))])
    return all((response(tr) or (None,))[0] == 404 for tr in r.traces(q) if end(tr).kind == 'ret') and not [tr for tr in r.traces(q) if is_panic(tr)]
def find_closure(d):
    for y in subterms(d):
        if y.k == 'agg' and y.a[0].startswith('closure:'): return y

def service_checks(r):
    """the closure hyper calls for every request: the whole body is read, then the router answers"""
    fs = [f for f in r.the('run', 'Server') if f.kind == 'fn']
    f = r.need(fs, 'Server::run')[0]; w = f'{r.inst(f)}:{f.span[1]}'
    op = opq(LOGS + [(r'Router.*::route$', 'route')])
    q = r.run(f, op); svc = []
    def hunt(q):
        for e in q.g.events:
            for x in e.snap:
                for y in subterms(x) if isinstance(x, T) else ():
                    if y.k == 'agg' and y.a[0].startswith('closure:') and y not in seen:
                        seen.add(y); g = r.p.fns[clos(y)]
                        qq = r.run(g, op, args=[ref(('X', y))], part=40)
                        if any(e2.name == 'route' for e2 in qq.g.events): svc.append((g, qq))
                        else: hunt(qq)
    seen = set(); hunt(q)
    r.need(svc, 'the service function of the server')
    for g, qq in svc:
        n = 0; wg = f'{r.inst(g)}:{g.span[1]}'
        for tr in r.traces(qq):
            e = end(tr); rc = evs_named(tr, 'route')
            if is_panic(tr):
                # the body could not be received completely
                cs = [x.t for x in tr if isinstance(x, Cond)]
                io = cs and cs[-1].k == 'is' and any(y.k == 'ev' and (y.a[1] == 'await' or y.a[1].startswith('await')) for y in subterms(cs[-1])) and not any(y.k == 'ev' and y.a[1] == 'route' for y in subterms(cs[-1]))
                r.ok(io or panic_ok(r, qq, tr), 'H01 a completely received request cannot make the service panic', f'{wg} {ev_where(tr)}', tr); continue
            if e.kind == 'back': continue
            n += 1
            r.ok(len(rc) == 1 and awaited_value(tr, rc[0]) is not None, 'H01 every completely received request is routed', wg, tr)
            if not rc: continue
            v = e.val
            r.ok(v.k == 'agg' and v.a[0] == RES and v.a[1] == 0 and v.a[2][0] is awaited_value(tr, rc[0]), 'H01 the router\'s answer is the answer', wg, tr)
            b = rc[0].snap[2]
            if b.k == 'vphi':
                ins = qq.g.phi.get(b, ())
                okb = all(x.k == 'newc' or (x.k == 'ver' and x.a[0] is b and x.a[1].k == 'ev' and x.a[1].a[1] in ('Vec::extend_from_slice', 'Vec::extend', 'Vec::append')) for x in ins)
                r.ok(okb, 'H01 the handler gets the whole body in order', wg, list(ins))
                cs = [x for x in tr[:tr.index(rc[0])] if isinstance(x, Cond) and x.t.k == 'is' and x.t.a[0].k == 'ev']
                cs = cs or [x for x in tr[:tr.index(rc[0])] if isinstance(x, Cond) and x.t.k == 'not' and x.t.a[0].k == 'is']
                r.ok(cs, 'H01 the body is read to its end', wg, tr)
            else:
                r.ok(any(y.k == 'ev' and re.search('to_bytes|aggregate|collect', y.a[1]) for y in subterms(b)), 'H01 the handler gets the whole body', wg, b)
        r.ok(n, 'H01 the service answers', wg)

# ---------------------------------------------------------------------------
def H02(r):
    r.rule('every query is made with confirmations = 0 when the parameter is absent, else the parsed parameter known to be at most the configured count; nothing is read before')
    n = {0: 0, 1: 0}
    for rt in routes(r):
        present = absent = False
        for tr in rt.traces:
            sc = state_calls(tr)
            if end(tr).kind == 'ret':
                rs = response(tr)
                if rs and rs[0] == 400: r.ok(not sc, 'H02 a refused request has read nothing', rt.where, tr)
            for e in sc:
                s = state_call(r, tr, e); i = tr.index(e); ff = facts_of(tr, i)
                r.ok(s.recv is not None and same(s.recv, STATE), 'H02 the shared state is asked', rt.where, s.recv)
                if s.conf is None: r.ok(False, 'H02 a query is made with the requested confirmations', rt.where, e); continue
                p = isv(ff, query('confirmations'), 1)
                if p is None: r.ok(False, 'H02 the confirmations parameter is looked up before a query', rt.where, tr)
                elif not p: absent = True; n[0] += 1; r.ok(s.conf is I(0), 'H02 without the parameter confirmations are zero', rt.where, s.conf)
                else:
                    present = True; n[1] += 1
                    c = s.conf
                    pr = [y for y in subterms(c) if y.k == 'app' and y.a[0] == 'parse']
                    good = c.k == 'vfld' and c.a[1] == 0 and pr and c.a[0] is pr[0] and pr[0].a[1][0].k == 'ty' and pr[0].a[1][0].a[0] in ('usize', 'u64', 'u32') and same(unref(pr[0].a[1][1]), vfld(query('confirmations'), 1, 0))
                    r.ok(good, 'H02 the requested confirmations are used', rt.where, c)
                    if good: r.ok(decide(ff, le(c, conf_max(r))) is True, 'H02 at most the configured confirmations are accepted', rt.where, tr)
        # every value up to the limit is accepted
        for tr in rt.traces:
            if end(tr).kind != 'ret': continue
            rs = response(tr)
            if rs and rs[0] == 400:
                fl = [x for x in failing(r, rt.q, tr)]
                pv = {y for x in tr if isinstance(x, Cond) for y in subterms(x.t) if y.k == 'vfld' and y.a[0].k == 'app' and y.a[0].a[0] == 'parse'}
                for y in pv:
                    # refused after the number was compared: only beyond the limit
                    if not [x for x in fl if x[0] in ('address', 'body', 'missing') and fatal(x, rt.name)]:
                        r.ok(decide(facts_of(tr), lt(conf_max(r), y)) is True, 'H02 a number within the limit is accepted', rt.where, tr)
        r.ok(present and absent, 'H02 the endpoint takes confirmations', rt.where)
    r.ok(n[0] >= 6 and n[1] >= 6, 'H02 queries found', None, n)
    query_params(r)
def query_params(r):
    """the parameters handed to a handler: each part name=value of the query string"""
    f, q = router(r); w = f'{r.inst(f)}:{f.span[1]}'; got = False
    for tr in r.traces(q):
        for e in evs_named(tr, 'HashMap::insert'):
            k, v = unref(e.snap[1]), unref(e.snap[2])
            if any(y.k == 'ev' and y.a[1] == 'uri_check' for y in subterms(k)): continue
            part = None
            if k.k == 'idx' and k.a[1] is I(0): part = k.a[0]
            okp = part is not None and v.k == 'idx' and v.a[0] is part and v.a[1] is I(1) and part.k == 'strit' and part.a[0] in ('split', 'splitn') and sep_is(part, 61)
            so = part is not None and part.k == 'strit' and part.a[0] == 'split_once'
            src = unref(part.a[1][0]) if okp else None
            if okp:
                okp = src.k == 'idx' and src.a[0].k == 'strit' and src.a[0].a[0] == 'split' and sep_is(src.a[0], 38) and is_query(src.a[0].a[1][0])
            else:
                # split_once
                okp = k.k == 'fld' and v.k == 'fld' and k.a[0] is v.a[0] and k.a[1] == 0 and v.a[1] == 1 and 'split_once' in str(k) and '61' in str(k)
            r.ok(okp, 'H02 a query parameter is the text before and after the equals sign', w, e); got = True
        if end(tr).kind == 'back' and evs_named(tr, 'HashMap::insert'): pass
    r.ok(got, 'H02 query parameters are read', w)
    # a part name=value is never dropped
    for tr in r.traces(q):
        if end(tr).kind != 'back': continue
        ls = [l for l in loop_tests(q, tr) if l.src.k == 'len' and l.src.a[0].k == 'strit' and sep_is(l.src.a[0], 38)]
        if ls and ls[-1].state == 'in' and not [e for e in evs_named(tr, 'HashMap::insert') if tr.index(e) > ls[-1].pos]:
            ff = facts_of(tr)
            parts_ = {y for x in tr[ls[-1].pos:] if isinstance(x, Cond) for y in subterms(x.t) if y.k == 'strit' and sep_is(y, 61)}
            so = any('split_once' in str(x) for x in tr[ls[-1].pos:] if isinstance(x, Cond))
            r.ok(so or any(decide(ff, eq0(sub(length(y), I(2)))) is False for y in parts_) or path_guard(tr), 'H02 no well-formed query parameter is dropped', w, tr)
def path_guard(tr):
    """the name is one of the path's own parameters"""
    return any(isinstance(x, Cond) and x.t.k == 'is' and x.t.a[0].k == 'mget' and x.t.a[1] == 1 and 'uri_check' in str(x.t.a[0]) for x in tr)
def sep_is(s, c): return len(s.a[1]) > 1 and any(y is I(c) or (y.k == 'str' and y.a[0] == chr(c)) for y in s.a[1][1:])
def is_query(x):
    x = unref(x)
    if x.k == 'str' and not x.a[0]: return True      # what stands for an absent query: no parameter comes from it
    return 'Uri::query' in str(x) and 'Request::uri' in str(x)

# ---------------------------------------------------------------------------
TABLE = {('GET', '/addresses/{}/balance'): 'balance', ('GET', '/addresses/{}/utxos'): 'utxos', ('GET', '/addresses/balance'): 'balances', ('POST', '/addresses/balance'): 'balances',
         ('GET', '/addresses/utxos'): 'utxoss', ('POST', '/addresses/utxos'): 'utxoss'}
def kind_of(r, rt, tr):
    """(kind of data, query, detail) answered on this trace; kind None when not understood"""
    rs = response(tr); sc = state_calls(tr)
    if rs is None or rs[0] != 200 or len(sc) != 1: return None, None, None
    s = state_call(r, tr, sc[0]); q = rt.q
    b = strip_clone(rs[1])
    if b.k == 'app' and b.a[0] == 'to_string': b = b.a[1][0]
    elif b.k == 'to_string': b = b.a[0]
    j = jval(q, b)
    if j[0] == 'leaf':
        return ('balance' if s.val is not None and not s.list and s.out == 'u64' and is_amount(j[1], s.val) else None), s, j
    if j[0] != 'list': return None, s, j
    V = j[1]
    if s.closure is not None:
        l, e, qq, bad = closure_pushes(r, s)
        if l is None: return None, s, bad
        # the list the callback fills is the one answered, untouched before and after
        base = unref(V)
        okl = base.k == 'ver' and base.a[0].k == 'newc' and base.a[1] is sc[0].ret
        j2 = jval(qq, e)
        return ('utxos' if okl and captured(r, s, l, base.a[0]) and is_utxo(r, j2, t('param', 1), t('param', 2)) else None), s, (V, e)
    m = mapped(q, V)
    if not m: return None, s, V
    if s.val is None or N(m[0].src) is not N(s.val) or not exh(q, tr, m): return None, s, m
    kinds = set()
    for x in m:
        el = TM.idx(x.src, x.i); j2 = jval(q, x.elem); a, v = fld(el, 0), fld(el, 1)
        if not s.list:
            kinds.add('utxos' if is_utxo(r, j2, a, v) else None); continue
        if j2[0] != 'obj' or 'address' not in j2[1] or j2[1]['address'][0] != 'leaf' or not is_text_of(j2[1]['address'][1], a): kinds.add(None); continue
        if set(j2[1]) == {'address', 'balance'} and j2[1]['balance'][0] == 'leaf' and is_amount(j2[1]['balance'][1], v): kinds.add('balances')
        elif set(j2[1]) == {'address', 'utxos'} and j2[1]['utxos'][0] == 'list':
            m2 = mapped(q, j2[1]['utxos'][1]); k = None
            if m2 and all(N(y.src) is N(v) for y in m2) and all(is_utxo(r, jval(q, y.elem), fld(TM.idx(y.src, y.i), 0), fld(TM.idx(y.src, y.i), 1)) for y in m2) and inner_done(rt, x, m2): k = 'utxoss'
            kinds.add(k)
        else: kinds.add(None)
    return (kinds.pop() if len(kinds) == 1 else None), s, m
def inner_done(rt, x, m2):
    """wherever the entry is added, its list is complete"""
    for tr in rt.traces:
        for i, e in enumerate(tr):
            if isinstance(e, Ev) and e.name in ('Vec::push',) and e.snap[1] is x.elem and not exhausted(rt.q, tr, m2[0].src, i): return False
    return True
def captured(r, s, l, cell):
    """location l (inside the closure) is the captured variable holding cell"""
    if not l: return False
    vs = [x for x in s.closure.a[2]]
    for i, v in enumerate(vs):
        if same(v, cell) or v is cell: 
            return len([1 for v in vs if v.k == 'newc']) == 1
    return False
def H03(r):
    r.rule('the route table is exactly the six documented ones; each handler\'s 200 answers have the shape and source of its path; routes are matched by method and full path')
    rts = routes(r); seen = {}
    for rt in rts:
        k = (rt.method, re.sub(r'\{[^{}]*\}', '{}', rt.uri))
        r.ok(k in TABLE, 'H03 nothing else is served', rt.where, k)
        r.ok(k not in seen, 'H03 one handler per path and method', rt.where, k); seen[k] = rt
        n = 0
        for tr in rt.traces:
            if end(tr).kind != 'ret' or (response(tr) or (0,))[0] != 200: continue
            n += 1; kd, s, d = kind_of(r, rt, tr)
            r.ok(kd == TABLE.get(k), f'H03 the path answers with its kind of data', rt.where, (kd, d))
            if s is None: continue
            if s.list: r.ok(source(r, rt, tr, s) == ('query' if rt.method == 'GET' else 'body'), 'H03 the address list comes from the parameter or the JSON body', rt.where, s.arg)
        r.ok(n, 'H03 the path is served', rt.where)
    for k in TABLE: r.ok(k in seen, 'H03 every documented path is served', None, k)
    router_checks(r, 'H03')
    uri_checks(r, 'H03')
def source(r, rt, tr, s):
    m = mapped(rt.q, s.arg)
    if not m: return None
    src = unref(m[0].src)
    if src.k == 'strit' and src.a[0] == 'split' and sep_is(src, 44) and same(unref(src.a[1][0]), vfld(query('addresses'), 1, 0)): return 'query'
    if any(y.k == 'app' and y.a[0] in ('de::from_str', 'de::from_slice') and any(z is BODY for z in subterms(y)) for y in subterms(src)): return 'body'
    return None

# ---------------------------------------------------------------------------
def H04(r):
    r.rule('the list handed to a query has one parsed address per requested one, in order; the query\'s result and the answer have one entry per element, in order, each labelled with its own address and value')
    n = 0
    for rt in routes(r):
        k = TABLE.get((rt.method, re.sub(r'\{[^{}]*\}', '{}', rt.uri)))
        for tr in rt.traces:
            for e in state_calls(tr):
                s = state_call(r, tr, e)
                if not s.list: continue
                n += 1; m = mapped(rt.q, s.arg)
                if not r.ok(m, 'H04 the list asked for is built one by one from the requested one', rt.where, s.arg): continue
                r.ok(exh(rt.q, tr, m, tr.index(e)), 'H04 every requested address is asked for', rt.where, tr)
                for x in m:
                    v = unref(x.elem)
                    g = v.k == 'vfld' and v.a[1] == 0 and v.a[0].k == 'ev' and v.a[0].a[1] == 'parse_address'
                    a = unref(v.a[0].a[2][0]) if g else None
                    el = unref(TM.idx(x.src, x.i))
                    r.ok(g and (same(a, el) or (a.k == 'vfld' and a.a[0].k == 'app' and a.a[0].a[0] == 'Value::as_str' and same(unref(a.a[0].a[1][0]), el)) or (a.k == 'vfld' and a.a[1] == 3 and same(unref(a.a[0]), el))),
                         'H04 each element is the requested address itself', rt.where, x.elem)
            if end(tr).kind == 'ret' and (response(tr) or (0,))[0] == 200 and k in ('balances', 'utxoss'):
                kd, s, d = kind_of(r, rt, tr)
                r.ok(kd == k, 'H04 the answer has one labelled entry per result', rt.where, d)
    r.ok(n >= 8, 'H04 list queries found', None, n)
    # the queries themselves
    QT = [(r'ReadonlyTransactionStore::balance$', 'q_balance'), (r'ReadonlyTransactionStore::iterate_transaction_outputs$', 'q_list'), (r'BackendTrait.*::balance$', 'q_balance'), (r'ackend.* as .*::iterate_transaction_outputs$', 'q_list'), (r'TransactionStoreBackend::(balance)$', 'q_balance'), (r'TransactionStoreBackend::(iterate_transaction_outputs)$', 'q_list')]
    m_ = 0
    for f in queries_of(r):
        if not any(re.search(r'(Vec<|\[)(\w+::)*Address', r.p.tys(f.locals[i + 1])) for i in range(3) if i + 1 < len(f.locals)): continue
        li = next(i for i in range(3) if re.search(r'(Vec<|\[)(\w+::)*Address', r.p.tys(f.locals[i + 1])))
        q = r.run(f, opq(LOGS + QT), key='h04', part=40); w = f'{r.inst(f)}:{f.span[1]}'; A = t('param', li)
        for tr in r.traces(q):
            if end(tr).kind != 'ret': continue
            m_ += 1; m = mapped(q, end(tr).val)
            if not r.ok(m and all(N(x.src) is N(unref(A)) or N(x.src) is N(A) for x in m), 'H04 a query returns one entry per address, in order', w, tr): continue
            r.ok(exh(q, tr, m), 'H04 a query answers for every address', w, tr)
            for x in m:
                el = TM.idx(x.src, x.i); v = unref(x.elem)
                r.ok(v.k == 'agg' and len(v.a[2]) == 2 and is_addr(v.a[2][0], el), 'H04 each entry is labelled with its address', w, v)
                if not (v.k == 'agg' and len(v.a[2]) == 2): continue
                y = v.a[2][1]
                if y.k == 'ev' and y.a[1] == 'q_balance': r.ok(is_addr(y.a[2][1], el), 'H04 each entry holds its own address\'s balance', w, y)
                else:
                    evq = [z for z in subterms(y) if z.k == 'ev' and z.a[1] == 'q_list']
                    c = evq and next((z for z in evq[0].a[2] if z.k == 'agg' and z.a[0].startswith('closure:')), None)
                    r.ok(y.k == 'ver' and y.a[0].k == 'newc' and evq and y.a[1] is evq[0] and is_addr(evq[0].a[2][1], el), 'H04 each entry holds its own address\'s outputs', w, y)
                    if c:
                        sc = SC(); sc.closure = c
                        l, e, qq, bad = closure_pushes(r, sc)
                        r.ok(l is not None and e.k == 'agg' and len(e.a[2]) == 2 and same(unref(e.a[2][0]), t('param', 1)) and same(unref(e.a[2][1]), t('param', 2)), 'H04 every listed output is kept with its value', w, (e, bad))
                    else: r.ok(False, 'H04 the outputs are listed', w, y)
    r.ok(m_, 'H04 list queries analysed')

# ---------------------------------------------------------------------------
def H05(r):
    r.rule('path parameters are put into the map last (or query parameters only where absent); single-address handlers parse exactly the path parameter; the path parameter is the captured part of the path')
    n = 0
    for rt in routes(r):
        if rt.name is None: continue
        for tr in rt.traces:
            for e in state_calls(tr):
                s = state_call(r, tr, e); n += 1; v = s.arg
                g = v is not None and not s.list and v.k == 'vfld' and v.a[1] == 0 and v.a[0].k == 'ev' and v.a[0].a[1] == 'parse_address' and same(unref(v.a[0].a[2][0]), vfld(query(rt.name), 1, 0))
                r.ok(g, 'H05 the query is for the address in the path', rt.where, s.arg)
    r.ok(n >= 4, 'H05 single-address queries found', None, n)
    # the query lists the outputs of that address to the handler's callback
    QT = [(r'(TransactionStore|ackend|ackendTrait|ackend.*>)::iterate_transaction_outputs$', 'q_list'), (r'ReadonlyTransactionStore::balance$', 'q_balance')]
    for f in queries_of(r):
        g = r.p.fns.get(r.p.types[f.locals[0]].get('inst'))
        if r.p.tys(g.locals[0]) == 'u64' or 'u64' in r.p.tys(g.locals[0]) or not any(re.search(r'^&?(\w+::)*Address$', r.p.tys(x)) for x in f.locals[1:f.argc + 1]): continue
        q = r.run(f, opq(LOGS + QT), key='h05q', part=40); w = f'{r.inst(f)}:{f.span[1]}'; A = t('param', addr_param(r, f))
        cbs = {t('param', i) for i in range(f.argc) if 'closure' in r.p.tys(f.locals[i + 1]) or r.p.types[f.locals[i + 1]]['k'] == 'param'}
        for tr in r.traces(q):
            if end(tr).kind != 'ret': continue
            ls = evs_named(tr, 'q_list')
            if not r.ok(len(ls) == 1 and is_addr(ls[0].snap[1], A), 'H05 the outputs of the address asked for are listed once', w, tr): continue
            c = unref(ls[0].snap[2])
            if c.k == 'agg' and c.a[0].startswith('closure:'):
                qc = r.run(r.p.fns[clos(c)], opq(LOGS), args=[ref(('X', c))]); ok = True
                for u in r.traces(qc):
                    co = evs_named(u, 'call_opaque')
                    ok = ok and end(u).kind == 'ret' and len(co) == 1 and same(unref(co[0].snap[1]), t('param', 1)) and same(unref(co[0].snap[2]), t('param', 2))
                r.ok(ok, 'H05 every listed output reaches the answer', w, c)
            elif cbs: r.ok(c in cbs, 'H05 the listed outputs reach the answer', w, c)
    f, q = router(r); w = f'{r.inst(f)}:{f.span[1]}'; iR, iH = r.fx('Router', 'routes', 'Vec'), r.fx('Route', 'handler', 'Fn|Handler'); nc = 0
    for tr in r.traces(q):
        ff0 = facts_of(tr)
        uc = [x for x in tr if isinstance(x, Ev) and x.name == 'uri_check' and isv(ff0, x.ret, 1)]
        if not uc: continue
        PP = vfld(uc[-1].ret, 1, 0)
        pl = loops_over(q, tr, PP)
        for i, e in enumerate(tr):
            if not (isinstance(e, Ev) and e.name in ('HashMap::insert', 'HashMap::entry_insert')): continue
            k, v = unref(e.snap[1]), unref(e.snap[2])
            if any(same(y, uc[-1].ret) for y in subterms(k)):
                g = k.k == 'keyat' and same(k.a[0], PP) and v.k == 'vfld' and v.a[0].k == 'mget' and same(v.a[0].a[0], PP) and same(v.a[0].a[1], k)
                r.ok(g, 'H05 a path parameter keeps its own value', w, e); continue
            late = [l for l in pl if l.pos < i] or base_is(e.snap[0], PP)
            if late or removed(tr): r.ok(absent(tr[:i], k, e.snap[0], PP), 'H05 a query parameter cannot replace a path parameter', w, tr)
        inner = [l for l in pl if l.state == 'in']
        if end(tr).kind == 'back' and inner:
            mine = [e for e in tr[inner[-1].pos:] if isinstance(e, Ev) and e.name in ('HashMap::insert', 'HashMap::entry_insert') and unref(e.snap[1]).k == 'keyat' and same(unref(e.snap[1]).a[0], PP)]
            r.ok(mine, 'H05 every path parameter replaces what the query said', w, tr)
        for c in evs_named(tr, 'call_opaque'):
            if not is_route_handler(c.snap[0], iR, iH): continue
            nc += 1; m = c.snap[2]
            r.ok(base_is(m, PP) or exhausted(q, tr, PP, tr.index(c)), 'H05 all path parameters are handed to the handler', w, tr)
            r.ok(base_is(m, PP) or map_of_inserts(tr, m), 'H05 the handler gets the map that was filled', w, c)
        r.ok(not [e for e in tr if isinstance(e, Ev) and e.name in ('HashMap::remove', 'HashMap::clear', 'HashMap::retain', 'HashMap::drain')], 'H05 no parameter is removed', w, tr)
    r.ok(nc, 'H05 handler calls found', w)
    uri_checks(r, 'H05')
def removed(tr): return False
def base_is(m, PP):
    x = m
    while x.k in ('ver', 'vphi', 'clone'): x = x.a[1] if x.k == 'clone' else x.a[0]
    return N(x) is N(PP)
def absent(pre, k, m, PP):
    for x in pre:
        if isinstance(x, Cond):
            c = x.t
            if c.k == 'not' and c.a[0].k == 'is' and c.a[0].a[1] == 1: c = t('is', c.a[0].a[0], 0)
            if c.k == 'is' and c.a[1] == 0 and c.a[0].k == 'mget' and same(unref(c.a[0].a[1]), k) and (N(c.a[0].a[0]) is N(m) or N(c.a[0].a[0]) is N(PP)): return True
    return False
def map_of_inserts(tr, m):
    b = m
    while b.k in ('ver', 'vphi'): b = b.a[0]
    return b.k == 'newc'

def uri_checks(r, pid):
    """path patterns: what DynamicUri::new builds and DynamicUri::check reads"""
    iRe, iPa = r.fx('DynamicUri', 'regex', 'Regex'), r.fx('DynamicUri', 'parameters', 'HashMap')
    # reading
    f = r.one('check', 'DynamicUri'); w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, opq(LOGS), key='uric'); n = 0
    SELF = deref_(t('param', 0))
    for tr in r.traces(q):
        ff = facts_of(tr)
        cap = {y for x in tr if isinstance(x, Cond) for y in subterms(x.t) if y.k == 'app' and y.a[0] == 'regex::Regex::captures'}
        if not r.ok(len(cap) == 1, f'{pid} the path is matched against the pattern', w, tr): continue
        cap = cap.pop()
        r.ok(last_field(unref(cap.a[1][0])) == iRe and same(unref(cap.a[1][1]), unref(t('param', 1))), f'{pid} the whole path is matched', w, cap)
        m = isv(ff, cap, 1)
        if is_panic(tr): r.ok(False, f'{pid} matching a path cannot panic', w, tr); continue
        if not m: r.ok(end(tr).kind == 'ret' and end(tr).val is NONE, f'{pid} a path that does not match has no parameters', w, tr); continue
        PR = None
        for e in evs_named(tr, 'HashMap::insert'):
            k, v = unref(e.snap[1]), unref(e.snap[2])
            g = k.k == 'keyat' and last_field(k.a[0]) == iPa and v.k == 'app' and v.a[0] == 'capture' and same(v.a[1][0], vfld(cap, 1, 0)) and v.a[1][1].k == 'vfld' and v.a[1][1].a[0].k == 'mget' and same(v.a[1][1].a[0].a[1], k)
            r.ok(g, f'{pid} a path parameter is its captured part of the path', w, e)
            if g: PR = k.a[0]; n += 1
        if end(tr).kind == 'ret':
            v = end(tr).val
            r.ok(v.k == 'agg' and v.a[1] == 1 and base_new(v.a[2][0]), f'{pid} a match returns the parameters', w, tr)
            l = [x for x in loop_tests(q, tr) if x.src.k == 'len' and last_field(x.src.a[0]) == iPa and x.state == 'out']
            r.ok(l, f'{pid} every parameter of the pattern is returned', w, tr)
    r.ok(n, f'{pid} captured parameters found', w)
    # building
    f = r.one('new', 'DynamicUri'); w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, opq(LOGS), key='urin'); nb = nr = 0
    URI = t('param', 0)
    group = find = esc = None
    for tr in r.traces(q):
        e = end(tr)
        if is_panic(tr): continue      # at start-up, for a malformed constant pattern
        nx = [x for x in tr if isinstance(x, Ev) and x.name == 'next']
        if not nx: r.ok(False, f'{pid} the pattern is scanned', w, tr); continue
        src = nx[-1].snap[0]; fi = [y for y in subterms(src) if y.k == 'app' and y.a[0] == 'regex::Regex::new']
        find = fi[0].a[1][0].a[0] if fi and fi[0].a[1][0].k == 'str' else None
        if not r.ok(find is not None and src.k == 'app' and src.a[0] == 'regex::Regex::find_iter' and same(unref(src.a[1][1]), URI), f'{pid} the parameters of a pattern are found by one expression', w, src): return
        rng = [y for x in tr for y in (subterms(x.t) if isinstance(x, Cond) else [z for s_ in x.snap for z in subterms(s_)] if isinstance(x, Ev) else []) if y.k == 'app' and y.a[0] in ('regex::Match::range',)]
        if e.kind == 'back':
            nb += 1; mt = vfld(nx[-1].ret, 1, 0)
            def pos(x): 
                x = unref(x)
                if x.k == 'fld' and x.a[0].k == 'app' and x.a[0].a[0] == 'regex::Match::range' and same(unref(x.a[0].a[1][0]), mt): return ('start', 'end')[x.a[1]]
                if x.k == 'app' and x.a[0] in ('regex::Match::start', 'regex::Match::end') and same(unref(x.a[1][0]), mt): return x.a[0].split('::')[-1]
                return None
            def posd(x):
                c, at = lin_of(x)
                return (pos(at[0][0]), c) if len(at) == 1 and at[0][1] == 1 else None
            ins = evs_named(tr, 'HashMap::insert'); pu = evs_named(tr, 'Vec::push')
            if not r.ok(len(ins) == 1 and len(pu) == 2, f'{pid} each parameter is recorded and matched once', w, tr): continue
            k = unref(ins[0].snap[1]); ix = ins[0].snap[2]
            r.ok(k.k == 'slice' and unref(k.a[0]) is URI and posd(k.a[1]) == ('start', 1) and posd(k.a[2]) == ('end', -1), f'{pid} a parameter is named by the text between its braces', w, k)
            r.ok(loop_index(q.g, ix) == (I(1), 1), f'{pid} parameters are numbered as their groups', w, (ix, q.g.phi.get(ix)))
            esc = escaped(r, pu[0].snap[1], pid, w) or esc
            lit = lit_of(pu[0].snap[1])
            bv = dict(e.bv or ())
            r.ok(lit is not None and lit.k == 'slice' and unref(lit.a[0]) is URI and posd(lit.a[2]) == ('start', 0) and lit.a[1].k == 'phi' and lit.a[1] in bv and posd(bv[lit.a[1]]) == ('end', 0) and I(0) in q.g.phi[lit.a[1]], f'{pid} the text between parameters is matched literally', w, lit)
            gx = unref(pu[1].snap[1]); gx = gx.a[2][0] if gx.k == 'agg' and gx.a[2] else gx
            group = gx.a[0] if gx.k == 'str' else None
        elif e.kind == 'ret':
            nr += 1; pu = evs_named(tr, 'Vec::push')
            lit = lit_of(pu[-1].snap[1]) if pu else None
            r.ok(lit is not None and lit.k == 'slice' and unref(lit.a[0]) is URI and lit.a[1].k == 'phi' and same(lit.a[2], length(URI)), f'{pid} the rest of the pattern is matched literally', w, lit)
            re_ = [y for x in tr if isinstance(x, Cond) for y in subterms(x.t) if y.k == 'app' and y.a[0] == 'regex::Regex::new' and y.a[1][0].k != 'str']
            pr = fmt_parts(unref(re_[-1].a[1][0])) if re_ else None
            r.ok(pr and len(pr) == 3 and pr[0] == '^' and pr[2] == '$' and isinstance(pr[1], tuple) and joined(pr[1][2]), f'{pid} a pattern matches whole paths only', w, pr)
            v = e.val
            r.ok(v.k == 'agg' and unref(v.a[2][iRe]) is vfld(re_[-1], 0, 0) if re_ else False, f'{pid} the pattern built is the one used', w, v)
            r.ok(base_new(v.a[2][iPa]), f'{pid} the parameters recorded are the ones used', w, v)
    r.ok(nb and nr, f'{pid} pattern construction found', w)
    r.ok(group in ('([^/]*)', '([^/]+)'), f'{pid} a parameter is exactly one path segment', w, group)
    # the constant expressions, on the registered patterns
    if find is None: return
    for rt in routes(r):
        try: occ = [m.group(0) for m in re.finditer(find, rt.uri)]
        except re.error as x: r.ok(False, f'{pid} the parameter expression is understood', w, find); break
        r.ok(occ == re.findall(r'\{[^{}]*\}', rt.uri), f'{pid} the parameters of a registered path are found', rt.where, (find, occ))
        rest = re.sub(r'\{[^{}]*\}', '', rt.uri)
        special = set(rest) & set('.+*?^$()[]{}|\\')
        r.ok(not special or esc, f'{pid} special characters of a path are escaped', rt.where, special)
def escaped(r, x, pid, w):
    return any(y.k == 'app' and y.a[0] == 'regex::Regex::replace_all' for y in subterms(x))
def lit_of(x):
    """the literal text of a pattern piece, escaped or not"""
    x = unref(x)
    if x.k == 'app' and x.a[0] in ('regex::Regex::replace_all',): return unref(x.a[1][1])
    if x.k == 'app' and x.a[0] in ('regex::escape', 'escape'): return unref(x.a[1][0])
    if x.k == 'agg' and x.a[2]: return lit_of(x.a[2][0])
    return x if x.k == 'slice' else None
def joined(x):
    x = unref(x)
    return (x.k == 'app' and 'join' in x.a[0] and any(y.k == 'str' and y.a[0] == '' for y in x.a[1])) or (x.k == 'app' and 'concat' in x.a[0]) or x.k == 'join'

# ---------------------------------------------------------------------------
def H06(r):
    r.rule('a balance is 0 plus the value of every output the listing of the same store and address yields, each once; amounts are value / 1e8 and outputs show their own hash, index and value')
    for rt in routes(r):
        k = TABLE.get((rt.method, re.sub(r'\{[^{}]*\}', '{}', rt.uri)))
        n = 0
        for tr in rt.traces:
            if end(tr).kind != 'ret' or (response(tr) or (0,))[0] != 200: continue
            n += 1; kd, s, d = kind_of(r, rt, tr)
            r.ok(kd is not None and (k is None or kd == k), 'H06 amounts and outputs are shown in the documented format', rt.where, (kd, d))
        r.ok(n, 'H06 answers found', rt.where)
    # balance and listing
    LT = [(r'(TransactionStore|ackend|ackendTrait|ackend.*>)::iterate_transaction_outputs$', 'q_list')]
    bal = []
    for f in queries_of(r):
        g = r.p.fns.get(r.p.types[f.locals[0]].get('inst'))
        if 'u64' in r.p.tys(g.locals[0]) and 'TransactionOutput' not in r.p.tys(g.locals[0]): bal.append(f)
    r.need(bal, 'balance queries')
    for f in bal:
        q = r.run(f, opq(LOGS + LT), key='h06', part=40); w = f'{r.inst(f)}:{f.span[1]}'; n = 0
        for tr in r.traces(q):
            if end(tr).kind != 'ret': continue
            v = end(tr).val; el = None; n += 1
            if base_new(v):
                m = mapped(q, v)
                if not r.ok(m, 'H06 balances are computed one by one', w, v): continue
                xs = [(unref(x.elem).a[2][1], TM.idx(x.src, x.i)) if unref(x.elem).k == 'agg' else (x.elem, None) for x in m]
            else: xs = [(v, t('param', addr_param(r, f)))]
            for x, a in xs:
                sm = summed(r, q, x)
                if sm is not None:
                    # the values listed were collected first
                    ev = sm.a[1]; c = next((z for z in ev.a[2] if z.k == 'agg' and z.a[0].startswith('closure:')), None)
                    r.ok(a is not None and is_addr(ev.a[2][1], a), 'H06 the balance is of the address asked for', w, ev)
                    r.ok(c is not None and collects_once(r, c, sm), 'H06 every listed output is added exactly once', w, c)
                elif x.k == 'ver' and x.a[0] is I(0) and x.a[1].k == 'ev' and x.a[1].a[1] == 'q_list':
                    ev = x.a[1]; c = next((z for z in ev.a[2] if z.k == 'agg' and z.a[0].startswith('closure:')), None)
                    r.ok(a is not None and is_addr(ev.a[2][1], a), 'H06 the balance is of the address asked for', w, ev)
                    r.ok(c is not None and adds_once(r, c), 'H06 every listed output is added exactly once', w, c)
                else: direct_balance(r, q, w, x, a)
        r.ok(n, 'H06 balances found', w)
def addr_param(r, f):
    return next(i for i in range(len(f.locals) - 1) if re.search(r'(\w+::)*Address$', r.p.tys(f.locals[i + 1])))
def adds_once(r, c):
    """the callback adds the value it is given to one captured sum, on every path"""
    q = r.run(r.p.fns[clos(c)], opq(LOGS), args=[ref(('X', c))]); n = 0
    for tr in r.traces(q):
        if is_panic(tr): 
            cs = [x.t for x in tr if isinstance(x, Cond)]
            if not (cs and cs[-1].k == 'ovf'): return False
            continue
        if end(tr).kind != 'ret': return False
        st = [e for e in tr if isinstance(e, Ev) and e.kind == 'store']
        if len(st) != 1 or [x for x in tr if isinstance(x, Cond) and 'ovf' not in str(x.t)]: return False
        d = sub(st[0].snap[1], cell_of(st[0].snap[0]))
        if unref(d) is not t('param', 2): return False
        n += 1
    return n > 0
def cell_of(x): return x
def summed(r, q, x):
    """x adds up every entry of a list only the listing's callback filled: that list, else None"""
    if x.k != 'phi': return None
    ins = q.g.phi.get(x, set()); ls = set()
    for y in ins:
        if y is I(0): continue
        d = sub(y, x)
        if not (d.k == 'idx' or d.k == 'deref' and d.a[0].k == 'idx'): return None
        d = d if d.k == 'idx' else d.a[0]
        if loop_index(q.g, d.a[1]) != (I(0), 1) or d.a[1].a[0] is not x.a[0]: return None
        ls.add(strip_clone(d.a[0]))
    if I(0) not in ins or len(ls) != 1: return None
    L = ls.pop()
    if not (L.k == 'ver' and L.a[0].k == 'newc' and L.a[1].k == 'ev' and L.a[1].a[1] == 'q_list'): return None
    # wherever the sum is used, the list was scanned to its end
    used = 0
    for tr in r.traces(q):
        for pos, e in enumerate(tr):
            if not (isinstance(e, Ev) and e.name in ('return', 'Vec::push') and any(x is y for z in e.snap for y in subterms(z))): continue
            lp = [l for l in loop_tests(q, tr) if l.pos < pos and l.i.k == 'phi' and l.i.a[0] is x.a[0] and l.step == 1 and l.lo is I(0) and l.src is length(L)]
            if not (lp and lp[-1].state == 'out'): return None
            used += 1
    return L if used else None
def collects_once(r, c, L):
    """the callback puts the value it is given into the captured list, once on every path"""
    s = type('S', (), {})(); s.closure = c
    l, e, qq, bad = closure_pushes(r, s)
    return l is not None and unref(e) is t('param', 2) and captured(r, s, l, L.a[0])
def direct_balance(r, q, w, x, a):
    """a balance computed without the listing: compared with the inlined listing, contribution by contribution"""
    fb = [f for f in r.fns('balance', 'ReadonlyTransactionStore')]; fl = [f for f in r.fns('iterate_transaction_outputs', 'ReadonlyTransactionStore')]
    if not (x.k == 'ev' or x.k in ('phi', 'ver', 'int')) or not fb or not fl: r.ok(False, 'H06 the balance is the sum of the listing', w, x); return
    qb = r.run(fb[0], opq(LOGS), key='b'); ql = r.run(fl[0], opq(LOGS), key='b'); A, B = set(), set()
    def canon(q, tr, extra):
        """conditions of a contribution, loop counters renamed by what they run over"""
        ren = {}
        for l in loop_tests(q, tr):
            if l.step == 1 and l.lo is I(0): ren[l.i] = t('over', N(l.src))
        cs = frozenset(subst(N(y.t), ren) for y in tr if isinstance(y, Cond) and 'ovf' not in str(y.t) and not any(l.state == 'out' and tr[l.pos] is y for l in loop_tests(q, tr)))
        return cs, subst(N(extra), ren)
    for tr in r.traces(ql):
        for e in evs_named(tr, 'call_opaque'): A.add(canon(ql, tr, unref(e.snap[2])))
    zero = True
    for tr in r.traces(qb):
        if end(tr).kind == 'back':
            for p, v in end(tr).bv or ():
                d = sub(v, p)
                if p.k == 'phi' and not is_int(d) and not any(y.k in ('phi',) and y is not p and y.a[0] is p.a[0] and loop_index(qb.g, y) is None for y in subterms(v)): B.add(canon(qb, tr, unref(d)))
        elif end(tr).kind == 'ret':
            for y in phis(qb.g, end(tr).val):
                if y.k == 'int' and y is not I(0): zero = False
    r.ok(zero and A and A == B, 'H06 the balance is the sum of exactly the listed outputs', w, (A ^ B))

RULES = {'H01': H01, 'H02': H02, 'H03': H03, 'H04': H04, 'H05': H05, 'H06': H06}
