"""R01, R02, R06: talking to the node, its credentials, and the index's hash"""
from .common import *
from .store import LOGS, clos, strip_deref
from .life import program, env_name
from .http import unref, deref_

HEX = [(r'(^|::)hex::decode$', 'hexdec'), (r'(^|::)hex::decode_into$', 'hexdec_into'), (r'(^|::)hex::encode$', 'hexenc'), (r'reverse_hex::decode$', 'rhexdec'), (r'reverse_hex::decode_into$', 'rhexdec_into'), (r'reverse_hex::encode$', 'rhexenc'),
       (r'Transaction::from_slice$', 'txdec'), (r'Block::from_slice$', 'blockdec'), (r'base64::encode(::encode)?$', 'base64'), (r'base64::Encoder.*::encode$', 'base64')]
def last(x): return strip_generics(x).split('<')[0].split('::')[-1]
def is_http(c): return bool(re.search(r'^hyper::client::.*Client::request$|^reqwest::.*::(send|execute)$', c))
def request_fns(r):
    """the functions that talk to the node (futures belong to the function that makes them)"""
    ids = set()
    for f, line, d, c in calls(r):
        if is_http(d): ids.add(owner(r, f).id)
    fs = [r.p.fns[i] for i in ids]
    return r.need(fs, 'the function that sends requests to the node')
def lookup_fns(r, rq=None):
    """the functions that ask the node for something, by way of the request function"""
    rq = rq or request_fns(r); names = {strip_generics(f.path) for f in rq}
    op = opq(LOGS + [('(^|::)' + re.escape(n.split('::', 1)[1] if '::' in n else n) + '$', 'request') for n in names] + HEX)
    cg = callgraph(r); users = {}
    for f in rq:
        todo = [f.id] + [g.id for g in r.p.fns.values() if g.kind != 'fn' and strip_generics(g.path).startswith(strip_generics(f.path) + '::{')]
        for i in todo:
            for c in cg.get(i, ()):
                o = owner(r, r.p.fns[c])
                if o.id != f.id: users[o.id] = o
    r.need(users, 'lookups that ask the node')
    return users, op
def owner(r, f):
    """the named function a closure or future body belongs to"""
    cg = callgraph(r); seen = set()
    while f.kind != 'fn' and f.id not in seen:
        seen.add(f.id)
        up = [g for g in r.p.fns.values() if g.kind == 'fn' and g.local and not g.synth and strip_generics(f.path).startswith(strip_generics(g.path) + '::{')]
        if not up: break
        f = up[0]
    return f

# ---------------------------------------------------------------------- R01
def R01(r):
    r.rule('the request function returns a result only for status 200 and an error only for status 500, both taken from the completely received and parsed answer; each lookup turns an error into absence only for its own code; everything else panics')
    rq = request_fns(r)
    for f in rq:
        q = r.run(f, opq(LOGS), key='rq', part=40); w = f'{r.inst(f)}:{f.span[1]}'; kinds = {0: 0, 1: 0}; appended = set()
        parsed = set(); streamed = False
        for tr in r.traces(q):
            e = end(tr)
            if is_panic(tr) or e.kind in ('panic', 'exit'): continue
            ff = facts_of(tr)
            bad = failed(tr, ff)
            r.ok(not bad, 'R01 no failure of the exchange with the node is passed over', w, (bad, tr))
            if e.kind == 'back':
                d = [x for x in tr if isinstance(x, Ev) and x.name == 'await' and data_await(x)]
                if d and isv(ff, d[-1].ret, 0) is not True:
                    chunk = vfld(vfld(d[-1].ret, 1, 0), 0, 0); k = tr.index(d[-1])
                    put = [x for x in tr[k:] if isinstance(x, Ev) and x.name in APPENDS]
                    lp = [l for l in loop_tests(q, tr) if chunk in subterms(l.src) and l.lo is I(0) and l.step == 1]      # byte by byte
                    if lp and lp[-1].state == 'in': good = len(put) == 1 and put[0].name == 'Vec::push' and unref(strip_deref(put[0].snap[1])).k == 'idx' and unref(strip_deref(put[0].snap[1])).a[1] is lp[-1].i
                    elif lp: good = not put
                    elif not put: good = any((c.t.k == 'eq0' and c.t.a[0].k == 'len' or c.t.k != 'not' and 'is_empty' in str(c.t)[:40]) and chunk in subterms(c.t) for c in tr[k:] if isinstance(c, Cond))   # nothing in it
                    else: good = len(put) == 1 and put[0].name != 'Vec::push' and chunk in subterms(put[0].snap[1]) and not [y for y in subterms(put[0].snap[1]) if y.k == 'slice' and chunk in subterms(y) and not (y.a[1] is I(0) and y.a[2] is length(y.a[0]))]
                    r.ok(good, 'R01 every part of the answer is kept, complete and once', w, tr)
                    appended.update(loc(x.snap[0])[:1] for x in put)
                continue
            if not r.ok(e.kind == 'ret', 'R01 the request function returns or stops', w, tr): continue
            v = e.val; st = status(tr, ff)
            if not r.ok(v.k == 'agg' and v.a[0] == RES, 'R01 a request has a result or an error', w, v): continue
            kinds[v.a[1]] = kinds.get(v.a[1], 0) + 1
            r.ok(st == {0: 200, 1: 500}[v.a[1]], 'R01 a result comes with status 200 and an error with status 500', w, (st, tr))
            key = {0: 'result', 1: 'error'}[v.a[1]]
            g = [y for y in subterms(v.a[2][0]) if is_jget(y, key)]
            src = [y for x in g for y in subterms(x) if y.k == 'app' and y.a[0] in PARSERS]
            r.ok(g and src, f'R01 the {key} is taken from the answer', w, v)
            if v.a[1] == 1: r.ok(any(y.k == 'app' and y.a[0] == 'value::from_value' and y.a[1][1] in g for y in subterms(v.a[2][0])), 'R01 the error is the node\'s error object', w, v)
            # the whole body was received
            d = [x for x in tr if isinstance(x, Ev) and x.name == 'await' and data_await(x)]
            whole = [x for x in tr if isinstance(x, Ev) and x.name == 'await' and re.search('to_bytes|aggregate|collect', str(x.snap[0])[:200])]
            r.ok(d and isv(ff, d[-1].ret, 0) is True or whole, 'R01 the answer is received completely', w, tr)
            streamed = streamed or bool(d and not whole)
            for y in src:
                b = y.a[1][-1]; bb = b
                if d and not whole: parsed.add(loc(b)[:1])
                while bb.k in ('vphi', 'ver'): bb = bb.a[0]
                if b.k == 'vphi':
                    r.ok(assembled(q, b), 'R01 the answer is assembled in order', w, b)
        r.ok(kinds[0] and kinds[1], 'R01 results and errors of requests found', w, kinds)
        r.ok(not streamed or parsed <= appended, 'R01 the answer read is what was received', w, (parsed, appended))
        # sent once, as asked
        for tr in r.traces(q):
            sent = [x for x in tr if isinstance(x, Ev) and x.name == 'Client::request']
            if end(tr).kind == 'ret': r.ok(len(sent) == 1, 'R01 every request is sent once', w, tr)
            for x in sent:
                ins = {unq(y.a[2][1]): y.a[2][2] for z in x.snap for y in subterms(z) if y.k == 'ev' and y.a[1] == 'Map::insert'}
                m, p = ins.get('method'), ins.get('params')
                r.ok(m is not None and t('param', 1) in subterms(m) and p is not None and t('param', 2) in subterms(p), 'R01 the method and parameters asked for are requested', w, x)
    users, op = lookup_fns(r, rq)
    iC = error_code(r); lookups = set()
    for f in users.values():
        q = r.run(f, op, key='lk', part=40); w = f'{r.inst(f)}:{f.span[1]}'; n = 0
        for tr in r.traces(q):
            e = end(tr); ff = facts_of(tr)
            if is_panic(tr) or e.kind == 'exit':
                rs = evs_named(tr, 'request'); aw = [x.ret for x in tr if isinstance(x, Ev) and x.name == 'await' and rs and x.snap[0] is rs[0].ret]
                if aw and isv(ff, aw[0], 1) is True:
                    m = unref(rs[0].snap[1]); want = {'getrawtransaction': -5, 'getblockhash': -8}.get(m.a[0] if m.k == 'str' else None)
                    r.ok(want is None or decide(ff, eqi(fld(vfld(aw[0], 1, 0), iC), I(want))) is False, 'R01 a not-found answer does not stop the process', w, tr)
                continue
            rs = evs_named(tr, 'request')
            if not r.ok(len(rs) == 1, 'R01 a lookup asks the node once', w, tr): continue
            aw = [x.ret for x in tr if isinstance(x, Ev) and x.name == 'await' and x.snap[0] is rs[0].ret]
            if not r.ok(len(aw) == 1, 'R01 a lookup waits for the answer', w, tr): continue
            aw = aw[0]; m = unref(rs[0].snap[1]); meth = m.a[0] if m.k == 'str' else None
            st = isv(ff, aw, 1); bad = failed(tr, ff, skip=(aw,))
            r.ok(not bad, 'R01 no malformed answer is passed over', w, (bad, tr))
            n += 1; lookups.add(meth)
            if st is True:
                code = fld(vfld(aw, 1, 0), iC); want = {'getrawtransaction': -5, 'getblockhash': -8}.get(meth)
                g = want is not None and decide(ff, eqi(code, I(want))) is True
                r.ok(g, 'R01 an error other than the not-found code of its lookup stops the process', w, (meth, tr))
                r.ok(e.kind == 'ret' and e.val is NONE, 'R01 a not-found answer is absence', w, tr)
            elif st is False:
                if e.kind == 'back': continue
                v = e.val
                r.ok(e.kind == 'ret' and v is not NONE, 'R01 an answer is not taken for absence', w, tr)
                base = {y for y in subterms(v)}
                lst = [y for y in base if y.k in ('vphi',)]
                deps = base | {z for y in lst for x in q.g.phi.get(y, ()) for z in subterms(x)}
                r.ok(vfld(aw, 0, 0) in deps, 'R01 what is returned is what the node answered', w, v)
            else: r.ok(False, 'R01 the node\'s answer is examined', w, tr)
        r.ok(n, 'R01 the lookup was analysed', w)
        # elements of a list of hashes are complete hashes, and none is dropped
        for tr in r.traces(q):
            ff = facts_of(tr)
            for x in evs_named(tr, 'rhexdec_into', 'hexdec_into'):
                if is_panic(tr): continue
                n_ = arraylen(r.p, f, x.snap[1]); b = unref(x.snap[1])
                n_ = 32 if n_ is None and (is_zero32(b) or b.k == 'rep') else n_
                full = [I(n_)] if n_ is not None else []
                full += [y for c in conds(tr) for y in subterms(c) if n_ is not None and y.k == 'len' and y.a[0].k == 'ver' and unref(y.a[0].a[0]) is b]   # the length of the array filled
                r.ok(any(decide(ff, eqi(vfld(x.ret, 0, 0), y)) is True for y in full), 'R01 a hash of the wrong length stops the process', w, (n_, tr))
            if end(tr).kind == 'back':
                r.ok(evs_named(tr, 'Vec::push', 'VecDeque::push_back', 'HashSet::insert'), 'R01 no element of the answer is dropped', w, tr)
    r.ok({'getrawtransaction', 'getblockhash', 'getblock', 'getrawmempool'} <= lookups, 'R01 the lookups were found', None, lookups)
PARSERS = ('de::from_slice', 'de::from_str', 'de::from_reader', 'serde_json::from_slice', 'serde_json::from_str')
APPENDS = ('Vec::extend_from_slice', 'Vec::extend', 'Vec::append', 'BufMut::put', 'BytesMut::extend_from_slice', 'BufMut::put_slice', 'Vec::push')
def assembled(q, b, seen=()):
    """the bytes are those appended, in the order received"""
    if b in seen or b.k == 'newc': return True
    if b.k == 'ver': return b.a[1].k == 'ev' and b.a[1].a[1] in APPENDS and assembled(q, b.a[0], seen)
    return b.k == 'vphi' and all(assembled(q, x, seen + (b,)) for x in q.g.phi.get(b, ()))
def unq(x):
    x = strip_deref(strip_clone(x))
    return x.a[0] if x.k == 'str' else None
def is_jget(y, key):
    if y.k == 'jget': return y.a[1] == key or isinstance(y.a[1], T) and unq(y.a[1]) == key
    return y.k == 'app' and y.a[0] in ('Value::get', 'Map::get', 'Map::remove', 'Value::get_mut') and any(isinstance(z, T) and unq(z) == key for z in y.a[1])
def data_await(x): return bool(re.search(r'Body::data|Body::frame|BodyExt|::next', str(x.snap[0])[:300])) and not re.search('to_bytes', str(x.snap[0])[:200])
def failed(tr, ff, skip=()):
    """fallible steps known to have failed"""
    ys = set()
    for x in tr:
        if isinstance(x, Cond): ys |= {y.a[0] for y in subterms(x.t) if y.k == 'is'}
        elif isinstance(x, Ev): ys |= {z for y in x.snap if isinstance(y, T) for z in subterms(y) if z.k in ('app', 'ev')}
    dat = {x.ret for x in tr if isinstance(x, Ev) and x.name == 'await' and data_await(x)}
    out = []
    for y in ys:
        if y in skip or y in dat: continue
        if y.k == 'vfld' and y.a[0] in dat: pass
        elif y.k == 'app' and (y.a[0] in PARSERS or y.a[0] in ('value::from_value', 'utf8', 'parse')): pass
        elif y.k == 'ev' and y.a[1] == 'await' or y.k == 'ev' and y.a[1] in ('hexdec', 'rhexdec', 'hexdec_into', 'rhexdec_into'): pass
        else: continue
        if isv(ff, y, 1) is True: out.append(y)
    return out
def status(tr, ff):
    for x in tr:
        if not isinstance(x, Cond): continue
        for y in subterms(x.t):
            if y.k == 'app' and y.a[0].endswith('Response::status'):
                for c in (200, 500):
                    z = fld(fld(fld(y, 0), 0), 0)
                    for s in (z, fld(y, 0), y, t('app', 'StatusCode::as_u16', (y,))):
                        if decide(ff, eqi(s, I(c))) is True: return c
            if y.k == 'eq':
                a = [z for z in y.a if any(u.k == 'app' and u.a[0].endswith('Response::status') for u in subterms(z))]
                b = [u.a[0] for z in y.a if z not in a for u in subterms(z) if u.k == 'int']
                if len(a) == 1 and strip_deref(a[0]).k == 'app' and b and decide(ff, y) is True: return b[0] if len(b) == 1 else None
    return None
def error_code(r):
    """the number of the error object's code field"""
    for i in r.ty_by_name('Error'):
        x = r.p.types[i]
        if not x.get('local') or not x.get('variants') or x['ak'] != 'struct': continue
        for k, (n, ty) in enumerate(x['variants'][0][2] or []):
            if n == 'code': return k
    raise Undecided('the error code of the node')

# ---------------------------------------------------------------------- R02
SECRET_ENV = ('RPC_SERVER_USER', 'RPC_SERVER_PASSWORD')
OPAQUE_OK = ('cfg', 'drop', 'clone', 'base64')
def R02(r):
    r.rule('the two settings, and the field of the client made from them, occur in no event argument other than the authorization header of a request sent to the node; nothing that holds them is formatted or serialized as a whole')
    # where they enter
    f = r.one('new', 'Configuration'); w = f'{r.inst(f)}:{f.span[1]}'
    q = r.run(f, opq(LOGS), key='cfg', part=300); iS = set(); nret = 0
    sec_env = lambda y: env_name(y) in SECRET_ENV
    for tr in r.traces(q):
        e = end(tr)
        check_events(r, tr, lambda x: env_tainted(x), w, 'reading the settings')
        if e.kind == 'ret':
            nret += 1; v = e.val
            if not r.ok(v.k == 'agg' and last(v.a[0]) == 'Configuration', 'R02 the settings are returned', w, v): continue
            for i, x in enumerate(v.a[2]):
                vs = {env_name(y) for y in subterms(x)} & set(SECRET_ENV)
                if vs: iS.add(i)
    r.need(nret, 'settings'); r.ok(len(iS) == 2, 'R02 user and password are settings of their own', w, iS)
    # nobody else reads the environment
    for g, line, d, c in calls(r):
        if re.search(r'^std::env::(var|var_os|vars|vars_os)$', d):
            r.ok(not outside(r, [(g, line, d)], [f.id]) and 'vars' not in d, 'R02 the environment is read by the settings only', f'{r.inst(g)}:{line}', d)
    # main and its threads
    P = program(r)
    def cfg_tainted(x):
        if x.k == 'fld' and x.a[1] in iS and cfg_base(x.a[0]): return True
        if x.k == 'ev' and x.a[1] == 'client_new': return False
        return any(cfg_tainted(y) for y in kids(x))
    n = 0
    for th, trs in [(None, P.main)] + [(t_, t_.traces) for t_ in P.threads.values()]:
        w = P.where if th is None else th.where
        for tr in trs:
            for e in tr:
                if not isinstance(e, Ev): continue
                if e.name == 'client_new':
                    n += 1
                    ks = [i for i, x in enumerate(e.snap) if cfg_tainted(x)]
                    r.ok(ks == [2, 3], 'R02 user and password are given to the client as such', e.where(), ks)
                    continue
                if e.name in OPAQUE_OK: continue
                if e.name in ('thread::spawn', 'block_on', 'clone') or e.kind == 'drop': continue
                bad = [x for x in e.snap if isinstance(x, T) and cfg_tainted(x)]
                r.ok(not bad, 'R02 main gives the credentials to nothing but the client', e.where(), e)
            if is_panic(tr): r.ok(not cfg_tainted(end(tr).val) if isinstance(end(tr).val, T) else True, 'R02 no panic mentions the credentials', w, tr)
    r.ok(n, 'R02 the client is made', P.where)
    # the client
    f = r.one('new', 'Client'); w = f'{r.inst(f)}:{f.span[1]}'; A = set()
    par = lambda x: any(y is t('param', 2) or y is t('param', 3) for y in subterms(x))
    for tr in r.traces(r.run(f, opq(LOGS + HEX), key='r02')):
        check_events(r, tr, par, w, 'making the client')
        if end(tr).kind == 'ret':
            v = end(tr).val
            if r.ok(v.k == 'agg' and last(v.a[0]) == 'Client', 'R02 the client is returned', w, v): A |= {i for i, x in enumerate(v.a[2]) if par(x)}
    r.ok(A, 'R02 the client keeps the authorization', w, A)
    readers = {}
    def read_by(name, idx):
        for g in r.p.fns.values():
            if not g.local or g.synth or g.auto: continue
            for pl, line in all_places(g):
                pts, _ = place_types(r.p, g, pl)
                for ty, e in pts:
                    if isinstance(e, list) and e[0] == 'f' and e[1] in idx and ty is not None and struct_is(r.p, ty, name) and r.p.types[ty].get('local'):
                        o = owner(r, g); readers.setdefault(o.id, (o, name, line))
    read_by('Client', A); read_by('Configuration', iS)
    cl = r.one('new', 'Client').id; cf = r.one('new', 'Configuration').id
    done = set(); todo = list(readers.values()); nsent = 0; inprog = {P.fn.id} | {th.fn.id for th in P.threads.values()}
    cg = callgraph(r)
    while todo:
        g, name, line = todo.pop()
        if (g.id, name) in done or g.id in (cl, cf) or g.id in inprog: continue
        done.add((g.id, name)); w = f'{r.inst(g)}:{line or g.span[1]}'
        idx = A if name == 'Client' else iS
        sec = lambda x: secret(r, g, x, name, idx)
        q = r.run(g, opq(LOGS + HEX), key='r02', part=40)
        for tr in r.traces(q):
            for e in tr:
                if not isinstance(e, Ev) or e.name in OPAQUE_OK or e.name == 'return' or e.kind == 'drop': continue
                if e.name == 'Client::request' or e.name.startswith('Builder::'):
                    nsent += 1
                    bad = [x for x in e.snap if isinstance(x, T) and leaks(r, x, sec)]
                    r.ok(not bad, 'R02 a request carries the credentials in its authorization header only', e.where(), bad)
                    continue
                if e.name == 'await': continue
                bad = [x for x in e.snap if isinstance(x, T) and tainted(x, sec)]
                r.ok(not bad, 'R02 the credentials go nowhere but into requests', e.where() or w, (e.name, bad))
            en = end(tr)
            if is_panic(tr): r.ok(not (isinstance(en.val, T) and tainted(en.val, sec)), 'R02 no panic mentions the credentials', w, tr)
            elif en.kind == 'ret' and tainted(en.val, sec):
                # a part of making requests or an accessor: whoever uses it is looked at instead
                ty = r.p.tys(g.locals[0])
                for c in cg.get(g.id, ()):
                    o = owner(r, r.p.fns[c])
                    if (o.id, name) not in done: todo.append((o, name, 0))
    r.ok(nsent, 'R02 requests with the authorization found', None, nsent)
    # whole objects
    bearer = holders(r, {'Client', 'Configuration'})
    nf = 0
    for g, line, d, c in calls(r):
        if g.auto: continue
        if re.search(r'fmt::rt::Argument::new_|ToString::to_string$|^serde_json::|::serialize$|fmt::(Debug|Display)::fmt$|Debug::fmt$|Display::fmt$', d):
            nf += 1
            for a in c.get('args', []):
                r.ok(not holds(r, a, bearer), 'R02 nothing holding the credentials is formatted or serialized', f'{r.inst(g)}:{line}', (d, r.p.tys(a)))
    r.ok(nf, 'R02 formatting calls looked at', None, nf)
def env_tainted(x):
    """mentions the value of a secret variable (not merely whether it is set)"""
    if env_name(x) in SECRET_ENV: return True
    if x.k == 'is': return False
    return any(env_tainted(y) for y in kids(x))
def check_events(r, tr, pred, w, what):
    for e in tr:
        if not isinstance(e, Ev) or e.name in OPAQUE_OK or e.name == 'return' or e.kind == 'drop' or e.name in ('Vec::push', 'String::push_str', 'String::push', 'String::with_capacity', 'Vec::extend_from_slice'): continue
        bad = [x for x in e.snap if isinstance(x, T) and pred(x)]
        r.ok(not bad, f'R02 {what} discloses nothing', e.where() or w, (e.name, bad))
    if is_panic(tr): r.ok(not (isinstance(end(tr).val, T) and pred(end(tr).val)), f'R02 no panic while {what} mentions the credentials', w, tr)
def cfg_base(x):
    x = strip_deref(strip_clone(x))
    while x.k in ('deref', 'clone', 'ver', 'vphi'): x = x.a[1] if x.k == 'clone' else x.a[0]
    return x.k == 'ev' and x.a[1] == 'cfg'
def secret(r, g, x, name, idx):
    if x.k != 'fld' or x.a[1] not in idx: return False
    y = x.a[0]
    try: ty = typeof(r.p, g, y)
    except Exception: ty = None
    if ty is None: return True
    while ty is not None and r.p.types[ty]['k'] in ('ref', 'ptr'): ty = r.p.types[ty].get('e')
    return ty is None or struct_is(r.p, ty, name)
STOP_EV = ('Client::request', 'await', 'Body::data', 'Response::body_mut')
def tainted(x, sec):
    if sec(x): return True
    if x.k == 'ev' and x.a[1] in STOP_EV: return False
    if x.k == 'app' and x.a[0] in ('resperr', 'respok', 'Response::status'): return False
    if x.k == 'is': return False
    return any(tainted(y, sec) for y in kids(x))
def leaks(r, x, sec):
    if sec(x): return True
    if x.k == 'app' and x.a[0] == 'resp_header':
        c, k, v = x.a[1]
        if header_name(r, k) == 'authorization': return leaks(r, c, sec)
        return any(leaks(r, y, sec) for y in (c, v))
    if x.k == 'constadt': return False
    return any(leaks(r, y, sec) for y in kids(x))
def all_places(f):
    def walk(o, line):
        if isinstance(o, dict):
            for k in ('m', 'p', 'c_'):
                v = o.get(k)
                if isinstance(v, list) and len(v) == 2 and isinstance(v[0], int) and isinstance(v[1], list): yield v, line
            for v in o.values(): yield from walk(v, line)
        elif isinstance(o, list):
            for v in o: yield from walk(v, line)
    for b in f.blocks:
        for s in b[0]: yield from walk(s, s[3] if len(s) > 3 and isinstance(s[3], int) else 0)
        yield from walk(b[1], 0)
def holders(r, names):
    """types (indices) that contain one of the named local structs"""
    H = {}
    def has(ty, seen):
        if ty is None: return False
        if ty in H: return H[ty]
        if ty in seen: return False
        x = r.p.types[ty]; s2 = seen | {ty}; res = False
        if x['k'] == 'adt':
            if x.get('local') and strip_generics(x['path']).split('::')[-1] in names: res = True
            else:
                subs = list(x.get('args', []))
                if x.get('local'): subs += [t_ for v in x.get('variants') or [] for _, t_ in v[2] or []]
                res = any(has(y, s2) for y in subs)
        elif x['k'] in ('ref', 'ptr', 'slice', 'array'): res = has(x.get('e'), s2)
        elif x['k'] == 'tuple': res = any(has(y, s2) for y in x.get('es', x.get('args', [])))
        if not seen or res: H[ty] = res
        return res
    return has
def holds(r, ty, has): return ty is not None and has(ty, frozenset())

# ---------------------------------------------------------------------- R06
def R06(r):
    r.rule('for every key type of a map with the crate\'s hasher: equality compares every field; its hash is a function of its own fields; every hasher method it reaches is total for the bytes it is given and changes the state as a function of state and bytes; a fresh hasher is always the same')
    # the maps
    bh = {}; keys = {}
    for i, x in enumerate(r.p.types):
        if x['k'] == 'adt' and re.search(r'collections::hash::(map::HashMap|set::HashSet)$|HashMap$|HashSet$', strip_generics(x['path'])) and not x.get('local'):
            a = x.get('args', [])
            s = a[1 if x['path'].endswith('Set') else 2] if len(a) > 2 else None
            if s is not None and placeholder(r, a[0], i): continue
            if s is not None and r.p.types[s].get('local') and r.p.types[s]['k'] == 'adt': keys.setdefault(a[0], s)
    keys = {k: s for k, s in keys.items() if r.p.types[k]['k'] != 'param'}
    # the same struct instance may be listed more than once
    r.need(keys, 'maps with the crate\'s own hasher')
    names = {r.p.tys(k) for k in keys}
    r.ok(any('TransactionOutput' in n for n in names) and any('Address' in n for n in names), 'R06 the index\'s keys were found', None, sorted(names))
    for s in set(keys.values()):
        bn = last(r.p.tys(s))
        for f in r.the('build_hasher', re.escape(bn)):
            w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, opq(LOGS)); vals = set()
            inner = lambda x: x is t('param', 0) or x.k not in ('fld', 'vfld', 'deref') and any(inner(y) for y in kids(x))
            for tr in r.traces(q):
                r.ok(end(tr).kind == 'ret', 'R06 making a hasher cannot fail', w, tr)
                if end(tr).kind == 'ret':
                    v = N(end(tr).val); vals.add(v)
                    r.ok(not [y for y in subterms(v) if y.k in ('ev', 'phi', 'ver', 'static')] and not inner(v), 'R06 a fresh hasher has a fixed state', w, v)
            r.ok(len(vals) == 1, 'R06 all fresh hashers are the same', w, vals)
        hs = {last(r.p.tys(f.locals[0])) for f in r.the('build_hasher', re.escape(bn))}
        r.need(hs, 'hasher type')
        hn = hs.pop()
        methods = {f.name: f for f in r.p.fns.values() if f.local and not f.synth and last(r.impl_self(f) or '') == hn and 'Hasher' in str(f.path)}
        r.ok('write' in methods and 'finish' in methods, 'R06 the hasher is complete', hn, sorted(methods))
        for n, f in methods.items(): hasher_method(r, n, f, None)
        for k in {k for k, s2 in keys.items() if s2 == s}:
            key_type(r, k, hn, methods)
def placeholder(r, key, m):
    """a map that occurs only in instances of generic functions nothing calls"""
    if r.p.tys(key) != '&[u8]': return False
    for x in r.p.types:
        if x['k'] == 'adt' and x.get('local') and not any(r.p.tys(a) == '&[u8]' for a in x.get('args', [])):
            for v in x.get('variants') or []:
                if any(ty == m for _, ty in v[2] or []): return False
    return not any(g.local and not g.synth and not g.targs and m in g.locals for g in r.p.fns.values())
def own(x, ok):
    """x is a function of the given parameters' content alone"""
    if x.k == 'param': return x.a[0] in ok
    if x.k in ('ev', 'static', 'phi', 'vphi') : return False
    if x.k == 'ver': return own(x.a[0], ok)
    return all(own(y, ok) for y in kids(x))
def hasher_method(r, n, f, nbytes):
    """total for that many bytes, deterministic"""
    w = f'{r.inst(f)}:{f.span[1]}'
    q = r.run(f, opq(LOGS), key='hm', part=40)
    if q.it.unknown: r.ok(not [u for u in q.it.unknown], 'R06 the hasher uses nothing unknown', w, q.it.unknown)
    for tr in r.traces(q):
        if is_panic(tr):
            if nbytes is None: continue
            ff = {}; feas = assume(ff, eqi(length(t('param', 1)), I(nbytes)))
            for x in tr:
                if feas and isinstance(x, Cond) and not assume(ff, x.t): feas = False
            r.ok(not feas, f'R06 hashing {nbytes} bytes cannot panic', w, tr); continue
        if nbytes is not None: continue
        for x in tr:
            if isinstance(x, Ev) and x.name == 'store': r.ok(own(x.snap[1], (0, 1)) or loop_state(q, x.snap[1]), 'R06 the hash depends on the hashed bytes only', x.where(), x)
            elif isinstance(x, Cond): r.ok(own(x.t, (0, 1)) or loop_state(q, x.t), 'R06 the hash depends on the hashed bytes only', w, x)
            elif isinstance(x, Ev) and x.name not in ('drop', 'return'): r.ok(own_ev(x), 'R06 hashing has no other effect', x.where(), x)
        if n == 'finish' and end(tr).kind == 'ret': r.ok(own(end(tr).val, (0,)) or loop_state(q, end(tr).val), 'R06 the hash is a function of the state', w, end(tr).val)
def own_ev(x): return x.name in ('clone', 'return') or bool(re.match(r'(slice|Vec|String|array)::', x.name))
def loop_state(q, x):
    """the same, through loop-carried values"""
    seen = set()
    def go(y):
        if y.k == 'param': return y.a[0] in (0, 1)
        if y.k in ('ev', 'static'): return False
        if y.k in ('phi', 'vphi'):
            if y in seen: return True
            seen.add(y)
            return all(go(z) for z in q.g.phi.get(y, ()))
        return all(go(z) for z in kids(y))
    return go(x)
PRIM = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16, 'usize': 8, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'i128': 16, 'isize': 8, 'bool': 1, 'char': 4}
def calls_method(r, hn, methods, m, nbytes, what):
    """the hasher's method m is called with that many bytes"""
    if m in methods and m != 'write': return hasher_method(r, m, methods[m], -1 if nbytes is None else nbytes)
    if m == 'write':
        if nbytes is None:
            for tr in r.traces(r.run(methods['write'], opq(LOGS), key='hm', part=40)):
                r.ok(not is_panic(tr), 'R06 hashing bytes of any length cannot panic', what, tr)
            return
        return hasher_method(r, 'write', methods['write'], nbytes)
    if m == 'write_isize': return calls_method(r, hn, methods, 'write_usize', 8, what)
    if m == 'write_length_prefix': return calls_method(r, hn, methods, 'write_usize', 8, what)
    if m == 'write_str':
        calls_method(r, hn, methods, 'write', None, what); return calls_method(r, hn, methods, 'write_u8', 1, what)
    if re.fullmatch(r'write_i\d+', m): return calls_method(r, hn, methods, 'write_u' + m[7:], nbytes, what)
    return calls_method(r, hn, methods, 'write', nbytes, what)
def hash_type(r, ty, hn, methods, what, seen=()):
    x = r.p.types[ty]; s = r.p.tys(ty)
    while x['k'] == 'ref': ty = x['e']; x = r.p.types[ty]; s = r.p.tys(ty)
    if s in PRIM:
        m = {'bool': 'write_u8', 'char': 'write_u32'}.get(s, 'write_' + s)
        return calls_method(r, hn, methods, m, PRIM[s], what)
    if x['k'] in ('array', 'slice'):
        calls_method(r, hn, methods, 'write_length_prefix', 8, what)
        e = r.p.tys(x['e']); n = x.get('n')
        if n is None:
            m_ = re.search(r';\s*(\d+)', s); n = int(m_.group(1)) if m_ else None
        if e in PRIM and e not in ('bool', 'char'): return calls_method(r, hn, methods, 'write', n * PRIM[e] if n is not None else None, what)
        return hash_type(r, x['e'], hn, methods, what, seen)
    if s in ('alloc::string::String', 'str'): return calls_method(r, hn, methods, 'write_str', None, what)
    if re.match(r'alloc::vec::Vec<', s):
        calls_method(r, hn, methods, 'write_length_prefix', 8, what); e = r.p.tys(x['args'][0])
        if e in PRIM: return calls_method(r, hn, methods, 'write', None, what)
        return hash_type(r, x['args'][0], hn, methods, what, seen)
    if x['k'] == 'tuple':
        for y in x.get('es', x.get('args', [])): hash_type(r, y, hn, methods, what, seen)
        return
    if x['k'] == 'adt' and x.get('local'): return key_hash(r, ty, hn, methods, seen)
    if re.match(r'core::option::Option<', s):
        calls_method(r, hn, methods, 'write_isize', 8, what); return hash_type(r, x['args'][0], hn, methods, what, seen)
    r.ok(False, 'R06 the hashed type is understood', what, s)
def key_type(r, k, hn, methods):
    key_hash(r, k, hn, methods, ())
    key_eq(r, k)
def impl_fn(r, ty, name, trait):
    n = last(r.p.tys(ty))
    return [f for f in r.p.fns.values() if f.local and not f.synth and f.name == name and f.blocks and f.impl_self is not None and last(r.impl_self(f)) == n and trait in str(f.path)]
def key_hash(r, ty, hn, methods, seen):
    if ty in seen: return
    x = r.p.types[ty]; n = last(r.p.tys(ty))
    if x['k'] != 'adt' or not x.get('local'): return hash_type(r, ty, hn, methods, r.p.tys(ty), seen)
    fs = [f for f in impl_fn(r, ty, 'hash', 'Hash') if f.argc == 2]
    r.need(fs, 'how a ' + n + ' is hashed')
    f = fs[0]; w = f'{r.inst(f)}:{f.span[1]}'
    q = r.run(f, opq(LOGS), key='kh', part=40)
    for tr in r.traces(q):
        if is_panic(tr):
            # inlined hasher methods: arrays have their own lengths
            ff = {}; feas = True
            for c in tr:
                if isinstance(c, Cond):
                    for y in subterms(c.t):
                        if y.k == 'len':
                            L = arraylen(r.p, f, y.a[0])
                            if L is not None: feas = feas and assume(ff, eqi(y, I(L)))
                    feas = feas and assume(ff, c.t)
            if 'unreachable' in str(end(tr)) : feas = False
            r.ok(not feas, 'R06 hashing a key cannot panic', w, tr); continue
        for e in tr:
            if isinstance(e, Cond): r.ok(own(e.t, (0,)), 'R06 the hash depends on the key only', w, e)
            elif isinstance(e, Ev) and e.name == 'Hash::hash': r.ok(own(e.snap[0], (0,)) and unref(base_state(e.snap[1])) is t('param', 1), 'R06 only the key is hashed, into the given hasher', e.where(), e)
            elif isinstance(e, Ev) and e.name == 'store': r.ok(own(e.snap[1], (0, 1)), 'R06 only the key is hashed', e.where(), e)
            elif isinstance(e, Ev) and e.name not in ('drop', 'return'): r.ok(re.match(r'Hasher::write|Hash::hash_slice', e.name), 'R06 hashing a key has no other effect', e.where(), e)
    # what the hasher is given
    for g in [f] + [h for h in r.p.fns.values() if h.kind != 'fn' and strip_generics(h.path).startswith(strip_generics(f.path) + '::{')]:
        for b in g.blocks:
            tm = b[1]
            if tm[0] == 'call' and 'c' in tm[1] and isinstance(tm[1]['c']['v'], dict) and 'fn' in tm[1]['c']['v']:
                c = tm[1]['c']['v']['fn']; d = strip_generics(c.get('decl', ''))
                if d.endswith('hash::Hash::hash'): hash_type(r, c['args'][0], hn, methods, w, seen + (ty,))
                elif d.endswith('hash::Hash::hash_slice'): hash_type(r, c['args'][0], hn, methods, w, seen + (ty,))
                elif re.search(r'hash::Hasher::write_\w+$', d): calls_method(r, hn, methods, d.split('::')[-1], PRIM.get(d.split('_')[-1]), w)
def base_state(x):
    while x.k in ('ver', 'vphi', 'upd', 'deref'): x = x.a[0]
    return x
def key_eq(r, ty):
    x = r.p.types[ty]; n = last(r.p.tys(ty))
    if x['k'] != 'adt' or not x.get('local'): return
    fs = [f for f in impl_fn(r, ty, 'eq', 'PartialEq') if f.argc == 2]
    r.need(fs, 'how ' + n + ' are compared')
    vs = x['variants']; a, b = t('param', 0), t('param', 1)
    for f in fs:
        w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, opq(LOGS), key='ke', part=60); nt = 0
        for tr in r.traces(q):
            if is_panic(tr):
                r.ok('unreachable' in str(end(tr)), 'R06 comparing keys cannot panic', w, tr); continue
            v = end(tr).val
            for val in (True, False):
                ff = {}; feas = True
                for c in tr:
                    if isinstance(c, Cond) and not assume(ff, c.t): feas = False; break
                if not feas: continue
                if not assume(ff, v if val else not_(v)): continue
                one = len(vs) == 1
                ids = [0] if one else [i for i in range(len(vs)) if decide(ff, is_variant(a, i)) is True]
                if val:
                    nt += 1
                    same_v = one or ids and (isv_n(ff, b, ids[0], len(vs)) or decide(ff, eqi(t('discr', a), t('discr', b))) is True)
                    g = bool(same_v) and all(field_eq(ff, vfld(a, ids[0], i) if not one else fld(a, i), vfld(b, ids[0], i) if not one else fld(b, i)) is True for i in range(len(vs[ids[0]][2] or [])))
                    r.ok(g, 'R06 keys are equal only when every part is', w, tr)
                else:
                    dv = not one and (decide(ff, eqi(t('discr', a), t('discr', b))) is False or ids and any(isv_n(ff, b, j, len(vs)) for j in range(len(vs)) if j != ids[0]))
                    g = dv or ids and any(field_eq(ff, vfld(a, ids[0], i) if not one else fld(a, i), vfld(b, ids[0], i) if not one else fld(b, i)) is False for i in range(len(vs[ids[0]][2] or [])))
                    r.ok(g, 'R06 keys that are equal in every part are equal', w, tr)
        r.ok(nt, 'R06 comparing keys was analysed', w)
def isv_n(ff, x, i, n):
    return decide(ff, is_variant(x, i)) is True
def field_eq(ff, x, y):
    for c in (eqi(x, y), eqv(x, y), t('eq', *sorted((x, y), key=lambda z: z.id))):
        d = decide(ff, c)
        if d is not None: return d
    return None

# ---------------------------------------------------------------------- R08
POST_ = 2                               # http::method::Inner: Options, Get, Post, ...
STANDARD = {16: 'authorization'}        # http::header::StandardHeader, in the order of the library's table
def header_name(r, x):
    """a header's name, given as text or as the library's constant"""
    s = unq(x)
    if s is not None: return s.lower()
    x = unref(strip_deref(strip_clone(x)))
    while x.k == 'agg' and len(x.a[2]) == 1: x = x.a[2][0]
    if x.k == 'agg' and last(x.a[0]) == 'StandardHeader': return STANDARD.get(x.a[1], str(x.a[1]))
    return None
def peel_parse(x):
    """a text through its conversion to the type a request takes"""
    while True:
        y = unref(strip_deref(strip_clone(x)))
        if y.k == 'vfld' and y.a[1] == 0 and y.a[0].k == 'app' and re.search(r'(^parse$|::from_str$|::try_from$|::try_into$|from_maybe_shared$)', y.a[0].a[0]): x = y.a[0].a[1][-1]
        elif y.k == 'json': x = y.a[0]
        else: return y
def request_of(x):
    """method, address and headers of a request being built; None where it is not understood"""
    b = x; heads = []; uri = None; meth = None
    while True:
        if b.k == 'app' and b.a[0] == 'resp_header': heads.append((b.a[1][1], b.a[1][2])); b = b.a[1][0]
        elif b.k == 'ev' and b.a[1] == 'Builder::uri': uri = uri if uri is not None else b.a[2][1]; b = b.a[2][0]
        elif b.k == 'ev' and b.a[1] == 'Builder::method': meth = meth if meth is not None else b.a[2][1]; b = b.a[2][0]
        elif b.k == 'ev' and b.a[1] in ('Builder::version', 'Builder::extension'): b = b.a[2][0]
        elif b.k == 'ev' and b.a[1] == 'Request::builder': return meth, uri, heads
        elif b.k == 'ev' and b.a[1] == 'Request::post': return meth if meth is not None else t('str', 'POST'), uri if uri is not None else b.a[2][0], heads
        elif b.k == 'ev' and re.match(r'Request::(get|put|head|delete|patch|options|trace|connect)$', b.a[1]): return meth if meth is not None else t('str', b.a[1].split('::')[1].upper()), uri if uri is not None else b.a[2][0], heads
        else: return None
def is_post(m):
    if m is None: return False
    m = strip_deref(strip_clone(m))
    if m.k == 'str': return m.a[0] == 'POST'
    if m.k == 'agg' and last(m.a[0]) == 'Method': m = m.a[2][0]
    return m.k == 'agg' and last(m.a[0]) == 'Inner' and m.a[1] == POST_ and not m.a[2]
def members(x):
    """the members of a JSON object put together here, by name; None where it is not understood"""
    out = {}
    while x.k == 'ver' and x.a[1].k == 'ev' and x.a[1].a[1] == 'Map::insert':
        k = unq(x.a[1].a[2][1])
        if k is None: return None
        out.setdefault(k, x.a[1].a[2][2]); x = x.a[0]
    return out if x.k == 'newc' and x.a[0] == 'Map' else None
def json_const(x):
    """a JSON constant as a Python value, or the term it is made of"""
    x = unref(strip_clone(x))
    while x.k == 'json': x = unref(strip_clone(x.a[0]))
    if x.k == 'agg' and last(x.a[0]) == 'Value':
        if x.a[1] == 0: return None
        if x.a[1] in (1, 2, 3): return json_const(x.a[2][0]) if x.a[1] != 1 or not is_int(x.a[2][0]) else bool(x.a[2][0].a[0])
    if x.k == 'agg' and last(x.a[0]) == 'Number' and len(x.a[2]) == 1: return json_const(x.a[2][0])
    if x.k == 'agg' and last(x.a[0]) == 'N' and x.a[1] == 0: return json_const(x.a[2][0])
    if x.k == 'agg' and last(x.a[0]) == 'bool': return bool(x.a[1])
    if x is TRUE: return True
    if is_int(x): return x.a[0]
    if x.k == 'str': return x.a[0]
    return x
def R08(r):
    r.rule('what is handed to the HTTP client is a POST to "http://" host ":" port with authorization "Basic " base64(user ":" password) and the JSON text of an object with the method and parameters asked for; each lookup asks for its own method with its own parameters')
    faithful_clones(r, {'Client', 'Configuration'})
    f = r.one('new', 'Client'); w = f'{r.inst(f)}:{f.span[1]}'; made = []
    for tr in r.traces(r.run(f, opq(LOGS + HEX), key='r02')):
        if end(tr).kind != 'ret': continue
        v = end(tr).val
        if r.ok(v.k == 'agg' and last(v.a[0]) == 'Client', 'R08 the client is returned', w, v): made.append(v)
    r.need(made, 'making the client')
    host, port, user, pw = [t('param', 100 + i) for i in range(4)]
    def resolve(x, v):
        ren = {t('param', i): p for i, p in enumerate((host, port, user, pw))}
        m = {fld(t('param', 0), i): subst(y, ren) for i, y in enumerate(v.a[2])}
        return subst(x, m)
    plain = lambda ps: [p if isinstance(p, str) else unref(strip_deref(strip_clone(p))) if isinstance(p, T) else p for p in ps]
    n = 0
    for f in request_fns(r):
        w = f'{r.inst(f)}:{f.span[1]}'
        q = r.run(f, opq(LOGS), key='rq', part=40)
        for tr in r.traces(q):
            for x in evs_named(tr, 'Client::request'):
                n += 1; req = strip_clone(x.snap[1]); v0 = made[0]
                if not r.ok(req.k == 'app' and req.a[0] == 'response', 'R08 a request is built', x.where(), req): continue
                got = request_of(req.a[1][0])
                if not r.ok(got is not None, 'R08 the request is understood', x.where(), req): continue
                meth, uri, heads = got
                r.ok(is_post(meth), 'R08 a request is a POST', x.where(), meth)
                for v in made:
                    u = plain(text(peel_parse(resolve(uri, v)))) if uri is not None else None
                    if u and isinstance(u[-1], str) and u[-1] == '/' and len(u) == 5: u = u[:-1]
                    r.ok(u == ['http://', host, ':', port], 'R08 a request goes to the configured node', x.where(), u)
                    au = [resolve(h, v) for k, h in heads if header_name(r, k) == 'authorization']
                    good = len(au) == 1
                    if good:
                        a = plain(text(peel_parse(au[0])))
                        good = len(a) == 2 and a[0] == 'Basic ' and isinstance(a[1], T)
                        b = is_b64(a[1]) if good else None
                        good = good and b is not None and plain(text(peel_bytes(b))) == [user, ':', pw]
                    r.ok(good, 'R08 a request carries the configured user and password', x.where(), au)
                ct = [h for k, h in heads if header_name(r, k) == 'content-type']
                r.ok(all(unq(h) is None or unq(h).lower().split(';')[0] in ('application/json', 'text/plain', 'application/json-rpc') for h in ct), 'R08 the content is declared as it is', x.where(), ct)
                body = req.a[1][1]; objs = [y for y in subterms(body) if y.k == 'agg' and last(y.a[0]) == 'Value' and y.a[1] == 5 and members(y.a[2][0]) is not None and 'method' in members(y.a[2][0])]
                if not r.ok(len(objs) == 1 and json_text_of(body, objs[0]), 'R08 the body is the text of the call', x.where(), body): continue
                ms = members(objs[0].a[2][0])
                m, ps = ms.get('method'), ms.get('params')
                r.ok(m is not None and peel_parse(strip_val(m)) is t('param', 1), 'R08 the method asked for is called', x.where(), m)
                r.ok(ps is not None and peel_parse(strip_val(ps)) is t('param', 2), 'R08 the parameters asked for are given', x.where(), ps)
                r.ok('jsonrpc' not in ms or json_const(ms['jsonrpc']) in ('1.0', '1.1'), 'R08 the protocol version is the one whose errors come with status 500', x.where(), ms.get('jsonrpc'))
    r.ok(n, 'R08 requests found', None, n)
    users, op = lookup_fns(r); seen = set()
    for f in users.values():
        q = r.run(f, op, key='lk', part=40); w = f'{r.inst(f)}:{f.span[1]}'
        for tr in r.traces(q):
            for x in evs_named(tr, 'request'):
                m = unref(x.snap[1]); meth = unq(m); ps = unref(strip_clone(x.snap[2]))
                r.ok(x.snap[0] is t('param', 0) or same(unref(x.snap[0]), t('param', 0)), 'R08 the lookup asks its own node', x.where(), x)
                a = args_of(ps)
                if not r.ok(meth is not None and a is not None, 'R08 method and parameters of a lookup are understood', x.where(), x): continue
                a = [json_const(y) for y in a]; seen.add(meth)
                own = len(a) > 0 and isinstance(a[0], T)
                hashed = own and a[0].k == 'ev' and a[0].a[1] == 'rhexenc' and same(unref(a[0].a[2][0]), t('param', 1))
                f0 = lambda y: not isinstance(y, T) and y is not None and y in (0, False)
                want = {'getrawmempool': all(y is False for y in a) and len(a) <= 2,
                        'getrawtransaction': hashed and all(f0(y) for y in a[1:]) and len(a) <= 2,
                        'getblockhash': own and len(a) == 1 and same(a[0], t('param', 1)),
                        'getblock': hashed and len(a) == 2 and f0(a[1])}.get(meth)
                r.ok(want is not None, 'R08 the method is one of the node\'s', x.where(), meth)
                if want is not None: r.ok(want, 'R08 a lookup asks for its subject, in the form it reads', x.where(), x)
    r.ok({'getrawtransaction', 'getblockhash', 'getblock', 'getrawmempool'} <= seen, 'R08 the lookups were found', None, seen)
def strip_val(x):
    x = strip_clone(x)
    while x.k == 'json' or x.k == 'agg' and last(x.a[0]) == 'Value' and x.a[1] in (3, 4): x = strip_clone(x.a[0] if x.k == 'json' else x.a[2][0])
    return x
def args_of(ps):
    """the elements of a list put together here"""
    ps = unref(strip_clone(ps))
    while ps.k == 'agg' and last(ps.a[0]) == 'Value' and ps.a[1] == 4: ps = unref(strip_clone(ps.a[2][0]))
    if ps.k == 'agg' and ps.a[0] == 'array': return list(ps.a[2])
    if ps.k == 'newc': return []
    if ps.k == 'ver' and ps.a[1].k == 'ev' and ps.a[1].a[1] == 'Vec::push':
        a = args_of(ps.a[0])
        return a + [ps.a[1].a[2][1]] if a is not None else None
    return None
def is_b64(x):
    x = unref(strip_clone(x))
    return x.a[2][0] if x.k == 'ev' and x.a[1] == 'base64' and x.a[2] else None
def peel_bytes(x):
    x = unref(strip_clone(x))
    while x.k == 'app' and x.a[0] in ('String::into_bytes', 'as_bytes', 'String::as_bytes'): x = unref(x.a[1][0])
    return x
def json_text_of(body, obj):
    x = unref(strip_clone(body))
    while x is not obj:
        if x.k in ('to_string', 'json', 'deref', 'ref'): x = unref(strip_clone(x.a[0])) if x.k != 'ref' else x
        elif x.k == 'vfld' and x.a[1] == 0 and x.a[0].k == 'app' and re.search(r'to_string$|to_vec$', x.a[0].a[0]): x = unref(strip_clone(x.a[0].a[1][-1]))
        elif x.k == 'app' and re.search(r'(to_string|to_vec|into_bytes|Body::from)$', x.a[0]): x = unref(strip_clone(x.a[1][-1]))
        elif x.k in ('format', 'fmt') and len(text(x)) == 1 and isinstance(text(x)[0], T) and text(x)[0] is not x: x = text(x)[0]
        else: return False
        if x.k == 'ref': return False
    return True
RULES = {k: v for k, v in globals().items() if re.fullmatch(r'[A-Z]\d\d', k) and k in ('R01', 'R02', 'R06', 'R08')}
