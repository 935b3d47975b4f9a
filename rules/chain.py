"""T01-T05, L01-L03: the unfolded tail, overlays, locks"""
from .common import *
from .store import LOGS, fieldno, strip_deref, clos, climb

P0 = ('p', 0)
TAIL = [(r'LastBlocks::update_mempool$', 'update_mempool'), (r'LastBlocks::update_blocks$', 'update_blocks'), (r'LastBlocks::pop$', 'pop'),
        (r'LastBlocks::augmentations$', 'augmentations'), (r'LastBlocks::last_augmentation$', 'last_augmentation'), (r'LastBlocks::augmentation$', 'augmentation')]
APPLY = [(r'(^|::)Store::add_block$', 'fold_block'), (r'TransactionStore::add_block$', 'add_block'), (r'TransactionStore::add_transaction$', 'add_transaction'),
         (r'TransactionStore::can_add_transaction$', 'can_add')]
QUERY = [(r'ReadonlyTransactionStore::balance$', 'q_balance'), (r'ReadonlyTransactionStore::iterate_transaction_outputs$', 'q_list'),
         (r'ReadonlyAugmentedTransactionStoreBackend.*::balance$', 'q_balance'), (r'ReadonlyAugmentedTransactionStoreBackend.*::iterate_transaction_outputs$', 'q_list')]
NODE = [(r'Client::getrawmempool$', 'getrawmempool'), (r'Client::getrawtransaction$', 'getrawtransaction'), (r'Client::getblockhash$', 'getblockhash'), (r'Client::getblock$', 'getblock')]

def ploc(x):
    """location designated by a reference or a place value"""
    x = strip_deref(x)
    if x.k == 'ref' and x.a[0][0] == 'X':
        l = loc(x.a[0][1])
        for e in x.a[1]:
            if e[0] == 'f': l = l + (e[1],)
            else: return None
        return l
    return loc(x)

class SF:
    """the fields of the shared state"""
    def __init__(self, r):
        self.store = r.fx('State', 'store', r'RwLock<.*Store<'); self.tail = r.fx('State', 'tail_blocks', 'LastBlocks'); self.aug = r.fx('State', 'augmentations', r'RwLock<.*Augmentation')
        self.client = r.fx('State', 'client', 'Client'); self.mutex = r.fx('State', 'mutex', r'Mutex<\(\)>'); self.conf = r.fx('State', 'confirmations', '^usize$')
        self.STORE = (P0, self.store); self.AUG = (P0, self.aug); self.TAIL = (P0, self.tail); self.MUTEX = (P0, self.mutex)
        self.names = {self.STORE: 'index', self.AUG: 'overlays', self.TAIL: 'tail', self.MUTEX: 'save mutex'}
        self.STOREV = self.STORE + (0,); self.AUGV = self.AUG + (0,)

ACQ = ('acquire', 'try_acquire', 'stdacquire', 'blocking')
def acq(e):
    """(how, mode) if the event acquires a lock"""
    if not isinstance(e, Ev) or ':' not in e.name: return None
    a, _, b = e.name.partition(':')
    return (a, b) if a in ACQ else None
def held(tr):
    """for every position of the trace, the locks held just before it: list of (mode, location, how, acquire value)"""
    out = []; cur = []; ff = {}
    for x in tr:
        # a try that is known to have failed holds nothing
        out.append([h for h in cur if not (h[2] == 'try_acquire' and isv(ff, h[3], 0) is False)])
        if isinstance(x, Cond): assume(ff, x.t)
        elif isinstance(x, Ev):
            a = acq(x)
            if a: cur.append((a[1], loc(x.snap[0]), a[0], x.ret))
            elif x.name in ('drop', 'mem::drop', 'mem::forget') and x.snap and isinstance(x.snap[0], T):
                s = subterms(x.snap[0])
                gone = {g.a[2][1] for g in s if g.k == 'agg' and g.a[0].startswith('guard:')}
                if x.name != 'mem::forget': cur = [h for h in cur if h[3] not in gone]
    return out
def holds_lock(hs, l, mode=None): return any(h[1] == l and (mode is None or h[0] == mode) for h in hs)

def update(r):
    return r.run(r.one('update', 'State'), opq(LOGS + TAIL + APPLY), key='upd')
def state_roots(r):
    """the functions of the shared state a task or request handler can call"""
    cg = callgraph(r); fs = [f for f in r.fns(self_='State') if f.name and '{closure' not in f.path]
    ids = {f.id for f in fs}
    return fs
def queries(r, s):
    """[(function, graph)] of the state's functions that read the index through an overlay"""
    out = []
    for f in state_roots(r):
        if f.name in ('update', 'write', 'new'): continue
        q = r.run(f, opq(LOGS + TAIL + APPLY + QUERY), key='qry')
        if q.events(('q_balance', 'q_list')): out.append((f, q))
    r.need(out, 'query functions of the state')
    return out

def contains_loc(x, l):
    """does the value mention data at location l?"""
    for y in subterms(x):
        if y.k in ('fld', 'idx', 'len', 'mget', 'deref', 'ver', 'vphi', 'param', 'slice', 'vfld'):
            z = ploc(y)
            if z is not None and z[:len(l)] == l: return True
        if y.k == 'ref':
            z = ploc(y)
            if z is not None and z[:len(l)] == l: return True
    return False

# ---------------------------------------------------------------------------
def L01(r):
    r.rule('every read of the index or of an overlay in a query lies between acquiring both shared locks (once each) and releasing them; every change lies under the exclusive overlay lock, taken once per update')
    s = SF(r)
    for f, q in queries(r, s):
        w = f'{r.inst(f)}:{f.span[1]}'; n = 0
        for tr in r.traces(q):
            hs = held(tr); aq = [x for x in tr if acq(x)]
            qs = [(i, e) for i, e in enumerate(tr) if isinstance(e, Ev) and e.name in ('q_balance', 'q_list')]
            for i, e in qs:
                n += 1
                r.ok(holds_lock(hs[i], s.AUG) and holds_lock(hs[i], s.STORE), 'L01 a query reads the index and the overlay under both locks', f'{e.where()}', tr)
                mine = [x for x in tr[:i] if acq(x) and loc(x.snap[0]) in (s.AUG, s.STORE)]
                r.ok(len(mine) == 2, 'L01 both locks are taken once, before choosing the overlay, and kept', f'{e.where()}', mine)
            for i, x in enumerate(tr):
                u = None
                if isinstance(x, Cond): u = x.t
                if u is not None and contains_loc(u, s.AUGV): r.ok(holds_lock(hs[i], s.AUG), 'L01 the overlay is chosen under the lock', w, tr)
            # nothing is released between two reads of one answer
            if qs:
                i0 = min(i for i, _ in qs); first = next(i for i, x in enumerate(tr) if acq(x))
                r.ok(not [x for x in tr[first:max(i for i, _ in qs)] if isinstance(x, Ev) and x.name == 'drop' and any(y.k == 'agg' and y.a[0].startswith('guard:') for y in subterms(x.snap[0]))], 'L01 no lock is released between the reads of one answer', w, tr)
            lp = [i for i, x in enumerate(tr) if isinstance(x, Loop)]
            if end(tr).kind == 'back' and lp:
                # the loop over the addresses lies inside the locked region
                r.ok(not [x for x in tr[lp[-1]:] if acq(x)], 'L01 all addresses of a request are answered under the same locks', w, tr)
        r.ok(n, 'L01 the query reads', w)
    q = update(r); f = r.one('update', 'State'); w = f'{r.inst(f)}:{f.span[1]}'; n = 0
    for tr in r.traces(q):
        hs = held(tr); ws = []
        for i, x in enumerate(tr):
            if not isinstance(x, Ev): continue
            l = None
            if x.kind == 'store' or (x.name.split('::')[-1] in MUTATORS and '::' in x.name and x.snap): l = loc(x.snap[0])
            elif x.name in ('fold_block', 'add_block', 'add_transaction'): l = ploc(x.snap[0])
            if l is None: continue
            if l[:2] == s.STORE[:2]: n += 1; ws.append(i); r.ok(holds_lock(hs[i], s.AUG, 'write') and holds_lock(hs[i], s.STORE, 'write'), 'L01 the index changes only under exclusive access to overlays and index', x.where(), tr)
            elif l[:2] == s.AUG[:2]: n += 1; ws.append(i); r.ok(holds_lock(hs[i], s.AUG, 'write'), 'L01 overlays change only under exclusive access', x.where(), tr)
        aw = [x for x in tr if acq(x) and acq(x)[1] == 'write' and loc(x.snap[0]) == s.AUG]
        r.ok(len(aw) <= 1, 'L01 one exclusive step covers replacing the overlays and folding', w, aw)
    r.ok(n >= 3, 'L01 changes of index and overlays found', w, n)
    # nobody else takes the locks exclusively
    for g in state_roots(r):
        if g.name == 'update': continue
        qq = r.run(g, opq(LOGS + TAIL + APPLY + QUERY), key='qry')
        if g.id in {x for x in _reach(r, f)}: continue
        for tr in r.traces(qq):
            for x in tr:
                a = acq(x)
                if a: r.ok(not (a[1] == 'write' and loc(x.snap[0]) in (s.AUG, s.STORE)), 'L01 only an update takes index or overlays exclusively', x.where(), x)
    # one state call per answer
    from .http import routes, ROUTE_OPQ
    for rt in routes(r):
        for tr in rt.traces:
            c = [e for e in tr if isinstance(e, Ev) and e.name.startswith('state:') and e.name != 'state:confirmations']
            if end(tr).kind == 'back': r.ok(not [e for e in c if tr.index(e) > max(i for i, x in enumerate(tr) if isinstance(x, Loop))], 'L01 one snapshot per answer', rt.where, tr)
            r.ok(len(c) <= 1, 'L01 one snapshot per answer', rt.where, c)
def _reach(r, f):
    """functions called from f"""
    c = getattr(r.p, '_callees', None)
    if c is None:
        c = {}
        for k, v in callgraph(r).items():
            for x in v: c.setdefault(x, set()).add(k)
        r.p._callees = c
    seen = {f.id}; st = [f.id]
    while st:
        for y in c.get(st.pop(), ()):
            if y not in seen: seen.add(y); st.append(y)
    return seen

def all_lock_traces(r, s):
    for f in state_roots(r):
        q = update(r) if f.name == 'update' else r.run(f, opq(LOGS + TAIL + APPLY + QUERY), key='qry')
        for tr in r.traces(q): yield f, tr

def L02(r):
    r.rule('the lock-order graph over all acquisitions (held -> acquired) has no cycle; no lock is reacquired while held; no std lock or blocking acquire is held across an await')
    s = SF(r); edges = {}; n = 0
    for f, tr in all_lock_traces(r, s):
        hs = held(tr); w = f'{r.inst(f)}:{f.span[1]}'
        for i, x in enumerate(tr):
            a = acq(x)
            if a:
                n += 1; l = loc(x.snap[0])
                r.ok(l in s.names, 'L02 every lock is a known one', x.where(), x)
                r.ok(not holds_lock(hs[i], l), 'L02 no lock is acquired again while held', x.where(), tr)
                r.ok(a[0] != 'blocking', 'L02 no blocking acquire in an asynchronous task', x.where(), x)
                if a[0] != 'try_acquire':
                    for h in hs[i]: edges.setdefault(h[1], {}).setdefault(l, x.where())
            elif isinstance(x, Ev) and (x.name == 'await' or x.name.startswith('await:')):
                r.ok(not [h for h in hs[i] if h[2] == 'stdacquire' or h[2] == 'blocking'], 'L02 no thread-blocking lock is held across an await', x.where(), hs[i])
            if acq(x) and acq(x)[0] == 'acquire': r.ok(not [h for h in hs[i] if h[2] == 'stdacquire'], 'L02 no thread-blocking lock is held while waiting for another', x.where(), hs[i])
        r.ok(True, 'L02 trace examined')
    # std locks anywhere in asynchronous code: the lock fields of the state are asynchronous ones
    for i, (nm, ty) in enumerate(r.fields('State')):
        tn = r.p.tys(ty)
        if re.search(r'(Mutex|RwLock)<', tn): r.ok('tokio::sync' in tn, f'L02 State.{nm} is an asynchronous lock', None, tn)
    # cycle?
    for a in edges:
        seen = set(); st = [(a, [a])]
        while st:
            x, path = st.pop()
            for y in edges.get(x, {}):
                if y == a:
                    r.ok(False, 'L02 locks are acquired in one global order', edges[x][y], ' -> '.join(s.names.get(z, str(z)) for z in path + [y]))
                elif y not in seen: seen.add(y); st.append((y, path + [y]))
    r.ok(n >= 10 and edges, 'L02 acquisitions found', None, (n, edges))
    # locks are only taken by the state's own functions
    ids = set()
    for f in state_roots(r): ids |= _reach(r, f)
    for f, line, nm, c in calls(r):
        if re.search(r'tokio::sync::.*(RwLock|Mutex)::(read|write|lock|try_lock|try_read|try_write|blocking_\w+|\w+_owned|get_mut)$', nm):
            r.ok(f.id in ids or any(p in ids for p in _par(r, f)), 'L02 locks are taken only inside the analysed functions', f'{r.inst(f)}:{line}', nm)
def _par(r, f): return [x for x in callgraph(r).get(f.id, ())]

def L03(r):
    r.rule('locks held while awaiting the node or saving are shared ones as far as queries take them; folding and saving exclude each other through the save mutex, which updates only try')
    s = SF(r); ql = set()
    for f, q in queries(r, s):
        for tr in r.traces(q):
            for x in tr:
                if acq(x): ql.add(loc(x.snap[0]))
    r.ok(ql == {s.AUG, s.STORE}, 'L03 the locks queries take are known', None, ql)
    up = r.one('update', 'State'); w = f'{r.inst(up)}:{up.span[1]}'; nn = nf = ns = 0
    for tr in r.traces(update(r)):
        hs = held(tr)
        for i, x in enumerate(tr):
            if not isinstance(x, Ev): continue
            if x.name == 'await' or x.name.startswith('await:'):
                nn += 1
                r.ok(not [h for h in hs[i] if h[0] in ('write', 'lock') and h[1] in ql], 'L03 nothing queries need is held exclusively while waiting for the node', x.where(), hs[i])
            a = acq(x)
            if a and loc(x.snap[0]) == s.MUTEX: r.ok(a[0] == 'try_acquire', 'L03 updates do not wait for a save', x.where(), x)
            if x.name in ('fold_block',) and (ploc(x.snap[0]) or ())[:2] == s.STORE[:2]:
                nf += 1
                r.ok(any(h[1] == s.MUTEX and (h[2] == 'acquire' or isv(facts_of(tr, i), h[3], 0) is True) for h in hs[i]), 'L03 blocks are folded only while no save is running', x.where(), tr)
            if a and a[1] == 'write' and loc(x.snap[0]) == s.STORE:
                r.ok(any(h[1] == s.MUTEX and (h[2] == 'acquire' or isv(facts_of(tr, i), h[3], 0) is True) for h in hs[i]), 'L03 the index is wanted exclusively only while no save is running', x.where(), tr)
            if a and a[0] == 'acquire' and loc(x.snap[0]) not in ql: r.ok(not [h for h in hs[i] if h[1] in ql and h[0] == 'write'], 'L03 an update holding queries up waits for nothing else', x.where(), hs[i])
    wr = r.one('write', 'State')
    q = r.run(wr, opq(LOGS + [(r'Store::to_file$', 'to_file')]), key='wr'); w2 = f'{r.inst(wr)}:{wr.span[1]}'
    for tr in r.traces(q):
        hs = held(tr)
        for i, x in enumerate(tr):
            if isinstance(x, Ev) and x.name == 'to_file':
                ns += 1
                r.ok(not [h for h in hs[i] if h[0] in ('write',) and h[1] in ql], 'L03 a save holds nothing exclusively that queries need', x.where(), hs[i])
                r.ok(holds_lock(hs[i], s.MUTEX), 'L03 the save mutex is held while the index is saved', x.where(), hs[i])
            a = acq(x)
            if a and a[0] == 'acquire' and loc(x.snap[0]) == s.MUTEX: r.ok(not [h for h in hs[i] if h[1] in ql], 'L03 a save holds nothing queries need while waiting for its turn', x.where(), hs[i])
    r.ok(nn and nf and ns, 'L03 node waits, folds and saves found', None, (nn, nf, ns))

# ---------------------------------------------------------------------------
def last_hash_terms(r):
    iH = r.fx('BlockHeader', 'hash'); iP = r.fx('BlockHeader', 'previous_block_hash'); iHd = r.fx('Block', 'header', 'BlockHeader')
    return iH, iP, iHd

def T01(r):
    r.rule('every iteration of fetching: height = index + tail; pushed exactly when the previous hash equals the tip, else exactly one block popped')
    faithful_clones(r, {'Block', 'BlockHeader', 'Transaction', 'Output'})
    iH, iP, iHd = last_hash_terms(r); iBl = r.fx('LastBlocks', 'blocks', 'VecDeque|Vec<'); iBH = r.fx('Store', 'block_headers', 'Vec')
    for f in r.the('update_blocks', 'LastBlocks'):
        w = f'{r.inst(f)}:{f.span[1]}'
        q = r.run(f, opq(LOGS + NODE + [(r'(^|::)Block::new$', 'decode')]), key='ub')
        sto = param_of(r, f, 'Store'); tail = (P0, iBl); cli = param_of(r, f, 'Client')
        heads = fld(sto, iBH); seen = set()
        for tr in r.traces(q):
            gh = evs_named(tr, 'getblockhash'); gb = evs_named(tr, 'getblock'); bn = evs_named(tr, 'decode'); aw = evs_named(tr, 'await')
            eff = [e for e in effects(tr) if e.loc[0] == P0]
            ff = facts_of(tr)
            for e in gh + gb: r.ok(same(e.snap[0], cli), 'T01 the configured node is asked', e.where(), e)
            if is_panic(tr) and overflowed(tr): continue
            if not r.ok(len(gh) == 1 and awaited(tr, gh[0]), 'T01 each round asks for one height', w, tr): continue
            bl = [y.a[0] for a, m in lin_of(gh[0].snap[1])[1] for y in [a] if y.k == 'len' and loc(y.a[0]) == tail]
            good = len(bl) == 1 and same(gh[0].snap[1], add(length(heads), length(bl[0])))
            if not r.ok(good, 'T01 the next height is the height of index plus tail', gh[0].where(), gh[0]): continue
            B = bl[0]
            got = isv(ff, await_of(tr, gh[0]), 1)
            if got is False:
                seen.add('end')
                r.ok(end(tr).kind == 'ret' and not eff and not gb, 'T01 fetching stops at the node\'s tip', w, tr)
                v = end(tr).val
                ins = phis(q.g, v)
                # the report "something changed" starts false and is true after any fetched block
                r.ok(change_flag(q, v), 'T01 any fetched block is reported as a change', w, (v, ins))
                continue
            if not r.ok(got is True and len(gb) == 1 and awaited(tr, gb[0]) and same(gb[0].snap[1], vfld(await_of(tr, gh[0]), 1, 0)), 'T01 the block at that height is fetched', w, tr): continue
            gotb = isv(ff, await_of(tr, gb[0]), 1)
            if gotb is False:
                r.ok(not eff, 'T01 a block that is not there changes nothing', w, tr); continue
            if not r.ok(len(bn) == 1 and same(bn[0].snap[0], vfld(await_of(tr, gb[0]), 1, 0)), 'T01 the fetched block is decoded', w, tr): continue
            r.ok(same(bn[0].snap[1], gh[0].snap[1]), 'T01 the block carries its height', bn[0].where(), bn[0])
            b = bn[0].ret; prev = fld(fld(b, iHd), iP)
            empty = decide(ff, eq0(length(B)))
            eqs = link_status(tr, prev, lambda x, e: is_tip(x, B, heads, iHd, iH, e), ff)
            psh = [e for e in eff if e.op in ('push_back', 'push')]; pp = [e for e in eff if e.op in ('pop_back', 'pop')]
            if is_panic(tr):
                no_tip = isv(ff, N(t('opt', heads)), 1) is False or decide(ff, eq0(length(heads))) is True
                r.ok((eqs is False and empty is not False) or (no_tip and not psh), 'T01 fetching stops the process only for a reorganisation below the tail', w, tr)
                seen.add('panic'); continue
            if not r.ok(end(tr).kind == 'back', 'T01 fetching goes on after each block', w, tr): continue
            r.ok(all(e.loc == tail for e in eff), 'T01 only the tail changes', w, eff)
            if not r.ok(eqs is not None, 'T01 linkage to the tip is decided for every fetched block', w, tr): continue
            if eqs:
                seen.add('push')
                r.ok(len(eff) == 1 and len(psh) == 1 and same(psh[0].args[0], b), 'T01 a linked block joins the end of the tail', w, eff)
            else:
                seen.add('pop')
                r.ok(len(eff) == 1 and len(pp) == 1 and empty is False, 'T01 an unlinked block removes exactly the last tail block', w, eff)
        r.ok(seen >= {'end', 'push', 'pop', 'panic'}, 'T01 all cases present', w, seen)
    ws = [x for x in struct_writers(r, 'LastBlocks', {iBl})]
    bad = outside(r, ws, [f.id for f in r.the('update_blocks', 'LastBlocks') + r.the('pop', 'LastBlocks')])
    for f, line, how in bad: r.ok(False, 'T01 the tail changes only by fetching and folding', f'{r.inst(f)}:{line}', how)
def change_flag(q, v):
    """v starts false and is true after any iteration (a flag set in each, or `counter > 0` of a counter incremented in each)"""
    def rounds(p): return [dict(m)[p] for m in map(lambda m: m or (), q.g.bv.values()) if p in dict(m)]
    if v.k == 'phi': return FALSE in q.g.phi.get(v, ()) and q.g.phi[v] <= {FALSE, TRUE} and bool(rounds(v)) and all(x is TRUE for x in rounds(v))
    x = v.a[0].a[0] if v.k == 'not' and v.a[0].k == 'eq0' else v.a[0] if v.k == 'gt0' else None
    if x is None or x.k != 'phi': return False
    ins = q.g.phi.get(x) or set()
    up = [i for i in ins if i is add(x, I(1)) or (i.k == 'lin' and not i.a[1] and i.a[0] > 0) or (i.k == 'int' and i.a[0] > 0)]
    return I(0) in ins and len(up) == len(ins) - 1 and bool(up) and all(i in up for i in rounds(x))
def param_of(r, f, name):
    """the parameter of f whose type is (a reference to) name"""
    for i in range(f.argc):
        if re.search(r'(^|[ &:])' + name + r'(<|$)', r.p.tys(f.locals[i + 1])): return t('param', i)
    raise Undecided(f'parameter {name} of {f.path}')
def awaited(tr, e): return await_of(tr, e) is not None
def await_of(tr, e):
    for x in tr:
        if isinstance(x, Ev) and x.name == 'await' and x.snap and x.snap[0] is e.ret: return x.ret
    return None
def is_tip(x, B, heads, iHd, iH, empty):
    """x is the hash of the last tail block / of the index's last header"""
    x = N(x)
    a = N(fld(fld(idx(B, sub(length(B), I(1))), iHd), iH))
    if x is a: return 'tail'
    h = N(fld(idx(heads, sub(length(heads), I(1))), iH))
    if x is h: return 'index'
    return None
def link_status(tr, prev, tip, ff):
    """is prev equal to the tip hash (branch taken on this trace)? True / False / None. The tip must be the right one for the state of the tail"""
    p = N(prev)
    for c in conds(tr):
        pol = True
        if c.k == 'not': c = c.a[0]; pol = False
        if c.k != 'eq': continue
        a, b = N(c.a[0]), N(c.a[1])
        if b is p: a, b = b, a
        if a is not p: continue
        k = tip(b, None)
        if k is None: continue
        return pol if k_ok(k, tr, ff) else None
    return None
def k_ok(k, tr, ff):
    # which tip: known from the facts about the tail's length
    for c in conds(tr):
        for y in subterms(c):
            if y.k == 'len' and loc(y.a[0])[0] == P0 and len(loc(y.a[0])) == 2:
                e = decide(ff, eq0(y))
                if e is not None: return (k == 'index') == e
    return False

def T02(r):
    r.rule('pop: front blocks in order while len > confirmations-1; the shared state and the initial build use the configured confirmations')
    faithful_clones(r, {'Block', 'BlockHeader', 'Transaction', 'Output'})
    s = SF(r); iBl = r.fx('LastBlocks', 'blocks', 'VecDeque|Vec<'); tail = (P0, iBl)
    for f in r.the('pop', 'LastBlocks'):
        w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, key='pop'); seen = set(); c = t('param', 1); out = set()
        for tr in r.traces(q):
            if is_panic(tr):
                r.ok(overflowed(tr) or evs_named(tr, 'panic'), 'T02 popping does not stop early', w, tr); continue
            eff = effects(tr); bl = [y for x in conds(tr) for y in subterms(x) if y.k == 'len' and loc(y.a[0]) == tail]
            ff = facts_of(tr)
            if decide(ff, lt(I(0), c)) is False: continue          # confirmations are at least 1 (State asserts it on every fold)
            if end(tr).kind == 'ret' and drained(tr, ff, eff, tail, c):
                seen |= {'ret', 'pop'}; continue
            if not r.ok(bl, 'T02 popping depends on the length of the tail', w, tr): continue
            more = decide(ff, lt(sub(c, I(1)), bl[-1]))
            if end(tr).kind == 'ret':
                seen.add('ret')
                r.ok(more is False and not [e for e in eff if e.loc == tail], 'T02 popping ends only when the tail is no longer than confirmations - 1', w, tr)
                out.add(loc(end(tr).val)); continue
            seen.add('pop')
            pf = [e for e in eff if e.loc == tail]; pu = [e for e in eff if e.op == 'push']
            good = more is True and len(pf) == 1 and (pf[0].op == 'pop_front') and len(pu) == 1 and len(eff) == 2
            if good: good = N(pu[0].args[0]) is N(idx(pf[0].ev.snap[0], I(0)))
            if good: out.add(pu[0].loc)
            r.ok(good, 'T02 the oldest block is folded first, only while the tail is longer than confirmations - 1', w, tr)
        r.ok(seen == {'ret', 'pop'} and len(out) <= 1, 'T02 pop cases present', w, (seen, out))
    # nothing else takes blocks from the front
    for f, line, how in outside(r, struct_writers(r, 'LastBlocks', {iBl}), [f.id for f in r.the('update_blocks', 'LastBlocks') + r.the('pop', 'LastBlocks')]):
        r.ok(False, 'T02 blocks leave the tail only by folding and by a reorganisation', f'{r.inst(f)}:{line}', how)
    for f in r.the('update_blocks', 'LastBlocks'):
        q = r.run(f, opq(LOGS + NODE + [(r'(^|::)Block::new$', 'decode')]), key='ub')
        for tr in r.traces(q):
            for e in effects(tr):
                if under(e.loc, tail): r.ok(e.loc == tail and e.op in ('push_back', 'push', 'pop_back', 'pop'), 'T02 fetching takes no block from the front of the tail', f'{r.inst(f)}:{f.span[1]}', (e.op, e.args))
    # the state asks with its own setting
    n = 0
    for tr in r.traces(update(r)):
        for e in evs_named(tr, 'pop'):
            n += 1
            r.ok(len(e.snap) > 1 and loc(e.snap[1]) == (P0, s.conf) and loc(e.snap[0])[:2] == s.TAIL, 'T02 folding uses the configured confirmations', e.where(), e)
    r.ok(n, 'T02 folding found')
    for f, line, how in struct_writers(r, 'State', {s.conf}): r.ok(False, 'T02 the configured confirmations never change', f'{r.inst(f)}:{line}', how)
    for f in r.the('new', 'State'):
        q = r.run(f, key='snew')
        for tr in r.traces(q):
            v = N(end(tr).val)
            us = [i for i in range(f.argc) if r.p.tys(f.locals[i + 1]) == 'usize']
            r.ok(len(us) == 1 and fld(v, s.conf) is t('param', us[0]), 'T02 the state keeps the configured confirmations', f'{r.inst(f)}:{f.span[1]}', v)
            tb = fld(fld(v, s.tail), 0) if fld(v, s.tail).k == 'agg' else fld(v, s.tail)
            r.ok(any(y.k == 'newc' for y in subterms(fld(v, s.tail))), 'T02 the tail starts empty', f'{r.inst(f)}:{f.span[1]}', v)
    # initial build
    from .life import program, cfg_of
    pr = program(r); cf = r.fx('Configuration', 'confirmations')
    for tr in pr.main:
        for e in evs_named(tr, 'state:new'):
            sn = r.one('new', 'State'); us = [i for i in range(sn.argc) if r.p.tys(sn.locals[i + 1]) == 'usize']
            r.ok(len(us) == 1 and same(e.snap[us[0]], fld(cfg_of(tr), cf)), 'T02 the state is given the configured confirmations', e.where(), e)
    n = 0
    for tr in pr.main:
        fb = evs_named(tr, 'from_blocks'); bk = evs_named(tr, 'scan_blocks')
        for e in fb:
            n += 1; i = tr.index(e)
            if not r.ok(len(bk) == 1, 'T02 the initial build indexes the blocks of the block files', e.where(), tr): continue
            ff = {}
            for x in conds(tr, i): assume(ff, N(x))
            B = bk[0].ret; c = N(fld(cfg_of(tr), cf)); a = N(e.snap[0]); L = length(B)
            want = add(sub(L, c), I(1))
            r.ok(decide(ff, le(c, L)) is True, 'T02 a chain shorter than the confirmations is refused', e.where(), tr)
            good = (a.k == 'slice' and a.a[0] is B and a.a[1] is I(0) and a.a[2] is want) or (a is B and decide(ff, le(c, I(1))) is True)
            if not good and a.k == 'slice' and a.a[0] is B and a.a[1] is I(0):
                good = decide(ff, eqi(a.a[2], want)) is True
            good = good and not tops(e.snap[0])
            r.ok(good, 'T02 the initial build leaves out exactly the last confirmations - 1 blocks', e.where(), (a, tr))
    r.ok(n, 'T02 initial build found')
def drained(tr, ff, eff, tail, c):
    """the folded blocks are taken with one drain of the right prefix"""
    ds = [e for e in eff if e.loc == tail]
    if len(ds) != 1 or len(eff) != 1 or not ds[0].op.endswith('drain') or len(ds[0].args) != 2 or ds[0].args[0] is not I(0): return False
    old = ds[0].ev.snap[0]; n = ds[0].args[1]; L = length(old); v = N(end(tr).val)
    if not (same(v, TM.slc(old, I(0), n)) or (n is I(0) and length(v) is I(0))): return False
    return decide(ff, eqi(n, add(sub(L, c), I(1)))) is True or (n is I(0) and decide(ff, lt(L, c)) is True)

def T03(r):
    r.rule('overlay j holds tail blocks 0..=j in order plus the mempool exactly for the last; a query with c confirmations picks overlay len-1-c, or none for c = len')
    faithful_clones(r, {'Block', 'BlockHeader', 'Transaction', 'Output'})
    s = SF(r); iBl = r.fx('LastBlocks', 'blocks', 'VecDeque|Vec<'); iMp = r.fx('LastBlocks', 'mempool', 'Mempool')
    BLK = fld(t('param', 0), iBl); L = length(BLK)
    iMT = r.fx('Mempool', 'transactions', 'Map'); iMH = r.fx('Mempool', 'hashes', 'Vec')
    HS = fld(fld(t('param', 0), iMp), iMH)
    # one overlay
    for f in r.the('augmentation', 'LastBlocks'):
        w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, opq(LOGS + APPLY), key='aug'); cnt = t('param', 2); seen = set(); recv = set()
        fam = r.fx('AugmentedTransactionStoreBackend', 'store', 'Augmentation'); fB = r.fx('TransactionStore', 'backend')
        rets = []; inl = False   # the mempool is applied by an iteration of the block loop
        tail_mp = False
        for tr in r.traces(q):
            if is_panic(tr):
                ff = facts_of(tr)
                r.ok(decide(ff, lt(L, cnt)) is True or overflowed(tr) or decide(ff, lt(cnt, L)) is None, 'T03 building an overlay does not fail', w, tr); continue
            ab = evs_named(tr, 'add_block', 'fold_block'); at = evs_named(tr, 'add_transaction'); ca = evs_named(tr, 'can_add')
            lt_ = loop_tests(q, tr); ff = facts_of(tr)
            mp = [l for l in lt_ if N(l.src) is N(length(HS)) and l.step == 1 and l.lo is I(0)]
            bl = [l for l in lt_ if l not in mp and l.step == 1 and l.lo is I(0)]
            for e in ab + at + ca: recv.add(N(e.snap[0]))
            bin_ = [l for l in bl if l.state == 'in']
            def bounds(l):
                """l.i known to be <= count / < len"""
                return decide(ff, le(l.i, cnt)), decide(ff, lt(l.i, L))
            if ab:
                seen.add('block')
                good = len(ab) == 1 and not at and bl and bl[-1].state == 'in' and same(ab[0].snap[1], idx(BLK, bl[-1].i)) and end(tr).kind == 'back'
                r.ok(good and bounds(bl[-1])[0] is True, 'T03 an overlay takes tail blocks in order, up to its own', w, tr); continue
            inmp = mp and mp[-1].state == 'in'
            # the mempool belongs only to the overlay of the whole tail
            if mp:
                whole = decide(ff, le(L, cnt)) is True
                if bin_: whole = decide(ff, le(L, bin_[-1].i)) is True and decide(ff, le(bin_[-1].i, cnt)) is True and decide(ff, le(cnt, L)) is True
                r.ok(whole, 'T03 the mempool is in the last overlay only', w, tr)
                if bin_: inl = True
                else: tail_mp = True
            if inmp:
                seen.add('mempool')
                i = mp[-1].i; h = idx(HS, i)
                txs = [e.snap[1] for e in ca + at]
                m = mget_mp(r, iMp, iMT, h)
                r.ok(all(N(x) is N(vfld(m, 1, 0)) for x in txs) and end(tr).kind == 'back', 'T03 mempool transactions are taken in the node\'s order', w, tr)
                continue
            if end(tr).kind == 'back':
                # an iteration that adds no block: past the last block, where the mempool was applied completely
                good = bin_ and decide(ff, le(L, bin_[-1].i)) is True and mp and mp[-1].state == 'out'
                if not good and bin_: good = decide(ff, lt(cnt, bin_[-1].i)) is True
                r.ok(good, 'T03 no tail block up to the overlay\'s own is left out', w, tr); continue
            seen.add('ret')
            good = False
            if bl and bl[-1].state == 'out':
                i = bl[-1].i
                good = decide(ff, lt(cnt, i)) is True or decide(ff, le(L, i)) is True
                if not good:
                    # bound min(count + 1, len)
                    good = any(decide(ff, le(x, i)) is True for x in (add(cnt, I(1)), L))
            r.ok(good, 'T03 an overlay is complete when all blocks up to its own are in', w, tr)
            if not mp: seen.add(('nomp', decide(ff, le(L, cnt))))
            else: seen.add(('mp', mp[-1].state))
            rets.append(N(end(tr).val))
        r.ok(len(recv) == 1, 'T03 one overlay is built', w, recv)
        r.ok(rets and all(v is N(fld(fld(x, fB), fam)) for x in recv for v in rets), 'T03 the overlay returned is the one built', w, rets)
        once(r, q, lambda e: e.name in ('add_block', 'fold_block'), 'T03 every tail block is in an overlay once', w)
        r.ok({'block', 'mempool', 'ret'} <= seen, 'T03 overlay cases present', w, seen)
        if not inl:
            # mempool applied after the loop: then it must be decided by count >= len on every path
            r.ok(tail_mp and ('nomp', None) not in seen and ('nomp', True) not in seen, 'T03 the last overlay has the mempool', w, seen)
    # all overlays
    for f in r.the('augmentations', 'LastBlocks'):
        w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, opq(LOGS + TAIL), key='augs'); seen = set()
        for tr in r.traces(q):
            if is_panic(tr): r.ok(overflowed(tr), 'T03 building the overlays does not fail', w, tr); continue
            ag = evs_named(tr, 'augmentation', 'last_augmentation'); ls = loop_tests(q, tr); pu = [e for e in effects(tr) if e.op == 'push']; ff = facts_of(tr)
            ls = [l for l in ls if l.step == 1 and l.lo is I(0)]
            r.ok(not [e for e in effects(tr) if e.op != 'push'], 'T03 the list of overlays only grows', w, tr)
            if end(tr).kind == 'back':
                seen.add('it')
                good = len(ag) == 1 and ag[0].name == 'augmentation' and ls and ls[-1].state == 'in' and same(ag[0].snap[2], ls[-1].i) and len(pu) == 1 and same(pu[0].args[0], ag[0].ret) and same(ag[0].snap[1], t('param', 1)) and decide(ff, le(ls[-1].i, L)) is True
                r.ok(good, 'T03 the overlays are those of each tail length in order', w, tr)
            else:
                seen.add('ret'); extra = [e for e in pu]
                if not extra: good = ls and ls[-1].state == 'out' and decide(ff, lt(L, ls[-1].i)) is True
                else: good = ls and ls[-1].state == 'out' and decide(ff, le(L, ls[-1].i)) is True and decide(ff, lt(ls[-1].i, add(L, I(1)))) is not False and len(extra) == 1 and len(ag) == 1 and (ag[0].name == 'last_augmentation' or same(ag[0].snap[2], L))
                r.ok(good, 'T03 there is one overlay per tail block and one more with the mempool', w, tr)
        once(r, q, lambda e: e.name in ('augmentation', 'last_augmentation'), 'T03 every overlay is listed once', w)
        r.ok(seen == {'it', 'ret'}, 'T03 overlay list cases present', w, seen)
    for f in r.fns('last_augmentation', 'LastBlocks'):
        w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, opq(LOGS + TAIL), key='augs')
        for tr in r.traces(q):
            ag = evs_named(tr, 'augmentation')
            r.ok(not is_panic(tr) and len(ag) == 1 and same(ag[0].snap[2], L) and same(ag[0].snap[1], t('param', 1)) and same(end(tr).val, ag[0].ret), 'T03 the last overlay is the one of the whole tail', w, tr)
    # queries
    iB = r.fx('Store', 'transaction_store'); iTB = r.fx('TransactionStore', 'backend')
    for f, q in queries(r, s):
        w = f'{r.inst(f)}:{f.span[1]}'; us = [i for i in range(f.argc) if r.p.tys(f.locals[i + 1]) == 'usize']
        if not r.ok(len(us) == 1, 'T03 the query has its confirmations', w, us): continue
        c = t('param', us[0]); n = set()
        for tr in r.traces(q):
            for i, e in enumerate(tr):
                if not (isinstance(e, Ev) and e.name in ('q_balance', 'q_list')): continue
                b = backend_of(e.snap[0])
                if not r.ok(b is not None, 'T03 the query reads through an overlay view', e.where(), e): continue
                st, au = b
                r.ok(ploc(st) is not None and ploc(st)[:len(s.STOREV) + 2] == s.STOREV + (iB, iTB), 'T03 the query reads the shared index', e.where(), st)
                au = strip_deref(au); ff = facts_of(tr, i)
                A = aug_len(tr, au, s)
                if au.k != 'agg': r.ok(False, 'T03 the overlay is chosen', e.where(), au); continue
                if au.a[1] == 0:
                    n.add('none')
                    r.ok(A is not None and decide(ff, eqi(c, A)) is True, 'T03 the index alone is read exactly for confirmations beyond every tail block', e.where(), tr)
                else:
                    n.add('some'); x = N(strip_deref(au.a[2][0]))
                    good = x.k == 'idx' and ploc(x.a[0]) == s.AUGV and A is not None and x.a[1] is N(sub(sub(A, I(1)), c))
                    r.ok(good, 'T03 the overlay is the one of the blocks with enough confirmations', e.where(), (x, tr))
        r.ok(n == {'none', 'some'}, 'T03 query cases present', w, n)
def aug_len(tr, au, s):
    for c in conds(tr):
        for y in subterms(c):
            if y.k == 'len' and ploc(y.a[0]) == s.AUGV: return N(y)
    for y in subterms(au):
        if y.k == 'len' and ploc(y.a[0]) == s.AUGV: return N(y)
    return None
def backend_of(x):
    for y in [x] + sorted(subterms(x), key=lambda z: z.id):
        if y.k == 'agg' and y.a[0].endswith('ReadonlyAugmentedTransactionStoreBackend'): return y.a[2][0], y.a[2][1]
    return None
def mget_mp(r, iMp, iMT, h): return TM.mget(fld(fld(t('param', 0), iMp), iMT), h)

def T04(r):
    r.rule('update refreshes the mempool before asking for blocks; the new mempool is exactly the node\'s list; a transaction enters the view only after all its inputs were found available in that view')
    s = SF(r); up = r.one('update', 'State'); w = f'{r.inst(up)}:{up.span[1]}'; n = 0
    for tr in r.traces(update(r)):
        if is_panic(tr): continue
        um = [i for i, x in enumerate(tr) if isinstance(x, Ev) and x.name == 'update_mempool']; ub = [i for i, x in enumerate(tr) if isinstance(x, Ev) and x.name == 'update_blocks']
        n += 1
        if r.ok(len(um) == 1 and len(ub) == 1, 'T04 every update refreshes mempool and blocks once', w, tr):
            a = [i for i, x in enumerate(tr) if isinstance(x, Ev) and x.name == 'await' and x.snap[0] is tr[um[0]].ret]
            b = [i for i, x in enumerate(tr) if isinstance(x, Ev) and x.name == 'await' and x.snap[0] is tr[ub[0]].ret]
            r.ok(len(a) == 1 and len(b) == 1 and a[0] < b[0] and a[0] < ub[0], 'T04 the mempool is refreshed before new blocks are looked for', w, tr)
            r.ok(loc(tr[um[0]].snap[0])[:2] == s.TAIL and loc(tr[ub[0]].snap[0])[:2] == s.TAIL, 'T04 the shared tail is updated', w, tr)
    r.ok(n, 'T04 updates found')
    iMp = r.fx('LastBlocks', 'mempool', 'Mempool'); iMT = r.fx('Mempool', 'transactions', 'Map'); iMH = r.fx('Mempool', 'hashes', 'Vec'); MP = (P0, iMp)
    for f in r.the('update_mempool', 'LastBlocks'):
        w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, opq(LOGS + NODE + [(r'reverse_hex::encode$', 'hex')]), key='um'); seen = set()
        old = (P0, iMp, iMT); nm = set()
        for tr in r.traces(q):
            if is_panic(tr): r.ok(overflowed(tr), 'T04 refreshing does not fail by itself', w, tr); continue
            gm = evs_named(tr, 'getrawmempool'); gt_ = evs_named(tr, 'getrawtransaction')
            if not r.ok(len(gm) == 1 and awaited(tr, gm[0]), 'T04 the node\'s list is asked for once', w, tr): continue
            HS = await_of(tr, gm[0]); i = inloop(q, tr, HS); ff = facts_of(tr)
            eff = effects(tr); st = [e for e in eff if e.op == 'store' and e.loc[:2] == MP]
            if end(tr).kind == 'ret':
                seen.add('ret')
                good = exhausted(q, tr, HS)
                val = None
                if len(st) == 1 and st[0].loc == MP: v = st[0].args[0]; val = (fld(v, iMH), fld(v, iMT))
                elif len(st) == 2 and {e.loc for e in st} == {MP + (iMH,), MP + (iMT,)}:
                    d = {e.loc: e.args[0] for e in st}; val = (d[MP + (iMH,)], d[MP + (iMT,)])
                good = good and val is not None and same(val[0], HS)
                r.ok(good, 'T04 the mempool becomes exactly the node\'s list, in its order', w, tr)
                if val: nm.add(loc(val[1]))
                continue
            if not r.ok(i is not None and end(tr).kind == 'back' and not st, 'T04 every listed transaction is visited', w, tr): continue
            h = idx(HS, i)
            rem = [e for e in eff if e.loc == old]; ins = [e for e in eff if e.op == 'insert' and e.loc != old]
            r.ok(all(e.op in ('remove',) and same(e.args[0], h) for e in rem) and all(same(e.args[0], h) for e in ins) and len(ins) <= 1 and len(rem) <= 1 and len(eff) == len(rem) + len(ins), 'T04 only the visited transaction moves', w, eff)
            known = map_fact(tr, old, h)
            if known is True:
                seen.add('known')
                good = len(ins) == 1 and not gt_ and N(ins[0].args[1]).k == 'vfld' and N(ins[0].args[1]).a[0].k == 'mget' and N(N(ins[0].args[1]).a[0].a[1]) is N(h) and loc(N(ins[0].args[1]).a[0].a[0]) == old
                r.ok(good, 'T04 a known transaction is kept', w, tr)
            elif r.ok(known is False and len(gt_) == 1 and awaited(tr, gt_[0]) and same(gt_[0].snap[1], h), 'T04 an unknown transaction is fetched', w, tr):
                got = isv(ff, await_of(tr, gt_[0]), 1)
                if got: seen.add('fetched'); r.ok(len(ins) == 1 and same(ins[0].args[1], vfld(await_of(tr, gt_[0]), 1, 0)), 'T04 a fetched transaction enters the mempool', w, tr)
                else: seen.add('gone'); r.ok(got is False and not ins, 'T04 a transaction the node no longer has is left out', w, tr)
            for e in ins: nm.add(e.loc)
        r.ok(seen == {'ret', 'known', 'fetched', 'gone'}, 'T04 refresh cases present', w, seen)
        r.ok(len(nm) == 1 and all(l[0][0] == 'new' for l in nm), 'T04 the mempool is built anew', w, nm)
    bad = outside(r, struct_writers(r, 'Mempool', {iMT, iMH}) + struct_writers(r, 'LastBlocks', {iMp}), [f.id for f in r.the('update_mempool', 'LastBlocks')])
    for f, line, how in bad: r.ok(False, 'T04 the mempool changes only when refreshed', f'{r.inst(f)}:{line}', how)
    # admission
    nadd = 0
    for f in r.the('augmentation', 'LastBlocks'):
        w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, opq(LOGS + APPLY), key='aug')
        for tr in r.traces(q):
            at = evs_named(tr, 'add_transaction'); ca = evs_named(tr, 'can_add')
            for e in at:
                nadd += 1; i = tr.index(e)
                c = [x for x in tr[:i] if isinstance(x, Ev) and x.name == 'can_add' and same(x.snap[1], e.snap[1]) and loc(x.snap[0]) == loc(e.snap[0])]
                r.ok(len(c) >= 1 and decide(facts_of(tr, i), c[-1].ret) is True and c[-1].snap[0] is e.snap[0], 'T04 a mempool transaction is admitted only if all it spends is available at that point', e.where(), tr)
            if ca and not at and end(tr).kind == 'back': r.ok(decide(facts_of(tr), ca[-1].ret) is False, 'T04 every spendable mempool transaction is admitted', w, tr)
    r.ok(nadd, 'T04 admissions found')
    fI = r.fx('Transaction', 'inputs', 'TransactionOutput'); fB = r.fx('TransactionStore', 'backend')
    from .store import BACK
    for f in r.the('can_add_transaction', 'TransactionStore'):
        w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, opq(BACK), key='can'); ins = fld(t('param', 1), fI); seen = set()
        for tr in r.traces(q):
            hs = evs_named(tr, 'has'); ff = facts_of(tr)
            if not r.ok(not is_panic(tr) and not effects(tr) and not evs_named(tr, 'spend', 'add'), 'T04 asking for availability has no effect', w, tr): continue
            i = inloop(q, tr, ins)
            if i is None:
                r.ok(exhausted(q, tr, ins) and end(tr).val is TRUE, 'T04 a transaction is admissible when all inputs were found', w, tr); seen.add('yes'); continue
            good = len(hs) == 1 and loc(hs[0].snap[0]) == (P0, fB) and same(hs[0].snap[1], idx(ins, i))
            if not r.ok(good, 'T04 every input is looked up in the view', w, tr): continue
            d = decide(ff, hs[0].ret)
            if end(tr).kind == 'ret': r.ok((d is False and end(tr).val is FALSE) , 'T04 one missing input is enough to refuse', w, tr); seen.add('no')
            else: r.ok(d is True, 'T04 the check goes on only after an available input', w, tr); seen.add('next')
        r.ok(seen == {'yes', 'no', 'next'}, 'T04 admission cases present', w, seen)

def T05(r):
    r.rule('on every path of an update: overlays computed on index (+ exactly the popped blocks) after the last change of the tail; installed whole together with folding the same blocks; last overlay only when nothing changed')
    s = SF(r); q = update(r); up = r.one('update', 'State'); w = f'{r.inst(up)}:{up.span[1]}'
    iTS = r.fx('Store', 'transaction_store'); iTB = r.fx('TransactionStore', 'backend'); iBase = r.fx('AugmentedTransactionStoreBackend', 'base_store', '^&')
    from .life import apart
    apart(r, 'T05')
    seen = set(); loops = set(); iBl5 = r.fx('LastBlocks', 'blocks')
    trs = r.traces(q)
    cf = [f for f in [fld(t('param', 0), i) for i, (n, y) in enumerate(r.fields('State')) if r.p.tys(y) == 'usize']]
    for tr in trs:
        if is_panic(tr):
            ff = facts_of(tr); A = [length(N(e.ret)) for e in evs_named(tr, 'augmentations')]
            r.ok(overflowed(tr) or any(decide(ff, lt(a, c)) is True or evs_named(tr, 'pop') and decide(ff, eqi(a, c)) is False for a in A for c in cf), 'T05 an update gives up only on too few overlays', w, tr)
            continue
        ev = [(i, x) for i, x in enumerate(tr) if isinstance(x, Ev)]
        ub = [(i, x) for i, x in ev if x.name == 'update_blocks']; po = [(i, x) for i, x in ev if x.name == 'pop']
        au = [(i, x) for i, x in ev if x.name == 'augmentations']
        la = [(i, x) for i, x in ev if x.name == 'last_augmentation' or x.name == 'augmentation' and len(x.snap) == 3 and x.snap[2].k == 'len' and loc(x.snap[2].a[0]) == s.TAIL[:2] + loc(x.snap[0])[2:] + (iBl5,)]
        fb = [(i, x) for i, x in ev if x.name in ('fold_block', 'add_block', 'add_transaction')]
        st = [(i, x) for i, x in ev if x.kind == 'store' and loc(x.snap[0])[:2] == s.AUG[:2]] + [(i, x) for i, x in ev if x.name.split('::')[0] in ('Vec', 'slice') and x.name.split('::')[-1] in MUTATORS and loc(x.snap[0])[:2] == s.AUG[:2]]
        if not r.ok(len(ub) == 1 and len(po) <= 1 and len(au) + len(la) <= 1, 'T05 an update computes one set of overlays', w, tr): continue
        ch = next((x.ret for i, x in ev if x.name == 'await' and x.snap[0] is ub[0][1].ret), None)
        ff = facts_of(tr)
        changed = decide(ff, ch) if ch is not None else None
        F = po[0][1].ret if po else None
        nof = po == [] or decide(ff, eq0(length(F))) is True
        r.ok(all(loc(x.snap[0])[:2] == s.TAIL for i, x in po + au + la), 'T05 overlays and folds come from the shared tail', w, tr)
        # where is each fold going
        idxf = [(i, x) for i, x in fb if (ploc(x.snap[0]) or ())[:2] == s.STORE[:2]]; ovf = [(i, x) for i, x in fb if (i, x) not in idxf]
        for i, x in fb:
            c = inloop(q, tr, F) if F is not None else None
            good = c is not None and same(x.snap[1], idx(F, c)) and end(tr).kind == 'back' and len(fb) == 1 and x.name == 'fold_block'
            r.ok(good, 'T05 exactly the popped blocks are applied, each once, in order', x.where(), tr)
            loops.add('index' if (i, x) in idxf else 'overlay')
            if (i, x) in ovf: r.ok(base_is_index(x.snap[0], iTS, iTB, iBase, s), 'T05 the popped blocks are applied on top of the index', x.where(), x)
        for i, x in idxf: r.ok(au and au[0][0] < i, 'T05 the overlays are computed before the index changes', x.where(), tr)
        for i, x in po: r.ok(i > ub[0][0], 'T05 blocks are taken off the tail after it was updated', x.where(), tr)
        for i, x in au:
            r.ok(not po or po[0][0] < i, 'T05 overlays are computed after the folded blocks left the tail', x.where(), tr)
            b = x.snap[1]
            onindex = (ploc(b) or ())[:3] == s.STOREV
            if onindex: r.ok(nof, 'T05 overlays sit on the index including exactly the blocks to be folded', x.where(), tr)
            else:
                good = base_is_index(b, iTS, iTB, iBase, s)
                good = good and (nof or (F is not None and exhausted(q, tr, F, i)))
                r.ok(good, 'T05 overlays sit on the index including exactly the blocks to be folded', x.where(), tr)
        for i, x in la:
            b = x.snap[1]
            r.ok(changed is False and not po and not idxf, 'T05 only the mempool overlay is recomputed only when no block arrived', x.where(), tr)
            r.ok((ploc(b) or ())[:3] == s.STOREV, 'T05 the mempool overlay sits on the index', x.where(), b)
        if not st:
            r.ok(end(tr).kind == 'back', 'T05 every update installs overlays', w, tr); continue
        i, x = st[0]
        if la and len(st) == 2 and [y.name for _, y in st] == ['Vec::pop', 'Vec::push'] and loc(st[0][1].snap[0]) == loc(st[1][1].snap[0]) == s.AUGV and not [y for y in tr[st[0][0]:st[1][0]] if isinstance(y, Ev) and y.name == 'drop' and 'guard' in str(y.snap[0])]:
            # the last overlay taken off and the new one put in its place, under one guard
            r.ok(same(st[1][1].snap[1], la[0][1].ret), 'T05 only the last overlay is replaced', x.where(), tr)
            if changed is not False: r.ok(False, 'T05 all overlays are recomputed when a block arrived', w, tr)
            if end(tr).kind == 'ret': seen.add('nofold'); r.ok(nof and not idxf, 'T05 nothing is folded without popped blocks', w, tr)
            continue
        if not r.ok(len(st) == 1 and x.kind == 'store', 'T05 the overlays are installed in one step', x.where(), st): continue
        l = loc(x.snap[0]); v = x.snap[1]
        if au:
            r.ok(l == s.AUGV and same(v, au[0][1].ret), 'T05 all overlays are replaced by the ones computed', x.where(), tr)
        else:
            pre = {}
            for y in conds(tr): assume(pre, N(y))
            A = N(length(fldn(s)))
            good = len(l) == 4 and l[:3] == s.AUGV and la and same(v, la[0][1].ret) and l[3][0] == 'i' and l[3][1] is sub(A, I(1))
            r.ok(good, 'T05 only the last overlay is replaced', x.where(), (l, tr))
        if changed is not False: r.ok(bool(au), 'T05 all overlays are recomputed when a block arrived', w, tr)
        if end(tr).kind == 'ret':
            v = end(tr).val
            if nof: seen.add('nofold'); r.ok(not idxf, 'T05 nothing is folded without popped blocks', w, tr)
            else:
                seen.add('fold')
                outs = [lp for lp in loops_over(q, tr, F) if lp.state == 'out' and lp.pos > au[0][0]] if au else []
                r.ok(outs, 'T05 every popped block is folded into the index', w, tr)
    r.ok({'fold', 'nofold'} <= seen and loops == {'index', 'overlay'}, 'T05 update cases present', w, (seen, loops))
    # nobody else pops or installs
    for f, line, nm, c in calls(r):
        if re.search(r'LastBlocks::pop$', nm): r.ok(f.id in _reach(r, up), 'T05 blocks leave the tail only in an update', f'{r.inst(f)}:{line}', nm)
def fldn(s): return fld(fld(t('param', 0), s.aug), 0)
def base_is_index(x, iTS, iTB, iBase, s):
    """x: an overlay index (Store) whose base is the shared index"""
    for y in [x] + sorted(subterms(x), key=lambda z: z.id):
        if y.k == 'agg' and y.a[0].endswith('AugmentedTransactionStoreBackend'):
            l = ploc(y.a[2][iBase])
            if l is not None and l[:len(s.STOREV)] == s.STOREV and l[len(s.STOREV):] == (iTS, iTB): return True
    return False
RULES = {k: v for k, v in globals().items() if re.fullmatch(r'[A-Z]\d\d', k)}
