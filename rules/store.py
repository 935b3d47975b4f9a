"""S01-S07, P01-P03"""
from .common import *

P0 = ('p', 0)
def fieldno(r, struct, pred, what):
    fs = r.fields(struct)
    c = [i for i, (n, ty) in enumerate(fs) if pred(n, r.p.tys(ty))]
    if len(c) != 1: raise Undecided(f'{what} in {struct}: {len(c)} candidates')
    return c[0]

def S01(r):
    r.rule('every path of spend/add on the indexed backend performs exactly the paired updates of the output set and of the listing')
    starts_empty(r, 'IndexedTransactionStoreBackend')
    faithful_clones(r, {'TransactionOutput', 'Address', 'Output', 'Transaction'})
    name = 'IndexedTransactionStoreBackend'
    iU = fieldno(r, name, lambda n, t_: 'address::Address' not in t_.split('<', 1)[1].split(',')[0] and 'Map' in t_, 'unspent output map')
    iA = fieldno(r, name, lambda n, t_: 'address::Address' in t_.split('<', 1)[1].split(',')[0], 'address listing')
    vt = r.p.types[r.p.types[r.fields(name)[iU][1]]['args'][1]]
    jA = [i for i, e in enumerate(vt['es']) if 'Option' in r.p.tys(e)][0]
    jV = 1 - jA
    U = (P0, iU); A = (P0, iA)
    k = t('param', 1)
    spend = r.the('spend_transaction_output', name); addf = r.the('add_transaction_output', name)
    for f in spend:
        q = r.run(f)
        for tr in r.traces(q):
            w = f'{r.inst(f)}:{f.span[1]}'
            if is_panic(tr):
                # tolerated only where the listing lacks an address the output set names (excluded by the invariant)
                pres = map_fact(tr, U, k)
                okp = pres is True and any(isinstance(x, Cond) and x.t.k == 'not' and x.t.a[0].k == 'is' and x.t.a[0].a[0].k == 'mget' and under(loc(x.t.a[0].a[0].a[0]), A) for x in tr)
                r.ok(okp, 'S01 spend never panics while set and listing agree', w, tr)
                continue
            pres = map_fact(tr, U, k); eff = effects(tr); ret = end(tr).val
            if not r.ok(pres is not None, 'S01 spend decides by whether the output is held', w, tr): continue
            eu = [e for e in eff if under(e.loc, U)]; ea = [e for e in eff if under(e.loc, A)]
            r.ok(all(under(e.loc, U) or under(e.loc, A) or e.loc[0] != P0 for e in eff), 'S01 spend touches only set and listing', w, eff)
            if not pres:
                r.ok(not ea and all(e.op == 'remove' and same(e.args[0], k) for e in eu), 'S01 spending an unknown output changes nothing', w, eff)
                r.ok(ret is FALSE, 'S01 spending an unknown output reports failure', w, tr)
                continue
            r.ok(ret is TRUE, 'S01 spending a held output reports success', w, tr)
            r.ok(len(eu) == 1 and eu[0].op == 'remove' and same(eu[0].args[0], k), 'S01 a spent output leaves the output set', w, eff)
            adr = None
            for x in tr:
                if isinstance(x, Cond):
                    c = x.t.a[0] if x.t.k == 'not' else x.t
                    if c.k == 'is' and c.a[0].k == 'fld' and c.a[0].a[1] == jA and c.a[0].a[0].k == 'vfld' and c.a[0].a[0].a[0].k == 'mget' and under(loc(c.a[0].a[0].a[0].a[0]), U):
                        adr = c.a[0]; break
            if adr is None:
                r.ok(False, 'S01 a spent output with an address disappears from its listing', w, tr); continue
            f_ = facts_of(tr)
            some_ = isv(f_, adr, 1)
            if not some_:
                r.ok(not ea, 'S01 an output without address is in no listing', w, eff); continue
            a = vfld(adr, 1, 0)
            inner = A + (0,) if any(e.loc[:3] == A + (0,) for e in ea) else A
            listed = map_fact(tr, A, a)
            if listed is False: continue
            rem = [e for e in ea if e.op == 'remove' and ('at', N(a)) in e.loc and same(e.args[0], k)]
            if not r.ok(len(rem) == 1, 'S01 a spent output disappears from the listing of its own address', w, eff): continue
            empt = None
            for x in tr[rem[0].i + 1:]:
                if isinstance(x, Cond):
                    for y in subterms(x.t):
                        if y.k == 'len' and ('at', N(a)) in loc(y.a[0]) and y.a[0].k == 'ver':
                            d = decide(facts_of(tr), eq0(y))
                            if d is not None: empt = d
            drops = [e for e in ea if e.op == 'remove' and not any(isinstance(z, tuple) and z[0] == 'at' for z in e.loc)]
            others = [e for e in ea if e not in rem and e not in drops]
            r.ok(not others, 'S01 spend changes nothing else in the listing', w, others)
            if empt: r.ok(len(drops) == 1 and same(drops[0].args[0], a) and drops[0].i > rem[0].i, 'S01 an address left with no output disappears', w, eff)
            elif empt is False: r.ok(not drops, 'S01 an address that still has outputs stays listed', w, eff)
            else: r.ok(False, 'S01 emptiness of the listing is tested after the removal', w, tr)
    for f in addf:
        q = r.run(f); w = f'{r.inst(f)}:{f.span[1]}'
        ad = t('param', 2); val = t('param', 3)
        for tr in r.traces(q):
            if not r.ok(not is_panic(tr), 'S01 adding an output never fails', w, tr): continue
            eff = effects(tr)
            eu = [e for e in eff if under(e.loc, U)]; ea = [e for e in eff if under(e.loc, A)]; fresh = [e for e in eff if e.loc[0][0] == 'new']
            good = len(eu) == 1 and eu[0].op == 'insert' and same(eu[0].args[0], k)
            if good:
                v = N(eu[0].args[1])
                good = fld(v, jV) is val and fld(v, jA) is ad
            r.ok(good, 'S01 an added output enters the output set with its value and address', w, eu)
            some_ = isv(facts_of(tr), ad, 1)
            if some_ is False:
                r.ok(not ea, 'S01 an output without address is listed nowhere', w, ea); continue
            if not r.ok(some_ is True, 'S01 an added output with an address is listed', w, tr): continue
            a = vfld(ad, 1, 0)
            listed = map_fact(tr, A, a)
            ins_in = [e for e in ea if any(isinstance(z, tuple) and z[0] == 'at' for z in e.loc)]
            ins_map = [e for e in ea if e not in ins_in]
            okin = all(e.op == 'insert' and ('at', N(a)) in e.loc and same(e.args[0], k) and same(e.args[1], val) for e in ins_in)
            r.ok(okin, 'S01 only the listing of the paid address changes, by this output with its value', w, ins_in)
            if listed:
                r.ok(len(ins_in) == 1 and not ins_map, 'S01 an already listed address keeps its outputs and gains this one', w, ea)
            elif listed is False:
                if not r.ok(len(ins_map) == 1 and ins_map[0].op == 'insert' and same(ins_map[0].args[0], a), 'S01 a first output lists its address', w, ea): continue
                m = ins_map[0].args[1]
                ml = loc(fld(m, 0) if m.k == 'agg' and m.a[2] else m)
                ev_ = [e for e in fresh if e.loc == ml or e.loc[0] == ml[0]]
                # also when it is put into the map first and filled there
                before = [e for e in ev_ if e.i < ins_map[0].i or e.ev.e.args and e.ev.e.args[0].k == 'ref' and any(z[0] == 'mv' and same(z[1], a) for z in e.ev.e.args[0].a[1])]
                after = [e for e in ev_ if e not in before]
                tot = [e for e in before if e.op == 'insert' and same(e.args[0], k) and same(e.args[1], val)]
                r.ok(ml[0][0] == 'new' and not after and len(before) == len(tot) and len(tot) + len(ins_in) == 1, 'S01 a first output is the only one listed for its address', w, eff)
            else: r.ok(False, 'S01 the listing is extended, not replaced', w, tr)
    # everything else only reads
    ws = struct_writers(r, name, {iU, iA})
    roots = [f.id for f in spend + addf]
    bad = outside(r, ws, roots)
    r.ok(len(ws) >= 2, 'S01 mutation sites found', None, ws)
    for f, line, how in bad: r.ok(False, 'S01 set and listing change only through spend and add', f'{r.inst(f)}:{line}', how)
    r.ok(not bad, 'S01 no other function modifies set or listing')

BACK = [(r'TransactionStoreBackendTrait>::spend_transaction_output$', 'spend'), (r'TransactionStoreBackendTrait>::add_transaction_output$', 'add'),
        (r'TransactionStoreBackendTrait>::has_transaction_output$', 'has')]
SCRIPT = [(r'Address::from_script$', 'from_script')]

def null_status(r, tr, elem):
    """does the trace know whether elem is the coinbase null outpoint"""
    ih, ii = r.fx('TransactionOutput', 'hash', r'\[u8; 32\]'), r.fx('TransactionOutput', 'index', 'u32')
    e = N(elem)
    f = {}
    h = ix = None
    for c in conds(tr):
        pol = True
        if c.k == 'not': c = c.a[0]; pol = False
        if c.k == 'eq':
            a, b = N(c.a[0]), N(c.a[1])
            for x, y in ((a, b), (b, a)):
                if y is e and x.k == 'agg' and x.a[0].endswith('TransactionOutput'):
                    if is_zero32(fld(x, ih)) and fld(x, ii) is I(0xffffffff):
                        if pol: h = ix = True
                        else: return False
                if y is fld(e, ih) and is_zero32(x):
                    h = pol
        elif c.k in ('eq0', 'gt0'):
            pass
    i = fld(e, ii)
    ff = {}
    for c in conds(tr): assume(ff, N_int(c))
    d = decide(ff, eqi(i, I(0xffffffff)))
    if d is not None: ix = d
    if h is False or ix is False: return False
    if h and ix: return True
    return None
def N_int(c):
    """erase versions inside an integer condition"""
    return N(c)

def spends_all(r, q, tr, S, w, what, bk, strict_tm, allow_null=True):
    """obligations on an iteration trace over the list S of outpoints; bk: location of the backend"""
    i = inloop(q, tr, S)
    elem = idx(N(S), i)
    sp = evs_named(tr, 'spend')
    nul = null_status(r, tr, elem)
    last = end(tr)
    if is_panic(tr):
        pe = tr[-2] if len(tr) > 1 and isinstance(tr[-2], Ev) else None
        ovf = overflowed(tr)
        r.ok((sp and decide(facts_of(tr), sp[-1].ret) is False) or ovf, what + ': fails only on an unavailable output', w, tr)
        return
    if not r.ok(last.kind == 'back', what + ': no early end', w, tr): return
    if nul is True:
        r.ok(not sp, what + ': the null outpoint is not spent', w, tr)
    else:
        r.ok(nul is False, what + ': exempts exactly the null outpoint', w, tr)
        r.ok(len(sp) == 1 and under(loc(sp[0].snap[0]), bk) and same(sp[0].snap[1], elem), what + ': every input is spent once, in this index', w, tr)

def S02(r):
    r.rule('apply-transaction: loop over all inputs (spend or null) exhausted before the loop over all outputs (add or OP_RETURN)')
    fI = r.fx('Transaction', 'inputs', 'TransactionOutput'); fO = r.fx('Transaction', 'outputs'); fH = r.fx('Transaction', 'hash', r'\[u8; 32\]')
    oname = 'Output'
    out_ty = [x for x in r.p.types if x['k'] == 'adt' and strip_generics(x.get('path', '')).startswith('transaction::') and x.get('ak') == 'struct' and x['variants'][0][2] and 'script' in [n for n, _ in x['variants'][0][2]]]
    r.need(out_ty, 'transaction output struct')
    of = [n for n, _ in out_ty[0]['variants'][0][2]]
    fS, fV = of.index('script'), of.index('value')
    fB = r.fx('TransactionStore', 'backend'); bk = (P0, fB)
    tx = t('param', 1); ins = fld(tx, fI); outs = fld(tx, fO)
    for f in r.the('add_transaction', 'TransactionStore'):
        w = f'{r.inst(f)}:{f.span[1]}'
        q = r.run(f, opq(BACK + SCRIPT), key='bk')
        nin = nadd = nskip = nret = 0
        for tr in r.traces(q):
            adds = evs_named(tr, 'add')
            r.ok(all(e.name in ('spend', 'add', 'from_script', 'return', 'panic') for e in tr if isinstance(e, Ev)), 'S02 applies nothing but the transaction', w, tr)
            oi = inloop(q, tr, outs)
            if oi is None and inloop(q, tr, ins) is not None:
                nin += 1
                r.ok(not adds, 'S02 outputs are added after all inputs are spent', w, tr)
                spends_all(r, q, tr, ins, w, 'S02 inputs', bk, None)
                continue
            r.ok(exhausted(q, tr, ins), 'S02 all inputs are spent before anything is added', w, tr)
            r.ok(not evs_named(tr, 'spend'), 'S02 nothing is spent after the inputs', w, tr)
            if oi is None:
                r.ok(exhausted(q, tr, outs) and not adds, 'S02 all outputs are visited', w, tr); nret += 1
                continue
            o = idx(outs, oi); script = fld(o, fS)
            if is_panic(tr):
                r.ok(decide(facts_of(tr), lt(oi, I(1 << 32))) is False or overflowed(tr), 'S02 no output is refused', w, tr); continue
            if not r.ok(end(tr).kind == 'back', 'S02 no early end of the outputs', w, tr): continue
            ff = {}
            for c in conds(tr): assume(ff, N(c))
            isret = decide(ff, eqi(idx(script, I(0)), I(0x6a)))
            empty = decide(ff, eq0(length(script)))
            if empty: isret = False
            if not adds:
                nskip += 1
                r.ok(isret is True, 'S02 only outputs whose script starts with OP_RETURN are left out', w, tr); continue
            nadd += 1
            r.ok(isret is False, 'S02 outputs whose script starts with OP_RETURN are left out', w, tr)
            a = adds[0]
            ih, ii = r.fx('TransactionOutput', 'hash', r'\[u8; 32\]'), r.fx('TransactionOutput', 'index', 'u32')
            op = N(a.snap[1])
            r.ok(len(adds) == 1 and under(loc(a.snap[0]), bk), 'S02 each output is added once, to this index', w, tr)
            r.ok(fld(op, ih) is fld(tx, fH) and (fld(op, ii) in (oi, mod(oi, I(1 << 32))) or in_step(r, q, fld(op, ii), oi)), 'S02 an output is identified by its transaction id and its own position', w, a)
            r.ok(same(a.snap[3], fld(o, fV)), 'S02 an output carries its own value', w, a)
            fs = evs_named(tr, 'from_script')
            if not r.ok(fs and all(same(e.snap[0], script) for e in fs), 'S02 the address is taken from the output\'s own script', w, tr): continue
            ad = N(a.snap[2]); res = N(fs[-1].ret)
            okr = isv(ff, res, 0)
            if okr is True: good = ad is vfld(res, 0, 0) or (ad.k == 'agg' and ad.a[1] == 1 and same(ad.a[2][0], vfld(res, 0, 0)))
            elif okr is False: good = ad.k == 'agg' and ad.a[1] == 0
            else: good = False
            r.ok(good, 'S02 an output carries the address its script pays, or none', w, tr)
        once(r, q, lambda e: e.name == 'spend', 'S02 each input is spent once', w)
        once(r, q, lambda e: e.name == 'add', 'S02 the outputs are added once', w)
        r.ok(nin and nadd and nskip and nret, 'S02 all cases present', w, (nin, nadd, nskip, nret))

STRICT_OF = {'IndexedTransactionStoreBackend': True, 'AugmentedTransactionStoreBackend': True, 'IntermediaryTransactionStoreBackend': False}
def given(z):
    z = strip_clone(z)
    while z.k == 'deref' or z.k == 'ref' and z.a[0][0] == 'X' and not z.a[1]: z = strip_clone(z.a[0] if z.k == 'deref' else z.a[0][1])
    return z
def starts_empty(r, *names):
    """an index or an overlay that is made starts empty; what it refers to is what it was given"""
    n = 0
    for f in r.fns():
        x = r.p.types[f.locals[0]]
        if x['k'] != 'adt' or strip_generics(x.get('path', '')).split('::')[-1] not in names: continue
        ps = [r.p.tys(f.locals[i + 1]) for i in range(f.argc)]
        nm = strip_generics(x['path']).split('::')[-1]
        if strip_generics(r.impl_self(f) or '').split('<')[0].split('::')[-1] != nm: continue
        over = nm.startswith(('Augmented', 'ReadonlyAugmented'))
        if not all(y in ('usize', 'u64', 'u32', 'bool') or over and re.match(r'&[^\[]*(Backend|Augmentation)', y) for y in ps): continue
        n += 1; w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, key='new')
        def empty(y, ty=None):
            y = N(y)
            if y.k == 'newc': return True
            if y.k == 'agg': return all(empty(z) for z in y.a[2])
            return y.k in ('ref', 'param') or not any(z.k in ('newc', 'ev', 'ver', 'phi', 'upd') for z in subterms(y))
        for tr in r.traces(q):
            e = end(tr)
            if is_panic(tr) and 'capacity' in str(e.val): continue
            r.ok(e.kind == 'ret' and not effects(tr) and empty(e.val), f'{r.pid} a new index or overlay starts empty', w, tr)
            if e.kind == 'ret' and over:
                at = [loc(given(z)) for z in N(e.val).a[2]] if N(e.val).k == 'agg' else []
                r.ok(f.argc and all((('p', i),) in at for i in range(f.argc)), f'{r.pid} an overlay stands on the index it was given', w, (at, e.val))
    r.ok(n, f'{r.pid} constructors were analysed', names)
def S03(r):
    r.rule('a failed spend with the strict flag set reaches only the abort; every index and overlay is constructed strict, batch indexes are not')
    faithful_clones(r, {'TransactionOutput', 'Address'})
    fS = r.fx('TransactionStore', 'strict', '^bool$'); fB = r.fx('TransactionStore', 'backend')
    fns = r.fns('spend_transaction_outputs', 'TransactionStore') or r.the('add_transaction', 'TransactionStore')
    fns = fns + [f for f in r.the('add_transaction', 'TransactionStore') if f not in fns] + r.fns('merge', 'TransactionStore')
    n = 0
    for f in fns:
        w = f'{r.inst(f)}:{f.span[1]}'
        q = r.run(f, opq(BACK + SCRIPT), key='bk')
        for tr in r.traces(q):
            for e in evs_named(tr, 'spend'):
                d = decide(facts_of(tr), e.ret)
                ts = loc(e.snap[0])[:-1]
                st = None
                for c in conds(tr):
                    for y in subterms(c):
                        if y.k == 'fld' and y.a[1] == fS and loc(y.a[0]) == ts:
                            dd = decide(facts_of(tr), y)
                            st = dd if dd is not None else st
                if not is_panic(tr):
                    n += 1
                    r.ok(d is True or st is False, 'S03 the process goes on only if the spend succeeded or the index is tolerant', w, tr)
                elif not overflowed(tr):
                    r.ok(d is False and st is not False, 'S03 the process stops only for a failed spend in a strict index', w, tr) if evs_named(tr, 'add') == [] else None
    r.ok(n, 'S03 spends found')
    # construction sites
    cnt = {}
    for f in r.p.fns.values():
        if not f.local or f.synth or f.auto: continue
        for b in f.blocks:
            for s in b[0]:
                if s[0] == '=' and s[2]['k'] == 'agg' and s[2].get('ak') == 'adt' and strip_generics(s[2]['path']).split('::')[-1] == 'TransactionStore':
                    bty = op_type(r.p, f, s[2]['os'][fB])
                    bn = strip_generics(r.p.tys(bty)).split('<')[0].split('::')[-1]
                    vals = const_values(r, f, s[2]['os'][fS])
                    want = STRICT_OF.get(bn)
                    if want is None:
                        r.ok(False, 'S03 unknown kind of index', f'{r.inst(f)}:{s[3]}', bn); continue
                    cnt[bn] = cnt.get(bn, 0) + 1
                    for v in vals: v == 'unused' or r.ok(v is want, f'S03 {bn}: strict must be {want}', f'{r.inst(f)}:{s[3]}', v)
    r.ok(len(cnt) == 3, 'S03 all kinds of index are constructed somewhere', None, cnt)
    for f, line, how in struct_writers(r, 'TransactionStore', {fS}):
        if 'whole' in how: continue
        r.ok(False, 'S03 the strict flag never changes', f'{r.inst(f)}:{line}', how)
def op_type(p, f, o):
    if 'c' in o: return o['c'].get('ty')
    _, ty = place_types(p, f, o.get('m') or o.get('p'))
    return ty
def const_values(r, f, o, depth=0):
    """constants that may reach an operand (through locals and through callers' arguments); None = unknown"""
    if 'c' in o:
        v = o['c']['v']
        if 'bool' in v: return [bool(v['bool'])]
        if 'i' in v: return [bool(int(v['i']))]
        return [None]
    pl = o.get('m') or o.get('p')
    if not pl or pl[1] or depth > 6: return [None]
    l = pl[0]
    out = []
    for b in f.blocks:
        for s in b[0]:
            if s[0] == '=' and s[1][0] == l:
                if s[1][1] or s[2]['k'] != 'use': return [None]
                out += const_values(r, f, s[2]['o'], depth + 1)
        if b[1][0] == 'call' and b[1][3][0] == l: return [None]
    if 1 <= l <= f.argc and not out:
        out = []
        for g in r.p.fns.values():
            for b in g.blocks:
                tm = b[1]
                if tm[0] == 'call' and 'c' in tm[1] and 'fn' in tm[1]['c']['v'] and tm[1]['c']['v']['fn'].get('inst') == f.id:
                    out += const_values(r, g, tm[2][l - 1], depth + 1)
        return out if out else ['unused']
    return out or [None]

def S04(r):
    r.rule('overlay has/spend equal their truth table over (own holds, spent, base holds); listing = base minus spent plus own')
    starts_empty(r, 'TransactionStoreAugmentation', 'AugmentedTransactionStoreBackend', 'ReadonlyAugmentedTransactionStoreBackend')
    faithful_clones(r, {'TransactionOutput', 'Address'})
    AB = 'AugmentedTransactionStoreBackend'
    fBase = r.fx(AB, 'base_store', '^&'); fAug = r.fx(AB, 'store', 'TransactionStoreAugmentation')
    fSp = r.fx('TransactionStoreAugmentation', 'spent_txos', 'Set'); fSt = r.fx('TransactionStoreAugmentation', 'store', 'IndexedTransactionStoreBackend')
    own = (P0, fAug, fSt); spent = (P0, fAug, fSp); base_ = (P0, fBase)
    k = t('param', 1)
    def atom(tr, name, l):
        es = [e for e in evs_named(tr, name) if loc(e.snap[0]) == l]
        return es
    def spent_atom(tr):
        for c in conds(tr) + [end(tr).val]:
            if not isinstance(c, T): continue
            for y in subterms(c):
                if y.k == 'is' and y.a[0].k == 'mget' and under(loc(y.a[0].a[0]), spent) and same(y.a[0].a[1], k):
                    return y if y.a[1] == 1 else not_(y)
        return None
    for nm in ('has_transaction_output', 'spend_transaction_output', 'add_transaction_output'):
        for f in r.the(nm, AB):
            w = f'{r.inst(f)}:{f.span[1]}'
            q = r.run(f, opq(BACK), key='bk')
            for tr in r.traces(q):
                if not r.ok(not is_panic(tr), f'S04 {nm} through an overlay never fails', w, tr): continue
                es = [e for e in tr if isinstance(e, Ev) and e.name in ('has', 'spend', 'add')]
                r.ok(all(loc(e.snap[0]) == own or (loc(e.snap[0]) == base_ and e.name == 'has') for e in es), 'S04 the base is only asked, never changed', w, es)
                eff = effects(tr)
                if nm != 'add_transaction_output':
                    r.ok(all(same(e.snap[1], k) for e in es), 'S04 the same output is asked for', w, es)
                if nm == 'add_transaction_output':
                    a = evs_named(tr, 'add')
                    r.ok(len(a) == 1 and len(es) == 1 and not eff and loc(a[0].snap[0]) == own and all(same(a[0].snap[j], t('param', j)) for j in (1, 2, 3)), 'S04 an output is added to the overlay unchanged', w, tr)
                    continue
                O = atom(tr, 'has', own) + atom(tr, 'spend', own); B = atom(tr, 'has', base_)
                sp = spent_atom(tr)
                osp = atom(tr, 'spend', own)
                # asked before it is spent: the same answer (S01)
                atoms = {'O': tuple(e.ret for e in O if not osp or tr.index(e) <= tr.index(osp[0])), 'B': B[0].ret if B else None, 'S': sp}
                bad = truth(tr, end(tr).val, atoms, lambda v: v['O'] or (not v['S'] and v['B']))
                r.ok(bad is None, f'S04 {nm}: available exactly if own, or base and not spent', w, (bad, tr))
                if nm == 'has_transaction_output':
                    r.ok(not eff and not evs_named(tr, 'spend', 'add'), 'S04 asking changes nothing', w, tr); continue
                sps = evs_named(tr, 'spend')
                hown = [e for e in atom(tr, 'has', own)]
                ff = facts_of(tr)
                okown = decide(ff, sps[0].ret) if sps else (decide(ff, hown[0].ret) if hown else None)
                r.ok(len(sps) == 1 or (not sps and okown is False), 'S04 an own output is spent in the overlay', w, tr)
                ins = [e for e in eff if e.loc[:len(spent)] == spent]
                r.ok(len(ins) == len(eff) and all(e.op == 'insert' and same(e.args[0], k) for e in ins) and len(ins) <= 1, 'S04 spending changes only the spent set', w, eff)
                bh = decide(ff, B[0].ret) if B else None
                if okown is True: r.ok(not ins, 'S04 an own output spent is not recorded as spent in the base', w, tr)
                elif bh is True:
                    s_ = decide(ff, sp) if sp is not None else None
                    r.ok(len(ins) == 1 or s_ is True, 'S04 spending a base output is recorded', w, tr)
                elif bh is False: r.ok(not ins, 'S04 spending an unavailable output records nothing', w, tr)
                else: r.ok(not ins, 'S04 recorded as spent only if the base holds it', w, tr)
    # what an overlay holds changes only so
    own_ = [f.id for nm in ('spend_transaction_output', 'add_transaction_output') for f in r.the(nm, AB)]
    # (a whole overlay may be replaced by another: T05 decides by which)
    bad = outside(r, [x for x in struct_writers(r, 'TransactionStoreAugmentation', {fSp, fSt}) + struct_writers(r, AB, {fAug, fBase}) if 'of field' in x[2]], own_)
    r.ok(not bad, 'S04 an overlay changes only by spending and adding', None, [f'{r.inst(f)}:{l} {h}' for f, l, h in bad])
    # listing
    RB = 'ReadonlyAugmentedTransactionStoreBackend'
    fRS = r.fx(RB, 'store', '^&'); fRA = r.fx(RB, 'augmentation', 'Option')
    iA = fieldno(r, 'IndexedTransactionStoreBackend', lambda n, t_: 'address::Address' in t_.split('<', 1)[1].split(',')[0], 'address listing')
    adr = t('param', 1); cb = t('param', 2)
    RS = 'ReadonlyTransactionStore'; facade = r.fns('iterate_transaction_outputs', RS)     # what requests are answered from
    fB = r.fx(RS, 'backend', 'ReadonlyAugmentedTransactionStoreBackend|param') if facade else None
    for f in r.the('iterate_transaction_outputs', RB) + facade:
        pre = (fB,) if f in facade else ()
        baseA = (P0, *pre, fRS, iA); augL = (P0, *pre, fRA, ('v', 1, 0)); augA = augL + (fSt, iA); augS = augL + (fSp,)
        aug = fld(fld(t('param', 0), fB) if pre else t('param', 0), fRA)
        w = f'{r.inst(f)}:{f.span[1]}'
        q = r.run(f)
        seen = set()
        for tr in r.traces(q):
            if not r.ok(not is_panic(tr), 'S04 listing never fails', w, tr): continue
            has_aug = isv(facts_of(tr), aug, 1)
            if not r.ok(has_aug is not None, 'S04 listing distinguishes overlay and none', w, tr): continue
            r.ok(not effects(tr), 'S04 listing changes nothing', w, tr)
            cbs = evs_named(tr, 'call_opaque')
            ls = loop_tests(q, tr)
            b_listed = map_fact(tr, baseA, adr); o_listed = map_fact(tr, augA, adr) if has_aug else None
            def over(prefix):
                return [l for l in ls if l.step == 1 and l.lo is I(0) and is_len_at(l.src, prefix + (('at', adr),))]
            bl = over(baseA); ol = over(augA)
            if end(tr).kind == 'ret':
                r.ok(b_listed is not None, 'S04 the base is always listed', w, tr)
                r.ok(not cbs and len({l.i for l in bl}) <= 1 and len({l.i for l in ol}) <= 1, 'S04 outputs are reported once each', w, tr)
                if b_listed: r.ok(bl and bl[-1].state == 'out', 'S04 every base output of the address is visited', w, tr)
                if has_aug:
                    r.ok(o_listed is not None, 'S04 the overlay is listed too', w, tr)
                    if o_listed: r.ok(ol and ol[-1].state == 'out', 'S04 every overlay output of the address is visited', w, tr)
                else: r.ok(not ol, 'S04 no overlay, no overlay outputs', w, tr)
                seen.add((has_aug, b_listed, o_listed)); continue
            cur = ls[-1] if ls else None
            if not r.ok(end(tr).kind == 'back' and cur and cur.state == 'in' and (cur in bl or cur in ol), 'S04 listing scans base and overlay outputs', w, tr): continue
            l_ = loc(cur_src(cur.src))
            key = None
            def is_elem(x, what):
                x = N(x)
                if what == 'key': return x.k == 'keyat' and x.a[1] is cur.i and loc(x.a[0])[:len(l_)] == l_
                return x.k == 'vfld' and x.a[0].k == 'mget' and is_elem(x.a[0].a[1], 'key') and loc(x.a[0].a[0])[:len(l_)] == l_
            good = all(e.snap[0] is cb and is_elem(e.snap[1], 'key') and is_elem(e.snap[2], 'val') for e in cbs) and len(cbs) <= 1
            r.ok(good, 'S04 an output is reported with its own value', w, tr)
            if cur in bl and has_aug:
                sp = None
                for c in conds(tr):
                    for y in subterms(c):
                        if y.k == 'is' and y.a[0].k == 'mget' and under(loc(y.a[0].a[0]), augS) and is_elem(y.a[0].a[1], 'key'):
                            sp = isv(facts_of(tr), y.a[0], 1)
                r.ok(sp is not None and sp == (not cbs), 'S04 base outputs are shown exactly when not spent by the overlay', w, tr)
            else: r.ok(len(cbs) == 1, 'S04 every output is shown', w, tr)
            seen.add(('loop', has_aug, cur in bl))
        r.ok({('loop', True, True), ('loop', True, False), ('loop', False, True)} <= seen, 'S04 all listing cases present', w, seen)
    # the base cannot be changed through an overlay: shared reference to a type without interior mutability
    for nm, fi in ((AB, fBase), (RB, fRS)):
        for i in r.ty_by_name(nm):
            x = r.p.types[i]
            if not x.get('variants') or x['variants'][0][2] is None: continue
            ft = r.p.types[x['variants'][0][2][fi][1]]
            tgt = r.p.types[ft['e']] if 'e' in ft else {}
            r.ok(ft['k'] == 'ref' and not ft.get('mut') and (tgt.get('freeze') or tgt['k'] == 'param'), 'S04 overlays hold the base by shared reference to plain data', x['s'])
def cur_src(x):
    for y in subterms(x):
        if y.k == 'len': return y.a[0]
    return x
def is_len_at(x, prefix):
    n = N(x)
    return n.k == 'len' and rest(loc(n.a[0]), prefix) in ((), (0,))

def S05(r):
    r.rule('batch backend: spend removes or records, add inserts; merge = all headers, all recorded spends, then all kept outputs')
    starts_empty(r, 'IntermediaryTransactionStoreBackend')
    faithful_clones(r, {'TransactionOutput', 'Address'})
    IB = 'IntermediaryTransactionStoreBackend'
    fSp = r.fx(IB, 'spent_txos', '^alloc::vec::Vec'); fUn = r.fx(IB, 'unspent_txos', 'Map')
    k = t('param', 1)
    vt = r.p.types[r.p.types[r.fields(IB)[fUn][1]]['args'][1]]
    jA = [i for i, e in enumerate(vt['es']) if 'Option' in r.p.tys(e)][0]; jV = 1 - jA
    U = (P0, fUn); L = (P0, fSp)
    sp = r.the('spend_transaction_output', IB); ad = r.the('add_transaction_output', IB); hs = r.the('has_transaction_output', IB)
    for f in sp + ad + hs:
        w = f'{r.inst(f)}:{f.span[1]}'
        q = r.run(f)
        for tr in r.traces(q):
            if not r.ok(not is_panic(tr), 'S05 batch operations never fail', w, tr): continue
            eff = effects(tr)
            if f in ad:
                g = len(eff) == 1 and eff[0].op == 'insert' and under(eff[0].loc, U) and same(eff[0].args[0], k)
                if g:
                    v = N(eff[0].args[1]); g = fld(v, jA) is t('param', 2) and fld(v, jV) is t('param', 3)
                r.ok(g, 'S05 an added output is kept with its address and value', w, eff); continue
            pres = map_fact(tr, U, k)
            if not r.ok(pres is not None, 'S05 decided by whether the batch holds the output', w, tr): continue
            r.ok(end(tr).val is I(int(pres)), 'S05 succeeds exactly if the batch holds the output', w, tr)
            if f in hs: r.ok(not eff, 'S05 asking changes nothing', w, eff); continue
            eu = [e for e in eff if under(e.loc, U)]; el = [e for e in eff if under(e.loc, L)]
            r.ok(len(eu) + len(el) == len(eff), 'S05 spending touches nothing else', w, eff)
            if pres:
                r.ok(len(eu) == 1 and eu[0].op == 'remove' and same(eu[0].args[0], k) and not el, 'S05 a held output spent is no longer kept, and not recorded', w, eff)
            else:
                r.ok(all(e.op == 'remove' and same(e.args[0], k) for e in eu) and len(el) == 1 and el[0].op == 'push' and same(el[0].args[0], k), 'S05 the spend of an unknown output is recorded once', w, eff)
    bad = outside(r, struct_writers(r, IB, {fSp, fUn}), [f.id for f in sp + ad])
    for f, line, how in bad: r.ok(False, 'S05 a batch changes only through spend and add', f'{r.inst(f)}:{line}', how)
    r.ok(not bad, 'S05 no other function modifies a batch')
    # merge
    fT = r.fx('Store', 'transaction_store'); fHd = r.fx('Store', 'block_headers', 'Vec'); fB = r.fx('TransactionStore', 'backend')
    for f in r.the('merge', 'Store'):
        w = f'{r.inst(f)}:{f.span[1]}'
        q = r.run(f, opq(BACK + [(r'::add_block_header$', 'add_block_header')]), key='merge')
        src = t('param', 0); P1 = ('p', 1)
        heads = fld(src, fHd); bsrc = fld(fld(src, fT), fB); spent = fld(bsrc, fSp)
        kept = (P0, fT, fB, fUn); bk = (P1, fT, fB)
        seen = set()
        for tr in r.traces(q):
            hd = evs_named(tr, 'add_block_header'); adds = evs_named(tr, 'add'); sps = evs_named(tr, 'spend')
            r.ok(not [e for e in effects(tr) if e.loc[0] == P0], 'S05 merging leaves the batch as it is', w, tr)
            ls = loop_tests(q, tr)
            keptl = [l for l in ls if l.step == 1 and l.lo is I(0) and is_len_at(l.src, kept)]
            hi = inloop(q, tr, heads); si = inloop(q, tr, spent)
            ki = keptl[-1].i if keptl and keptl[-1].state == 'in' else None
            if end(tr).kind == 'ret':
                r.ok(exhausted(q, tr, heads), 'S05 all headers are appended', w, tr)
                r.ok(exhausted(q, tr, spent), 'S05 all recorded spends are applied', w, tr)
                r.ok(keptl and keptl[-1].state == 'out', 'S05 all kept outputs are added', w, tr)
                r.ok(not hd and not adds and not sps, 'S05 nothing is merged twice', w, tr); seen.add('ret'); continue
            if hi is not None and si is None and ki is None:
                if is_panic(tr): r.ok(False, 'S05 merging headers does not fail here', w, tr); continue
                r.ok(len(hd) == 1 and not adds and not sps and loc(hd[0].snap[0])[0] == P1 and same(hd[0].snap[1], idx(heads, hi)), 'S05 each header is appended once, in order', w, tr); seen.add('h')
            elif si is not None and ki is None:
                r.ok(not adds and not hd, 'S05 spends first', w, tr)
                spends_all(r, q, tr, spent, w, 'S05 recorded spends', bk, None); seen.add('s')
            elif ki is not None:
                r.ok(exhausted(q, tr, spent, keptl[0].pos), 'S05 kept outputs are added after all recorded spends', w, tr)
                okk = end(tr).kind == 'back' and len(adds) == 1 and not sps and not hd and loc(adds[0].snap[0]) == bk
                if okk:
                    ky = N(adds[0].snap[1]); m = keptl[-1]
                    okk = ky.k == 'keyat' and ky.a[1] is ki and under(loc(ky.a[0]), kept)
                    v = TM.vfld(t('mget', ky.a[0], ky), 1, 0) if okk else None
                    okk = okk and same(adds[0].snap[2], fld(v, jA)) and same(adds[0].snap[3], fld(v, jV))
                r.ok(okk, 'S05 every kept output is added with its own address and value', w, tr); seen.add('k')
            else: r.ok(False, 'S05 unexpected path', w, tr)
        for nm in ('add_block_header', 'spend', 'add'): once(r, q, lambda e: e.name == nm, 'S05 nothing is merged twice', w)
        r.ok(seen == {'ret', 'h', 's', 'k'}, 'S05 all merge steps present', w, seen)

def S07(r):
    r.rule('a header is pushed only on the branch where it links to the last one; block application applies header and all transactions in order')
    fHd = r.fx('Store', 'block_headers', 'Vec'); fT = r.fx('Store', 'transaction_store')
    iH = r.fx('BlockHeader', 'hash'); iP = r.fx('BlockHeader', 'previous_block_hash')
    H = (P0, fHd)
    def header_trace(tr, w, f, hdr):
        """obligations: push of hdr guarded by the link"""
        eff = [e for e in effects(tr) if under(e.loc, H)]
        if is_panic(tr):
            linked = link_fact(tr, hdr)
            r.ok(not eff or overflowed(tr), 'S07 a refused block is not appended', w, tr)
            r.ok(linked is False or overflowed(tr), 'S07 only a block that does not link stops the process', w, tr)
            return False
        if not r.ok(len(eff) == 1 and eff[0].op == 'push' and same(eff[0].args[0], hdr), 'S07 the block header is appended once', w, tr): return True
        empty = empty_fact(tr, eff[0].i)
        r.ok(empty is True or link_fact(tr, hdr, eff[0].i) is True, 'S07 a header is appended only if it links to the last one (or is the first)', w, tr)
        return True
    def empty_fact(tr, upto):
        for c in conds(tr, upto):
            for y in subterms(c):
                if y.k == 'len' and loc(y.a[0]) == H:
                    d = decide(facts_of(tr, upto), eq0(y))
                    if d is not None: return d
        return None
    def link_fact(tr, hdr, upto=None):
        want = N(fld(hdr, iP))
        for c in conds(tr, upto):
            pol = True
            if c.k == 'not': c = c.a[0]; pol = False
            if c.k != 'eq': continue
            for x, y in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                if N(y) is want and x.k == 'fld' and x.a[1] == iH and x.a[0].k == 'idx' and loc(x.a[0].a[0]) == H and x.a[0].a[1] is sub(length(x.a[0].a[0]), I(1)): return pol
        return None
    ahf = r.fns('add_block_header', 'Store')
    for f in ahf:
        w = f'{r.inst(f)}:{f.span[1]}'
        for tr in r.traces(r.run(f)): header_trace(tr, w, f, t('param', 1))
    abf = r.the('add_block', 'Store')
    for f in abf:
        w = f'{r.inst(f)}:{f.span[1]}'
        # the block's own header: the field of the concrete block type (D04 shows that header() gives exactly that one)
        bt = {x for i in range(len(f.targs)) for x in [r.p.tys(f.targs[i]).split('::')[-1]] if x in ('Block', 'FileBlock')}
        if len(bt) == 1:
            own = fld(t('param', 1), r.fx(bt.pop(), 'header', 'BlockHeader'))
            table = []
        else: own = None; table = [(r'BlockTrait>::header$', 'header')]
        q = r.run(f, opq(table + [(r'TransactionStore::add_block$', 'apply_transactions')]), key='ab')
        for tr in r.traces(q):
            hs = [e for e in evs_named(tr, 'header')]
            if own is None and not r.ok(hs and all(same(h.snap[0], t('param', 1)) for h in hs), 'S07 the header is the block\'s own', w, tr): continue
            go_on = header_trace(tr, w, f, own if own is not None else deref(hs[0].ret))
            ap = evs_named(tr, 'apply_transactions')
            if go_on:
                r.ok(len(ap) == 1 and loc(ap[0].snap[0]) == (P0, fT) and same(ap[0].snap[1], t('param', 1)), 'S07 header and transactions of a block are applied together', w, tr)
            else: r.ok(not ap, 'S07 a refused block contributes nothing', w, tr)
    # the transactions of a block, in order, each once
    for f in r.the('add_block', 'TransactionStore'):
        w = f'{r.inst(f)}:{f.span[1]}'
        q = r.run(f, opq([(r'TransactionStore::add_transaction$', 'apply'), (r'HashingBufferReader::(read|skip|peek|offset)\w*$', 'read'), (r'Transaction::from_reader$', 'decode')]), key='tx')
        n = 0
        for tr in r.traces(q):
            ap = evs_named(tr, 'apply'); dec = evs_named(tr, 'decode')
            if is_panic(tr): continue
            if end(tr).kind == 'ret':
                r.ok(not ap, 'S07 transactions are applied once each', w, tr); continue
            ls = [l for l in loop_tests(q, tr)]
            if not r.ok(len(ap) == 1 and loc(ap[0].snap[0]) == (P0,) and ls and ls[-1].state == 'in' and ls[-1].lo is I(0) and ls[-1].step == 1, 'S07 every transaction of the block is applied to this index', w, tr): continue
            n += 1
            a = ap[0].snap[1]
            if dec: r.ok(len(dec) == 1 and same(a, dec[0].ret), 'S07 each decoded transaction is applied', w, tr)
            else: r.ok(N(a).k == 'idx' and N(a).a[1] is ls[-1].i and same(length(N(a).a[0]), ls[-1].src), 'S07 transactions are applied in block order', w, tr)
        once(r, q, lambda e: e.name == 'apply', 'S07 transactions are applied once each', w)
        r.ok(n, 'S07 transactions are applied', w)
    ws = struct_writers(r, 'Store', {fHd})
    roots = [f.id for f in ahf] + [f.id for f in abf]
    bad = outside(r, [x for x in ws if 'whole' not in x[2]], roots)
    for f, line, how in bad: r.ok(False, 'S07 headers are only appended by block application', f'{r.inst(f)}:{line}', how)
    r.ok(len(ws) >= 1, 'S07 append site found')
    # whoever applies transactions of a block, or appends a header, does it through the pair
    callers = callgraph(r)
    tsab = {f.id for f in r.fns('add_block', 'TransactionStore')}
    mg = {f.id for f in r.fns('merge', 'Store')}
    for f in list(ahf) + [f for f in r.fns('add_block', 'TransactionStore') if 'AugmentedTransactionStoreBackend' not in r.p.tys(f.targs[0])]:
        for c in callers.get(f.id, ()):
            up = climb(r, c, {x.id for x in abf} | mg)
            for g in up: r.ok(False, 'S07 header and transactions are only applied as a pair', r.inst(r.p.fns[g]))
def climb(r, fid, roots):
    """entry functions reachable upwards from fid without meeting roots (fid itself counts when it is no root)"""
    callers = callgraph(r)
    if fid in roots: return []
    seen = {fid}; st = [fid]; out = []
    while st:
        x = st.pop()
        cs = callers.get(x, set())
        if not cs: out.append(x)
        for c in cs:
            if c in roots or c in seen: continue
            seen.add(c); st.append(c)
    return out

LOGS = [(r'(PartialLogger|Logger)::(log|new|interval)$', 'log')]
def clos(x):
    """fn id of a closure value"""
    x = strip_clone(x)
    if x.k == 'agg' and x.a[0].startswith('closure:') and x.a[0] != 'closure:None': return int(x.a[0].split(':')[1])
    return None
def find_agg(x, pred):
    return [y for y in subterms(x) if y.k == 'agg' and pred(y)]
def chan_of(x, side):
    """the channels whose given end occurs in x"""
    return {N(y.a[0]) if y.k == side else N(y.a[2][0]) for y in subterms(x) if (y.k == side or (y.k == 'agg' and y.a[0] == side))}
def S06(r):
    r.rule('workers: one receive, one processing, one send per round, ending only when the inputs are closed; producer: every input sent once, numbered; '
           'delivery: only the output whose number is the next one; batches: [offset, min(offset+size, len)) with offset moving to the end')
    faithful_clones(r, {r.impl_self(f).split('<')[0].split('::')[-1] for f in r.fns(trait='BlockTrait')})
    # ---------------- delivery
    SP = 'SequentialThreadPool'
    fOut = r.fx(SP, 'outputs', 'Map'); fIx = r.fx(SP, 'output_index', '^usize$'); fPool = r.fx(SP, 'threadpool', 'ThreadPool')
    for f in r.the('next', SP):
        w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, opq([(r'(^|[^A-Za-z])ThreadPool<.*>::next$', 'pool_next')]), key='seq'); O = (P0, fOut); IX = (P0, fIx); seen = set()
        for tr in r.traces(q):
            eff = effects(tr); me = [e for e in eff if e.loc[:1] == (P0,)]
            rcv = evs_named(tr, 'pool_next')
            r.ok(all(under(e.loc, O) or under(e.loc, IX) for e in me), 'S06 delivery changes only the parked outputs and the next number', w, me)
            k = fld(t('param', 0), fIx)
            if is_panic(tr):
                r.ok(overflowed(tr), 'S06 delivery does not fail', w, tr); continue
            rem = [e for e in me if e.op == 'remove' and under(e.loc, O)]; ins = [e for e in me if e.op == 'insert' and under(e.loc, O)]; st = [e for e in me if e.op == 'store']
            pres = [strip(e, tr) for e in rem]
            r.ok(all(is_next(e.args[0], fIx) for e in rem), 'S06 only the output with the next number is taken out', w, tr)
            r.ok(len(rem) + len(ins) + len(st) == len(me), 'S06 outputs are only parked and delivered', w, me)
            taken = [e for e in rem if present(tr, e)]
            if end(tr).kind == 'ret':
                v = end(tr).val
                if v.k == 'agg' and v.a[1] == 1:
                    seen.add('some')
                    x = v.a[2][0]
                    if rcv and not taken and not ins:
                        # the result just received is the next one
                        m = vfld(rcv[-1].ret, 1, 0); f2 = {}
                        for c in conds(tr): assume(f2, N(c))
                        good = len(rcv) == 1 and same(x, fld(m, 1)) and decide(f2, eqi(N(fld(m, 0)), k)) is True and len(st) == 1 and under(st[0].loc, IX) and N(st[0].args[0]) in (add(k, I(1)), N(add(fld(m, 0), I(1)))) and bool(rem)
                        r.ok(good, 'S06 a result is delivered at once only when it is the next one', w, tr); continue
                    good = len(taken) == 1 and N(x).k == 'vfld' and N(x).a[0].k == 'mget' and under(loc(N(x).a[0].a[0]), O) and is_next(N(x).a[0].a[1], fIx)
                    r.ok(good, 'S06 what is delivered is the output with the next number', w, tr)
                    r.ok(len(st) == 1 and under(st[0].loc, IX) and is_next(sub(st[0].args[0], I(1)), fIx), 'S06 the next number advances by one per delivery', w, tr)
                    r.ok(not rcv and not ins, 'S06 a delivery does not consume further results', w, tr)
                else:
                    seen.add('none')
                    r.ok(v.k == 'agg' and v.a[1] == 0 and not taken and not st, 'S06 the end is reported without losing outputs', w, tr)
                    r.ok(rcv and isv(facts_of(tr), rcv[-1].ret, 1) is False, 'S06 the end is reported only when the workers are done', w, tr)
            else:
                seen.add('loop')
                good = len(rcv) == 1 and len(ins) == 1 and not taken and not st and isv(facts_of(tr), rcv[0].ret, 1) is True
                if good:
                    m = vfld(rcv[0].ret, 1, 0)
                    good = same(ins[0].args[0], fld(m, 0)) and same(ins[0].args[1], fld(m, 1))
                r.ok(good, 'S06 every received result is parked under its own number', w, tr)
        r.ok(seen == {'some', 'none', 'loop'}, 'S06 delivery cases present', w, seen)
    bad = outside(r, [x for x in struct_writers(r, SP, {fOut, fIx, fPool})], [f.id for f in r.the('next', SP)])
    for f, line, how in bad: r.ok(False, 'S06 the delivery state changes only while delivering', f'{r.inst(f)}:{line}', how)
    pool_results(r)
    # ---------------- producer and workers
    inst = r.the('new', SP) + r.the('new', 'ThreadPool')
    o = opq([(r'Batcher.*Iterator>::next$', 'next')])
    ths = r.the('next', 'ThreadPool') if r.fns('next', 'ThreadPool') else []
    for f in inst:
        w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, o, key='pool'); seen = set()
        numbered = f in r.fns('new', SP)
        work = {}
        trs = r.traces(q)
        out = None
        for tr in trs:
            if end(tr).kind == 'ret':
                v = end(tr).val
                rc = chan_of(v, 'receiver')
                if not r.ok(len(rc) == 1, 'S06 the pool keeps the receiving end of its results', w, v): continue
                out = rc.pop()
                r.ok(not chan_of(v, 'sender'), 'S06 the pool keeps no sending end', w, v)
                kept = [y for y in subterms(v) if y.k in ('newc', 'vphi')]
                if not numbered: r.ok(all(y.k == 'newc' or y.k == 'ver' and y.a[1].k == 'ev' and y.a[1].a[1] in ('Vec::push', 'VecDeque::push_back') for x in v.a[2] if x.k in ('vphi', 'ver', 'newc') for y in srcs(q, x)), 'S06 the kept workers are all that were started', w, v)
                if numbered:
                    r.ok(v.k == 'agg' and v.a[2][fIx] is I(0) and v.a[2][fOut].k == 'newc', 'S06 delivery starts at number zero with nothing parked', w, v)
        for tr in trs:
            if is_panic(tr):
                sn = [e for e in evs_named(tr, 'mpsc::send')]
                r.ok((sn and isv(facts_of(tr), sn[-1].ret, 0) is False) or overflowed(tr), 'S06 the producer fails only when no worker is left', w, tr); continue
            sn = evs_named(tr, 'mpsc::send'); nx = evs_named(tr, 'next'); sp = evs_named(tr, 'thread::spawn')
            cs = {N(c) for e in evs_named(tr, 'mpsc::channel') for c in [e.ret]}
            if sp:
                r.ok(len(sp) == 1 and not sn and not nx and end(tr).kind == 'back', 'S06 workers are started before inputs are handed out', w, tr)
                ls = loop_tests(q, tr)
                r.ok(ls and ls[-1].state == 'in' and ls[-1].lo is I(0) and ls[-1].step == 1 and ls[-1].src is t('param', 0), 'S06 as many workers as threads', w, tr)
                ps = [e for e in evs_named(tr, 'Vec::push', 'VecDeque::push_back') if sp[0].ret in subterms(e.snap[1])]
                r.ok(len(ps) == 1 and any(loc(y) == loc(ps[0].snap[0]) for y in kept), 'S06 every worker is kept to be waited for', w, tr)
                c = sp[0].snap[0]; work[c] = tr; seen.add('spawn'); continue
            if end(tr).kind == 'ret':
                seen.add('ret')
                r.ok(not sn, 'S06 no input is handed out twice', w, tr)
                r.ok(nx and isv(facts_of(tr), nx[-1].ret, 1) is False, 'S06 the producer stops only when the inputs are exhausted', w, tr)
                continue
            seen.add('send')
            good = len(sn) == 1 and len(nx) == 1 and isv(facts_of(tr), nx[0].ret, 1) is True
            if good:
                item = vfld(nx[0].ret, 1, 0); x = N(sn[0].snap[1])
                if numbered:
                    good = x.k == 'agg' and len(x.a[2]) == 2 and x.a[2][1] is N(item) and x.a[2][0].k == 'phi' and loop_index(q.g, x.a[2][0]) == (I(0), 1)
                else: good = x is N(item)
            r.ok(good, 'S06 every input is handed out exactly once' + (' with its number' if numbered else ''), w, tr)
        r.ok(seen == {'spawn', 'ret', 'send'}, 'S06 producer cases present', w, seen)
        inp = {c for tr in trs for e in evs_named(tr, 'mpsc::send') for c in chan_of(e.snap[0], 'sender')}
        r.ok(len(inp) == 1 and out not in inp, 'S06 inputs and results travel on separate channels', w, inp)
        for c, tr in work.items():
            i = clos(c)
            if not r.ok(i is not None, 'S06 the worker is known', w, c): continue
            worker(r, r.p.fns[i], c, inp, out, numbered)
    # ---------------- batches
    BT = 'Batcher'; fOff = r.fx(BT, 'offset'); fSz = r.fx(BT, 'size'); fIt = r.fx(BT, 'items', 'Vec')
    p0 = t('param', 0); off, sz, its = fld(p0, fOff), fld(p0, fSz), fld(p0, fIt)
    for f in r.the('next', BT):
        w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, key='b'); n = 0
        for tr in r.traces(q):
            # the next batch never starts beyond the end: it starts at zero, and where the last one ended (below)
            ff = {}; live = assume(ff, not_(gt0(sub(off, length(its)))))
            for c in conds(tr): live = assume(ff, N(c)) and live
            if not live: continue
            if is_panic(tr):
                r.ok(overflowed(tr), 'S06 batching does not fail', w, tr); continue
            more = decide(ff, lt(off, length(its))); v = N(end(tr).val); eff = [e for e in effects(tr) if e.loc[0] == P0]
            if more is False:
                r.ok(v.k == 'agg' and v.a[1] == 0 and not [e for e in eff if e.loc != (P0, fOff)], 'S06 batching ends only at the end of the input', w, tr); n |= 1; continue
            if not r.ok(more is True and v.k == 'agg' and v.a[1] == 1, 'S06 a batch is made while input is left', w, tr): continue
            n |= 2
            s = v.a[2][0]
            e_ = mn(ff, add(off, sz), length(its))
            good = e_ is not None and s.k == 'slice' and s.a[0] is its and s.a[1] is off and s.a[2] is N(e_)
            r.ok(good, 'S06 a batch is the next slice of the input, at most the batch size', w, tr)
            r.ok(len(eff) == 1 and eff[0].op == 'store' and eff[0].loc == (P0, fOff) and e_ is not None and same(eff[0].args[0], e_), 'S06 the next batch starts where this one ends', w, tr)
        r.ok(n == 3, 'S06 batch cases present', w)
    for f in r.the('new', BT):
        w = f'{r.inst(f)}:{f.span[1]}'
        for tr in r.traces(r.run(f, key='bn')):
            v = N(end(tr).val); ff = facts_of(tr)
            if is_panic(tr):
                r.ok(any(decide(ff, eq0(t('param', k))) is True for k in (0, 1)), 'S06 batching does not fail', w, tr); continue
            if v.k == 'agg' and v.a[2][fSz].k == 'param': r.ok(decide(ff, eq0(v.a[2][fSz])) is False, 'S06 batches are never empty, so that they come to an end', w, tr)
            r.ok(v.k == 'agg' and v.a[2][fOff] is I(0) and v.a[2][fIt] in (t('param', 0), t('param', 1)) and v.a[2][fSz] in (t('param', 0), t('param', 1)) and not effects(tr), 'S06 batching starts at the beginning of the whole input', w, tr)
    bad = outside(r, struct_writers(r, BT, {fOff, fSz, fIt}), [f.id for f in r.the('next', BT)])
    for f, line, how in bad: r.ok(False, 'S06 batching state changes only in next', f'{r.inst(f)}:{line}', how)
    # ---------------- the initial build merges the batches in the order delivered
    for f in r.the('from_blocks', 'Store'):
        w = f'{r.inst(f)}:{f.span[1]}'
        o = opq(LOGS + [(r'SequentialThreadPool::new$', 'pool_new'), (r'SequentialThreadPool<.*::next$', 'next'), (r'::merge$', 'merge'), (r'Batcher::new$', 'batcher'), (r'Store::add_block$', 'add_block'), (r'BlockTrait>::height$', 'height')])
        q = r.run(f, o, key='fb'); seen = set(); blocks = t('param', 0)
        stores = set()
        for tr in r.traces(q):
            if is_panic(tr):
                r.ok(not evs_named(tr, 'return'), 'S06 a failing build is not used', w); continue
            pn = evs_named(tr, 'pool_new'); nx = evs_named(tr, 'next'); mg = evs_named(tr, 'merge'); ab = evs_named(tr, 'add_block'); bt = evs_named(tr, 'batcher')
            li = inloop(q, tr, blocks)
            if pn:
                par = [x for x in bt]
                good = len(bt) == 1 and blocks in [N(x) for x in bt[0].snap] and len(pn) == 1 and any(N(x) is N(bt[0].ret) for x in pn[0].snap) and not ab
                r.ok(good, 'S06 the parallel build processes the batches of the whole input', w, tr)
                cl = [clos(x) for x in pn[0].snap if clos(x) is not None]
                if r.ok(len(cl) == 1, 'S06 the batch processing is known', w, pn): batch_fn(r, r.p.fns[cl[0]])
                if not r.ok(nx, 'S06 batch results are consumed', w, tr): continue
                somev = isv(facts_of(tr), nx[-1].ret, 1)
                if end(tr).kind == 'ret':
                    seen.add('pend')
                    r.ok(somev is False and not mg, 'S06 the build ends only after the last batch', w, tr); stores.add(loc(end(tr).val))
                else:
                    seen.add('pmerge')
                    it = vfld(nx[-1].ret, 1, 0)
                    good = len(nx) == 1 and somev is True and len(mg) == 1
                    if good:
                        a = [x for x in mg[0].snap]
                        good = N(a[0]) in (N(it), N(fld(it, 0)))
                        stores.add(loc(a[1]))
                    r.ok(good, 'S06 every delivered batch is merged once, before the next is taken', w, tr)
            else:
                if end(tr).kind == 'ret':
                    seen.add('send')
                    r.ok(exhausted(q, tr, blocks) and not ab and not mg, 'S06 the sequential build visits all blocks', w, tr); stores.add(loc(end(tr).val))
                else:
                    seen.add('sloop')
                    good = li is not None and len(ab) == 1 and same(ab[0].snap[1], idx(blocks, li)) and not mg
                    if good: stores.add(loc(ab[0].snap[0]))
                    r.ok(good, 'S06 the sequential build adds every block once, in order', w, tr)
        once(r, q, lambda e: e.name in ('merge', 'add_block'), 'S06 every block is added once', w)
        r.ok(seen == {'pend', 'pmerge', 'send', 'sloop'}, 'S06 build cases present', w, seen)
        r.ok(len(stores) == 1, 'S06 the build returns the index it filled', w, stores)
def srcs(q, x):
    """what a loop-carried container was made from"""
    seen = set(); todo = [x]
    while todo:
        y = todo.pop()
        if y in seen: continue
        seen.add(y)
        if y.k == 'vphi' and y in q.g.phi: todo.extend(q.g.phi[y])
        elif y.k == 'ver': todo.append(y.a[0])
    return {y for y in seen if y.k != 'vphi'}
def pool_results(r):
    """the results of the pool: what the workers sent; its end only after every worker has ended without failing"""
    TP = 'ThreadPool'; fW = r.fx(TP, 'workers', 'JoinHandle'); fR = r.fx(TP, 'output_receiver', 'Receiver'); W_ = (P0, fW)
    for f in r.the('next', TP):
        w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, key='pool'); seen = set(); ws = fld(t('param', 0), fW)
        for tr in r.traces(q):
            rc = evs_named(tr, 'mpsc::recv'); jn = evs_named(tr, 'thread::join'); ff = facts_of(tr); f2 = {}
            for c in conds(tr): assume(f2, N(c))
            ops = [e.op for e in effects(tr) if under(e.loc, W_) and not (e.op == 'store' and e.args[0].k == 'newc')]; pops = 'pop' in ops
            r.ok(len(ops) <= 1 and set(ops) <= {'drain', 'pop', 'take'}, 'S06 the workers are only waited for', w, ops)
            r.ok(len(rc) == 1 and loc(rc[0].snap[0]) == (P0, fR), 'S06 results are taken one by one from the results channel', w, tr)
            if not rc: continue
            got = isv(ff, rc[0].ret, 0)
            if is_panic(tr):
                r.ok(jn and isv(ff, jn[-1].ret, 0) is False, 'S06 taking a result fails only if a worker failed', w, tr); seen.add('panic'); continue
            if end(tr).kind == 'ret':
                v = end(tr).val
                if got: seen.add('some'); r.ok(v.k == 'agg' and v.a[1] == 1 and same(v.a[2][0], vfld(rc[0].ret, 0, 0)), 'S06 every result is passed on', w, tr)
                else:
                    seen.add('none')
                    r.ok(got is False and v.k == 'agg' and v.a[1] == 0, 'S06 the end of the results is the end of the workers', w, tr)
                    ls = [l for l in loop_tests(q, tr) if l.step == 1 and l.lo is I(0) and N(l.src) is N(length(N(ws)))]
                    r.ok((ls and ls[-1].state == 'out' or decide(f2, eq0(N(length(N(ws))))) is True) and not jn, 'S06 the end is reported only after all workers were waited for', w, tr)
            else:
                seen.add('join')
                ls = [l for l in loop_tests(q, tr) if l.step == 1 and l.lo is I(0) and N(l.src) is N(length(N(ws)))]
                one = len(jn) == 1 and (N(jn[0].snap[0]) is N(idx(ws, sub(length(ws), I(1)))) if pops else ls and ls[-1].state == 'in' and N(jn[0].snap[0]) is N(idx(ws, ls[-1].i)))
                r.ok(got is False and one and isv(ff, jn[0].ret, 0) is True, 'S06 a worker that failed stops the build', w, tr)
        r.ok(seen == {'some', 'none', 'join', 'panic'}, 'S06 cases of the pool results present', w, seen)
def mn(ff, a, b):
    """min(a, b) as decided by the facts"""
    d = decide(ff, le(N(a), N(b)))
    if d is True: return a
    if d is False: return b
    return b if decide(ff, le(N(b), N(a))) is True else None
def strip(e, tr): return None
def is_next(k, fIx):
    k = strip_clone(N(k))
    return k.k == 'fld' and k.a[1] == fIx and loc(k) == (P0, fIx)
def present(tr, e):
    """did this HashMap::remove find its key (as known on the trace)"""
    for c in conds(tr):
        pol = True
        if c.k == 'not': c = c.a[0]; pol = False
        if c.k == 'is' and c.a[0].k == 'mget' and N(c.a[0].a[1]) is N(e.args[0]) and loc(c.a[0].a[0]) == e.loc: return pol == (c.a[1] == 1)
    return True
def worker(r, f, c, inp, out, numbered):
    w = f'{r.inst(f)}:{f.span[1]}'; par = t('param', 0)
    def outer(g): return g.path.rsplit('::{closure', 1)[0]
    def shape(x, base, top=False):
        # the captured closures written beside the worker are part of it; everything else it captures stays as captured
        i = clos(x) if x.k == 'agg' else None
        if i is None or not top and outer(r.p.fns[i]) != outer(f): return base
        return agg(x.a[0], x.a[1], tuple(shape(y, fld(base, k)) for k, y in enumerate(x.a[2])))
    env = shape(c, par, True)
    plain = all(y is fld(par, k) for k, y in enumerate(env.a[2])) if env.k == 'agg' else True
    q = r.run(f, key='worker') if plain else r.run(f, args=[env], key='worker')
    seen = set()
    def S_(x): return subst(x, {par: c})
    for tr in r.traces(q):
        rv = evs_named(tr, 'mpsc::recv'); sn = evs_named(tr, 'mpsc::send'); pr = evs_named(tr, 'call_opaque'); lk = evs_named(tr, 'stdacquire:lock')
        ff = facts_of(tr)
        if is_panic(tr):
            bad = (lk and isv(ff, lk[-1].ret, 0) is False) or (sn and isv(ff, sn[-1].ret, 0) is False)
            r.ok(bad, 'S06 a worker fails only when the pool is gone', w, tr); continue
        got = [isv(ff, e.ret, 0) for e in rv]
        r.ok(all(chan_of(S_(e.snap[0]), 'receiver') == inp for e in rv), 'S06 workers take their input from the input channel', w, tr)
        if end(tr).kind == 'ret':
            seen.add('ret'); r.ok(rv and got[-1] is False and not pr and not sn, 'S06 a worker ends only when no input is left', w, tr); continue
        seen.add('loop')
        good = got == [True] and len(pr) == 1 and len(sn) == 1
        if good:
            m = vfld(rv[0].ret, 0, 0)
            good = same(pr[0].snap[1], m) and same(sn[0].snap[1], pr[0].ret)
            if numbered: numbers(r, S_(pr[0].snap[0]), w)
            good = good and chan_of(S_(sn[0].snap[0]), 'sender') == {out}
        r.ok(good, 'S06 a worker returns the result of every input it takes' + (', under the input\'s number' if numbered else ''), w, tr)
    r.ok(seen == {'ret', 'loop'}, 'S06 worker cases present', w, seen)
def numbers(r, c, w):
    """the processing closure keeps the number of its input"""
    i = clos(c)
    if not r.ok(i is not None, 'S06 the numbered processing is known', w, c): return
    f = r.p.fns[i]; q = r.run(f, key='num'); w = f'{r.inst(f)}:{f.span[1]}'; m = t('param', 1)
    for tr in r.traces(q):
        pr = evs_named(tr, 'call_opaque')
        if is_panic(tr): r.ok(False, 'S06 numbering does not fail', w, tr); continue
        v = N(end(tr).val)
        good = len(pr) == 1 and same(pr[0].snap[1], fld(m, 1)) and v.k == 'agg' and len(v.a[2]) == 2 and v.a[2][0] is N(fld(m, 0)) and v.a[2][1] is N(pr[0].ret)
        r.ok(good, 'S06 a result carries the number of its input', w, tr)
def batch_fn(r, f):
    w = f'{r.inst(f)}:{f.span[1]}'
    q = r.run(f, opq(LOGS + [(r'Store::add_block$', 'add_block'), (r'BlockTrait>::height$', 'height')]), key='batchfn'); seen = set(); blocks = t('param', 1); st = set()
    for tr in r.traces(q):
        ab = evs_named(tr, 'add_block')
        if is_panic(tr): continue
        if end(tr).kind == 'ret':
            seen.add('ret'); v = end(tr).val
            r.ok(exhausted(q, tr, blocks) and not ab, 'S06 a batch is processed to its end', w, tr); st.add(loc(fld(v, 0) if v.k == 'agg' and v.a[0] == 'tuple' else v))
        else:
            i = inloop(q, tr, blocks); seen.add('loop')
            good = i is not None and len(ab) == 1 and same(ab[0].snap[1], idx(blocks, i))
            if good: st.add(loc(ab[0].snap[0]))
            r.ok(good, 'S06 every block of a batch is added once, in order', w, tr)
    once(r, q, lambda e: e.name == 'add_block', 'S06 every block of a batch is added once', w)
    r.ok(seen == {'ret', 'loop'} and len(st) == 1, 'S06 a batch result is the index its blocks were added to', w, (seen, st))

def P01(r):
    r.rule('writer and reader are compared phase by phase: every record the writer can produce, read back by every feasible path of the reader, yields the record')
    BW = 'BufferWriter'; HR = 'HashingBufferReader'
    iW = r.fx(BW, 'buffer', 'Vec'); iB = r.fx(HR, 'buffer', r'&.*\[u8\]'); iO = r.fx(HR, 'offset', '^usize$')
    fHd = r.fx('Store', 'block_headers', 'Vec'); fT = r.fx('Store', 'transaction_store'); fB = r.fx('TransactionStore', 'backend')
    name = 'IndexedTransactionStoreBackend'
    iU = fieldno(r, name, lambda n, t_: 'address::Address' not in t_.split('<', 1)[1].split(',')[0] and 'Map' in t_, 'unspent output map')
    vt = r.p.types[r.p.types[r.fields(name)[iU][1]]['args'][1]]
    jA = [i for i, e in enumerate(vt['es']) if 'Option' in r.p.tys(e)][0]; jV = 1 - jA
    wf = [f for f in r.the('to_writer', 'Store')]; rf = [f for f in r.the('from_reader', 'Store')]
    P1 = ('p', 1)
    W = {}      # phase -> [(conds, segments, source, i, kind)]
    wq = None
    for f in wf:
        w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, opq(LOGS), key='w')
        for tr in r.traces(q):
            ps = parts(tr)
            if is_panic(tr):
                r.ok(any(isinstance(x, Ev) and x.name == 'panic' and 'tryfrominterr' in str(x.snap) for x in tr) or overflowed(tr), 'P01 saving fails only when a count does not fit its field', w, tr); continue
            seg = []
            for e in effects(ps[-1]):
                if e.loc == (P1, iW) and e.op in ('extend_from_slice', 'push', 'append', 'extend'):
                    seg += segs(r.p, f, e.args[0]) if e.op != 'push' else [(1, e.args[0])]
                elif e.loc[0] == P1: r.ok(False, 'P01 the writer only appends', w, e)
                else: r.ok(e.loc[0] != P0, 'P01 saving does not change the index', w, e)
            ff = facts_of(tr)
            # a flag written from a test whose outcome this path knows
            seg = [(l, I(int(d))) if x.k in TM.BOOLEAN and (d := decide(ff, x)) is not None else (l, x) for l, x in seg]
            n = len(ps) - 1; ls = [l for l in loop_tests(q, ps[-1])]
            st = ls[0].state if ls else None
            if n == 0: W.setdefault(('pre', 0), []).append((tr, seg, None, None))
            elif st == 'in':
                src = ls[0].src; S = [y.a[0] for y in subterms(src) if y.k == 'len']
                if not r.ok(len(S) == 1 and ls[0].lo is I(0) and ls[0].step == 1 and same(src, length(S[0])), 'P01 the writer walks the whole collection', w, ls): continue
                W.setdefault(('it', n), []).append((tr, seg, S[0], ls[0].i))
                # what was written before this loop
                pre = []
                for e in effects(ps[-2]):
                    if e.loc == (P1, iW): pre += segs(r.p, f, e.args[0]) if e.op != 'push' else [(1, e.args[0])]
                W.setdefault(('pre', n - 1), []).append((tr, pre, S[0], None))
            elif st == 'out':
                if end(tr).kind == 'ret': W.setdefault(('post', n), []).append((tr, seg, None, None))
            else: r.ok(False, 'P01 the writer is a sequence of loops over the index', w, tr)
        wq = f
    nl = max([k[1] for k in W if k[0] == 'it'] or [0])
    srcs = {k: {N(x[2]) for x in v} for k, v in W.items() if k[0] == 'it'}
    hS = fld(t('param', 0), fHd)
    def kind_of(S): return 'h' if loc(N(S)) == (P0, fHd) else 'u' if under(loc(N(S)), (P0, fT, fB, iU)) else None
    kinds = [sorted({str(kind_of(x[2])) for x in W.get(('it', k), [])}) for k in range(1, nl + 1)]
    w = f'{r.inst(wq)}:{wq.span[1]}'
    if not r.ok(sorted(map(str, kinds)) == ["['h']", "['u']"], 'P01 all headers and all unspent outputs are saved', w, kinds): return
    R_ = {}
    for f in rf:
        w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, opq(LOGS + BACK), key='r')
        seen = set()
        for tr in r.traces(q):
            ps = parts(tr); n = len(ps) - 1; last = ps[-1]
            ls = [l for l in loop_tests(q, last)] or [None]
            st = ls[0].state if ls[0] else None
            # cursor of this phase
            offs = [e for e in effects(last) if e.loc == (P0, iO)]
            base = None
            for e in offs:
                k0, at = lin_of(e.args[0])
                bs = [a for a, m in at if m == 1 and N(a) is fld(t('param', 0), iO)]
                if len(bs) == 1 and len(at) == 1:
                    if base is None: base = bs[0]
                    r.ok(bs[0] is base, 'P01 the reader advances its cursor sequentially', w, e)
                else: r.ok(False, 'P01 the reader advances its cursor by fixed amounts', w, e)
            fin = sub(offs[-1].args[0], base) if base is not None else I(0)
            if n == 0 or st == 'out':
                # between loops: the counts
                wr = W.get(('pre', n)) if n < nl else W.get(('post', n))
                if is_panic(tr): 
                    r.ok(overflowed(tr) or 'bounds' in str(end(tr).val), 'P01 reading a saved index does not fail', w, tr); continue
                if end(tr).kind != 'ret': continue
                seen.add('ret')
                r.ok(n == nl, 'P01 the reader reads as many collections as were saved', w, tr)
                v = end(tr).val
                hv = loc(fld(v, fHd)); bv = loc(fld(fld(v, fT), fB)) if fld(v, fT).k != 'agg' else None
                R_.setdefault('ret', []).append((tr, v))
                continue
            if st is None:
                r.ok(is_panic(tr), 'P01 the reader is a sequence of loops', w, tr); continue
            # an iteration: count check
            pb = pcur(ps[-2], iO)
            wr = W[('it', n)] if ('it', n) in W else []
            if not r.ok(wr, 'P01 the reader reads only what was saved', w, tr): continue
            S = wr[0][2]
            pre = W[('pre', n - 1)][0][1]
            cnt = resolve(ls[0].src, pb, iO, iB, pre)
            total = sum(l for l, _ in pre)
            poff = [e for e in effects(ps[-2]) if e.loc == (P0, iO)]
            pfin = sub(poff[-1].args[0], pb) if poff else I(0)
            r.ok(pfin is I(total), 'P01 the reader consumes the bytes written before the records', w, (pfin, pre))
            r.ok(ls[0].lo is I(0) and ls[0].step == 1 and same(cnt, length(N(S))), 'P01 the saved count is the number of records that follow', w, (cnt, S))
            kd = kind_of(S)
            for wtr, seg, S_, i in wr:
                ff = {}
                for c in conds(wtr): assume(ff, N(c))
                feas = True
                for c in conds(last):
                    if any(y.k == 'phi' for y in subterms(c)): continue
                    c2 = resolve(c, base, iO, iB, seg)
                    if 'len' in [y.k for y in subterms(c2)] and N(fld(t('param', 0), iB)) in [strip_deref(y.a[0]) for y in subterms(N(c2)) if y.k == 'len']: continue
                    if not assume(ff, N(c2)): feas = False; break
                if not feas: continue
                if is_panic(tr):
                    r.ok('bounds' in str(end(tr).val) or overflowed(tr), 'P01 reading a saved record does not fail', w, (seg, tr)); continue
                seen.add((kd, wtr.index(wtr[-1]), tuple(x[1] for x in seg)))
                r.ok(fin is I(sum(l for l, _ in seg)), 'P01 a record is read with exactly the bytes it was written with', w, (seg, fin))
                if kd == 'h':
                    pu = [e for e in effects(last) if e.op == 'push']
                    el = idx(N(S_), i)
                    good = len(pu) == 1 and equals(ff, N(resolve(pu[0].args[0], base, iO, iB, seg)), el)
                    r.ok(good, 'P01 a header reads back as it was written', w, (seg, pu))
                    if pu: R_.setdefault('h', set()).add(pu[0].loc)
                else:
                    ad = evs_named(last, 'add')
                    if not r.ok(len(ad) == 1, 'P01 every saved output is added once', w, tr): continue
                    ky = t('keyat', N(S_), i)
                    m = vfld(t('mget', N(S_), ky), 1, 0)
                    a = [N(resolve(x, base, iO, iB, seg)) for x in ad[0].snap]
                    r.ok(equals(ff, a[1], ky), 'P01 an output reads back under its own transaction id and index', w, (seg, a[1]))
                    r.ok(equals(ff, a[2], fld(m, jA)), 'P01 an output reads back with its own address or none', w, (seg, a[2]))
                    r.ok(equals(ff, a[3], fld(m, jV)), 'P01 an output reads back with its own value', w, (seg, a[3]))
                    R_.setdefault('u', set()).add(loc(ad[0].snap[0]))
        for k, lst in W.items():
            if k[0] != 'it': continue
            for wtr, seg, S_, i in lst:
                r.ok(any(x[0] == kind_of(S_) and x[2] == tuple(y[1] for y in seg) for x in seen if isinstance(x, tuple)), 'P01 every kind of saved record can be read', w, seg)
        for tr, v in R_.get('ret', []):
            hv = loc(fld(v, fHd)); b = fld(fld(v, fT), fB)
            r.ok(R_.get('h') == {hv}, 'P01 the headers read are the headers of the loaded index', w, v)
            bl = R_.get('u', set())
            r.ok(len(bl) == 1 and (loc(b) in bl or next(iter(bl)) == loc(b)), 'P01 the outputs read are the outputs of the loaded index', w, (v, bl))
        r.ok('ret' in seen, 'P01 loading finishes', w)
    # whole file
    for f in r.the('from_file', 'Store'):
        w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, opq(LOGS + [(r'::from_reader$', 'from_reader')]), key='ff')
        for tr in r.traces(q):
            rd = evs_named(tr, 'fs::read', 'File::open'); fr = evs_named(tr, 'from_reader')
            if is_panic(tr): r.ok(False, 'P01 loading does not fail by itself', w, tr); continue
            okr = rd and isv(facts_of(tr), rd[0].ret, 0)
            r.ok(len(rd) == 1 and same(rd[0].snap[0], t('param', 0)), 'P01 the index is loaded from the given file', w, tr)
            v = N(end(tr).val)
            if okr:
                good = len(fr) == 1
                if good:
                    a = N(fr[0].snap[0])
                    good = fld(a, iO) is I(0) and strip_deref(fld(a, iB)) is N(vfld(rd[0].ret, 0, 0)) and v.k == 'agg' and v.a[1] == 1 and v.a[2][0] is N(fr[0].ret)
                r.ok(good, 'P01 the whole file is read from its start', w, tr)
            else: r.ok(okr is False and v.k == 'agg' and v.a[1] == 0 and not fr, 'P01 a missing file is not an index', w, tr)
def pcur(part, iO):
    for e in effects(part):
        if e.loc == (P0, iO):
            for a, m in lin_of(e.args[0])[1]:
                if N(a) is fld(t('param', 0), iO): return a
    return None
def strip_deref(x):
    while x.k in ('deref', 'clone'): x = x.a[0] if x.k == 'deref' else x.a[1]
    return x
def resolve(x, base, iO, iB, seg):
    """rewrite what is read from the buffer at base + constants into what was written there"""
    if base is None: return x
    def isbuf(v): return N(strip_deref(N(v))) is fld(t('param', 0), iB)
    def at(a, b):
        o = 0; out = []
        for l, s_ in seg:
            lo, hi = max(a, o), min(b, o + l)
            if lo < hi: out.append((hi - lo, s_ if (lo, hi) == (o, o + l) else slc(s_, I(lo - o), I(hi - o)) if l > 1 else s_))
            o += l
        if b > o: return None
        if len(out) == 1 and (out[0][0] > 1): return out[0][1]
        if all(l == 1 for l, _ in out): return agg('array', 0, [s_ for _, s_ in out])
        return t('cat', tuple(s_ for _, s_ in out))
    memo = {}
    def go(y):
        z = memo.get(y)
        if z is not None: return z
        z = None
        if y.k == 'slice' and isbuf(y.a[0]):
            a, b = sub(y.a[1], base), sub(y.a[2], base)
            if is_int(a) and is_int(b): z = at(a.a[0], b.a[0])
        elif y.k == 'idx' and isbuf(y.a[0]):
            a = sub(y.a[1], base)
            if is_int(a):
                z = at(a.a[0], a.a[0] + 1)
                if z is not None: z = z.a[2][0] if z.k == 'agg' else idx(z, I(0))
        if z is None: z = rebuild(y, go) if y.a and y.k not in ('ev',) else y
        memo[y] = z
        return z
    return go(x)
FSMUT = ('File::create', 'fs::write', 'File::create_new', 'OpenOptions::open', 'fs::rename', 'fs::remove_file', 'fs::copy', 'File::set_len', 'fs::remove_dir_all', 'fs::hard_link', 'File::options', 'fs::create_dir', 'fs::remove_dir', 'fs::create_dir_all', 'OpenOptions::new', 'fs::set_permissions', 'os::unix::fs::symlink')
def P02(r):
    r.rule('to_file: create(temp) ok; write_all(complete buffer) ok; sync ok; rename(temp, path) in that order on every path; no other file mutation anywhere in the program')
    iW = r.fx('BufferWriter', 'buffer', 'Vec')
    path = t('param', 1)
    tf = r.the('to_file', 'Store')
    for f in tf:
        w = f'{r.inst(f)}:{f.span[1]}'; q = r.run(f, opq(LOGS + [(r'::to_writer$', 'to_writer')]), key='tf'); nret = 0
        for tr in r.traces(q):
            ff = facts_of(tr); fs = [x for x in tr if isinstance(x, Ev) and (x.name in FSMUT or x.name.startswith(('Write::', 'File::', 'fs::', 'OpenOptions::', 'BufWriter::')))]
            ren = [e for e in fs if e.name == 'fs::rename']
            r.ok(all(e.name in ('File::create', 'Write::write_all', 'File::sync_all', 'File::sync_data', 'fs::rename', 'Write::flush', 'File::create_new') or e.name.startswith('fs::create_dir') for e in fs), 'P02 only the known file operations are used in a save', w, fs)
            for e in fs:
                if e.name in ('File::create', 'File::create_new', 'fs::write'):
                    r.ok(other_file(e.snap[0], path), 'P02 the saved index is never created or truncated in place', f'{r.inst(f)}:{e.line}', e)
            if end(tr).kind == 'ret':
                nret += 1
                r.ok(len(ren) == 1, 'P02 a finished save has replaced the index', w, tr)
            for e in ren:
                i = [x for x in tr].index(e); before = [x for x in fs if tr.index(x) < i]
                cr = [x for x in before if x.name.startswith('File::create')]; wr = [x for x in before if x.name == 'Write::write_all']; sy = [x for x in before if x.name in ('File::sync_all', 'File::sync_data')]
                w2 = f'{r.inst(f)}:{e.line}'
                if not r.ok(len(cr) == 1 and len(wr) >= 1 and len(sy) >= 1, 'P02 the new contents are created, written and synced before the rename', w2, fs): continue
                r.ok(same(e.snap[0], cr[0].snap[0]) and same(e.snap[1], path), 'P02 the temporary file is renamed over the index', w2, e)
                h = vfld(cr[0].ret, 0, 0)
                r.ok(all(same(x.snap[0], h) for x in wr + sy), 'P02 the temporary file is the one written and synced', w2, fs)
                r.ok(fs.index(cr[0]) < fs.index(wr[0]) and fs.index(wr[-1]) < fs.index(sy[-1]), 'P02 the sync comes after the last write', w2, fs)
                r.ok(all(isv(facts_of(tr, i), x.ret, 0) is True for x in before if x.name not in ('fs::create_dir_all',)), 'P02 a failure on the way stops before the index is replaced', w2, tr)
                tw = evs_named(tr[:i], 'to_writer')
                good = len(tw) == 1 and len(wr) == 1 and same(tw[0].snap[0], t('param', 0))
                if good:
                    buf = wr[0].snap[1]
                    good = N(buf) is N(fld(tw[0].snap[1], iW)) and tr.index(tw[0]) < tr.index(wr[0]) and tw[0].ret in [y for y in subterms(buf)] + [e2 for e2 in evs_in(buf)]
                r.ok(good, 'P02 the complete contents are written', w2, (tw, wr))
        r.ok(nret, 'P02 a save can finish', w)
    # nobody else changes files
    bad = [(f, line, nm) for f, line, nm, c in calls(r) if '::'.join(nm.split('::')[-2:]) in FSMUT or
           re.search(r'std::(os::unix::)?fs::.*(write|create|rename|remove|set_len|copy|options|append|truncate|link)|OpenOptions', nm + ' ' + str(c.get('res') or ''))]
    r.ok(bad, 'P02 the file operations of a save are found', None)
    for f, line, nm in outside(r, bad, [x.id for x in tf]): r.ok(False, 'P02 only a save writes files', f'{r.inst(f)}:{line}', nm)
def evs_in(x): return [y for y in subterms(x) if y.k == 'ev']
def other_file(x, path):
    """a formatted path: the index path followed by a fixed suffix without a directory separator"""
    p_ = text(x)
    return len(p_) == 2 and not isinstance(p_[0], (str, tuple)) and N(p_[0]) is path and isinstance(p_[1], str) and bool(p_[1]) and '/' not in p_[1]
RULES = {k: v for k, v in globals().items() if re.fullmatch(r'[A-Z]\d\d', k)}
