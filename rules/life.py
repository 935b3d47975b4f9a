"""P03, R01-R06: what the process does with its parts over its life"""
from .common import *
from .store import LOGS, clos, chan_of

PARTS = [(r'Configuration::new$', 'cfg'), (r'(^|::)Store::(from_file)$', 'from_file'), (r'(^|::)Store::to_file$', 'to_file'), (r'(^|::)Store::from_blocks$', 'from_blocks'),
         (r'BlockFileReader::new$', 'reader_new'), (r'BlockFileReader::blocks$', 'scan_blocks'), (r'(^|::)create_server$', 'create_server'), (r'(^|::)Server::run$', 'run_server'), (r'Client::new$', 'client_new')]
def main_opq(fn):
    p = strip_generics(fn.path)
    m = re.search(r'(^|::)State::(\w+)$', p)
    if m: return 'state:' + m.group(2)
    return _parts(fn)
_parts = opq(LOGS + PARTS)

class Thread:
    __slots__ = ('clo', 'traces', 'fn', 'where', 'q', 'ev')
class Program: pass
def program(r):
    """main and every thread it starts (transitively), each as its traces"""
    if 'program' in r._cache: return r._cache['program']
    f = r.one('main', path=r'^main$')
    P = Program(); P.fn = f; P.where = f'main:{f.span[1]}'
    q = r.run(f, main_opq, key='main', part=40); P.q = q
    P.main = r.traces(q); P.threads = {}
    todo = [e for tr in P.main for e in tr if isinstance(e, Ev) and e.name in SPAWN]
    while todo:
        e = todo.pop(); c = e.snap[0]
        if e.ret in P.threads: continue
        th = Thread(); th.clo = c; th.ev = e; th.fn = r.p.fns[clos(c)]; th.where = f'{e.where()}'
        th.q = r.run(th.fn, main_opq, args=[c], part=40); th.traces = r.traces(th.q)
        P.threads[e.ret] = th
        todo += [x for tr in th.traces for x in tr if isinstance(x, Ev) and x.name in SPAWN]
        if len(P.threads) > 60: raise Undecided('too many threads started by main')
    r.need(P.threads, 'threads started by main')
    P.tasks = [th for th in P.threads.values() if any(isinstance(x, Ev) and x.name == 'block_on' for tr in th.traces for x in tr)]
    r._cache['program'] = P
    return P
SPAWN = ('thread::spawn',)
def cfg_of(tr):
    for x in tr:
        if isinstance(x, Ev) and x.name == 'cfg': return x.ret
def await_ret(tr, e):
    """the value awaited from the future e, None if it is never awaited on this trace"""
    for x in tr:
        if isinstance(x, Ev) and x.name == 'await' and x.snap and x.snap[0] is e.ret: return x.ret
    return None

def tkr(tr): return [(i, x) for i, x in enumerate(tr) if isinstance(x, Ev)]
def ckind(r, P):
    """configuration field numbers by name"""
    return lambda n, ty=None: r.fx('Configuration', n, ty)
def monitors(r, P):
    """task thread -> [(monitor: thread or 'main', join event, trace, position)] of every join of it"""
    out = {}
    for m, trs in [(None, P.main)] + [(th, th.traces) for th in P.threads.values()]:
        for tr in trs:
            for i, x in tkr(tr):
                if x.name == 'thread::join':
                    s = [y for y in subterms(x.snap[0]) if y.k == 'ev' and y.a[1] in SPAWN]
                    h = x.snap[0]
                    # the handle itself, not something that merely mentions it
                    while h.k == 'agg' and h.a[0] == 'joinhandle': h = h.a[2][0]
                    if h in P.threads: out.setdefault(h, []).append((m, x, tr, i))
    return out
def chan_id(x):
    x = strip_clone(x)
    while x.k in ('sender', 'receiver', 'deref', 'ver', 'ref') :
        if x.k == 'ref':
            if x.a[0][0] != 'X' or x.a[1]: return None
            x = x.a[0][1]
        else: x = x.a[0]
        x = strip_clone(x)
    return x if x.k in ('ev', 'newc') else None
def final_receives(r, P, C):
    """main receives everything sent over C, ends in a panic on a reported failure, and goes on only when all senders are gone"""
    n = 0; bad = None; exits = 0
    for tr in P.main:
        rc = [(i, x) for i, x in tkr(tr) if x.name in ('mpsc::recv',) and chan_id(x.snap[0]) is C]
        for i, x in rc:
            n += 1; ff = facts_of(tr); d = isv(ff, x.ret, 0)
            if d is True:
                m = vfld(x.ret, 0, 0); e = isv(ff, m, 0)
                if e is False:
                    if not is_panic(tr): bad = (x.where(), tr, 'a failure is received and ignored')
                elif e is True:
                    if end(tr).kind != 'back' and not is_panic(tr): bad = (x.where(), tr, 'main goes on before every task has reported')
                else: bad = (x.where(), tr, 'a received result is not examined')
            elif d is False: exits += 1
            else: bad = (x.where(), tr, 'what is received is not examined')
    return n, exits, bad

def R03(r):
    r.rule('every task runs in a thread that is joined by a monitor whose every path sends the join result to main (nothing that can fail before); main receives until all senders are gone and panics on a failure; no detached tasks, nothing catches panics')
    P = program(r); mons = monitors(r, P); duties = {}
    for h, th in P.threads.items():
        if th not in P.tasks: continue
        what = {x.name for tr in th.traces for x in tr if isinstance(x, Ev) and (x.name.startswith('state:') or x.name in ('run_server', 'create_server', 'to_file'))}
        loop = any(isinstance(x, Loop) for tr in th.traces for x in tr)
        for d in what: duties.setdefault((d, loop), []).append(th)
        ms = mons.get(h, [])
        if not r.ok(ms, 'R03 a task thread is joined', th.where, show(th.clo, 3)): continue
        for m in {id(x[0]): x[0] for x in ms}.values():
            if m is None:
                # joined by main itself: fine when a failure panics there and nothing else runs
                for mm, x, tr, i in ms:
                    if mm is not None: continue
                    d = isv(facts_of(tr), x.ret, 0)
                    r.ok(d is True or d is False and is_panic(tr), 'R03 a failure of a joined task stops main', x.where(), tr)
                    r.ok(sum(1 for k, e in tkr(tr[:i]) if e.name in SPAWN) - sum(1 for k, e in tkr(tr[:i]) if e.name == 'thread::join') <= 1, 'R03 main does not wait for one task while another runs unwatched', x.where(), tr)
                continue
            chans = set()
            for tr in m.traces:
                js = [(i, x) for i, x in tkr(tr) if x.name == 'thread::join' and x in [y[1] for y in ms]]
                if not r.ok(js, 'R03 the monitor always reaches the join', m.where, tr): continue
                i, x = js[0]
                before = [y for k, y in tkr(tr[:i]) if y.name not in ('drop', 'log') and y.name not in SPAWN]
                r.ok(not before, 'R03 nothing that can fail comes before the join in the monitor', m.where, before)
                ff = facts_of(tr); d = isv(ff, x.ret, 0)
                if end(tr).kind == 'exit' and d is False: continue
                sd = [(k, y) for k, y in tkr(tr) if y.name == 'mpsc::send' and k > i]
                if not r.ok(len(sd) == 1, 'R03 the monitor sends the result of the task to main', m.where, tr): continue
                k, y = sd[0]; v = y.snap[1]
                r.ok(not [z for z in tr[i + 1:k] if isinstance(z, Ev) and z.name not in ('drop', 'log', 'thread::join')], 'R03 nothing that can fail comes between join and report', m.where, tr)
                fk = facts_of(tr)
                if d is True: good = isv(fk, v, 0) is True or same(v, x.ret)
                elif d is False: good = isv(fk, v, 1) is True or same(v, x.ret)
                else: good = same(v, x.ret)
                r.ok(good, 'R03 the report says whether the task failed', y.where(), tr)
                chans.add(chan_id(y.snap[0]))
            for C in chans:
                if not r.ok(C is not None, 'R03 reports go over a channel', m.where): continue
                n, ex, bad = final_receives(r, P, C)
                r.ok(n and ex, 'R03 main waits for the reports', m.where, show(C, 3))
                r.ok(bad is None, 'R03 main stops when a task failed', bad[0] if bad else m.where, bad)
                # the task is started, and watched, before main waits
                for tr in P.main:
                    sp = [i for i, x in tkr(tr) if x.name in SPAWN and x.ret is h]
                    if sp and end(tr).kind == 'ret': r.ok([i for i, x in tkr(tr) if x.name == 'mpsc::recv' and chan_id(x.snap[0]) is C and i > sp[0]], 'R03 main waits for the task it started', m.where, tr)
    for h, th in P.threads.items():
        # a monitor must be started whenever its task is
        for m, x, tr, i in mons.get(h, []):
            if m is None: continue
            for mt in P.main:
                sp = [k for k, y in tkr(mt) if y.name in SPAWN and y.ret is h]
                if sp and end(mt).kind in ('ret', 'back'): r.ok([k for k, y in tkr(mt) if y.name in SPAWN and y.ret is m.ev.ret] or m.ev.ret in [y.ret for t2 in P.threads.values() for tt in t2.traces for _, y in tkr(tt)], 'R03 the monitor is started with its task', m.where, mt)
    for d in (('state:update', False), ('state:update', True), ('state:write', None), ('run_server', None)):
        r.ok(any(k[0] == d[0] and (d[1] is None or k[1] == d[1]) for k in duties), f'R03 {d[0]} runs in a watched task', P.where, list(duties))
    # duties run nowhere else in a thread that is not watched
    for h, th in P.threads.items():
        if th in P.tasks: continue
        r.ok(not [x for tr in th.traces for x in tr if isinstance(x, Ev) and (x.name.startswith('state:') or x.name == 'run_server')], 'R03 duties run only in watched tasks', th.where)
    for f, line, nm, c in calls(r):
        n = nm.split('::')[-1]
        r.ok(not (n in ('catch_unwind', 'set_hook', 'take_hook') or nm.startswith('tokio::') and n in ('spawn', 'spawn_blocking', 'spawn_local', 'spawn_on') or 'JoinSet' in nm), 'R03 no panic is caught and no task is detached', f'{r.inst(f)}:{line}', nm)
        if re.search(r'std::thread::.*spawn', nm) or nm.endswith('thread::spawn'): r.ok(True, 'R03 thread start seen')
    # the server task ends only with a failure
    for f in r.the('run', 'Server'):
        q = r.run(f, opq(LOGS + [(r'Router', 'router')]), key='srv'); seen = set()
        for tr in r.traces(q):
            for i, x in tkr(tr):
                if x.name.startswith('await') and end(tr).kind == 'ret':
                    d = isv(facts_of(tr), x.ret, 0); seen.add(d)
                    r.ok(d is True, 'R03 a failure of the HTTP server is not ignored', x.where(), tr)
        r.ok(seen == {True}, 'R03 the server waits for hyper', f'{r.inst(f)}:{f.span[1]}', seen)

def apart(r, pid):
    """no two updates run at the same time: one task after another, the former known finished"""
    P = program(r); mons = monitors(r, P); n = 0
    def updates(th): return any(isinstance(x, Ev) and x.name == 'state:update' for tr in th.traces for x in tr)
    for tr in P.main:
        ev = tkr(tr); us = [(i, x) for i, x in ev if x.name in SPAWN and x.ret in P.threads and updates(P.threads[x.ret])]
        n += len(us)
        for (i, x), (j, y) in zip(us, us[1:]):
            cs = {chan_id(z.snap[0]) for m in mons.get(x.ret, []) if m[0] is not None for t3 in m[0].traces for _, z in tkr(t3) if z.name == 'mpsc::send'}
            fin = [z for k, z in ev if i < k < j and (z.name == 'mpsc::recv' and chan_id(z.snap[0]) in cs and isv(facts_of(tr, j), z.ret, 0) is False or z.name == 'thread::join' and mentions(z.snap[0], x.ret))]
            r.ok(fin, f'{pid} updates do not overlap', y.where(), tr)
        if end(tr).kind == 'back':
            at = [i for i, x in enumerate(tr) if isinstance(x, Loop) and x.n == end(tr).val]
            r.ok(not at or not [i for i, x in us if i > at[-1]] or bool([z for z in evs_named(tr[us[-1][0]:], 'mpsc::recv', 'thread::join')]), f'{pid} updates do not overlap', P.where, tr)
    r.ok(n >= 1, f'{pid} update tasks found', P.where)

def holds_sender(x, C):
    """the value owns a sending end of channel C"""
    x = strip_clone(x)
    return x.k == 'sender' and chan_id(x) is C or x.k == 'agg' and x.a[0] != 'joinhandle' and any(isinstance(z, T) and holds_sender(z, C) for z in x.a[2])

def start_checks(r, P):
    """per main trace: index obtained before position of state:new"""
def R04(r):
    r.rule('on every path of main: index loaded, or built and saved; then a first update task finished (all its monitors reported success); only then server and update loop are started')
    P = program(r); mons = monitors(r, P); nlate = 0
    def names(th): return {x.name for tr in th.traces for x in tr if isinstance(x, Ev)}
    def looped(th): return any(isinstance(x, Loop) for tr in th.traces for x in tr)
    iS = r.fx('Configuration', 'store_file_path')
    for tr in P.main:
        ev = tkr(tr); late = [(i, x) for i, x in ev if x.name in SPAWN and x.ret in P.threads and (names(P.threads[x.ret]) & {'run_server', 'create_server'} or 'state:update' in names(P.threads[x.ret]) and looped(P.threads[x.ret]))]
        late += [(i, x) for i, x in ev if x.name in ('run_server',)]
        sn = [(i, x) for i, x in ev if x.name == 'state:new']
        if sn:
            i, x = sn[0]; S = x.snap[0]; ff = facts_of(tr, i)
            lf = [(k, y) for k, y in ev if y.name == 'from_file' and k < i]; fb = [(k, y) for k, y in ev if y.name == 'from_blocks' and k < i]; tf = [(k, y) for k, y in ev if y.name == 'to_file' and k < i]
            loaded = lf and isv(ff, lf[-1][1].ret, 1) is True and same(S, vfld(lf[-1][1].ret, 1, 0))
            built = fb and same(S, fb[-1][1].ret) and tf and tf[-1][0] > fb[-1][0] and same(strip_deref_(tf[-1][1].snap[0]), fb[-1][1].ret)
            r.ok(loaded or built, 'R04 the index is loaded, or built and saved, before anything uses it', x.where(), tr)
            if fb: r.ok(lf and lf[-1][0] < fb[0][0] and isv(facts_of(tr, fb[0][0]), lf[-1][1].ret, 0) is True, 'R04 the index is built only when there is none to load', fb[0][1].where(), tr)
        if not late: continue
        i0 = late[0][0]; nlate += 1
        r.ok(len(sn) == 1 and sn[0][0] < i0, 'R04 one state is served', late[0][1].where(), tr)
        first = []
        for k, x in ev:
            if k < i0 and x.name in SPAWN and x.ret in P.threads:
                th = P.threads[x.ret]
                if th in P.tasks and 'state:update' in names(th): first.append((k, x, th))
        if not r.ok(first, 'R04 a first update runs before requests are served', late[0][1].where(), tr): continue
        okf = False
        for k, x, th in first:
            # every way the task returns, the update has been awaited, on the served state
            good = True
            for t2 in th.traces:
                if is_panic(t2): continue
                us = [y for _, y in tkr(t2) if y.name == 'state:update']
                if not us or await_ret(t2, us[0]) is None or end(t2).kind != 'ret' or not mentions(us[0].snap[0], sn[0][1].ret): good = False
            ms = [m for m in mons.get(x.ret, []) if m[0] is not None]
            fin = False
            if ms:
                cs = {chan_id(y.snap[1 - 1]) for m in ms for t3 in m[0].traces for _, y in tkr(t3) if y.name == 'mpsc::send'}
                if len(cs) == 1:
                    C = cs.pop()
                    rc = [(j, y) for j, y in ev if j < i0 and j > k and y.name == 'mpsc::recv' and chan_id(y.snap[0]) is C]
                    n, ex, bad = final_receives(r, P, C)
                    fin = rc and isv(facts_of(tr, i0), rc[-1][1].ret, 0) is False and bad is None
                    # main's own sender is gone, or it would wait forever
            else:
                js = [(j, y) for j, y in ev if k < j < i0 and y.name == 'thread::join' and mentions(y.snap[0], x.ret)]
                fin = js and isv(facts_of(tr, i0), js[0][1].ret, 0) is True
            okf = okf or (good and fin)
        r.ok(okf, 'R04 the first update has finished successfully before server and update loop start', late[0][1].where(), tr)
    r.ok(nlate, 'R04 server and update loop found', P.where)
    # requests read the state only through the server
    for h, th in P.threads.items():
        for tr in th.traces:
            cs = [(i, x) for i, x in tkr(tr) if x.name == 'create_server']; rs = [(i, x) for i, x in tkr(tr) if x.name == 'run_server']
            for i, x in rs: r.ok([c for k, c in cs if k < i and same(x.snap[0], c.ret)], 'R04 the served routes are those created', x.where(), tr)
def mentions(x, y): return any(z is y for z in subterms(x))
def strip_deref_(x):
    x = N(x)
    while x.k in ('deref', 'ref', 'ver', 'clone'):
        if x.k == 'ref':
            if x.a[0][0] != 'X' or x.a[1]: return x
            x = N(x.a[0][1])
        elif x.k == 'clone': x = N(x.a[1])
        else: x = N(x.a[0])
    return x

def P03(r):
    r.rule('an update that folded is followed, before the next wait, by exactly one message to (or call of) the save; the save task writes to the configured file once per message and ends with the channel; load and first save use the same path')
    P = program(r); iS = r.fx('Configuration', 'store_file_path'); nu = nw = 0
    def ispath(x, tr=None):
        x = strip_deref_(x)
        return x.k == 'fld' and x.a[1] == iS and x.a[0].k == 'ev' and x.a[0].a[1] == 'cfg'
    for tr in P.main:
        ev = tkr(tr)
        for i, x in ev:
            if x.name == 'from_file': r.ok(ispath(x.snap[0]), 'P03 the index is loaded from the configured file', x.where(), x)
            if x.name == 'to_file':
                r.ok(ispath(x.snap[1]), 'P03 the built index is saved to the configured file', x.where(), x)
                fb = [y for k, y in ev if k < i and y.name == 'from_blocks']
                r.ok(fb and same(strip_deref_(x.snap[0]), fb[-1].ret), 'P03 main saves only the index it built', x.where(), tr)
                r.ok(not [y for k, y in ev if k < i and (y.name in SPAWN or y.name == 'state:new')], 'P03 the built index is saved before anything else starts', x.where(), tr)
        fb = [(i, x) for i, x in ev if x.name == 'from_blocks']
        if fb and not is_panic(tr): r.ok(len([1 for i, x in ev if x.name == 'to_file' and i > fb[-1][0]]) == 1, 'P03 a newly built index is saved', fb[-1][1].where(), tr)
        r.ok(not [1 for i, x in ev if x.name in ('state:update', 'state:write')], 'P03 main itself does not update', P.where, tr)
    chans = set()
    for h, th in P.threads.items():
        for tr in th.traces:
            ev = tkr(tr)
            us = [(i, x) for i, x in ev if x.name == 'state:update']
            for n, (i, x) in enumerate(us):
                nu += 1
                b = await_ret(tr, x)
                if is_panic(tr) and b is None: continue
                if not r.ok(b is not None, 'P03 an update is awaited', x.where(), tr): continue
                j = next(k for k, y in ev if y.name == 'await' and y.ret is b)
                stop = us[n + 1][0] if n + 1 < len(us) else len(tr)
                seg = [(k, y) for k, y in ev if j < k < stop]
                sends = [(k, y) for k, y in seg if y.name == 'await:tokio::send']; wr = [(k, y) for k, y in seg if y.name == 'state:write']
                ff = facts_of(tr); d = decide(ff, b)
                if d is True:
                    if r.ok(len(sends) + len(wr) == 1, 'P03 an update that folded blocks triggers a save', x.where(), tr):
                        k = (sends + wr)[0][0]
                        r.ok(not [y for kk, y in seg if kk < k and y.name.startswith('await') and y.name != 'await:tokio::send' and not (wr and y.snap and y.snap[0] is wr[0][1].ret)], 'P03 the save is triggered before the next wait', x.where(), tr)
                    for k, y in sends: chans.add(chan_id(y.snap[0]))
                    for k, y in wr: nw += 1; r.ok(ispath(y.snap[1]) and await_ret(tr, y) is not None, 'P03 the index is saved to the configured file', y.where(), tr)
                elif d is False: r.ok(not sends and not wr, 'P03 a save is triggered only after a fold', x.where(), tr)
                else: r.ok(False, 'P03 whether an update folded decides whether it is saved', x.where(), tr)
    r.ok(nu >= 2, 'P03 updates found', P.where, nu)
    for C in chans:
        if not r.ok(C is not None, 'P03 saves are triggered over a channel', P.where): continue
        cons = []
        for h, th in P.threads.items():
            rc = [(tr, i, x) for tr in th.traces for i, x in tkr(tr) if x.name.endswith('tokio::recv') and chan_id(x.snap[0]) is C]
            if not rc: continue
            cons.append(th)
            for tr, i, x in rc:
                ff = facts_of(tr); d = isv(ff, x.ret, 1)
                nxt = [k for k, y in tkr(tr) if k > i and y.name.endswith('tokio::recv')]
                wr = [(k, y) for k, y in tkr(tr) if y.name == 'state:write' and k > i and not (nxt and k > nxt[0])]
                if d is True:
                    if is_panic(tr): continue
                    nw += 1
                    r.ok(len(wr) == 1 and ispath(wr[0][1].snap[1]) and await_ret(tr, wr[0][1]) is not None, 'P03 every message saves the index to the configured file', x.where(), tr)
                    r.ok(end(tr).kind == 'back', 'P03 the save task goes on after a save', x.where(), tr)
                else: r.ok(d is False and not wr and end(tr).kind == 'ret', 'P03 the save task ends with the channel', x.where(), tr)
        r.ok(len({strip_store(th.clo) for th in cons}) == 1 if cons else False, 'P03 one task consumes the triggers', P.where, [show(t_.clo, 3) for t_ in cons])
        for tr in P.main:
            if end(tr).kind == 'ret': r.ok([1 for _, x in tkr(tr) if x.name in SPAWN and x.ret in P.threads and P.threads[x.ret] in cons], 'P03 the save task is started', P.where, tr)
    # no other saves
    for h, th in P.threads.items():
        for tr in th.traces:
            for i, x in tkr(tr):
                if x.name in ('state:write', 'to_file'):
                    prev = [y for k, y in tkr(tr) if k < i and (y.name == 'state:update' or y.name.endswith('tokio::recv') and chan_id(y.snap[0]) in chans)]
                    r.ok(prev and x.name == 'state:write', 'P03 nothing else saves', x.where(), tr)
    r.ok(nw, 'P03 saves found', P.where)
    w = r.one('write', 'State'); q = r.run(w, opq(LOGS + [(r'(^|::)Store::to_file$', 'to_file')]), key='wr')
    from .chain import SF, ploc
    s = SF(r)
    for tr in r.traces(q):
        tf = evs_named(tr, 'to_file')
        r.ok(is_panic(tr) or len(tf) == 1 and same(tf[0].snap[1], t('param', 1)) and (ploc(tf[0].snap[0]) or ())[:3] == s.STOREV, 'P03 a save writes the shared index to the given file', f'{r.inst(w)}:{w.span[1]}', tr)
    # an update reports a fold exactly when it folded
    from .chain import update
    up = r.one('update', 'State'); seen = set()
    for tr in r.traces(update(r)):
        if end(tr).kind != 'ret': continue
        v = end(tr).val
        po = evs_named(tr, 'pop')
        ff = facts_of(tr)
        wl = [x for x in tr if isinstance(x, Ev) and x.name.endswith(':write') and loc(x.snap[0]) == s.STORE]
        if v is TRUE: seen.add(1); r.ok(po and decide(ff, eq0(length(po[0].ret))) is False, 'P03 an update reports a fold only when there was one', f'{r.inst(up)}:{up.span[1]}', tr)
        elif v is FALSE: seen.add(0); r.ok(not po or decide(ff, eq0(length(po[0].ret))) is True, 'P03 an update that folded says so', f'{r.inst(up)}:{up.span[1]}', tr)
        else: r.ok(po and N(v) is N(not_(eq0(length(po[0].ret)))), 'P03 an update says whether it folded', f'{r.inst(up)}:{up.span[1]}', tr)
    r.ok(seen >= {0, 1} or seen, 'P03 both outcomes present', f'{r.inst(up)}:{up.span[1]}', seen)
def strip_store(c):
    """closures that differ only in how the index was obtained are the same"""
    return c.a[0] if c.k == 'agg' else c

ENVS = {'HOST': ('IpAddr', '127.0.0.1'), 'PORT': ('u16', 8000), 'THREADS': ('usize', None), 'BATCH_SIZE': ('usize', None), 'STORE_FILE_PATH': (None, None), 'BLOCK_FILES_PATH': (None, None),
        'UPDATE_INTERVAL': ('u64', 1000), 'CONFIRMATIONS': ('usize', 6), 'RPC_SERVER_HOST': (None, None), 'RPC_SERVER_PORT': ('u16', None), 'RPC_SERVER_USER': (None, None), 'RPC_SERVER_PASSWORD': (None, None)}
def cfg_no(x):
    """the number of the configuration field x is, else None"""
    x = strip_deref_(x)
    return x.a[1] if x.k == 'fld' and x.a[0].k == 'ev' and x.a[0].a[1] == 'cfg' else None
def env_name(x):
    return x.a[1][0].a[0] if x.k == 'app' and x.a[0] == 'env::var' and x.a[1] and x.a[1][0].k == 'str' else None
def R05(r):
    r.rule('each use site of a setting takes the configuration field that every returning path of Configuration::new fills from its own environment variable (parsed, or the documented default when absent); absent or malformed values have no returning path')
    P = program(r); uses = {}
    def use(var, x, where):
        k = cfg_no(x)
        r.ok(k is not None, f'R05 {var} comes from the configuration', where, x)
        if k is not None: uses.setdefault(var, {})[k] = where
    nconf = [i for i, n in enumerate(state_new_args(r)) if n == 'usize']
    for tr in P.main + [tr for th in P.threads.values() for tr in th.traces]:
        for i, x in tkr(tr):
            if x.name == 'from_file': use('STORE_FILE_PATH', x.snap[0], x.where())
            elif x.name in ('to_file', 'state:write'): use('STORE_FILE_PATH', x.snap[1], x.where())
            elif x.name == 'reader_new': use('BLOCK_FILES_PATH', x.snap[0], x.where())
            elif x.name == 'scan_blocks': use('THREADS', x.snap[1], x.where())
            elif x.name == 'from_blocks': use('THREADS', x.snap[1], x.where()); use('BATCH_SIZE', x.snap[2], x.where())
            elif x.name == 'client_new':
                for n, v in enumerate(('RPC_SERVER_HOST', 'RPC_SERVER_PORT', 'RPC_SERVER_USER', 'RPC_SERVER_PASSWORD')): use(v, x.snap[n], x.where())
            elif x.name == 'state:new': use('CONFIRMATIONS', x.snap[nconf[0]], x.where())
            elif x.name == 'await:tokio::sleep':
                d = N(x.snap[0])
                if r.ok(d.k == 'app' and d.a[0] == 'Duration::from_millis', 'R05 the update interval is in milliseconds', x.where(), d): use('UPDATE_INTERVAL', d.a[1][0], x.where())
            elif x.name == 'run_server':
                d = N(x.snap[1])
                if r.ok(d.k == 'app' and d.a[0] == 'SocketAddr::new', 'R05 the server address is host and port', x.where(), d): use('HOST', d.a[1][0], x.where()); use('PORT', d.a[1][1], x.where())
    # the update loop does sleep
    ul = [tr for th in P.tasks for tr in th.traces if any(isinstance(x, Loop) for x in tr) and evs_named(tr, 'state:update')]
    r.ok(ul and all(evs_named(tr, 'await:tokio::sleep') for tr in ul), 'R05 updates are separated by the interval', P.where)
    for v in ENVS: r.ok(len(uses.get(v, {})) == 1, f'R05 {v} is used for its purpose, from one setting', P.where, uses.get(v))
    f = r.one('new', 'Configuration'); w = f'{r.inst(f)}:{f.span[1]}'
    q = r.run(f, opq(LOGS), key='cfg', part=300); nret = 0; seen = {}
    for tr in r.traces(q):
        if end(tr).kind != 'ret': continue
        nret += 1; ff = facts_of(tr); v = end(tr).val
        for var, (ty, dfl) in ENVS.items():
            ks = list(uses.get(var, {}))
            if len(ks) != 1: continue
            x = N(fld(v, ks[0]))
            names = {env_name(y) for y in subterms(x)} - {None}
            e = t('app', 'env::var', (t('str', var),))
            pres = isv(ff, e, 0)
            if pres is True:
                val = vfld(e, 0, 0)
                if ty is None: good = x is N(val)
                else:
                    good = x.k == 'vfld' and x.a[1] == 0 and x.a[0].k == 'app' and x.a[0].a[0] == 'parse' and ty in show(x.a[0].a[1][0], 5) and N(x.a[0].a[1][1]) is N(val) and isv(ff, x.a[0], 0) is True
                r.ok(good, f'R05 {var} determines its setting', w, (x, tr))
                seen.setdefault(var, set()).add('set')
            elif pres is False:
                if r.ok(dfl is not None, f'R05 {var} is mandatory', w, tr):
                    if isinstance(dfl, int): good = is_int(x) and x.a[0] == dfl
                    else: good = x.k == 'vfld' and x.a[0].k == 'app' and x.a[0].a[0] == 'parse' and x.a[0].a[1][1].k == 'str' and x.a[0].a[1][1].a[0] == dfl or is_localhost(x)
                    r.ok(good, f'R05 {var} has its documented default', w, x)
                    seen.setdefault(var, set()).add('default')
            else: r.ok(False, f'R05 {var} is looked up', w, (x, tr))
    for var, (ty, dfl) in ENVS.items(): r.ok(seen.get(var, set()) == ({'set'} if dfl is None else {'set', 'default'}), f'R05 cases of {var} present', w, seen.get(var))
    # nobody changes the configuration afterwards
    for g, line, how in struct_writers(r, 'Configuration'): r.ok(False, 'R05 settings never change', f'{r.inst(g)}:{line}', how)
    # what the parts do with their settings
    f = r.one('new', 'Client'); iU = r.fx('Client', 'uri'); iA = r.fx('Client', 'authorization')
    for tr in r.traces(r.run(f, opq(LOGS + [(r'base64::encode', 'base64'), (r'base64::encode::encode$', 'base64')]), key='cl')):
        if is_panic(tr): continue
        v = end(tr).val; u = text(fld(v, iU)); a = text(fld(v, iA))
        good = len(u) == 4 and u[0] == 'http://' and u[2] == ':' and isarg(u[1], 0) and isarg(u[3], 1)
        r.ok(good, 'R05 requests go to the configured host and port', f'{r.inst(f)}:{f.span[1]}', u)
        good = len(a) == 2 and a[0] == 'Basic ' and isinstance(a[1], T) and a[1].k == 'ev' and a[1].a[1] == 'base64'
        if good:
            c = text(a[1].a[2][0]); good = len(c) == 3 and c[1] == ':' and isarg(c[0], 2) and isarg(c[2], 3)
        r.ok(good, 'R05 requests are authorized with the configured user and password', f'{r.inst(f)}:{f.span[1]}', a)
    from .chain import SF
    s = SF(r)
    f = r.one('new', 'State')
    for tr in r.traces(r.run(f, opq(LOGS), key='sn')):
        if not is_panic(tr): r.ok(same(fld(end(tr).val, s.conf), t('param', nconf[0])), 'R05 the state keeps the configured confirmations', f'{r.inst(f)}:{f.span[1]}', end(tr).val)
    f = r.one('confirmations', 'State')
    for tr in r.traces(r.run(f, opq(LOGS), key='sn')): r.ok(same(end(tr).val, fld(t('param', 0), s.conf)), 'R05 the state reports the configured confirmations', f'{r.inst(f)}:{f.span[1]}', end(tr).val)
    for g, line, how in struct_writers(r, 'State', {s.conf}): r.ok(False, 'R05 the confirmations never change', f'{r.inst(g)}:{line}', how)
    for f in r.the('run', 'Server'):
        n = 0
        for tr in r.traces(r.run(f, opq(LOGS + [(r'Router', 'router')]), key='srv')):
            for x in evs_named(tr, 'Server::bind'): n += 1; r.ok(strip_deref_(x.snap[0]) is t('param', 1), 'R05 the server listens at the configured address', x.where(), x)
        r.ok(n, 'R05 the server is bound', f'{r.inst(f)}:{f.span[1]}')
    for f in r.the('from_blocks', 'Store'):
        nt = nb = 0; w = f'{r.inst(f)}:{f.span[1]}'
        for tr in r.traces(r.run(f, opq(LOGS + [(r'SequentialThreadPool::new$', 'pool'), (r'ThreadPool::new$', 'pool'), (r'SequentialThreadPool<.*::next$', 'next'), (r'::merge$', 'merge'), (r'Batcher::new$', 'batcher'), (r'Store::add_block$', 'add_block'), (r'BlockTrait>::height$', 'height')]), key='fb')):
            for x in evs_named(tr, 'pool'): nt += 1; r.ok(t('param', 1) in [strip_deref_(y) for y in x.snap] and t('param', 2) not in [strip_deref_(y) for y in x.snap], 'R05 the thread setting sizes the pool', x.where(), x)
            for x in evs_named(tr, 'batcher'): nb += 1; r.ok(t('param', 2) in [strip_deref_(y) for y in x.snap] and t('param', 1) not in [strip_deref_(y) for y in x.snap], 'R05 the batch size setting sizes the batches', x.where(), x)
        r.ok(nt and nb, 'R05 pool and batches found', w, (nt, nb))
def isarg(x, n): return isinstance(x, T) and strip_deref_(N(x)) is t('param', n)
def is_localhost(x):
    s = show(x, 8)
    return bool(re.search(r'Ipv4Addr::new.*\(127,0,0,1\)|LOCALHOST|^(IpAddr#0\{)?(Ipv4Addr#0\{)?array#0\{127, 0, 0, 1\}\}*$', s)) and '::1' not in s
def state_new_args(r):
    f = r.one('new', 'State')
    return [r.p.tys(ty) for ty in f.locals[1:1 + f.argc]] if hasattr(f, 'argc') else [r.p.tys(ty) for ty in f.locals[1:4]]

# ---------------------------------------------------------------------- logging
LOGTY = ('Logger', 'PartialLogger', 'Chronometer')
def log_fn(f):
    p = strip_generics(f.path)
    return f.local and bool(re.search(r"(^|[:<])(%s)(<[^>]*>)?( as [^>]*)?>?::[a-z_]\w*(::\{closure#\d+\})?$" % '|'.join(LOGTY), p))
def R07(r):
    r.rule('no path of the logging code fails for any clock reading, counter or message, and it changes nothing but its own counter; neither does composing a message (the closures given to it, run with the values they capture where they are made)')
    texts_total(r)
    meth = [f for f in r.p.fns.values() if f.blocks and not f.synth and f.kind == 'fn' and log_fn(f)]
    r.need([f for f in meth if f.name == 'log'], 'the logging functions')
    done = set(); npath = 0; inner = set()
    def excused(tr):
        s = str(end(tr).val)
        # a counter of log lines does not reach 2^64
        return 'verflow' in s and bool(re.search(r'\b(Add|Mul)\b', str([x.t for x in tr if isinstance(x, Cond)][-1:])))
    for f in meth:
        if 'PartialLogger' in f.path and f.name == 'log': continue          # below, where it is called
        q = r.run(f, key='log'); w = f'{r.inst(f)}:{f.span[1]}'
        for tr in r.traces(q):
            npath += 1
            if is_panic(tr): r.ok(excused(tr), 'R07 logging does not fail', w, tr); continue
            for e in effects(tr): r.ok('PartialLogger' in f.path and e.loc[0] == ('p', 0), 'R07 logging changes nothing else', w, e)
    # where messages are composed
    up = callgraph(r)
    part = [f for f in meth if 'PartialLogger' in f.path and f.name == 'log']
    callers = {i for f in part for i in up.get(f.id, ()) if i in r.p.fns}
    n = 0; ids = {g.id for g in part}
    for i in sorted(callers):
        f = r.p.fns[i]
        if f.synth or not f.local or log_fn(f): continue
        while f.kind == 'closure':
            ups = [r.p.fns[j] for j in up.get(f.id, ()) if j in r.p.fns]
            if not ups: break
            f = ups[0]
        if f.id in done: continue
        done.add(f.id)
        others = {}
        def o(g):
            if log_fn(g) or g.kind == 'closure': return None
            others.setdefault('other:' + g.name, []).append(g)
            return 'other:' + g.name
        q = r.run(f, o, key='plog', part=60); q.others = others; w = f'{r.inst(f)}:{f.span[1]}'
        def inside(ctx):
            fr = q.it.ftab[ctx]
            while fr is not None:
                if fr.fn.id in ids: return True
                fr = fr.parent if not isinstance(fr.parent, int) else q.it.ftab[fr.parent]
            return False
        for tr in r.traces(q):
            npath += 1
            ins = [x for x in tr if isinstance(x, Ev) and inside(x.e.ctx)]
            if not ins: continue
            n += 1
            if is_panic(tr) and ins[-1].kind == 'panic': r.ok(excused(tr), 'R07 composing a log message does not fail', w, tr)
            at = {id(x) for x in ins}
            for e in effects(tr):
                if id(e.ev) not in at: continue
                root = e.loc[0]
                fresh = isinstance(root, tuple) and root[0] == 'new' and root[1].a[1].k == 'site' and inside(root[1].a[1].a[0])
                r.ok(fresh, 'R07 composing a log message changes nothing', w, (e.op, e.loc, e.args))
            for x in ins:
                if x.name.startswith('other:'): inner.update(g.id for g in q.others.get(x.name, ()))
    # a message cannot be given anything to change
    for f in part:
        for y in f.locals[1:f.argc + 1]:
            x = r.p.types[y]
            if x['k'] == 'closure': r.ok(not [u for u in x.get('up', ()) if r.p.types[u]['k'] == 'ref' and r.p.types[u].get('mut')], 'R07 composing a log message holds nothing it can change', r.inst(f), x)
    # what the messages call
    for i in sorted(inner):
        f = r.p.fns[i]
        if not f.blocks: continue
        q = r.run(f, key='inner'); w = f'{r.inst(f)}:{f.span[1]}'
        for tr in r.traces(q):
            npath += 1
            if is_panic(tr): r.ok(excused(tr), 'R07 composing a log message does not fail', w, tr)
            r.ok(not effects(tr) or all(e.loc[0][0] == 'new' for e in effects(tr)), 'R07 composing a log message changes nothing', w, effects(tr))
    if part: r.ok(n, 'R07 messages are composed somewhere', part[0].path, callers)

# ---------------------------------------------------------------------- R09
def R09(r):
    r.rule('no trace of the update task returns, and every round of it awaits an update; the save task returns only where its channel is known closed, the server task only after the server; the server awaits what hyper serves, unbounded; tasks fail only with something that failed')
    P = program(r); seen = set()
    for h, th in P.threads.items():
        names = {x.name for tr in th.traces for x in tr if isinstance(x, Ev)}
        loop = any(isinstance(x, Loop) for tr in th.traces for x in tr)
        if 'run_server' in names: what = 'serve'
        elif 'state:update' in names and loop: what = 'update'
        elif 'state:write' in names: what = 'save'
        else: continue
        seen.add(what); back = 0
        for tr in th.traces:
            e = end(tr); ff = facts_of(tr)
            if is_panic(tr):
                r.ok(has_cause(tr, ff), 'R09 a task stops only because something failed', th.where, tr); continue
            if what == 'update':
                us = [x for x in evs_named(tr, 'state:update') if await_ret(tr, x) is not None]
                if e.kind == 'back': back += 1; r.ok(us, 'R09 every round of the update task updates', th.where, tr)
                else: r.ok(False, 'R09 updating never ends', th.where, tr)
            elif what == 'save':
                rc = [x for x in tr if isinstance(x, Ev) and x.name.endswith('tokio::recv')]
                if e.kind == 'back': back += 1; r.ok(rc, 'R09 every round of the save task waits for a message', th.where, tr)
                else: r.ok(e.kind == 'ret' and rc and isv(ff, rc[-1].ret, 0) is True, 'R09 saving ends only with updating', th.where, tr)
            else:
                rs = evs_named(tr, 'run_server')
                r.ok(e.kind == 'ret' and len(rs) == 1 and await_ret(tr, rs[0]) is not None, 'R09 the server task runs the server until it ends', th.where, tr)
        if what != 'serve': r.ok(back, 'R09 the task goes on', th.where, what)
    for d in ('update', 'save', 'serve'): r.ok(d in seen, 'R09 updating, saving and serving are tasks', P.where, d)
    # waiting for a channel to close ends only when main does not hold a sending end itself
    for tr in P.main:
        for i, x in tkr(tr):
            if x.name != 'mpsc::recv' or isv(facts_of(tr), x.ret, 0) is not False: continue
            C = chan_id(x.snap[0])
            gone = [y for k, y in tkr(tr[:i]) if y.kind == 'drop' and holds_sender(y.snap[0], C)]
            r.ok(gone, 'R09 main goes on once the tasks it waits for have ended', x.where(), tr)
    for f in r.the('run', 'Server'):
        q = r.run(f, opq(LOGS + [(r'Router', 'router')]), key='srv'); n = 0; w = f'{r.inst(f)}:{f.span[1]}'
        for tr in r.traces(q):
            if end(tr).kind != 'ret': continue
            sv = [x for x in tr if isinstance(x, Ev) and re.search(r'Builder::serve$|axum::serve$', x.name)]
            aw = [x for x in tr if isinstance(x, Ev) and x.name.startswith('await') and sv and x.snap[0] is sv[-1].ret]
            n += 1
            r.ok(len(sv) == 1 and aw, 'R09 the server serves until hyper fails', w, tr)
        r.ok(n, 'R09 the server was analysed', w)
def has_cause(tr, ff):
    """something fallible is known to have failed on the path, or a 64-bit count has run full"""
    v = end(tr).val
    if 'verflow' in str(v): return bool([1 for x in conds(tr)[-1:] for y in subterms(x) if y.k == 'ovf' and y.a[-1] == 64])
    cs = conds(tr)
    return bool(cs) and any(y.k == 'is' and y.a[0].k in ('ev', 'app') and not str(y.a[0].a[1 if y.a[0].k == 'ev' else 0]).endswith('recv') and isv(ff, y.a[0], 1) is True for y in subterms(cs[-1]))
RULES = {k: v for k, v in globals().items() if re.fullmatch(r'[A-Z]\d\d', k)}
