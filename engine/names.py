"""Names of the analysed program. The rules find what they are about by name (type, field, method).
A declaration that was only given another name is recognised by its place, its signature and what it
calls, and the facts are read under the name it has in the recorded table (names.json); a name that is
in both trees is never touched. Which declaration a rule looks at is all this decides."""
import json, os, re, difflib

TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.json')

def cut(s):
    """s without generic arguments (a leading `<X as T>` stays)"""
    out = []; i = 0
    if s.startswith('<') and not s.startswith('<impl'):
        d = 0
        for j, ch in enumerate(s):
            if ch == '<': d += 1
            elif ch == '>' and s[j - 1] != '-':
                d -= 1
                if d == 0: break
        inner = s[1:j]; a, _, b = inner.partition(' as ')
        return '<' + cut(a) + (' as ' + cut(b) if b else '') + '>' + cut(s[j + 1:])
    d = 0
    for j, ch in enumerate(s):
        if ch == '<': d += 1
        elif ch == '>' and s[j - 1:j] != '-': d -= 1
        elif d == 0: out.append(ch)
    return ''.join(out).replace('::::', '::').rstrip(':') if not s.endswith('>') else re.sub(r'::$', '', ''.join(out).replace('::::', '::'))

def split(p):
    """(scope, name) of a cut path"""
    if p.startswith('<'):
        i = p.rindex('>::'); return p[:i + 1], p[i + 3:]
    a, _, b = p.rpartition('::')
    return a, b

def local_fns(d):
    for f in d['fns']:
        if f.get('local') and f.get('kind') == 'fn' and not f.get('auto') and '{' not in f['path']: yield f

def describe(d):
    tys = [x['s'] for x in d['types']]
    T = {}
    for x in d['types']:
        if x['k'] == 'adt' and x.get('local') and x['path'] not in T:
            T[x['path']] = [x.get('ak'), [[v[0], [[n, tys[t]] for n, t in v[2]] if v[2] is not None else None] for v in x.get('variants') or []]]
    F = {}
    for f in local_fns(d):
        p = cut(f['path'])
        e = F.setdefault(p, {'file': f['span'][0], 'sig': [], 'calls': []})
        sg = [tys[t] for t in f['locals'][:f['argc'] + 1]]
        if sg not in e['sig']: e['sig'].append(sg)
        def walk(o):
            if isinstance(o, dict):
                if isinstance(o.get('fn'), dict) and 'name' in o['fn']: e['calls'].append(o['fn']['name'])
                for v in o.values(): walk(v)
            elif isinstance(o, list):
                for v in o: walk(v)
        walk(f.get('blocks', []))
    # the body of an async function or of closures counts as the function's
    for f in d['fns']:
        if f.get('local') and '{' in f['path']:
            p = cut(f['path'].split('::{')[0])
            if p in F:
                e = F[p]
                def walk(o):
                    if isinstance(o, dict):
                        if isinstance(o.get('fn'), dict) and 'name' in o['fn']: e['calls'].append(o['fn']['name'])
                        for v in o.values(): walk(v)
                    elif isinstance(o, list):
                        for v in o: walk(v)
                walk(f.get('blocks', []))
    for e in F.values(): e['calls'] = sorted(set(e['calls'])); e['sig'].sort()
    R = {}
    for im in d['impls']:
        t = im['trait']
        if any(t == x for x in R) or t.split('::')[0] in {p.split('::')[0] for p in T}: R.setdefault(t, set()).add(im['method'])
    roots = {e['file'][4:-3].split('/')[0] for e in F.values()}
    for p in F:
        sc, nm = split(p)
        if ' as ' in sc:
            t = sc[1:-1].split(' as ')[1]
            if t.split('::')[0] in roots: R.setdefault(t, set()).add(nm)
    return {'types': T, 'fns': F, 'traits': {k: sorted(v) for k, v in R.items()}}

def module(path): return path.rpartition('::')[0]

def sub_text(text, new, old):
    """every occurrence of the declaration path `new` becomes `old`"""
    return re.sub(r'(?<![\w:])' + re.escape(new) + r'(?![\w])', old, text)

def jac(a, b):
    a, b = set(a), set(b)
    return 1.0 if not a and not b else len(a & b) / len(a | b)

def pairs(missing, fresh, score, least):
    """best matching, greedily, of what is missing with what is new"""
    c = sorted(((score(m, n), m, n) for m in missing for n in fresh), key=lambda x: (-x[0], x[1], x[2]))
    out = {}; used = set()
    for s, m, n in c:
        if s < least or m in out or n in used: continue
        out[m] = n; used.add(n)
    return out

def canonical(text, log=None):
    """the facts (JSON text), under the recorded names"""
    d = json.loads(text)
    try: base = json.load(open(TABLE))
    except OSError: return d
    log = log if log is not None else []
    # modules
    def mods(F): 
        out = {}
        for p, e in F.items():
            if not p.startswith('<'):
                out.setdefault(e['file'], []).append(p)
        return out
    cur = describe(d)
    def again(t):
        nonlocal text, d, cur
        text = t; d = json.loads(text); cur = describe(d)
    name_of = lambda file: file[4:-3].replace('/mod', '').replace('/', '::')
    B = {name_of(e['file']) for e in base['fns'].values()}; C = {name_of(e['file']) for e in cur['fns'].values()}
    rel = lambda F, T, m: {p[len(m) + 2:] for p in list(F) + list(T) if p.startswith(m + '::')}
    for m, n in pairs(B - C, C - B, lambda m, n: jac(rel(base['fns'], base['types'], m), rel(cur['fns'], cur['types'], n)), 0.6).items():
        log.append((n, m)); again(re.sub(r'(?<![\w:])' + re.escape(n) + r'::', m + '::', text))
    # types
    def tscore(m, n):
        a, b = base['types'][m], cur['types'][n]
        if a[0] != b[0] or module(m) != module(n): return 0
        la, lb = m.rpartition('::')[2], n.rpartition('::')[2]
        own = lambda v, l: [[x.replace(l, '@') if x is not None else x, [[fn, ft.replace(l, '@')] for fn, ft in fs] if fs is not None else None] for x, fs in v]
        fa = {(fn, ft) for _, fs in own(a[1], la) for fn, ft in fs or []}; fb = {(fn, ft) for _, fs in own(b[1], lb) for fn, ft in fs or []}
        ta = sorted(ft for _, ft in fa); tb = sorted(ft for _, ft in fb)
        va = {x for x, _ in a[1]} if a[0] == 'enum' else set(); vb = {x for x, _ in b[1]} if b[0] == 'enum' else set()
        meths = lambda F, p: {split(k)[1] for k in F if split(k)[0] == p or split(k)[0].startswith('<' + p + ' ')}
        s = jac(fa, fb) + (0.5 if ta == tb else 0) + jac(va, vb) * (a[0] == 'enum') + jac(meths(base['fns'], m), meths(cur['fns'], n))
        return s
    mt = pairs(set(base['types']) - set(cur['types']), set(cur['types']) - set(base['types']), tscore, 0.9)
    mr = pairs(set(base['traits']) - set(cur['traits']), set(cur['traits']) - set(base['traits']), lambda m, n: jac(base['traits'][m], cur['traits'][n]) * (module(m) == module(n)), 0.5)
    t2 = text
    for m, n in list(mt.items()) + list(mr.items()): log.append((n, m)); t2 = sub_text(t2, n, m)
    if t2 is not text: again(t2)
    # functions
    def fscore(m, n):
        a, b = base['fns'][m], cur['fns'][n]
        if split(m)[0] != split(n)[0]: return 0
        def own(e, p):
            l = split(p)[1]
            gen = lambda x: re.sub(r'\{async fn body of .*\}', '{async}', re.sub(r'\{closure@[^}]*\}', '{closure}', x))
            return [[gen(x) for x in sg] for sg in e['sig']], ['@' if c == l else c for c in e['calls']]
        sa, ca = own(a, m); sb, cb = own(b, n)
        same = any(x in sb for x in sa)
        if not same and len(sa[0]) != len(sb[0]): return 0
        return (1 if same else 0) + jac(ca, cb) + 0.3 * difflib.SequenceMatcher(None, split(m)[1], split(n)[1]).ratio()
    missing = set(base['fns']) - set(cur['fns']); fresh = set(cur['fns']) - set(base['fns'])
    mf = pairs(missing, fresh, fscore, 1.0) if missing and fresh else {}
    if mf:
        to = {n: m for m, n in mf.items()}
        for m, n in mf.items():
            log.append((n, m)); sc = split(n)[0]
            if ' as ' in sc:
                tr = sc[1:-1].split(' as ')[1]
                if tr in base['traits'] or tr in cur['traits']: to.setdefault(tr + '::' + split(n)[1], tr + '::' + split(m)[1])
        def hit(s):
            h, br, rest = s.partition('::{')
            c = cut(h)
            if c not in to: return None
            old = split(to[c])[1]; new = split(c)[1]
            i = h.rindex(new)
            return h[:i] + old + h[i + len(new):] + br + rest, old
        def walk(o):
            if isinstance(o, dict):
                nm = None
                for k in ('path', 'decl', 'res', 'parent'):
                    if isinstance(o.get(k), str):
                        r = hit(o[k])
                        if r: 
                            o[k] = r[0]
                            if k != 'parent' and '{' not in o[k]: nm = r[1]
                if nm is not None and isinstance(o.get('name'), str) and o['name']: o['name'] = nm
                if 'method' in o and 'trait' in o:
                    x = to.get(o['trait'] + '::' + o['method'])
                    if x: o['method'] = split(x)[1]
                for v in o.values(): walk(v)
            elif isinstance(o, list):
                for v in o: walk(v)
        walk(d)
    # fields and variants
    tys = [x['s'] for x in d['types']]
    for x in d['types']:
        b = base['types'].get(x.get('path')) if x['k'] == 'adt' and x.get('local') else None
        if not b or len(b[1]) != len(x.get('variants') or []): continue
        bn = {v[0] for v in b[1]}; cn = {v[0] for v in x['variants']}
        for bv, cv in zip(b[1], x['variants']):
            if bv[0] not in cn and cv[0] not in bn: cv[0] = bv[0]
            if bv[0] != cv[0] or not bv[1] or not cv[2]: continue
            have = {n for n, _ in cv[2]}; had = {n for n, _ in bv[1]}
            gone = [f for f in bv[1] if f[0] not in have]; came = [f for f in cv[2] if f[0] not in had]
            head = lambda s: re.sub(r'<.*', '', s)
            for g in gone:
                c = [f for f in came if head(tys[f[1]]) == head(g[1])]
                exact = [f for f in c if tys[f[1]] == g[1]]
                if exact: c = exact
                if len(c) > 1:
                    pos = [f for f in c if cv[2].index(f) == bv[1].index(g)]
                    if len(pos) == 1: c = pos
                    elif len([h for h in gone if head(h[1]) == head(g[1])]) == len(c): c = c[:1]
                if len(c) == 1: log.append((x['path'] + '.' + c[0][0], g[0])); came.remove(c[0]); c[0][0] = g[0]
    return d

if __name__ == '__main__':
    import sys
    json.dump(describe(json.load(open(sys.argv[1]))), open(TABLE, 'w'), indent=0, sort_keys=True)
