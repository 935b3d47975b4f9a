"""Models of the std / tokio / hyper / serde_json operations the crate uses, as transfer functions of the dataflow.

Container mutations and effects emit events; pure accessors become provenance terms; iterator adaptors and consumers are
expanded into explicit loops, so that `for`, index and iterator forms of one loop give the same terms."""
from .terms import *
from . import terms as TM
from .interp import assume, decide, NVAR, is_variant, Abort

M = {}
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d

RANGE = 'core::ops::range::Range'
UN = TM.UNSIGNED

def uns(x):
    UN.add(x); return x
def pure(name, *a):
    return t('app', name, a)
def isok(x): NVAR[x] = 2; return t('is', x, 0)
def isome(x): NVAR[x] = 2; return t('is', x, 1)
def opt_outcomes(term, val, cond=None):
    """Option<val> depending on whether `term` is Some"""
    c = isome(term)
    return [((c,), some(val)), ((not_(c),), NONE)]

def tinfo(m, ty): return m.p.types[ty] if ty is not None else {}
def tpath(m, ty): return tinfo(m, ty).get('path', '')
def strip_ref_ty(m, ty):
    while ty is not None and m.p.types[ty]['k'] in ('ref', 'ptr'): ty = m.p.types[ty]['e']
    return ty
def site(m, st): return t('site', st.ctx, st.bb)
def heap(m, st, v, tag='h'):
    cell = ('H', t('hp', tag, site(m, st)))
    st.heap[cell] = v
    return ref(cell)
def mut(m, st, c, name, extra=(), new=None, args=None):
    """event mutating the container behind args[0]"""
    cell, path = m.ptr(st, c.args[0])
    old = m.load(st, cell, path)
    snap = (m.content(st, old),) + tuple(extra)
    r = m.emit(st, name, tuple(c.args), snap, None, c.line, c.callee)
    m.store(st, cell, path, new(old, r) if new else t('ver', old, r))
    return r, old
def elem_unsigned(m, ty):
    return ty is not None and m.p.types[ty]['k'] == 'uint'

# --------------------------------------------------------------------------- smart pointers, conversions
@model('Box::new', 'Arc::new', 'Rc::new', 'Box::pin', 'Arc::pin')
def _(m, st, c): return heap(m, st, c.args[0])
@model('Pin::new_unchecked', 'Pin::new', 'Pin::as_mut', 'Pin::get_mut', 'Pin::get_unchecked_mut', 'IntoFuture::into_future', 'hint::must_use',
       'Option::as_deref', 'Box::leak', 'Pin::into_inner', 'convert::identity', 'black_box', 'Box::into_pin', 'ManuallyDrop::new',
       'Box::as_mut', 'Arc::as_ref')
def _(m, st, c): return c.args[0]
@model('future::get_context', 'future::ResumeTy')
def _(m, st, c): return c.args[0]

SMART = ('Arc', 'Box', 'Rc', 'Pin', 'Cow')
@model('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'Vec::as_slice',
       'Vec::as_mut_slice', 'String::as_str', 'str::as_bytes', 'String::as_bytes', 'slice::as_ref', 'slice::as_mut', 'array::as_slice',
       'VecDeque::make_contiguous', 'String::as_mut_str', 'Path::new', 'Path::as_os_str', 'array::as_mut_slice', 'Box::as_ref', 'array::as_ref',
       'String::into_bytes', 'String::into_boxed_str', 'Vec::into_boxed_slice', 'slice::into_vec', 'Vec::from_raw', 'GenericArray::as_slice')
def _(m, st, c):
    a = c.args[0]
    ty = strip_ref_ty(m, c.targ(0)) if c.targ(0) is not None else None
    if a.k not in ('ref',) and c.tys and c.tys[0] is not None and m.p.types[c.tys[0]]['k'] not in ('ref', 'ptr'): return a
    cell, path = m.ptr(st, a)
    v = m.load(st, cell, path)
    if v.k == 'agg' and v.a[0].startswith('guard:'): return v.a[2][0]
    if v.k == 'agg' and v.a[0] == 'array' or v.k in ('ver', 'upd', 'vphi'): return ref(cell, path)
    p = tpath(m, ty).split('::')[-1]
    if p in SMART or 'Guard' in p: return ref(('X', deref(v)))
    return ref(cell, path)

def clone_val(m, st, v, ty):
    p = tpath(m, ty).split('::')[-1]
    if p in ('Vec', 'VecDeque', 'HashMap', 'HashSet') or (p and 'HashMap' in p and m.p.types[ty].get('local')):
        if v.k in ('agg', 'newc', 'clone'): return v
        return t('clone', site(m, st), v)
    return v
@model('!Clone::clone')
def _(m, st, c):
    i = c.callee.get('inst')
    if i is not None and not m.p.fns[i].auto:
        return ('inst', i, c.args)
    a = c.args[0]
    ty = c.targ(0)
    if ty is not None and m.p.types[ty]['k'] in ('ref', 'ptr'):
        return m.load(st, *a.a) if a.k == 'ref' else m.cell_get(st, ('X', deref(a)))
    cell, path = (a.a if a.k == 'ref' else (('X', deref(a)), ()))
    v = m.load(st, cell, path)
    p = tpath(m, ty).split('::')[-1]
    if p in ('Arc', 'Rc', 'Box'):
        if p == 'Box' and v.k == 'ref': return heap(m, st, m.content(st, v), 'cl')
        return v
    return clone_val(m, st, v, ty)
@model('ToOwned::to_owned', 'slice::to_vec', 'ToString::to_string', 'str::to_string', 'str::to_owned', 'String::clone', 'Cow::into_owned', 'slice::to_owned', 'Clone::clone_from_ref')
def _(m, st, c):
    v = c.c(0)
    n = c.name
    ty = strip_ref_ty(m, c.targ(0))
    if n == 'ToString::to_string':
        k = tinfo(m, ty).get('k'); p = tpath(m, ty).split('::')[-1]
        if k == 'str' or p in ('String', 'Cow'): return v
        i = m.p.impls.get(('Display', 'fmt', ty))
        return t('to_string', v)
    if n in ('slice::to_vec', 'slice::to_owned') or (n == 'ToOwned::to_owned' and tinfo(m, ty).get('k') == 'slice'):
        if v.k in ('agg', 'bytes_le', 'slice'): return v
        return t('clone', site(m, st), v)
    return v
@model('Cow::from', 'From::from', 'Into::into', 'String::from', 'Vec::from', 'FromIterator::from_iter')
def _(m, st, c):
    to = c.targ(0); frm = c.targ(1)
    if c.name == 'Into::into': to, frm = frm, to
    if to is not None and frm is not None:
        a, b = m.p.types[frm], m.p.types[to]
        if a['k'] == 'bool' and b['k'] in ('int', 'uint'): return c.args[0]
        if a['k'] == 'bool' and tpath(m, to) == 'serde_json::value::Value': return agg(tpath(m, to), 1, (c.args[0],))
        if tpath(m, to).endswith('::Box') or tpath(m, to).endswith('::Arc'):
            v = c.args[0]
            return heap(m, st, v, 'from')
        if tpath(m, to).endswith('Option'): return some(c.args[0])
        if tpath(m, to).split('::')[-1] == 'SocketAddr' and c.args[0].k == 'agg' and len(c.args[0].a[2]) == 2: return pure('SocketAddr::new', *c.args[0].a[2])
        if tpath(m, to).split('::')[-1] in ('String', 'Vec', 'Cow', 'PathBuf', 'Body', 'Bytes'):
            v = c.c(0)
            return v
    return c.args[0]
@model('TryInto::try_into', 'TryFrom::try_from')
def _(m, st, c):
    frm, to = c.targ(0), c.targ(1)
    if c.name == 'TryFrom::try_from': frm, to = to, frm
    a, b = m.p.types[frm], m.p.types[to]
    if a['k'] in ('int', 'uint') and b['k'] in ('int', 'uint'):
        v = c.args[0]
        if a['k'] == 'uint': UN.update(x for x, _ in lin_of(v)[1])
        ab, bb = a['bits'], b['bits']
        conds = []
        if a['k'] == 'int' and b['k'] == 'uint': conds.append(le(I(0), v))
        hi = (1 << (bb - (b['k'] == 'int')))
        if (a['k'] == b['k'] and ab > bb) or (a['k'] == 'uint' and b['k'] == 'int' and ab >= bb) or (a['k'] == 'int' and b['k'] == 'uint' and ab - 1 > bb):
            conds.append(lt(v, I(hi)))
        if not conds: return ok(v)
        out = [(tuple(conds), ok(v))]
        for q in conds: out.append(((not_(q),), err(t('tryfrominterr', v))))
        return out
    if b['k'] == 'array' or (b['k'] == 'ref' and m.p.types[b['e']]['k'] == 'array'):
        n = b['n'] if b['k'] == 'array' else m.p.types[b['e']]['n']
        v = c.c(0)
        L = length(v)
        q = eqi(L, I(int(n)))
        val = v if b['k'] == 'array' else c.args[0]
        return [((q,), ok(val)), ((not_(q),), err(t('trysliceerr', v)))]
    r = pure('try_into', t('ty', m.p.tys(to)), c.c(0))
    return [((isok(r),), ok(vfld(r, 0, 0))), ((not_(isok(r)),), err(vfld(r, 1, 0)))]

@model('mem::drop')
def _(m, st, c):
    m.do_drop(st, c.args[0], c.tys[0] if c.tys else None, c.line)
    return UNIT
@model('mem::forget')
def _(m, st, c):
    m.emit(st, 'mem::forget', tuple(c.args), (c.c(0),), UNIT, c.line, c.callee); return UNIT
@model('mem::take', 'mem::replace', 'Option::take', 'Option::replace', 'Option::insert')
def _(m, st, c):
    cell, path = m.ptr(st, c.args[0])
    old = m.load(st, cell, path)
    if c.name in ('mem::replace', 'Option::replace'): new = c.args[1] if c.name == 'mem::replace' else some(c.args[1])
    elif c.name == 'Option::take': new = NONE
    else: new = default_of(m, c.targ(0), st)
    if cell[0] in ('X', 'H'):
        m.emit(st, 'store', (ref(cell, path), new), (m.place_term(st, cell, path), m.content(st, new)), UNIT, c.line, kind='store')
    m.store(st, cell, path, new)
    return old
@model('mem::swap')
def _(m, st, c):
    a, b = m.ptr(st, c.args[0]), m.ptr(st, c.args[1])
    x, y = m.load(st, *a), m.load(st, *b)
    for (cell, path), v in ((a, y), (b, x)):
        if cell[0] in ('X', 'H'):
            m.emit(st, 'store', (ref(cell, path), v), (m.place_term(st, cell, path), m.content(st, v)), UNIT, c.line, kind='store')
        m.store(st, cell, path, v)
    return UNIT
def default_of(m, ty, st):
    p = tpath(m, ty).split('::')[-1]; k = tinfo(m, ty).get('k')
    if k in ('int', 'uint', 'bool'): return I(0)
    if p == 'Option': return NONE
    if p in ('Vec', 'VecDeque', 'String', 'HashMap', 'HashSet', 'BTreeMap'): return t('newc', p, site(m, st))
    if k == 'array': return t('rep', default_of(m, m.p.types[ty]['e'], st), I(int(m.p.types[ty]['n'])))
    return pure('default', t('ty', m.p.tys(ty)))
@model('Default::default')
def _(m, st, c): return default_of(m, c.targ(0), st)

# --------------------------------------------------------------------------- comparison / arithmetic on references
@model('!PartialEq::eq', '!PartialEq::ne')
def _(m, st, c):
    i = c.callee.get('inst')
    if i is not None and not m.p.fns[i].auto: return ('inst', i, c.args)
    a, b = c.c(0), c.c(1)
    ty = strip_ref_ty(m, c.targ(0))
    k = tinfo(m, ty).get('k')
    if k in ('int', 'uint', 'char', 'bool'): r = m.beq(a, b, k)
    else: r = eqv(a, b)
    return r if c.name.endswith('eq') else not_(r)
@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def _(m, st, c):
    a, b = c.c(0), c.c(1)
    if tinfo(m, strip_ref_ty(m, c.targ(0))).get('k') == 'uint':
        for x in (a, b): UN.update(q for q, _ in lin_of(x)[1])
    n = c.name[-2:]
    return {'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[n]
@model('Ord::min', 'cmp::min')
def _(m, st, c):
    a, b = c.args
    return [((le(a, b),), a), ((lt(b, a),), b)]
@model('Ord::max', 'cmp::max')
def _(m, st, c):
    a, b = c.args
    return [((le(a, b),), b), ((lt(b, a),), a)]
def typed_max(x, ti):
    """an atom of a small unsigned type is at most the type's maximum"""
    if ti.get('k') == 'uint' and ti.get('bits', 64) < 64:
        c0, at = lin_of(x)
        if c0 == 0 and len(at) == 1 and at[0][1] == 1:
            from . import interp
            interp.MAXV.setdefault(x, (1 << ti['bits']) - 1)
for _n, _f in (('BitAnd::bitand', bitand), ('Shr::shr', shr), ('Shl::shl', shl), ('BitOr::bitor', bitor), ('BitXor::bitxor', bitxor), ('Add::add', add),
               ('Sub::sub', sub), ('Mul::mul', mul), ('Div::div', div), ('Rem::rem', mod)):
    def _g(m, st, c, f=_f):
        a, b = c.c(0), c.c(1)
        ti = tinfo(m, strip_ref_ty(m, c.targ(0)))
        if f is add and ti.get('path', '').endswith('String'): return t('sconcat', a, b)
        if ti.get('k') == 'uint':
            UN.update(q for q, _ in lin_of(a)[1])
            typed_max(a, ti); typed_max(b, tinfo(m, strip_ref_ty(m, c.targ(1))) if c.targ(1) is not None else {})
            if f is sub:
                q = le(b, a)
                return [((q,), sub(a, b)), ((not_(q),), ('panic', 'assert', 'Overflow(Sub)', q))]
        return f(a, b)
    M[_n] = _g
for _n, _f in (('AddAssign::add_assign', add), ('SubAssign::sub_assign', sub), ('MulAssign::mul_assign', mul)):
    def _g(m, st, c, f=_f):
        cell, path = m.ptr(st, c.args[0])
        if tpath(m, strip_ref_ty(m, c.targ(0))).endswith('String'):
            mut(m, st, c, 'String::push_str', (c.c(1),)); return UNIT
        m.store(st, cell, path, f(m.load(st, cell, path), c.c(1))); return UNIT
    M[_n] = _g
for _ty in ('usize', 'u64', 'u32', 'u16', 'u8', 'i32', 'i64', 'isize'):
    _bits = {'usize': 64, 'isize': 64}.get(_ty) or int(_ty[1:])
    def _cs(m, st, c):
        a, b = c.args
        if c.name[0] == 'u': UN.update(q for x in (a, b) for q, _ in lin_of(x)[1])
        q = le(b, a)
        return [((q,), some(sub(a, b))), ((not_(q),), NONE)]
    M[_ty + '::checked_sub'] = _cs
    def _ss(m, st, c):
        a, b = c.args
        if c.name[0] == 'u': UN.update(q for x in (a, b) for q, _ in lin_of(x)[1])
        q = le(b, a)
        return [((q,), sub(a, b)), ((not_(q),), I(0))]
    M[_ty + '::saturating_sub'] = _ss
    def _ca(m, st, c, bits=_bits):
        a, b = c.args
        o = t('ovf', 'Add', a, b, 'uint', bits)
        return [((not_(o),), some(add(a, b))), ((o,), NONE)]
    M[_ty + '::checked_add'] = _ca
    def _sa(m, st, c, bits=_bits):
        a, b = c.args
        o = t('ovf', 'Add', a, b, 'uint', bits)
        return [((not_(o),), add(a, b)), ((o,), I(2 ** bits - 1))]
    if _ty[0] == 'u': M[_ty + '::saturating_add'] = _sa
    def _cm(m, st, c, bits=_bits):
        a, b = c.args
        o = t('ovf', 'Mul', a, b, 'uint', bits)
        return [((not_(o),), some(mul(a, b))), ((o,), NONE)]
    M[_ty + '::checked_mul'] = _cm
    M[_ty + '::from_le_bytes'] = lambda m, st, c: from_le(m, c)
    M[_ty + '::from_be_bytes'] = lambda m, st, c: uns(t('be', c.c(0)))
    M[_ty + '::to_le_bytes'] = lambda m, st, c, n=_bits // 8: t('bytes_le', c.args[0], n)
    M[_ty + '::to_be_bytes'] = lambda m, st, c, n=_bits // 8: t('bytes_be', c.args[0], n)
    M[_ty + '::to_ne_bytes'] = lambda m, st, c, n=_bits // 8: t('bytes_le', c.args[0], n)
    M[_ty + '::from_ne_bytes'] = lambda m, st, c: from_le(m, c)
    for _o in ('pow', 'wrapping_add', 'wrapping_sub', 'wrapping_mul', 'saturating_add', 'saturating_mul', 'rem_euclid', 'div_euclid', 'div_ceil', 'abs_diff', 'rotate_left',
               'is_power_of_two', 'leading_zeros', 'trailing_zeros', 'count_ones', 'swap_bytes', 'abs', 'overflowing_sub', 'to_le', 'is_multiple_of', 'next_multiple_of'):
        M.setdefault(_ty + '::' + _o, lambda m, st, c: pure(c.name, *[c.c(i) for i in range(len(c.args))]))
def seg_of(v):
    """an array of consecutive elements of a slice as that part of the slice"""
    if v.k == 'agg' and v.a[0] == 'array' and len(v.a[2]) > 1 and all(x.k == 'idx' and x.a[0] is v.a[2][0].a[0] and sub(x.a[1], v.a[2][0].a[1]) is I(i) for i, x in enumerate(v.a[2])):
        x = v.a[2][0]
        return slc(x.a[0], x.a[1], add(x.a[1], I(len(v.a[2]))))
    return v
def from_le(m, c):
    v = c.c(0)
    if v.k == 'bytes_le': return v.a[0]
    v = seg_of(v)
    r = t('le', v)
    if c.name[0] == 'u': UN.add(r)
    else: return t('sgn', r, 64 if c.name.startswith('isize') else int(c.name.split('::')[0][1:]))
    return r
for _n in ('Duration::from_millis', 'Duration::from_secs', 'Duration::as_millis', 'SystemTime::duration_since', 'SocketAddr::new', 'Path::join', 'isize::div_euclid',
           'mem::size_of', 'char::from', 'str::trim', 'str::trim_end', 'str::trim_start', 'str::to_lowercase',
           'str::is_ascii', 'str::contains', 'intrinsics::discriminant_value', 'intrinsics::integer_min', 'str::strip_prefix',
           'Request::uri', 'Request::method', 'Uri::path', 'Uri::query', 'Response::status', 'OsString::into_string', 'DirEntry::file_name', 'DirEntry::path',
           'Path::to_str', 'regex::Regex::is_match', 'regex::Match::range', 'regex::Regex::captures', 'regex::Regex::new', 'regex::Regex::replace_all',
           'slice::join', 'slice::concat', 'slice::contains', 'Path::display', 'Path::with_extension', 'Path::parent',
           'Path::to_path_buf', 'Path::to_string_lossy', 'Path::file_name', 'str::split_once', 'str::as_ptr', 'HashMap::hasher', 'slice::iter_sum', 'Request::headers',
           'StatusCode::as_u16', 'StatusCode::is_success', 'Body::from', 'slice::repeat', 'str::repeat', 'f64::from',
           'slice::binary_search', 'slice::is_sorted', 'fmt::Arguments::as_str', 'Path::is_dir', 'Path::extension', 'regex::Match::start', 'regex::Match::end',
           'thread::available_parallelism', 'Value::is_null', 'Value::as_u64', 'Value::as_i64', 'Value::as_f64', 'Value::as_object', 'Value::as_bool', 'Value::is_array', 'Value::is_string',
           'serde_json::to_string', 'ser::to_string', 'ser::to_vec', 'array::map', 'HeaderValue::from_static'):
    M[_n] = (lambda name: lambda m, st, c: pure(name, *[c.c(i) for i in range(len(c.args))]))(_n)
@model('regex::Captures::get')     # the groups asked for take part in every match, as with an index
def _(m, st, c): return some(pure('capture', c.c(0), c.c(1)))
@model('regex::Match::as_str')
def _(m, st, c):
    x = c.c(0)
    return ref(('X', x)) if x.k == 'app' and x.a[0] == 'capture' else pure(c.name, x)
@model('str::starts_with', 'str::ends_with')
def _(m, st, c):
    x, p = c.c(0), c.c(1); q = pure(c.name, x, p)
    if p.k != 'str': return q
    return [((q, le(length(p), length(x))), TRUE), ((not_(q),), FALSE)]
@model('str::find', 'str::rfind')
def _(m, st, c):
    x, p = c.c(0), c.c(1); r = pure(c.name, x, p); i = uns(vfld(r, 1, 0))
    n = length(p) if p.k == 'str' else I(1)
    return [((isome(r), le(add(i, n), length(x))), r), ((not_(isome(r)),), r)]
@model('intrinsics::discriminant_value')
def _(m, st, c): return discr(c.c(0))

# --------------------------------------------------------------------------- Vec / slice / str / VecDeque
@model('Vec::new', 'VecDeque::new', 'String::new', 'HashMap::new', 'HashSet::new', 'HashMap::with_hasher', 'HashMap::with_capacity', 'HashSet::with_capacity',
       'Vec::with_capacity', 'VecDeque::with_capacity', 'String::with_capacity', 'HashMap::with_capacity_and_hasher', 'Map::new', 'HashSet::with_hasher', 'BTreeMap::new', 'BTreeSet::new', 'Map::with_capacity')
def _(m, st, c): return t('newc', c.name.split('::')[0], site(m, st))
@model('vec::from_elem')
def _(m, st, c): return t('rep', c.args[0], c.args[1])
@model('boxed::box_assume_init_into_vec_unsafe', 'Box::new_uninit', 'slice::into_vec')
def _(m, st, c):
    if c.name == 'Box::new_uninit':
        return heap(m, st, UNDEF, 'uninit')
    a = c.args[0]
    v = m.load(st, *m.ptr(st, a)) if a.k == 'ref' else a
    # MaybeUninit { value: ManuallyDrop { value: x } } / x
    n = 0
    while v.k == 'agg' and v.a[0] in ('partial', 'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_uninit::MaybeUninit', 'core::mem::maybe_dangling::MaybeDangling') and n < 6:
        v = [x for x in v.a[2] if x.k != 'undef'][-1] if any(x.k != 'undef' for x in v.a[2]) else UNDEF
        n += 1
    return v
@model('boxed::box_new', 'exchange_malloc', 'Box::write')
def _(m, st, c): return heap(m, st, c.args[0])
@model('Vec::len', 'slice::len', 'VecDeque::len', 'str::len', 'String::len', 'HashMap::len', 'HashSet::len', 'array::len', 'Vec::capacity', 'Map::len')
def _(m, st, c):
    if c.name.endswith('capacity'): return uns(pure('capacity', c.c(0)))
    return length(c.c(0))
@model('Vec::is_empty', 'slice::is_empty', 'VecDeque::is_empty', 'str::is_empty', 'String::is_empty', 'HashMap::is_empty', 'HashSet::is_empty', 'ExactSizeIterator::is_empty', 'Map::is_empty')
def _(m, st, c): return eq0(length(c.c(0)))
@model('Vec::push', 'VecDeque::push_back', 'VecDeque::push_front', 'String::push', 'String::push_str')
def _(m, st, c):
    if c.name == 'Vec::push': 
        r, old = mut(m, st, c, 'Vec::push', (c.c(1),), lambda o, r: t('ver', o, r))
    else: r, old = mut(m, st, c, c.name, (c.c(1),))
    return UNIT
@model('Vec::extend_from_slice', 'Vec::append', 'VecDeque::append')
def _(m, st, c):
    r, old = mut(m, st, c, c.name, (c.c(1),))
    if c.name.endswith('append'):
        cell, path = m.ptr(st, c.args[1]); m.store(st, cell, path, t('newc', 'Vec', site(m, st)))
    return UNIT
@model('Vec::pop', 'VecDeque::pop_back', 'VecDeque::pop_front')
def _(m, st, c):
    cell, path = m.ptr(st, c.args[0])
    old = m.load(st, cell, path)
    L = length(m.content(st, old))
    def some_(s):
        c2 = c; 
        r = m.emit(s, c.name, tuple(c.args), (m.content(s, old),), None, c.line, c.callee)
        m.store(s, cell, path, t('ver', old, r))
        i = I(0) if c.name.endswith('front') else sub(L, I(1))
        return some(idx(m.content(s, old), i))
    return [((not_(eq0(L)),), some_), ((eq0(L),), NONE)]
@model('Vec::clear', 'VecDeque::clear', 'HashMap::clear', 'HashSet::clear', 'String::clear', 'HashMap::shrink_to_fit', 'Vec::shrink_to_fit', 'Vec::reserve', 'HashMap::reserve', 'VecDeque::reserve', 'String::reserve', 'HashSet::reserve', 'Vec::reserve_exact')
def _(m, st, c):
    if c.name.split('::')[1] in ('shrink_to_fit', 'reserve', 'reserve_exact'): return UNIT
    mut(m, st, c, c.name); return UNIT
@model('Vec::truncate', 'VecDeque::truncate', 'String::truncate')
def _(m, st, c):
    n = c.args[1]
    UN.update(q for q, _ in lin_of(n)[1])
    cell, path = m.ptr(st, c.args[0]); old = m.load(st, cell, path)
    co = m.content(st, old); L = length(co)
    m.emit(st, c.name, tuple(c.args), (co, n), UNIT, c.line, c.callee)
    def cut(s):
        m.store(s, cell, path, slc(m.load(s, cell, path), I(0), n)); return UNIT
    return [((lt(n, L),), cut), ((le(L, n),), UNIT)]
@model('Vec::insert', 'VecDeque::insert')
def _(m, st, c): mut(m, st, c, c.name, (c.args[1], c.c(2))); return UNIT
@model('Vec::remove', 'Vec::swap_remove', 'VecDeque::remove')
def _(m, st, c):
    i = c.args[1]
    r, old = mut(m, st, c, c.name, (i,))
    x = idx(m.content(st, old), i)
    if c.name == 'VecDeque::remove':
        q = lt(i, length(old)); return [((q,), some(x)), ((not_(q),), NONE)]
    return x
@model('Vec::retain', 'VecDeque::retain', 'Vec::retain_mut')
def _(m, st, c):
    # rebuilt from the elements the predicate accepts, in order
    cell, path = m.ptr(st, c.args[0]); v = m.content(st, m.load(st, cell, path))
    return ('frame', synth(m, 'retain_vec'), (c.args[0], agg('it:seqv', 0, (v, I(0), length(v))), c.args[1]))
@model('HashMap::retain', 'HashSet::retain', 'Vec::dedup', 'Vec::resize', 'Vec::split_off', 'Vec::drain', 'VecDeque::drain', 'slice::fill', 'slice::rotate_left', 'slice::rotate_right', 'slice::swap', 'VecDeque::rotate_left')
def _(m, st, c):
    if c.name == 'Vec::resize':
        cell, path = m.ptr(st, c.args[0]); old = m.load(st, cell, path)
        if length(m.content(st, old)) is I(0): m.store(st, cell, path, t('rep', c.c(2), c.c(1))); return UNIT     # as vec![value; n]
    if c.name in ('Vec::drain', 'VecDeque::drain'):
        cell, path = m.ptr(st, c.args[0]); old = m.load(st, cell, path); co = m.content(st, old)
        a, b = range_bounds(m, st, c.args[1], c.tys[1] if len(c.tys) > 1 else None, length(co))
        m.emit(st, c.name, tuple(c.args), (co, a, b), UNIT, c.line, c.callee)
        src = slc(co, a, b)
        if a is I(0) and b is length(co): m.store(st, cell, path, t('newc', 'Vec', site(m, st)))
        elif a is I(0): m.store(st, cell, path, slc(co, b, length(co)))
        elif b is length(co): m.store(st, cell, path, slc(co, I(0), a))
        else: m.store(st, cell, path, t('ver', old, t('ev', site(m, st), c.name, (co, a, b))))
        return agg('it:seqv', 0, (src, I(0), length(src)))
    r, old = mut(m, st, c, c.name, tuple(c.c(i) for i in range(1, len(c.args))))
    return r if c.name == 'Vec::split_off' else UNIT
@model('slice::sort', 'slice::sort_unstable', 'slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key')
def _(m, st, c): mut(m, st, c, c.name, tuple(c.c(i) for i in range(1, len(c.args)))); return UNIT
@model('slice::reverse')
def _(m, st, c):
    cell, path = m.ptr(st, c.args[0])
    old = m.load(st, cell, path); co = m.content(st, old)
    m.emit(st, c.name, tuple(c.args), (co,), UNIT, c.line, c.callee)
    new = co.a[0] if co.k == 'reversed' else t('reversed', co)
    if path and path[-1][0] == 'sl':
        o = m.load(st, cell, path[:-1])
        m.store(st, cell, path[:-1], t('upd', o, path[-1], new))
    else: m.store(st, cell, path, new)
    return UNIT
@model('slice::copy_from_slice', 'slice::clone_from_slice')
def _(m, st, c):
    cell, path = m.ptr(st, c.args[0])
    old = m.load(st, cell, path); co = m.content(st, old)
    src = c.c(1)
    q = eqi(length(co), length(src))
    def go(s):
        m.emit(s, c.name, tuple(c.args), (co, src), UNIT, c.line, c.callee)
        if path and path[-1][0] == 'sl':
            o = m.load(s, cell, path[:-1])
            m.store(s, cell, path[:-1], t('upd', o, path[-1], src))
        else: m.store(s, cell, path, src)
        return UNIT
    return [((q,), go), ((not_(q),), ('panic', 'copy_from_slice length'))]

def range_bounds(m, st, r, ty, L):
    v = r
    if v.k == 'ref': v = m.content(st, v)
    p = v.a[0] if v.k == 'agg' else tpath(m, ty)
    n = p.split('::')[-1]
    def g(i): return fld(v, i)
    if n == 'Range': return g(0), g(1)
    if n == 'RangeFrom': return g(0), L
    if n == 'RangeTo': return I(0), g(0)
    if n == 'RangeToInclusive': return I(0), add(g(0), I(1))
    if n == 'RangeInclusive': return g(0), add(g(1), I(1))
    if n == 'RangeFull' or v.k == 'zst': return I(0), L
    raise Abort('range ' + show(v))
@model('RangeInclusive::new')
def _(m, st, c): return agg(RANGE, 0, (c.args[0], add(c.args[1], I(1))))

def index_place(m, st, c, checked):
    """place designated by container[index]; returns outcome list"""
    a, i = c.args[0], c.args[1]
    cell, path = m.ptr(st, a)
    co = m.content(st, m.load(st, cell, path))
    ct = strip_ref_ty(m, c.targ(0)) if c.name.startswith('Index') else strip_ref_ty(m, c.tys[0] if c.tys else None)
    it = c.targ(1) if c.name.startswith('Index') else (c.tys[1] if len(c.tys) > 1 else None)
    p = tpath(m, ct).split('::')[-1]
    L = length(co)
    if p in ('HashMap', 'BTreeMap'):
        k = m.content(st, i, c.tys[1] if len(c.tys) > 1 else None)
        g = mget(co, k)
        return [(isome(g), ref(cell, path + (('mv', k),)))]
    if p == 'Value':
        k = m.content(st, i, c.tys[1] if len(c.tys) > 1 else None)
        return [(TRUE, ref(cell, path + (('j', k),)))]
    if p in ('Captures', 'HeaderMap'):
        k = m.content(st, i, None)
        return [(TRUE, ref(('X', pure('capture', co, k))))]
    k = tinfo(m, it).get('k')
    if k in ('uint', 'int') or (it is None and i.k != 'agg'):
        UN.update(q for q, _ in lin_of(i)[1])
        return [(lt(i, L), ref(cell, path + (('i', i),)))]
    x, y = range_bounds(m, st, i, it, L)
    for z in (x, y): UN.update(q for q, _ in lin_of(z)[1])
    cond = TRUE
    q1, q2 = le(x, y), le(y, L)
    return [((q1, q2), ref(cell, path + (('sl', x, y),)) if not (x is I(0) and y is L) else ref(cell, path))]
@model('Index::index', 'IndexMut::index_mut')
def _(m, st, c):
    (cond, r), = index_place(m, st, c, True)
    if isinstance(cond, tuple):
        q1, q2 = cond
        out = [((not_(q1),), ('panic', 'bounds', 'slice start > end', q1)), ((q1, not_(q2),), ('panic', 'bounds', 'slice end > len', q2))]
        bs = char_bounds(m, st, c)
        for j, b in enumerate(bs): out.append(((q1, q2) + bs[:j] + (not_(b),), ('panic', 'bounds', 'not a character boundary', b)))
        return [((q1, q2) + bs, r)] + out
    return [((cond,), r), ((not_(cond),), ('panic', 'bounds', 'index', cond))]
def char_bounds(m, st, c):
    """what must hold for the ends of a slice of text to lie between characters (ends found by a search do)"""
    ct = strip_ref_ty(m, c.targ(0))
    if not (tinfo(m, ct).get('k') == 'str' or tpath(m, ct).split('::')[-1] in ('str', 'String')): return ()
    cell, path = m.ptr(st, c.args[0]); co = m.content(st, m.load(st, cell, path)); L = length(co)
    out = []
    for x in range_bounds(m, st, c.args[1], c.targ(1), L):
        if not is_boundary(co, L, x): out.append(pure('char_boundary', co, x))
    return tuple(out)
def is_boundary(co, L, x):
    if x is I(0) or x is L or x.k == 'len' and x.a[0] is co: return True
    return any(y.k == 'app' and str(y.a[0]).split('::')[-1] in ('range', 'start', 'end', 'find', 'rfind') for y in subterms(x))
@model('str::is_char_boundary')
def _(m, st, c): return pure('char_boundary', c.c(0), c.args[1])
@model('slice::get_unchecked', 'slice::get_unchecked_mut')
def _(m, st, c):
    (cond, r), = index_place(m, st, c, True)
    return r
@model('slice::get', 'slice::get_mut', 'VecDeque::get', 'VecDeque::get_mut', 'str::get')
def _(m, st, c):
    (cond, r), = index_place(m, st, c, False)
    if isinstance(cond, tuple):
        q1, q2 = cond
        return [((q1, q2), some(r)), ((not_(q1),), NONE), ((q1, not_(q2),), NONE)]
    return [((cond,), some(r)), ((not_(cond),), NONE)]
@model('slice::first', 'slice::last', 'slice::first_mut', 'slice::last_mut', 'VecDeque::front', 'VecDeque::back', 'VecDeque::front_mut', 'VecDeque::back_mut')
def _(m, st, c):
    cell, path = m.ptr(st, c.args[0])
    co = m.content(st, m.load(st, cell, path)); L = length(co)
    n = c.name.split('::')[1]
    i = I(0) if n.startswith('f') else sub(L, I(1))
    e = eq0(L)
    return [((not_(e),), some(ref(cell, path + (('i', i),)))), ((e,), NONE)]
@model('slice::split_at', 'slice::split_at_mut', 'str::split_at', 'str::split_at_mut')
def _(m, st, c):
    cell, path = m.ptr(st, c.args[0]); co = m.content(st, m.load(st, cell, path)); L = length(co); n = c.args[1]
    q = le(n, L)
    return [((q,), tup(ref(cell, path + (('sl', I(0), n),)), ref(cell, path + (('sl', n, L),)))), ((not_(q),), ('panic', 'bounds', 'split_at', q))]
@model('slice::split_first', 'slice::split_last')
def _(m, st, c):
    cell, path = m.ptr(st, c.args[0]); co = m.content(st, m.load(st, cell, path)); L = length(co)
    e = eq0(L)
    if c.name.endswith('first'): v = tup(ref(cell, path + (('i', I(0)),)), ref(cell, path + (('sl', I(1), L),)))
    else: v = tup(ref(cell, path + (('i', sub(L, I(1))),)), ref(cell, path + (('sl', I(0), sub(L, I(1))),)))
    return [((not_(e),), some(v)), ((e,), NONE)]

@model('u8::is_ascii')
def _(m, st, c):
    x = c.c(0); return gt0(sub(I(128), x))
@model('slice::starts_with', 'slice::ends_with', 'slice::strip_prefix', 'slice::strip_suffix')
def _(m, st, c):
    cell, path = m.ptr(st, c.args[0]); co = m.content(st, m.load(st, cell, path)); L = length(co)
    p = c.c(1); n = length(p); k = c.name.split('::')[1]
    q = le(n, L)
    pre = k in ('starts_with', 'strip_prefix')
    e = eqv(slc(co, I(0), n) if pre else slc(co, sub(L, n), L), p)
    if k.startswith('strip'): yes, no = some(ref(cell, path + (('sl', n, L) if pre else ('sl', I(0), sub(L, n)),))), NONE
    else: yes, no = TRUE, FALSE
    return [((q, e), yes), ((q, not_(e)), no), ((not_(q),), no)]

# --------------------------------------------------------------------------- maps
def key_of(m, st, c, i=1):
    return strip_clone(m.content(st, c.args[i], c.tys[i] if i < len(c.tys) else None))
def mget(mp, k):
    x = mp
    k = strip_clone(k)
    if x.k == 'newc': return NONE
    if x.k == 'clone': return mget(x.a[1], k)
    if x.k == 'upd' and x.a[1][0] == 'mv':
        if x.a[1][1] is k: return some(x.a[2])
    if x.k == 'ver' and x.a[1].k == 'ev':
        e = x.a[1]; n = e.a[1]; sn = e.a[2]
        if n in ('HashMap::insert', 'HashSet::insert') and sn[1] is k: return some(sn[2]) if n == 'HashMap::insert' else some(UNIT)
        if n in ('HashMap::remove', 'HashSet::remove') and sn[1] is k: return NONE
        if n in ('HashMap::clear', 'HashSet::clear'): return NONE
    r = t('mget', mp, k)
    NVAR[r] = 2
    return r
TM.mget = mget
def is_some_t(g): return (TRUE if g.a[1] == 1 else FALSE) if g.k == 'agg' else isome(g)
@model('HashMap::get', 'HashMap::get_mut', 'BTreeMap::get', 'HashSet::get', 'HashMap::get_key_value', 'Map::get')
def _(m, st, c):
    cell, path = m.ptr(st, c.args[0]); co = m.content(st, m.load(st, cell, path)); k = key_of(m, st, c)
    g = mget(co, k); q = is_some_t(g)
    r = ref(cell, path + (('mv', k),))
    if c.name == 'HashSet::get': r = ref(('X', k))
    if c.name == 'HashMap::get_key_value': r = tup(ref(('X', k)), r)
    return [((q,), some(r)), ((not_(q),), NONE)]
@model('HashMap::contains_key', 'HashSet::contains', 'BTreeMap::contains_key', 'Map::contains_key')
def _(m, st, c):
    co = c.c(0); k = key_of(m, st, c)
    return is_some_t(mget(co, k))
@model('HashMap::insert', 'BTreeMap::insert', 'Map::insert', 'HashMap::remove', 'HashSet::insert', 'HashSet::remove', 'HashSet::replace', 'HashSet::take', 'HashMap::remove_entry')
def _(m, st, c):
    k = key_of(m, st, c)
    cell, path = m.ptr(st, c.args[0]); co = m.content(st, m.load(st, cell, path))
    g = mget(co, k)
    n = {'HashSet::replace': 'HashSet::insert', 'HashSet::take': 'HashSet::remove', 'HashMap::remove_entry': 'HashMap::remove', 'BTreeMap::insert': 'HashMap::insert'}.get(c.name, c.name)
    extra = (k,) + ((c.c(2),) if n.endswith('Map::insert') else ())
    q = is_some_t(g)
    def go(s):
        mut(m, s, c, n, extra)
    if c.name in ('HashSet::insert', 'HashSet::remove'):
        go(st)
        return not_(q) if c.name == 'HashSet::insert' else q
    if c.name in ('HashSet::replace', 'HashSet::take'): pay = k
    elif c.name == 'HashMap::remove_entry': pay = tup(k, vfld(g, 1, 0))
    else: pay = vfld(g, 1, 0)
    if c.name == 'Map::insert':
        go(st); return t('mapins', g)
    def mk(v):
        def f(s): go(s); return v
        return f
    return [((q,), mk(some(pay))), ((not_(q),), mk(NONE))]
@model('HashMap::entry', 'BTreeMap::entry', 'Map::entry')
def _(m, st, c):
    k = key_of(m, st, c)
    cell, path = m.ptr(st, c.args[0])
    return agg('entry', 0, (ref(cell, path), k))
@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default')
def _(m, st, c):
    e = c.args[0]
    mp, k = e.a[2]
    cell, path = mp.a
    g = mget(m.content(st, m.load(st, cell, path)), k); q = is_some_t(g)
    place = ref(cell, path + (('mv', k),))
    if c.name == 'Entry::or_insert_with':
        return [((q,), place), ((not_(q),), ('frame', synth(m, 'or_insert_with'), (e, c.args[1])))]
    def ins(s):
        v = c.args[1] if c.name == 'Entry::or_insert' else default_of(m, c.targ(1), s)
        o = m.load(s, cell, path)
        r = m.emit(s, 'HashMap::insert', (mp,), (m.content(s, o), k, m.content(s, v)), None, c.line, c.callee)
        m.store(s, cell, path, t('ver', o, r))
        return place
    return [((q,), place), ((not_(q),), ins)]
@model('entry_insert')
def _(m, st, c):
    e = c.args[0]; v = c.args[1]; mp, k = e.a[2]; cell, path = mp.a
    o = m.load(st, cell, path)
    r = m.emit(st, 'HashMap::insert', (mp,), (m.content(st, o), k, m.content(st, v)), None, c.line, None)
    m.store(st, cell, path, t('ver', o, r))
    return ref(cell, path + (('mv', k),))
@model('Entry::and_modify')
def _(m, st, c):
    e = c.args[0]; mp, k = e.a[2]; cell, path = mp.a
    g = mget(m.content(st, m.load(st, cell, path)), k); q = is_some_t(g)
    return [((q,), ('frame', synth(m, 'and_modify'), (e, c.args[1], ref(cell, path + (('mv', k),))))), ((not_(q),), e)]

# --------------------------------------------------------------------------- iterators
SEQ = ('Vec', 'VecDeque', 'String')
def mkiter(m, st, v, ty):
    """IntoIterator::into_iter for a non-local type"""
    if v.k == 'agg' and (v.a[0].startswith('it:') or v.a[0] == RANGE): return v
    if v.k == 'agg' and v.a[0].endswith('RangeFrom'): return agg('it:from', 0, (v.a[2][0],))
    if v.k == 'agg' and v.a[0].endswith('RangeInclusive'): return agg(RANGE, 0, (v.a[2][0], add(v.a[2][1], I(1))))
    x = tinfo(m, ty)
    if ty is not None and ('Iterator', 'next', ty) in m.p.impls: return agg('it:local:%d' % m.p.impls[('Iterator', 'next', ty)][0]['inst'], 0, (v,))
    if x.get('k') in ('ref', 'ptr') or (ty is None and v.k == 'ref'):
        inner = x.get('e')
        if inner is not None and ('Iterator', 'next', inner) in m.p.impls: return agg('it:by_ref', 0, (v,))
        cell, path = m.ptr(st, v)
        cv = m.load(st, cell, path)
        if cv.k == 'agg' and (cv.a[0].startswith('it:') or cv.a[0] == RANGE): return agg('it:by_ref', 0, (ref(cell, path),))
        it = strip_ref_ty(m, inner)
        p = tpath(m, it).split('::')[-1]
        co = m.content(st, cv)
        if p in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet', 'Map'):
            return agg('it:map:' + ('set' if 'Set' in p else 'ref'), 0, (ref(cell, path), I(0), length(co)))
        if p == 'Option': return agg('it:opt', 0, (opt_ref(m, st, cell, path, cv),))
        if p in ('Receiver', 'Receiver<T>'): return agg('it:recv', 0, (ref(cell, path),))
        return agg('it:seq', 0, (ref(cell, path), I(0), length(co)))
    p = x.get('path', '').split('::')[-1]
    if p in ('HashMap', 'BTreeMap'): return agg('it:map:val', 0, (v, I(0), length(v)))
    if p in ('HashSet', 'BTreeSet'): return agg('it:map:setval', 0, (v, I(0), length(v)))
    if p == 'Option': return agg('it:opt', 0, (v,))
    if p in ('Vec', 'VecDeque') or x.get('k') == 'array' or ty is None: return agg('it:seqv', 0, (v, I(0), length(v)))
    if p == 'Receiver': return agg('it:recv', 0, (v,))
    return agg('it:opaque', 0, (v,))
def opt_ref(m, st, cell, path, cv):
    if cv.k == 'agg': return some(ref(cell, path + (('df', 1, 0),))) if cv.a[1] == 1 else NONE
    return cv
@model('IntoIterator::into_iter')
def _(m, st, c): return mkiter(m, st, c.args[0], c.targ(0))
@model('slice::iter', 'slice::iter_mut', 'VecDeque::iter', 'VecDeque::iter_mut', 'Vec::iter')
def _(m, st, c):
    cell, path = m.ptr(st, c.args[0])
    return agg('it:seq', 0, (ref(cell, path), I(0), length(m.content(st, m.load(st, cell, path)))))
@model('HashMap::iter', 'HashMap::iter_mut', 'HashMap::keys', 'HashMap::values', 'HashMap::values_mut', 'HashSet::iter', 'BTreeMap::iter', 'Map::iter', 'BTreeMap::values', 'BTreeMap::keys')
def _(m, st, c):
    cell, path = m.ptr(st, c.args[0])
    k = {'iter': 'ref', 'iter_mut': 'ref', 'keys': 'keys', 'values': 'vals', 'values_mut': 'vals'}[c.name.split('::')[1]]
    if 'Set' in c.name: k = 'set'
    return agg('it:map:' + k, 0, (ref(cell, path), I(0), length(m.content(st, m.load(st, cell, path)))))
@model('HashMap::into_values', 'HashMap::into_keys', 'HashMap::drain', 'HashSet::drain')
def _(m, st, c):
    if c.name.endswith('drain'):
        cell, path = m.ptr(st, c.args[0]); v = m.load(st, cell, path)
        m.emit(st, c.name, tuple(c.args), (m.content(st, v),), UNIT, c.line, c.callee)
        m.store(st, cell, path, t('newc', 'HashMap', site(m, st)))
        return agg('it:map:' + ('setval' if 'Set' in c.name else 'val'), 0, (v, I(0), length(v)))
    return agg('it:map:' + ('valsval' if 'values' in c.name else 'setval'), 0, (c.args[0], I(0), length(c.args[0])))
@model('str::split', 'str::chars', 'str::bytes', 'str::lines', 'str::split_whitespace', 'str::char_indices', 'str::splitn', 'str::rsplit', 'str::split_terminator')
def _(m, st, c):
    n = c.name.split('::')[1]
    src = c.c(0) if n == 'bytes' else t('strit', n, tuple(c.c(i) for i in range(len(c.args))))
    return agg('it:seqv', 0, (src, I(0), length(src)))
@model('slice::chunks', 'slice::chunks_exact', 'slice::windows')
def _(m, st, c):
    cell, path = m.ptr(st, c.args[0]); co = m.content(st, m.load(st, cell, path))
    return agg('it:' + c.name.split('::')[1], 0, (ref(cell, path), c.args[1], I(0), length(co)))
@model('regex::Regex::find_iter', 'regex::Regex::captures_iter', 'fs::read_dir')
def _(m, st, c):
    src = t('app', c.name, tuple(c.c(i) for i in range(len(c.args))))
    if c.name == 'fs::read_dir':
        r = m.emit(st, c.name, tuple(c.args), tuple(c.c(i) for i in range(len(c.args))), None, c.line, c.callee)
        q = isok(r)
        return [((q,), ok(agg('it:opaque', 0, (vfld(r, 0, 0),)))), ((not_(q),), err(vfld(r, 1, 0)))]
    return agg('it:opaque', 0, (src,))
@model('iter::once', 'once::once')
def _(m, st, c): return agg('it:opt', 0, (some(c.args[0]),))
@model('iter::empty', 'empty::empty')
def _(m, st, c): return agg('it:opt', 0, (NONE,))
@model('iter::repeat', 'repeat::repeat', 'repeat_n::repeat_n', 'iter::from_fn', 'from_fn::from_fn', 'successors::successors')
def _(m, st, c):
    if 'from_fn' in c.name: return agg('it:fromfn', 0, (c.args[0],))
    return agg('it:opaque', 0, (pure(c.name, *c.args),))
@model('Option::iter', 'Option::into_iter', 'Result::into_iter')
def _(m, st, c):
    v = c.args[0]
    if v.k == 'ref': return agg('it:opt', 0, (opt_ref(m, st, *m.ptr(st, v), m.load(st, *m.ptr(st, v))),))
    return agg('it:opt', 0, (v,))
@model('Receiver::iter', 'Receiver::try_iter', 'Receiver::into_iter')
def _(m, st, c): return agg('it:recv', 0, (c.args[0],))

def adapt(kind, extra=()):
    def f(m, st, c):
        inner = mkiter(m, st, c.args[0], c.targ(0))
        return agg('it:' + kind, 0, (inner,) + tuple(c.args[1:]) + tuple(extra))
    return f
for _k, _e in (('map', ()), ('filter', ()), ('filter_map', ()), ('take_while', (FALSE,)), ('skip_while', (FALSE,)), ('inspect', ()), ('map_while', ())):
    M['Iterator::' + _k] = adapt(_k, _e)
@model('Iterator::step_by')
def _(m, st, c):
    """every n-th of a counted sequence: the round k takes the element n * k"""
    x = mkiter(m, st, c.args[0], c.targ(0)); n = c.args[1]
    if x.k == 'agg' and x.a[0] in (RANGE, 'it:seq', 'it:seqv') and is_int(n) and n.a[0] > 0: return agg('it:stepped', 0, (x, n, I(0)))
    return agg('it:step_by', 0, (x, n, TRUE))
M['Iterator::enumerate'] = adapt('enumerate', (I(0),))
M['Iterator::peekable'] = adapt('peekable', (NONE,))
for _k in ('cloned', 'copied'): M['Iterator::' + _k] = adapt('cloned')
for _k in ('by_ref', 'fuse'): M['Iterator::' + _k] = lambda m, st, c: c.args[0]
@model('Iterator::flat_map')
def _(m, st, c):
    inner = mkiter(m, st, c.args[0], c.targ(0))
    # at most one element: the iterator made from it, or an empty one (made when the adaptor is: nothing runs in between that the closures here could see)
    if inner.k == 'agg' and inner.a[0] == 'it:opt': return ('frame', synth(m, 'flat_map_opt'), (inner.a[2][0], c.args[1]))
    return agg('it:flatten', 0, (agg('it:map', 0, (inner, c.args[1])), NONE))
@model('Iterator::flatten')
def _(m, st, c):
    inner = mkiter(m, st, c.args[0], c.targ(0))
    if inner.k == 'agg' and inner.a[0] == 'it:opt': return ('frame', synth(m, 'flatten_opt'), (inner.a[2][0],))
    return agg('it:flatten', 0, (inner, NONE))
@model('iter_none')
def _(m, st, c): return agg('it:opt', 0, (NONE,))
@model('Iterator::chain', 'Iterator::zip')
def _(m, st, c):
    a = mkiter(m, st, c.args[0], c.targ(0)); b = mkiter(m, st, c.args[1], c.targ(1))
    if c.name.endswith('zip'):
        # counting from zero beside a sequence is enumerating it
        if a.k == 'agg' and a.a[0] == 'it:from' and a.a[2][0] is I(0): return agg('it:enumerate', 0, (b, I(0)))
        if b.k == 'agg' and b.a[0] == 'it:from' and b.a[2][0] is I(0): return agg('it:swap', 0, (agg('it:enumerate', 0, (a, I(0))),))
    return agg('it:' + c.name.split('::')[1], 0, (a, b) + ((FALSE,) if c.name.endswith('chain') else ()))
def bounded(x):
    """(lo, hi, rebuild(lo, hi), reversed) of an iterator over a counted sequence, else None"""
    if x.k != 'agg': return None
    k, f = x.a[0], x.a[2]
    if k == RANGE: return f[0], f[1], (lambda a, b: agg(k, 0, (a, b))), False
    if k in ('it:seq', 'it:seqv') or k.startswith('it:map:'): return f[1], f[2], (lambda a, b: agg(k, 0, (f[0], a, b))), False
    if k in ('it:rev', 'it:cloned'):
        o = bounded(f[0])
        return o and (o[0], o[1], (lambda a, b: agg(k, 0, (o[2](a, b),))), o[3] != (k == 'it:rev'))
    return None
@model('Iterator::take')
def _(m, st, c):
    x = mkiter(m, st, c.args[0], c.targ(0)); n = c.args[1]
    y = x; wrap = lambda z: z
    if x.k == 'agg' and x.a[0] == 'it:enumerate' and x.a[2][1] is I(0): y = x.a[2][0]; wrap = lambda z: agg('it:enumerate', 0, (z, I(0)))
    b = bounded(y)
    if b is None: return agg('it:take', 0, (x, n))
    lo, hi, mk, back = b
    UN.update(q for z in (n, lo, hi) for q, _ in lin_of(z)[1])
    q = le(n, sub(hi, lo))
    return [((q,), wrap(mk(sub(hi, n), hi) if back else mk(lo, add(lo, n)))), ((not_(q),), x)]
@model('Iterator::skip')
def _(m, st, c):
    x = mkiter(m, st, c.args[0], c.targ(0)); n = c.args[1]
    b = bounded(x)
    if b is None: return agg('it:skip', 0, (x, n))
    lo, hi, mk, back = b
    UN.update(q for z in (n, lo, hi) for q, _ in lin_of(z)[1])
    q = le(n, sub(hi, lo))
    if back: y, z = mk(lo, sub(hi, n)), mk(lo, lo)
    elif x.a[0] == 'it:seq': 
        r = x.a[2][0]; s = ref(r.a[0], r.a[1] + (('sl', add(lo, n), hi),)); w = sub(hi, add(lo, n))
        y, z = agg('it:seq', 0, (s, I(0), w)), mk(hi, hi)
    elif x.a[0] == 'it:seqv':
        y, z = agg('it:seqv', 0, (slc(x.a[2][0], add(lo, n), hi), I(0), sub(hi, add(lo, n)))), mk(hi, hi)
    else: y, z = mk(add(lo, n), hi), mk(hi, hi)
    return [((q,), y), ((not_(q),), z)]
@model('Iterator::nth')
def _(m, st, c):
    cell, path = m.ptr(st, c.args[0]); x = m.load(st, cell, path); n = c.args[1]
    b = bounded(x)
    if b is None: return m.emit(st, c.name, tuple(c.args), tuple(c.c(i) for i in range(len(c.args))), None, c.line, c.callee)
    lo, hi, mk, back = b
    UN.update(q for z in (n, lo, hi) for q, _ in lin_of(z)[1])
    q = lt(n, sub(hi, lo))
    return [((q,), lambda s: nth_at(m, s, c, cell, path, mk(lo, sub(hi, n)) if back else mk(add(lo, n), hi))), ((not_(q),), NONE)]
def nth_at(m, s, c, cell, path, it):
    m.store(s, cell, path, it)
    y = it; p = path; cl = 0
    while y.a[0] in ('it:cloned', 'it:rev'):
        cl += y.a[0] == 'it:cloned'; y = y.a[2][0]; p = p + (('f', 0),)
    back = bounded(it)[3]
    (_, v), _n = it_step(m, s, c, cell, p, back)
    v = v(s)
    if cl: 
        a = v.a[2][0]
        v = some(m.load(s, *a.a) if a.k == 'ref' else m.cell_get(s, ('X', deref(a))))
    return v
def rev_of(x):
    k = x.a[0]; f = x.a[2]
    if k == 'it:rev': return f[0]
    if k in ('it:map', 'it:filter', 'it:cloned', 'it:filter_map', 'it:inspect'): return agg(k, 0, (rev_of(f[0]),) + f[1:])
    if k == 'it:chain': return agg(k, 0, (rev_of(f[1]), rev_of(f[0]), f[2]))
    return agg('it:rev', 0, (x,))
@model('Iterator::rev')
def _(m, st, c): return rev_of(mkiter(m, st, c.args[0], c.targ(0)))
@model('ExactSizeIterator::len')
def _(m, st, c):
    x = m.load(st, *m.ptr(st, c.args[0]))
    return itlen(x)
def itlen(x):
    if x.k != 'agg': return uns(t('itlen', x))
    k, f = x.a[0], x.a[2]
    if k in ('it:seq', 'it:seqv') or k.startswith('it:map:'): return sub(f[2], f[1])
    if k == RANGE: return sub(f[1], f[0])
    if k in ('it:map', 'it:rev', 'it:cloned', 'it:enumerate', 'it:inspect'): return itlen(f[0])
    return uns(t('itlen', x))

def it_step(m, st, c, cell, path, back=False):
    """outcomes of next() on the iterator stored at (cell, path); None when a frame is needed"""
    x = m.load(st, cell, path)
    if x.k != 'agg':
        return None
    k, f = x.a[0], x.a[2]
    def setf(s, i, v): m.store(s, cell, path + (('f', i),), v)
    if k == 'it:rev': 
        return it_step(m, st, c, cell, path + (('f', 0),), not back)
    if k in ('it:seq', 'it:seqv', RANGE) or k.startswith('it:map:'):
        lo, hi = (f[0], f[1]) if k == RANGE else (f[1], f[2])
        li = 0 if k == RANGE else 1
        if k != RANGE: UN.update(q for z in (lo, hi) for q, _ in lin_of(z)[1])
        q = lt(lo, hi)
        i = sub(hi, I(1)) if back else lo
        if k == RANGE: e = i
        elif k == 'it:seq':
            r = f[0]; e = ref(r.a[0], r.a[1] + (('i', i),))
        elif k == 'it:seqv': e = idx(f[0], i)
        else:
            mode = k.split(':')[2]
            if mode in ('ref', 'keys', 'vals', 'set'):
                r = f[0]; co = m.content(st, m.load(st, *r.a))
                key = t('keyat', co, i)
                kr = ref(('X', key)); vr = ref(r.a[0], r.a[1] + (('mv', key),))
                e = {'ref': tup(kr, vr), 'keys': kr, 'vals': vr, 'set': kr}[mode]
            else:
                key = t('keyat', f[0], i); v = vfld(mget(f[0], key), 1, 0)
                e = {'val': tup(key, v), 'setval': key, 'valsval': v}[mode]
        def go(s):
            if back: setf(s, li + 1, sub(hi, I(1)))
            else: setf(s, li, add(lo, I(1)))
            return some(e)
        return [((q,), go), ((not_(q),), NONE)]
    if k == 'it:enumerate' and not back:
        # position of a plain sequence: reuse its index
        inner = f[0]
        ik = inner.a[0] if inner.k == 'agg' else ''
        if ik in ('it:seq', 'it:seqv', 'it:chunks', 'it:chunks_exact') and f[1] is I(0):
            o = it_step(m, st, c, cell, path + (('f', 0),))
            posn = inner.a[2][1] if ik.startswith('it:seq') else inner.a[2][2]
            out = []
            for conds, v in o:
                if callable(v):
                    out.append((conds, (lambda vv: lambda s: some(tup(posn, vv(s).a[2][0])))(v)))
                else: out.append((conds, v))
            return out
        return None
    if k in ('it:chunks', 'it:chunks_exact', 'it:windows') and not back:
        r, n, lo, L = f
        base_ = mul(lo, n); end = mul(add(lo, I(1)), n)
        def go2(s, e):
            setf(s, 2, add(lo, I(1))); return some(e)
        if k == 'it:windows':
            q = le(add(lo, n), L)
            return [((q,), lambda s: go2(s, ref(r.a[0], r.a[1] + (('sl', lo, add(lo, n)),)))), ((not_(q),), NONE)]
        full = ref(r.a[0], r.a[1] + (('sl', base_, end),))
        q = lt(base_, L) if k == 'it:chunks' else le(end, L)
        exact = k == 'it:chunks_exact' or decide(st.facts, eq0(mod(L, n)))
        if exact: return [((q,), lambda s: go2(s, full)), ((not_(q),), NONE)]
        q2 = le(end, L)
        return [((q, q2), lambda s: go2(s, full)), ((q, not_(q2)), lambda s: go2(s, ref(r.a[0], r.a[1] + (('sl', base_, L),)))), ((not_(q),), NONE)]
    if k == 'it:stepped' and not back:
        x, n, r = f; g = x.a[2]
        lo, hi = (g[0], g[1]) if x.a[0] == RANGE else (g[1], g[2])
        i = add(lo, mul(r, n)); q = lt(i, hi)
        e = i if x.a[0] == RANGE else ref(g[0].a[0], g[0].a[1] + (('i', i),)) if x.a[0] == 'it:seq' else idx(g[0], i)
        def go6(s):
            setf(s, 2, add(r, I(1))); return some(e)
        return [((q,), go6), ((not_(q),), NONE)]
    if k == 'it:from' and not back:
        def go5(s):
            setf(s, 0, add(f[0], I(1))); return some(f[0])
        return [((), go5)]
    if k == 'it:opt':
        v = f[0]
        def go3(s):
            setf(s, 0, NONE); return v
        if v.k == 'agg': return [((), go3)]
        q = isome(v)
        def go4(s):
            setf(s, 0, NONE); return some(vfld(v, 1, 0))
        return [((q,), go4), ((not_(q),), NONE)]
    return None

@model('next', 'Iterator::next', 'DoubleEndedIterator::next_back')
def it_next(m, st, c):
    cell, path = m.ptr(st, c.args[0])
    x = m.load(st, cell, path)
    back = c.name.endswith('next_back')
    n = 0
    while x.k == 'agg' and x.a[0] == 'it:by_ref' and n < 4:
        r = x.a[2][0]
        if r.k != 'ref': break
        cell, path = m.ptr(st, r); x = m.load(st, cell, path); n += 1
    o = it_step(m, st, c, cell, path, back)
    if o is not None: return o
    if x.k == 'agg':
        k, f = x.a[0], x.a[2]
        if k.startswith('it:local:'):
            return ('inst', int(k[9:]), (ref(cell, path + (('f', 0),)),))
        if k == 'it:recv':
            return ('model', 'recv_opt', (f[0],))
        if k == 'it:fromfn': return ('call', ref(cell, path + (('f', 0),)), [])
        if k == 'it:opaque' or back or k.startswith('it:') and 'next_' + k[3:] not in BODIES:
            r = m.emit(st, 'next', (c.args[0],), (m.content(st, f[0]),), None, c.line, c.callee)
            return [((isome(r),), some(vfld(r, 1, 0))), ((not_(isome(r)),), NONE)]
        if k.startswith('it:'):
            return ('frame', synth(m, 'next_' + k[3:]), (ref(cell, path),))
    # an opaque iterator (a parameter)
    r = m.emit(st, 'next', tuple(c.args), (m.content(st, x),), None, c.line, c.callee)
    return [((isome(r),), some(vfld(r, 1, 0))), ((not_(isome(r)),), NONE)]
@model('recv_opt')
def _(m, st, c):
    r = m.emit(st, 'mpsc::recv', tuple(c.args), (c.c(0),), None, c.line, c.callee)
    q = isok(r)
    return [((q,), some(vfld(r, 0, 0))), ((not_(q),), NONE)]
@model('callf')
def _(m, st, c): return ('call', c.args[0], list(c.args[1:]))
@model('mkiter')
def _(m, st, c): return mkiter(m, st, c.args[0], None)
@model('loadclone')
def _(m, st, c):
    a = c.args[0]
    return m.load(st, *a.a) if a.k == 'ref' else m.cell_get(st, ('X', deref(a)))
@model('addi')
def _(m, st, c): return add(c.c(0), c.c(1))
@model('lti')
def _(m, st, c): return lt(c.c(0), c.c(1))
@model('tmpref')
def _(m, st, c): return heap(m, st, c.args[0], 'tmp')

_SYN = {}
def synth(m, name):
    key = (id(m.p), name)
    i = _SYN.get(key)
    if i is None:
        argc, text = BODIES[name]
        i = m.p.synth(name, argc, text)
        _SYN[key] = i
    return i
LOOP = '''_3 = &_1; goto 1
call _4 = m:next(=_3) -> 2
_5 = discr _4; sw _5 0:3 1:4
'''
BODIES = {
 'next_map': (1, '''_2 = &*_1.0; call _3 = m:next(_2) -> 1
_4 = discr _3; sw _4 0:2 1:3
_0 = Option/0(); ret
_5 = _3.1@0; _6 = &*_1.1; call _7 = m:callf(_6, _5) -> 4
_0 = Option/1(_7); ret'''),
 'next_filter': (1, '''goto 1
_2 = &*_1.0; call _3 = m:next(_2) -> 2
_4 = discr _3; sw _4 0:3 1:4
_0 = Option/0(); ret
_5 = _3.1@0; _8 = &_5; _6 = &*_1.1; call _7 = m:callf(_6, _8) -> 5
swb _7 0:1 else:6
_0 = Option/1(_5); ret'''),
 'next_filter_map': (1, '''goto 1
_2 = &*_1.0; call _3 = m:next(_2) -> 2
_4 = discr _3; sw _4 0:3 1:4
_0 = Option/0(); ret
_5 = _3.1@0; _6 = &*_1.1; call _7 = m:callf(_6, _5) -> 5
_9 = discr _7; sw _9 0:1 1:6
_0 = _7; ret'''),
 'next_map_while': (1, '''_2 = &*_1.0; call _3 = m:next(_2) -> 1
_4 = discr _3; sw _4 0:2 1:3
_0 = Option/0(); ret
_5 = _3.1@0; _6 = &*_1.1; call _7 = m:callf(_6, _5) -> 4
_0 = _7; ret'''),
 'next_inspect': (1, '''_2 = &*_1.0; call _3 = m:next(_2) -> 1
_4 = discr _3; sw _4 0:2 1:3
_0 = Option/0(); ret
_5 = _3.1@0; _8 = &_5; _6 = &*_1.1; call _7 = m:callf(_6, _8) -> 4
_0 = Option/1(_5); ret'''),
 'next_take_while': (1, '''_2 = =*_1.2; swb _2 0:1 else:3
_2 = &*_1.0; call _3 = m:next(_2) -> 2
_4 = discr _3; sw _4 0:3 1:4
_0 = Option/0(); ret
_5 = _3.1@0; _8 = &_5; _6 = &*_1.1; call _7 = m:callf(_6, _8) -> 5
swb _7 0:6 else:7
*_1.2 = #1; _0 = Option/0(); ret
_0 = Option/1(_5); ret'''),
 'next_skip_while': (1, '''goto 1
_2 = &*_1.0; call _3 = m:next(_2) -> 2
_4 = discr _3; sw _4 0:3 1:4
_0 = Option/0(); ret
_5 = _3.1@0; _9 = =*_1.2; swb _9 0:5 else:7
_8 = &_5; _6 = &*_1.1; call _7 = m:callf(_6, _8) -> 6
swb _7 0:8 else:1
_0 = Option/1(_5); ret
*_1.2 = #1; goto 7'''),
 'next_take': (1, '''_2 = =*_1.1; sw _2 0:1 else:2
_0 = Option/0(); ret
_3 = sub =*_1.1, #1; *_1.1 = _3; _4 = &*_1.0; call _0 = m:next(_4) -> 3
ret'''),
 'next_skip': (1, '''goto 1
_2 = =*_1.1; sw _2 0:2 else:3
_4 = &*_1.0; call _0 = m:next(_4) -> 6
_3 = sub =*_1.1, #1; *_1.1 = _3; _4 = &*_1.0; call _5 = m:next(_4) -> 4
_6 = discr _5; sw _6 0:5 1:1
_0 = Option/0(); ret
ret'''),
 'next_enumerate': (1, '''_2 = &*_1.0; call _3 = m:next(_2) -> 1
_4 = discr _3; sw _4 0:2 1:3
_0 = Option/0(); ret
_5 = _3.1@0; _6 = =*_1.1; _7 = add =*_1.1, #1; *_1.1 = _7; _8 = tuple/0(_6, _5); _0 = Option/1(_8); ret'''),
 'next_swap': (1, '''_2 = &*_1.0; call _3 = m:next(_2) -> 1
_4 = discr _3; sw _4 0:2 1:3
_0 = Option/0(); ret
_5 = _3.1@0; _6 = _5.0; _7 = _5.1; _8 = tuple/0(_7, _6); _0 = Option/1(_8); ret'''),
 'next_cloned': (1, '''_2 = &*_1.0; call _3 = m:next(_2) -> 1
_4 = discr _3; sw _4 0:2 1:3
_0 = Option/0(); ret
_5 = _3.1@0; call _6 = m:loadclone(_5) -> 4
_0 = Option/1(_6); ret'''),
 'next_chain': (1, '''_2 = =*_1.2; swb _2 0:1 else:4
_2 = &*_1.0; call _3 = m:next(_2) -> 2
_4 = discr _3; sw _4 0:3 1:5
*_1.2 = #1; goto 4
_2 = &*_1.1; call _0 = m:next(_2) -> 6
_0 = _3; ret
ret'''),
 'next_zip': (1, '''_2 = &*_1.0; call _3 = m:next(_2) -> 1
_4 = discr _3; sw _4 0:2 1:3
_0 = Option/0(); ret
_2 = &*_1.1; call _5 = m:next(_2) -> 4
_6 = discr _5; sw _6 0:2 1:5
_7 = _3.1@0; _8 = _5.1@0; _9 = tuple/0(_7, _8); _0 = Option/1(_9); ret'''),
 'next_flatten': (1, '''goto 1
_2 = discr *_1.1; sw _2 0:4 1:2
_3 = &*_1.1.1@0; call _4 = m:next(_3) -> 3
_5 = discr _4; sw _5 0:7 1:6
_3 = &*_1.0; call _4 = m:next(_3) -> 5
_5 = discr _4; sw _5 0:6 1:8
_0 = _4; ret
*_1.1 = Option/0(); goto 4
_6 = _4.1@0; call _7 = m:mkiter(_6) -> 9
*_1.1 = Option/1(_7); goto 1'''),
 'flat_map_opt': (2, '''_3 = discr _1; sw _3 0:1 1:2
call _0 = m:iter_none() -> 4
_5 = _1.1@0; _6 = &_2; call _7 = m:callf(_6, _5) -> 3
call _0 = m:mkiter(_7) -> 4
ret'''),
 'flatten_opt': (1, '''_3 = discr _1; sw _3 0:1 1:2
call _0 = m:iter_none() -> 3
_5 = _1.1@0; call _0 = m:mkiter(_5) -> 3
ret'''),
 'or_insert_with': (2, '''call _3 = m:callf(_2) -> 1
call _0 = m:entry_insert(_1, _3) -> 2
ret'''),
 'and_modify': (3, '''call _4 = m:callf(_2, _3) -> 1
_0 = _1; ret'''),
 'for_each': (2, LOOP + '''ret
_6 = _4.1@0; _7 = &_2; call _8 = m:callf(_7, _6) -> 1'''),
 'fold': (3, '''_9 = _2; goto 1
_4 = &_1; call _5 = m:next(_4) -> 2
_6 = discr _5; sw _6 0:3 1:4
_0 = _9; ret
_7 = _5.1@0; _8 = &_3; call _9 = m:callf(_8, _9, _7) -> 1'''),
 'sum': (1, '''_2 = #0; goto 1
_4 = &_1; call _5 = m:next(_4) -> 2
_6 = discr _5; sw _6 0:3 1:4
_0 = _2; ret
_7 = _5.1@0; call _2 = m:addi(_2, _7) -> 1'''),
 'count': (1, '''_2 = #0; goto 1
_4 = &_1; call _5 = m:next(_4) -> 2
_6 = discr _5; sw _6 0:3 1:4
_0 = _2; ret
_2 = add _2, #1; goto 1'''),
 'any': (2, '''goto 1
call _4 = m:next(=_1) -> 2
_5 = discr _4; sw _5 0:3 1:4
_0 = #0; ret
_6 = _4.1@0; _7 = &_2; call _8 = m:callf(_7, _6) -> 5
swb _8 0:1 else:6
_0 = #1; ret'''),
 'all': (2, '''goto 1
call _4 = m:next(=_1) -> 2
_5 = discr _4; sw _5 0:3 1:4
_0 = #1; ret
_6 = _4.1@0; _7 = &_2; call _8 = m:callf(_7, _6) -> 5
swb _8 0:6 else:1
_0 = #0; ret'''),
 'find': (2, '''goto 1
call _4 = m:next(=_1) -> 2
_5 = discr _4; sw _5 0:3 1:4
_0 = Option/0(); ret
_6 = _4.1@0; _9 = &_6; _7 = &_2; call _8 = m:callf(_7, _9) -> 5
swb _8 0:1 else:6
_0 = Option/1(_6); ret'''),
 'find_map': (2, '''goto 1
call _4 = m:next(=_1) -> 2
_5 = discr _4; sw _5 0:3 1:4
_0 = Option/0(); ret
_6 = _4.1@0; _7 = &_2; call _8 = m:callf(_7, _6) -> 5
_9 = discr _8; sw _9 0:1 else:6
_0 = _8; ret'''),
 'position': (2, '''_10 = #0; goto 1
call _4 = m:next(=_1) -> 2
_5 = discr _4; sw _5 0:3 1:4
_0 = Option/0(); ret
_6 = _4.1@0; _7 = &_2; call _8 = m:callf(_7, _6) -> 5
swb _8 0:7 else:6
_0 = Option/1(_10); ret
_10 = add _10, #1; goto 1'''),
 'retain_vec': (3, '''call _4 = m:Vec::new() -> 1
_5 = &_4; goto 2
_6 = &_2; call _7 = m:next(_6) -> 3
_8 = discr _7; sw _8 0:4 1:5
*_1 = _4; _0 = %; ret
_9 = _7.1@0; _10 = &_9; _11 = &_3; call _12 = m:callf(_11, _10) -> 6
swb _12 0:2 else:7
call _13 = m:Vec::push(=_5, _9) -> 2'''),
 'last': (1, '''_9 = Option/0(); goto 1
_4 = &_1; call _5 = m:next(_4) -> 2
_6 = discr _5; sw _6 0:3 1:4
_0 = _9; ret
_9 = _5; goto 1'''),
 'extend_vec': (2, '''goto 1
_3 = &_2; call _4 = m:next(_3) -> 2
_5 = discr _4; sw _5 0:3 1:4
_0 = %; ret
_6 = _4.1@0; call _8 = m:Vec::push(=_1, _6) -> 1'''),
 'extend_map': (2, '''goto 1
_3 = &_2; call _4 = m:next(_3) -> 2
_5 = discr _4; sw _5 0:3 1:4
_0 = %; ret
_6 = _4.1@0; _7 = _6.0; _9 = _6.1; call _8 = m:HashMap::insert(=_1, _7, _9) -> 1'''),
 'extend_set': (2, '''goto 1
_3 = &_2; call _4 = m:next(_3) -> 2
_5 = discr _4; sw _5 0:3 1:4
_0 = %; ret
_6 = _4.1@0; call _8 = m:HashSet::insert(=_1, _6) -> 1'''),
}
for _k, _new, _ext in (('vec', 'Vec::new', 'extend_vec'), ('map', 'HashMap::new', 'extend_map'), ('set', 'HashSet::new', 'extend_set')):
    _body = {'vec': 'call _8 = m:Vec::push(=_7, _6) -> 2', 'map': '_9 = _6.0; _10 = _6.1; call _8 = m:HashMap::insert(=_7, _9, _10) -> 2', 'set': 'call _8 = m:HashSet::insert(=_7, _6) -> 2'}[_k]
    BODIES['collect_' + _k] = (1, f'''call _2 = m:{_new}() -> 1
_7 = &_2; goto 2
_3 = &_1; call _4 = m:next(_3) -> 3
_5 = discr _4; sw _5 0:4 1:5
_0 = _2; ret
_6 = _4.1@0; {_body}''')
    for _w, _good, _bad in (('Result', 0, 1), ('Option', 1, 0)):
        BODIES[f'collect_{_w}_{_k}'] = (1, f'''call _2 = m:{_new}() -> 1
_7 = &_2; goto 2
_3 = &_1; call _4 = m:next(_3) -> 3
_5 = discr _4; sw _5 0:4 1:5
_0 = {_w}/{_good}(_2); ret
_11 = _4.1@0; _12 = discr _11; sw _12 {_good}:6 {_bad}:7
_6 = _11.{_good}@0; {_body}
''' + ('_13 = _11.1@0; _0 = Result/1(_13); ret' if _w == 'Result' else '_0 = Option/0(); ret'))
BODIES['collect_chain'] = (1, '''call _2 = m:Vec::new() -> 1
_7 = &_2; _3 = _1.0; call _4 = m:extend_items(=_7, _3) -> 2
_5 = _1.1; call _6 = m:extend_items(=_7, _5) -> 3
_0 = _2; ret''')
@model('extend_items')
def _(m, st, c):
    it = c.args[1]
    if it.k == 'agg' and it.a[0] == 'it:chain': return ('frame', synth(m, 'extend_chain'), (c.args[0], it))
    src = None
    if it.k == 'agg' and it.a[0] == 'it:opt' and it.a[2][0].k == 'agg':
        if it.a[2][0].a[1] == 1: mut(m, st, c, 'Vec::push', (it.a[2][0].a[2][0],))
        return UNIT
    if it.k == 'agg' and it.a[0] == 'it:seqv': src = slc(*it.a[2])
    if it.k == 'agg' and it.a[0] == 'it:cloned' and it.a[2][0].k == 'agg' and it.a[2][0].a[0] == 'it:seq':
        s = it.a[2][0].a[2]; src = slc(m.content(st, s[0]), s[1], s[2])
    if src is not None:
        mut(m, st, c, 'Vec::extend_from_slice', (src,)); return UNIT
    return ('frame', synth(m, 'extend_vec'), (c.args[0], it))
BODIES['extend_chain'] = (2, '''_3 = _2.0; call _4 = m:extend_items(=_1, _3) -> 1
_5 = _2.1; call _6 = m:extend_items(=_1, _5) -> 2
_0 = %; ret''')
@model('Iterator::collect')
def _(m, st, c):
    it = mkiter(m, st, c.args[0], c.targ(0))
    if it.k == 'agg' and it.a[0] == 'it:chain' and it.a[2][2] is FALSE and tpath(m, c.targ(1)).split('::')[-1] == 'Vec': return ('frame', synth(m, 'collect_chain'), (it,))
    B = c.targ(1)
    p = tpath(m, B).split('::')[-1]
    w = ''
    if p in ('Result', 'Option'):
        w = p + '_'; B = m.p.types[B]['args'][0]; p = tpath(m, B).split('::')[-1]
    k = {'Vec': 'vec', 'VecDeque': 'vec', 'HashMap': 'map', 'BTreeMap': 'map', 'HashSet': 'set', 'BTreeSet': 'set', 'Box': 'vec', 'String': 'vec'}.get(p)
    if k is None: 
        r = m.emit(st, 'collect', tuple(c.args), (m.content(st, it),), None, c.line, c.callee); return r
    if not w and k == 'vec' and it.k == 'agg' and it.a[0] == 'it:seqv' and it.a[2][1] is I(0) and it.a[2][2] is length(it.a[2][0]): return it.a[2][0]
    if not w and k == 'vec' and it.k == 'agg' and it.a[0] == 'it:seqv': return slc(*it.a[2])
    if not w and k == 'vec' and it.k == 'agg' and it.a[0] == 'it:cloned' and it.a[2][0].k == 'agg' and it.a[2][0].a[0] == 'it:seq':
        s = it.a[2][0].a[2]   # copying consecutive elements, as to_vec does
        v = slc(m.content(st, s[0]), s[1], s[2])
        return v if v.k in ('agg', 'bytes_le', 'slice') else t('clone', site(m, st), v)
    return ('frame', synth(m, 'collect_' + w + k), (it,))
def consumer(name, byref=False):
    def f(m, st, c):
        if byref: return ('frame', synth(m, name), (c.args[0],) + tuple(c.args[1:]))
        return ('frame', synth(m, name), (mkiter(m, st, c.args[0], c.targ(0)),) + tuple(c.args[1:]))
    return f
for _k in ('for_each', 'fold', 'sum', 'count', 'last'): M['Iterator::' + _k] = consumer(_k)
for _k in ('any', 'all', 'find', 'find_map', 'position'): M['Iterator::' + _k] = consumer(_k, True)
@model('Extend::extend', 'Vec::extend', 'HashMap::extend')
def _(m, st, c):
    ty = strip_ref_ty(m, c.targ(0)); p = tpath(m, ty).split('::')[-1]
    # the item source: Extend::extend<Self, A, I>
    args = c.callee.get('args') if c.callee else []
    if args and tpath(m, args[-1]).split('::')[-1] in ('Bytes', 'BytesMut') and p == 'Vec':     # bytes one by one, in order
        src = m.content(st, c.args[1])
        mut(m, st, c, 'Vec::extend_from_slice', (src,)); return UNIT
    it = mkiter(m, st, c.args[1], args[-1] if args else None)
    k = 'map' if 'Map' in p else 'set' if 'Set' in p else 'vec'
    if k == 'vec':
        # extend(&slice) copies elements
        full = it.k == 'agg' and it.a[0] in ('it:seq', 'it:seqv') and it.a[2][1] is I(0)
        if full:
            src = m.content(st, it.a[2][0])
            if it.a[2][2] is length(src):
                c.args = [c.args[0], c.args[1]]
                mut(m, st, c, 'Vec::extend_from_slice', (src,)); return UNIT
        it0 = it
        if it.k == 'agg' and it.a[0] == 'it:seq': it = agg('it:cloned', 0, (it,))
    return ('frame', synth(m, 'extend_' + k), (c.args[0], it))
@model('Iterator::max', 'Iterator::min', 'Iterator::max_by_key', 'Iterator::min_by_key', 'Iterator::product', 'Iterator::unzip', 'Iterator::partition', 'Iterator::reduce', 'Iterator::size_hint', 'Iterator::max_by', 'Iterator::eq', 'Iterator::cmp')
def _(m, st, c):
    return m.emit(st, c.name, tuple(c.args), tuple(c.c(i) for i in range(len(c.args))), None, c.line, c.callee)

# --------------------------------------------------------------------------- text
@model('str::from_utf8', 'String::from_utf8', 'str::from_utf8_mut')
def _(m, st, c):
    v = c.c(0); r = pure('utf8', v); q = isok(r)
    val = v if c.name.startswith('String') else c.args[0]
    return [((q,), ok(val)), ((not_(q),), err(vfld(r, 1, 0)))]
@model('String::from_utf8_unchecked', 'str::from_utf8_unchecked', 'str::from_utf8_unchecked_mut', 'String::from_utf8_lossy', 'String::into_boxed')
def _(m, st, c):
    if c.name.endswith('unchecked') or c.name.endswith('mut'):
        m.emit(st, c.name, tuple(c.args), (c.c(0),), UNIT, c.line, c.callee)
    return c.args[0]
@model('str::parse')
def _(m, st, c):
    ty = c.targ(0)
    r = t('app', 'parse', (t('ty', m.p.tys(ty)), c.c(0))); q = isok(r)
    v = vfld(r, 0, 0)
    if elem_unsigned(m, ty): UN.add(v)
    return [((q,), ok(v)), ((not_(q),), err(vfld(r, 1, 0)))]
@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::from_usize', 'Argument::new_pointer')
def _(m, st, c): return t('fmtarg', c.name.split('::')[1][4:], c.c(0))
@model('Arguments::new', 'Arguments::from_str', 'Arguments::new_v1', 'Arguments::new_const')
def _(m, st, c):
    if c.name == 'Arguments::from_str': return t('fmt', c.c(0), ())
    a = c.c(1)
    return t('fmt', c.c(0), a.a[2] if a.k == 'agg' else (a,))
@model('fmt::format')
def _(m, st, c):
    v = c.args[0]
    if v.k == 'fmt' and not v.a[1] and v.a[0].k == 'str': return v.a[0]
    return t('format', v)
@model('io::_print', 'io::_eprint')
def _(m, st, c): m.emit(st, c.name, tuple(c.args), (c.c(0),), UNIT, c.line, c.callee); return UNIT
@model('Formatter::write_fmt', 'Formatter::write_str')
def _(m, st, c):
    r = m.emit(st, c.name, tuple(c.args), tuple(c.c(i) for i in range(len(c.args))), None, c.line, c.callee)
    q = isok(r)
    return [((q,), ok(UNIT)), ((not_(q),), err(vfld(r, 1, 0)))]

# --------------------------------------------------------------------------- serde_json
@model('value::to_value')
def _(m, st, c):
    v = c.c(0)
    return ok(v if v.k == 'agg' and 'Value' in v.a[0] else t('json', v))
@model('de::from_slice', 'de::from_str', 'value::from_value')
def _(m, st, c):
    ty = c.targ(-1 if False else 0)
    r = t('app', c.name, (t('ty', m.p.tys(ty)) if ty is not None else UNIT, c.c(0))); q = isok(r)
    return [((q,), ok(vfld(r, 0, 0))), ((not_(q),), err(vfld(r, 1, 0)))]
@model('Value::as_array', 'Value::as_str')
def _(m, st, c):
    cell, path = m.ptr(st, c.args[0]); v = m.content(st, m.load(st, cell, path))
    r = pure(c.name, v); q = isome(r)
    return [((q,), some(ref(('X', vfld(r, 1, 0))))), ((not_(q),), NONE)]
@model('Value::take')
def _(m, st, c):
    cell, path = m.ptr(st, c.args[0]); v = m.content(st, m.load(st, cell, path))
    return v
@model('Value::get')
def _(m, st, c):
    cell, path = m.ptr(st, c.args[0]); v = m.content(st, m.load(st, cell, path)); k = key_of(m, st, c)
    r = t('jget', v, k); q = t('is', t('jhas', v, k), 1)
    return [((q,), some(ref(cell, path + (('j', k),)))), ((not_(q),), NONE)]

# --------------------------------------------------------------------------- files, env, threads, channels
def result_event(m, st, c, val=None):
    r = m.emit(st, c.name, tuple(c.args), tuple(c.c(i) for i in range(len(c.args))), None, c.line, c.callee)
    q = isok(r)
    return r, [((q,), ok(vfld(r, 0, 0) if val is None else val)), ((not_(q),), err(vfld(r, 1, 0)))]
@model('fs::read', 'fs::rename', 'fs::write', 'fs::copy', 'fs::remove_file', 'File::open', 'File::create', 'File::create_new', 'File::sync_all', 'File::sync_data', 'fs::read_to_string', 'fs::metadata', 'fs::hard_link',
       'OpenOptions::open', 'Write::flush', 'File::set_len', 'fs::create_dir_all', 'fs::exists', 'File::metadata', 'BufWriter::into_inner', 'Seek::seek', 'Seek::rewind', 'Seek::stream_position', 'tokio::Runtime::new', 'Builder::build', 'thread::Builder::spawn', 'Builder::spawn')
def _(m, st, c): return result_event(m, st, c)[1]
@model('Write::write_all', 'Write::write')
def _(m, st, c): return result_event(m, st, c)[1]
@model('Read::read', 'Read::read_exact', 'Read::read_to_end')
def _(m, st, c):
    r, o = result_event(m, st, c)
    m.bump(st, c.args[1], r)
    cell, path = m.ptr(st, c.args[1])
    n = vfld(r, 0, 0)
    if c.name == 'Read::read':
        UN.add(n)
        L = length(m.content(st, m.load(st, cell, path)))
        o = [(o[0][0] + (le(n, L),), o[0][1]), o[1]]
    return o
@model('env::var', 'env::var_os')
def _(m, st, c):
    r = t('app', 'env::var', (c.c(0),)); q = isok(r)
    return [((q,), ok(vfld(r, 0, 0))), ((not_(q),), err(vfld(r, 1, 0)))]
@model('thread::spawn')
def _(m, st, c):
    r = m.emit(st, 'thread::spawn', tuple(c.args), (c.c(0),), None, c.line, c.callee)
    m.fork_thread(st, c.args[0])
    return agg('joinhandle', 0, (r,))
@model('JoinHandle::join')
def _(m, st, c):
    r = m.emit(st, 'thread::join', tuple(c.args), (c.c(0),), None, c.line, c.callee)
    q = isok(r)
    return [((q,), ok(vfld(r, 0, 0))), ((not_(q),), err(vfld(r, 1, 0)))]
@model('mpsc::channel', 'mpsc::sync_channel', 'tokio::mpsc::channel', 'tokio::mpsc::unbounded_channel')
def _(m, st, c):
    r = m.emit(st, c.name, tuple(c.args), tuple(c.c(i) for i in range(len(c.args))), None, c.line, c.callee)
    return tup(t('sender', r), t('receiver', r))
@model('Sender::send', 'SyncSender::send')
def _(m, st, c):
    r = m.emit(st, 'mpsc::send', tuple(c.args), tuple(c.c(i) for i in range(len(c.args))), None, c.line, c.callee)
    q = isok(r)
    return [((q,), ok(UNIT)), ((not_(q),), err(vfld(r, 1, 0)))]
@model('Receiver::recv', 'Receiver::try_recv', 'Receiver::recv_timeout')
def _(m, st, c):
    n = 'mpsc::recv' if c.name.endswith('::recv') else 'mpsc::' + c.name.split('::')[1]
    r = m.emit(st, n, tuple(c.args), (c.c(0),), None, c.line, c.callee)
    q = isok(r)
    return [((q,), ok(vfld(r, 0, 0))), ((not_(q),), err(vfld(r, 1, 0)))]
@model('tokio::Sender::send', 'tokio::Receiver::recv', 'tokio::Sender::try_send')
def _(m, st, c):
    if c.name.endswith('try_send'):
        r = m.emit(st, c.name, tuple(c.args), tuple(c.c(i) for i in range(len(c.args))), None, c.line, c.callee); return r
    return agg('fut:' + c.name, 0, tuple(c.args))
@model('poll:tokio::Sender::send')
def _(m, st, c):
    r = m.emit(st, 'await:tokio::send', tuple(c.args), tuple(c.c(i) for i in range(len(c.args))), None, c.line, c.callee)
    q = isok(r); return [((q,), agg(POLL, 0, (ok(UNIT),))), ((not_(q),), agg(POLL, 0, (err(vfld(r, 1, 0)),)))]
@model('poll:tokio::Receiver::recv')
def _(m, st, c):
    r = m.emit(st, 'await:tokio::recv', tuple(c.args), (c.c(0),), None, c.line, c.callee)
    q = isome(r); return [((q,), agg(POLL, 0, (some(vfld(r, 1, 0)),))), ((not_(q),), agg(POLL, 0, (NONE,)))]
@model('tokio::sleep::sleep')
def _(m, st, c): return agg('fut:tokio::sleep', 0, tuple(c.args))
@model('poll:tokio::sleep')
def _(m, st, c):
    m.emit(st, 'await:tokio::sleep', tuple(c.args), (c.c(0),), UNIT, c.line, c.callee); return agg(POLL, 0, (UNIT,))
@model('tokio::Runtime::block_on')
def _(m, st, c):
    m.emit(st, 'block_on', tuple(c.args), (c.c(1),), UNIT, c.line, c.callee)
    return ('frame', synth(m, 'block_on'), (c.args[1],))
BODIES['block_on'] = (1, '''_2 = &_1; call _3 = m:poll(_2) -> 1
_0 = _3.0@0; ret''')
@model('poll')
def _(m, st, c): return ('poll', list(c.args))

# --------------------------------------------------------------------------- locks
LOCKS = {'tokio::RwLock::new': 'tokio::RwLock', 'tokio::Mutex::new': 'tokio::Mutex', 'Mutex::new': 'std::Mutex', 'RwLock::new': 'std::RwLock', 'RefCell::new': 'RefCell', 'Cell::new': 'Cell'}
for _n, _k in LOCKS.items():
    M[_n] = (lambda k: lambda m, st, c: agg('lock:' + k, 0, (c.args[0],)))(_k)
def acquire(mode):
    def f(m, st, c):
        cell, path = m.ptr(st, c.args[0])
        return agg('fut:lock:' + mode, 0, (ref(cell, path),))
    return f
M['tokio::RwLock::read'] = acquire('read'); M['tokio::RwLock::write'] = acquire('write'); M['tokio::Mutex::lock'] = acquire('lock')
def guard(m, st, lref, mode, ev):
    return agg('guard:' + mode, 0, (ref(lref.a[0], lref.a[1] + (('f', 0),)), ev))
def lock_now(m, st, c, mode, lref, how='acquire:'):
    r = m.emit(st, how + mode, (lref,), (m.place_term(st, *lref.a),), None, c.line, c.callee)
    return r
for _m in ('read', 'write', 'lock'):
    def _pl(m, st, c, mode=_m):
        lref = c.args[0]
        r = lock_now(m, st, c, mode, lref)
        return agg(POLL, 0, (guard(m, st, lref, mode, r),))
    M['poll:lock:' + _m] = _pl
def trylock(mode):
    def f(m, st, c):
        cell, path = m.ptr(st, c.args[0]); lref = ref(cell, path)
        r = m.emit(st, 'try_acquire:' + mode, (lref,), (m.place_term(st, cell, path),), None, c.line, c.callee)
        q = isok(r)
        return [((q,), ok(guard(m, st, lref, mode, r))), ((not_(q),), err(vfld(r, 1, 0)))]
    return f
M['tokio::Mutex::try_lock'] = trylock('lock'); M['tokio::RwLock::try_read'] = trylock('read'); M['tokio::RwLock::try_write'] = trylock('write'); M['Mutex::try_lock'] = trylock('lock')
def stdlock(mode):
    def f(m, st, c):
        cell, path = m.ptr(st, c.args[0]); lref = ref(cell, path)
        r = lock_now(m, st, c, mode, lref, 'stdacquire:')
        q = isok(r)
        return [((q,), ok(guard(m, st, lref, mode, r))), ((not_(q),), err(vfld(r, 1, 0)))]
    return f
M['Mutex::lock'] = stdlock('lock'); M['RwLock::read'] = stdlock('read'); M['RwLock::write'] = stdlock('write')
def blocklock(mode):
    def f(m, st, c):
        cell, path = m.ptr(st, c.args[0]); lref = ref(cell, path)
        return guard(m, st, lref, mode, lock_now(m, st, c, mode, lref, 'blocking:'))
    return f
M['tokio::RwLock::blocking_read'] = blocklock('read'); M['tokio::RwLock::blocking_write'] = blocklock('write'); M['tokio::Mutex::blocking_lock'] = blocklock('lock')

# --------------------------------------------------------------------------- hashing
@model('Digest::new', 'FixedOutput::new', 'Sha256::new')
def _(m, st, c): return t('newc', 'sha256', site(m, st))
@model('Digest::update', 'Update::update')
def _(m, st, c): mut(m, st, c, 'Digest::update', (c.c(1),)); return UNIT
@model('Digest::chain', 'Digest::chain_update')
def _(m, st, c):
    v = c.args[0]
    r = m.emit(st, 'Digest::update', tuple(c.args), (v, c.c(1)), None, c.line, c.callee)
    return t('ver', v, r)
@model('Digest::finalize', 'Digest::finalize_reset')
def _(m, st, c):
    v = c.args[0]
    m.emit(st, 'Digest::finalize', tuple(c.args), (v,), UNIT, c.line, c.callee)
    if v.k == 'ver' and v.a[0].k == 'newc' and v.a[1].k == 'ev' and v.a[1].a[1] == 'Digest::update':
        d = v.a[1].a[2][1]                      # a fresh hash given just one other digest: the hash of that digest
        while d.k in ('ref', 'deref', 'clone') and d.a: d = d.a[1] if d.k == 'clone' else d.a[0]
        if d.k in ('digest', 'sha256'): return t('sha256', d)
    return t('digest', v)
@model('Digest::digest')
def _(m, st, c): return t('sha256', c.c(0))

# --------------------------------------------------------------------------- process
@model('process::exit')
def _(m, st, c):
    m.emit(st, 'process::exit', tuple(c.args), (c.c(0),), UNIT, c.line, c.callee, kind='exit'); m.terminal(st, 'exit', c.c(0)); return ('diverge',)
@model('SystemTime::now', 'Instant::now')
def _(m, st, c): return t('now', site(m, st))

# --------------------------------------------------------------------------- HTTP responses (a builder given only valid constants cannot fail)
@model('Response::builder')
def _(m, st, c): return pure('respb')
@model('Builder::status')
def _(m, st, c): return pure('resp_status', c.args[0], c.c(1))
@model('Builder::header')
def _(m, st, c): return pure('resp_header', c.args[0], c.c(1), c.c(2))
def http_const(x):
    if x.k == 'str': return all(32 <= ord(ch) < 127 for ch in x.a[0])
    return x.k == 'constadt' or is_int(x) and 100 <= x.a[0] < 1000
@model('Builder::body')
def _(m, st, c):
    b = c.args[0]; body = c.c(1); x = b; good = True
    while x.k == 'app' and x.a[0] in ('resp_status', 'resp_header'):
        good &= all(http_const(y) for y in x.a[1][1:]); x = x.a[1][0]
    good &= x.k == 'app' and x.a[0] == 'respb'
    v = pure('response', b, body)
    if good: return agg(RES, 0, (v,))
    ok = isok(pure('respok', b))
    return [((ok,), agg(RES, 0, (v,))), ((not_(ok),), agg(RES, 1, (pure('resperr', b),)))]
@model('Response::new')
def _(m, st, c): return pure('response', pure('respb'), c.c(0))
def resp_parts(v):
    """a response taken apart to be changed in place: status, headers, body"""
    x = v.a[1][0]; status = I(200)
    while x.k == 'app' and x.a[0] in ('resp_status', 'resp_header'):
        if x.a[0] == 'resp_status': status = x.a[1][1]; break
        x = x.a[1][0]
    return agg('resp', 0, (status, v.a[1][0], v.a[1][1]))
@model('Response::into_parts')
def _(m, st, c):
    v = c.args[0]
    if v.k == 'app' and v.a[0] == 'response': v = resp_parts(v); return tup(agg('parts', 0, (v.a[2][0],) + tuple(t('fld', v, k) for k in (1, 3, 4, 5))), v.a[2][2])
    return tup(agg('parts', 0, tuple(pure(n, v) for n in ('Response::status', 'Response::version', 'Response::headers', 'Response::extensions', 'Response::parts'))), pure('Response::into_body', v))
def resp_field(name, k):
    def f(m, st, c):
        cell, path = m.ptr(st, c.args[0]); v = m.load(st, cell, path)
        if v.k == 'app' and v.a[0] == 'response':
            v = resp_parts(v); m.store(st, cell, path, v)
        if v.k == 'agg' and v.a[0] == 'resp': return ref(cell, path + (('f', k),))
        return m.emit(st, name, tuple(c.args), (m.content(st, c.args[0]),), None, c.line, c.callee)
    return f
for _k, _n in ((0, 'Response::status_mut'), (1, 'Response::headers_mut')): M[_n] = resp_field(_n, _k)
@model('HeaderMap::insert', 'HeaderMap::append')
def _(m, st, c):
    cell, path = m.ptr(st, c.args[0]); v = m.load(st, cell, path)
    if v.k == 'app' and v.a[0] in ('respb', 'resp_status', 'resp_header'):
        k, x = c.c(1), c.c(2)
        m.store(st, cell, path, pure('resp_header', v, k, x))
        return NONE if c.name.endswith('insert') else FALSE
    return m.emit(st, c.name, tuple(c.args), tuple(c.c(i) for i in range(3)), None, c.line, c.callee)
