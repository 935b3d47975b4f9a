"""What calls into the standard library need in order not to panic (or, for the unchecked ones, not to be undefined).
PRE[name](m, st, c) -> list of (condition, text); the interpreter splits on each condition it cannot decide."""
from .terms import *
from . import models as MD
from .models import pure
UN = MD.UN
PRE = {}
def pre(*names):
    def d(f):
        for n in names: PRE[n] = f
        return f
    return d
def recv(m, st, c):
    cell, path = m.ptr(st, c.args[0])
    return m.content(st, m.load(st, cell, path))
def num(x):
    UN.update(q for q, _ in lin_of(x)[1]); return x
def nonzero(x): return not_(eq0(num(x)))

@pre('Vec::insert', 'VecDeque::insert')
def _(m, st, c): return [(le(num(c.args[1]), length(recv(m, st, c))), 'insertion index')]
@pre('Vec::remove', 'Vec::swap_remove')
def _(m, st, c): return [(lt(num(c.args[1]), length(recv(m, st, c))), 'removal index')]
@pre('Vec::split_off', 'VecDeque::split_off')
def _(m, st, c): return [(le(num(c.args[1]), length(recv(m, st, c))), 'split index')]
@pre('Vec::drain', 'VecDeque::drain', 'Vec::splice', 'Vec::extend_from_within', 'slice::copy_within', 'VecDeque::range')
def _(m, st, c):
    L = length(recv(m, st, c))
    a, b = MD.range_bounds(m, st, c.args[1], c.tys[1] if len(c.tys) > 1 else None, L)
    return [(le(num(a), num(b)), 'range start > end'), (le(b, L), 'range end > len')]
@pre('slice::swap', 'VecDeque::swap')
def _(m, st, c):
    L = length(recv(m, st, c))
    return [(lt(num(c.args[1]), L), 'swap index'), (lt(num(c.args[2]), L), 'swap index')]
@pre('slice::rotate_left', 'slice::rotate_right', 'VecDeque::rotate_left', 'VecDeque::rotate_right')
def _(m, st, c): return [(le(num(c.args[1]), length(recv(m, st, c))), 'rotation')]
@pre('slice::chunks', 'slice::chunks_exact', 'slice::windows', 'slice::rchunks', 'slice::chunks_mut', 'slice::chunks_exact_mut', 'Iterator::step_by', 'slice::rchunks_exact', 'Iterator::array_chunks')
def _(m, st, c): return [(nonzero(c.args[1]), 'size of zero')]
@pre('slice::select_nth_unstable', 'slice::select_nth_unstable_by', 'slice::select_nth_unstable_by_key')
def _(m, st, c): return [(lt(num(c.args[1]), length(recv(m, st, c))), 'index')]
@pre('slice::get_unchecked', 'slice::get_unchecked_mut', 'str::get_unchecked', 'str::get_unchecked_mut')
def _(m, st, c):
    L = length(recv(m, st, c)); it = c.tys[1] if len(c.tys) > 1 else None
    if MD.tinfo(m, it).get('k') in ('uint', 'int') or (it is None and c.args[1].k != 'agg'): return [(lt(num(c.args[1]), L), 'unchecked index')]
    a, b = MD.range_bounds(m, st, c.args[1], it, L)
    return [(le(num(a), num(b)), 'unchecked range start > end'), (le(b, L), 'unchecked range end > len')]

def boundary(m, st, c, xs):
    co = recv(m, st, c); L = length(co)
    return [(pure('char_boundary', co, x), 'not a character boundary') for x in xs if not MD.is_boundary(co, L, x)]
@pre('str::split_at', 'str::split_at_mut', 'String::truncate', 'String::insert', 'String::insert_str', 'String::remove', 'String::split_off')
def _(m, st, c): return boundary(m, st, c, [c.args[1]])
@pre('String::drain', 'String::replace_range')
def _(m, st, c):
    L = length(recv(m, st, c))
    a, b = MD.range_bounds(m, st, c.args[1], c.tys[1] if len(c.tys) > 1 else None, L)
    return [(le(num(a), num(b)), 'range start > end'), (le(b, L), 'range end > len')] + boundary(m, st, c, [a, b])

def opaque(text, *names):
    def f(m, st, c): return [(pure('precondition', S(c.name), *[c.c(i) for i in range(len(c.args))]), text)]
    for n in names: PRE[n] = f
opaque('not a duration', 'Duration::from_secs_f64', 'Duration::from_secs_f32', 'Duration::mul_f64', 'Duration::mul_f32', 'Duration::div_f64', 'Duration::div_f32', 'Duration::div_duration_f64')
opaque('already borrowed', 'RefCell::borrow', 'RefCell::borrow_mut', 'RefCell::replace', 'RefCell::swap', 'RefCell::take')
opaque('blocking in an asynchronous task', 'RwLock::blocking_read', 'RwLock::blocking_write', 'Mutex::blocking_lock', 'mpsc::Sender::blocking_send', 'Sender::blocking_send', 'Receiver::blocking_recv', 'mpsc::Receiver::blocking_recv')
@pre('HeaderValue::from_static', 'HeaderName::from_static')
def _(m, st, c):
    x = c.c(0)
    return [] if x.k == 'str' and str(x.a[0]).isascii() and str(x.a[0]).isprintable() else [(pure('precondition', S(c.name), x), 'invalid header value')]
opaque('no value', 'Option::unwrap_unchecked', 'Result::unwrap_unchecked')
@pre('char::from_digit', 'char::to_digit', 'char::is_digit')
def _(m, st, c): return [(le(num(c.args[1]), I(36)), 'radix')]
for _ty in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
    PRE[_ty + '::from_str_radix'] = lambda m, st, c: [(le(num(c.args[1]), I(36)), 'radix'), (lt(I(1), num(c.args[1])), 'radix')]
    for _o in ('rem_euclid', 'div_euclid', 'div_ceil', 'next_multiple_of'):
        PRE[_ty + '::' + _o] = lambda m, st, c: [(not_(eq0(c.args[1])), 'division by zero')]
    for _o in ('ilog2', 'ilog10', 'ilog'):
        PRE[_ty + '::' + _o] = lambda m, st, c: [(gt0(c.args[0]), 'logarithm of zero')]
    PRE[_ty + '::pow'] = lambda m, st, c: [] if all(x.k == 'int' for x in c.args) else [(pure('precondition', S(c.name), *c.args), 'overflow')]
    PRE[_ty + '::clamp'] = lambda m, st, c: [(le(c.args[1], c.args[2]), 'clamp bounds')]
