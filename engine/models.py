"""What the analysis assumes about std: Vec, slices, strings, io adapters, phf maps."""
from terms import *
from values import *
import interp


def register(E):
    import models2
    globals()['models2'] = models2
    M = E.models
    for f in list(globals().values()) + list(vars(models2).values()):
        if hasattr(f, 'names'):
            for n in f.names:
                n = interp.canon(n)
                M[n] = f
                M[n.replace('absharness::models::', 'absmodels::')] = f


def model(*names):
    def deco(f):
        f.names = names
        return f
    return deco


def aslist(v):
    """list value of Vec / array / String contents"""
    if v[0] in ('L', 'LU', 'PU'):
        return v
    if v[0] == 'R':
        return ('L', tuple(('e', x) for x in v[1]))
    if v[0] == 'St':
        return v[1]
    raise Undecided('not a list: %s' % v[0])


def vlen(v):
    if v[0] == 'R':
        return len(v[1])
    if v[0] == 'str':
        return len(v[1].encode())
    return list_len(aslist(v))


def some(v):
    return ('A', OPTION, 1, (v,))


NONE = ('A', OPTION, 0, ())


def sl_of(E, st, v):
    """slice reference of a reference to a vector, array or slice"""
    if v[0] == '&s':
        return v
    if v[0] == '&':
        x = E.load(st, v)
        if x[0] == '&s':
            return x
        if x[0] == '&':
            return sl_of(E, st, x)
        if x[0] in ('L', 'LU', 'PU', 'R', 'St'):
            return ('&s', v[1], v[2], 0, vlen(x))
    raise Undecided('slice of %s' % (v[0],))


def sl_elem(sl, i):
    return ('&', sl[1], sl[2] + (('i', add(sl[3], i)),))


def sl_value(E, st, sl):
    """whole content of a slice reference as a list, when it is the whole vector or concrete"""
    v = E.path_get(st, E.cell_get(st, sl[1]), sl[2])
    lo, n = norm(st.ctx, sl[3]), norm(st.ctx, sl[4])
    if v[0] == 'str':
        v = ('L', tuple(('e', b) for b in models2.as_bytes(v[1])))
    if v[0] == 'R' and isinstance(lo, int) and isinstance(n, int):
            return ('L', tuple(('e', x) for x in v[1][lo:lo + n]))
    elif lo == 0 and decide(st.ctx, cond_eq(st.ctx, n, norm(st.ctx, list_len(v)))) == 1:
        return v
    elif isinstance(lo, int) and isinstance(n, int) and n <= 64 and v[0] != 'L':
        return ('L', tuple(('e', list_get(st.ctx, v, lo + i)) for i in range(n)))
    return models2.list_part(st.ctx, aslist(v), lo, norm(st.ctx, add(lo, n)))


# ---- Vec -----------------------------------------------------------------------------------------

@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::vec::Vec::<T, A>::with_capacity_in',
       'std::vec::Vec::<T, A>::new_in', 'std::string::String::new', 'std::string::String::with_capacity')
def vec_new(E, st, t, inst, args):
    if args and is_int(args[0]):
        E.alloc(st, args[0], 'reserves memory for')
    return E.finish_call(st, t, ('L', ()))


@model('<std::vec::Vec<T> as std::default::Default>::default')
def vec_default(E, st, t, inst, args):
    return E.finish_call(st, t, ('L', ()))


@model('std::vec::Vec::<T, A>::push')
def vec_push(E, st, t, inst, args):
    v = E.load(st, args[0])
    E.store(st, args[0], list_append(aslist(v), (('e', args[1]),)))
    return E.finish_call(st, t, interp.UNIT)


@model('std::vec::Vec::<T, A>::clear')
def vec_clear(E, st, t, inst, args):
    E.store(st, args[0], ('L', ()))
    return E.finish_call(st, t, interp.UNIT)


@model('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::reserve_exact', 'std::vec::Vec::<T, A>::shrink_to_fit',
       'std::string::String::reserve')
def vec_nop(E, st, t, inst, args):
    if len(args) == 2:
        E.alloc(st, args[1], 'reserves memory for')
    return E.finish_call(st, t, interp.UNIT)


@model('std::vec::Vec::<T, A>::append')
def vec_append(E, st, t, inst, args):
    v, w = E.load(st, args[0]), E.load(st, args[1])
    w = aslist(w)
    if w[0] != 'L':
        raise Undecided('append')
    E.store(st, args[0], list_append(aslist(v), w[1]))
    E.store(st, args[1], ('L', ()))
    return E.finish_call(st, t, interp.UNIT)


@model('std::vec::Vec::<T, A>::extend_from_slice')
def vec_extend_slice(E, st, t, inst, args):
    v = E.load(st, args[0])
    w = aslist(sl_value(E, st, sl_of(E, st, args[1])))
    if w[0] != 'L':
        raise Undecided('extend')
    E.store(st, args[0], list_append(aslist(v), w[1]))
    return E.finish_call(st, t, interp.UNIT)


@model('std::vec::from_elem')
def from_elem(E, st, t, inst, args):
    n = norm(st.ctx, args[1])
    E.alloc(st, n, 'fills memory with')
    return E.finish_call(st, t, ('L', mkcat(n, (('e', args[0]),))))


@model('std::vec::Vec::<T, A>::resize')
def vec_resize(E, st, t, inst, args):
    v = aslist(E.load(st, args[0]))
    n = norm(st.ctx, args[1])
    old = norm(st.ctx, list_len(v))
    E.alloc(st, n, 'fills memory with')
    if decide(st.ctx, cond_ge(st.ctx, n, old)) != 1:
        raise Undecided('resize')
    E.store(st, args[0], list_append(v, mkcat(norm(st.ctx, sub(n, old)), (('e', args[2]),))))
    return E.finish_call(st, t, interp.UNIT)


@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'std::string::String::len')
def len_(E, st, t, inst, args):
    v = args[0]
    if v[0] == '&s':
        return E.finish_call(st, t, norm(st.ctx, v[4]))
    return E.finish_call(st, t, norm(st.ctx, vlen(E.load(st, v))))


@model('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty', 'std::string::String::is_empty')
def is_empty(E, st, t, inst, args):
    v = args[0]
    n = v[4] if v[0] == '&s' else vlen(E.load(st, v))
    return E.finish_call(st, t, cond_eq(st.ctx, norm(st.ctx, n), 0))


@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
       'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref')
def vec_deref(E, st, t, inst, args):
    return E.finish_call(st, t, sl_of(E, st, args[0]))


def bounds(E, st, idx, n):
    """[(state, in bounds)]"""
    return E.split(st, bnot(cond_ge(st.ctx, norm(st.ctx, idx), norm(st.ctx, n))))


@model('<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut', '<std::vec::Vec<T, A> as std::ops::Index<I>>::index',
       'core::slice::index::<impl std::ops::Index<I> for [T]>::index', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut')
def vec_index(E, st, t, inst, args):
    if not is_int(args[1]):
        return range_index(E, st, t, inst, args)
    sl = sl_of(E, st, args[0])
    out = []
    for s, ok in bounds(E, st, args[1], sl[4]):
        if ok:
            out += E.fin(s, t, sl_elem(sl, args[1]))
        else:
            E.panic_site(s, 'index out of bounds', True)
    E.panic_site(st, 'index out of bounds', False)
    return out


def range_index(E, st, t, inst, args):
    sl = sl_of(E, st, args[0])
    r = args[1]
    if r[0] != 'A':
        raise Undecided('index')
    n = norm(st.ctx, sl[4])
    nm = r[1].split('::')[-1]
    if nm == 'Range':
        lo, hi = r[3]
    elif nm == 'RangeFrom':
        lo, hi = r[3][0], n
    elif nm == 'RangeTo':
        lo, hi = 0, r[3][0]
    elif nm == 'RangeFull':
        lo, hi = 0, n
    else:
        raise Undecided('index')
    lo, hi = norm(st.ctx, lo), norm(st.ctx, hi)
    c = bitwise(st.ctx, '&', E.dec(st.ctx, cond_ge(st.ctx, hi, lo)), E.dec(st.ctx, cond_ge(st.ctx, n, hi)))
    out = []
    for s, ok in E.split(st, c):
        if ok:
            out += E.fin(s, t, ('&s', sl[1], sl[2], add(sl[3], lo), sub(hi, lo)))
        else:
            E.panic_site(s, 'slice index out of bounds', True)
    E.panic_site(st, 'slice index out of bounds', False)
    return out


@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last_mut', 'core::slice::<impl [T]>::first_mut')
def sl_last(E, st, t, inst, args):
    sl = sl_of(E, st, args[0])
    out = []
    first = 'first' in inst.def_
    n = norm(st.ctx, sl[4])
    for s, e in E.split(st, cond_eq(st.ctx, n, 0)):
        out += E.fin(s, t, NONE if e else some(sl_elem(sl, 0 if first else norm(s.ctx, sub(n, 1)))))
    return out


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def sl_get(E, st, t, inst, args):
    sl = sl_of(E, st, args[0])
    if not is_int(args[1]):
        raise Undecided('get range')
    out = []
    for s, ok in bounds(E, st, args[1], sl[4]):
        out += E.fin(s, t, some(sl_elem(sl, args[1])) if ok else NONE)
    return out


# ---- iterators -----------------------------------------------------------------------------------

@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def sl_iter(E, st, t, inst, args):
    sl = sl_of(E, st, args[0])
    return E.finish_call(st, t, ('A', 'std::slice::Iter', 0, (sl, 0, sl[4])))


@model("<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
       "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter",
       "std::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter")
def ref_into_iter(E, st, t, inst, args):
    return sl_iter(E, st, t, inst, args)


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next")
def iter_next(E, st, t, inst, args):
    it = E.load(st, args[0])
    if it[0] != 'A':
        raise Undecided('iterator')
    sl, pos, end = it[3]
    out = []
    c = cond_ge(st.ctx, norm(st.ctx, pos), norm(st.ctx, end))
    E.note_cmp(st, (inst.id, 'next', t[4]), norm(st.ctx, pos), norm(st.ctx, end) if not isinstance(norm(st.ctx, end), int) else ('k', norm(st.ctx, end)))
    for s, done in E.split(st, c):
        if done:
            out += E.fin(s, t, NONE)
        else:
            E.store(s, args[0], ('A', it[1], 0, (sl, add(pos, 1), end)))
            out += E.fin(s, t, some(sl_elem(sl, pos)))
    return out


def it_range(E, st, it):
    """[(state, slice, first, end)] of what an adapter over a slice iterator gives, in any order; None if unknown"""
    if not isinstance(it, tuple) or it[0] != 'A':
        return None
    k = it[1].rsplit('::', 1)[-1]
    if it[1] == 'std::slice::Iter':
        return [(st, it[3][0], norm(st.ctx, it[3][1]), norm(st.ctx, it[3][2]))]
    if k == 'Rev':
        return it_range(E, st, it[3][0])
    if k in ('Take', 'Skip') and len(it[3]) == 2 and is_int(it[3][1]):
        r = it_range(E, st, it[3][0])
        if r is None or isinstance(it[3][0], tuple) and it[3][0][1] != 'std::slice::Iter':
            return None
        out = []
        for st, sl, lo, hi in r:
            m = norm(st.ctx, add(lo, it[3][1]))
            for s, less in E.split(st, cond_ge(st.ctx, m, hi)):
                if k == 'Take':
                    out.append((s, sl, lo, hi if less else m))
                else:
                    out.append((s, sl, hi if less else m, hi))
        return out
    return None


@model('absharness::models::m_iter_any', 'absmodels::m_iter_any', 'std::iter::Iterator::any')
def iter_any(E, st, t, inst, args):
    f = args[1]
    if f[0] == 'F':
        i = E.P.types[f[1]].d.get('inst')
        p = E.P.insts[i] if i is not None else None
    elif f[0] == 'C' and interp.dataless(f):
        p = next((i for i in E.P.insts.values() if i.closure and i.ty == f[1]), None)
    else:
        p = None
    if p is None or E.pred_bad(st, p) != set():
        return NotImplemented
    it = E.load(st, args[0])
    rs = it_range(E, st, it)
    if rs is None:
        return NotImplemented
    import specfn
    out = []
    for s, sl, lo, hi in rs:
        L = sl_value(E, s, ('&s', sl[1], sl[2], add(sl[3], lo), norm(s.ctx, sub(hi, lo))))
        r = norm(s.ctx, specfn.f_hasdata(E, s, L))
        if it[1] == 'std::slice::Iter':
            E.store(s, args[0], ('A', it[1], 0, (sl, hi, hi)))
        else:
            E.store(s, args[0], ('K', 'iterator that was searched'))
        out += E.fin(s, t, r)
    return out


@model("<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len")
def iter_len(E, st, t, inst, args):
    it = E.load(st, args[0])
    return E.finish_call(st, t, norm(st.ctx, sub(it[3][2], it[3][1])))


@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', 'std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def vec_into_iter(E, st, t, inst, args):
    if args[0][0] not in ('L', 'R', 'LU', 'PU'):
        raise Undecided('into_iter')
    return E.finish_call(st, t, ('A', 'std::vec::IntoIter', 0, (aslist(args[0]), 0)))


@model('<std::vec::IntoIter<T, A> as std::iter::Iterator>::next', '<std::array::IntoIter<T, N> as std::iter::Iterator>::next')
def into_next(E, st, t, inst, args):
    it = E.load(st, args[0])
    if it[0] != 'A':
        raise Undecided('iterator')
    L, pos = it[3]
    n = norm(st.ctx, list_len(L))
    p = norm(st.ctx, pos)
    E.note_cmp(st, (inst.id, 'next', t[4]), p, n if not isinstance(n, int) else ('k', n))
    out = []
    for s, done in E.split(st, cond_ge(st.ctx, p, n)):
        if done:
            out += E.fin(s, t, NONE)
        else:
            x = list_get(s.ctx, L, p)
            E.store(s, args[0], ('A', it[1], 0, (L, add(pos, 1))))
            out += E.fin(s, t, some(x))
    return out


@model('std::array::<impl [T; N]>::map')
def array_map(E, st, t, inst, args):
    v = args[0]
    if v[0] != 'R':
        raise Undecided('array map')
    f = args[1]
    out = []
    if f[0] == 'F':
        i = E.P.types[f[1]].d.get('inst')
        j = E.P.insts.get(i)
        # tuple struct constructor
        ret = E.P.types[E.P.types[inst.args[-1]].id] if False else None
        for x in v[1]:
            out.append(apply_pure(E, st, f, (x,)))
    else:
        for x in v[1]:
            out.append(apply_pure(E, st, f, (x,)))
    return E.finish_call(st, t, ('R', tuple(out)))


def apply_pure(E, st, f, args):
    """value of a function that does not branch and touches nothing"""
    if f[0] == 'F':
        inst = E.P.insts[E.P.types[f[1]].d['inst']]
        a = list(args)
    elif f[0] == 'C':
        inst = next((i for i in E.P.insts.values() if i.closure and i.ty == f[1]), None)
        if inst is None:
            raise Undecided('closure')
        c = E.heap(st, f)
        self_ref = E.P.types[inst.locals[1]].k == 'ref'
        a = [('&', c, ()) if self_ref else f] + list(args)
    else:
        raise Undecided('apply')
    s = st.copy()
    s.fr = []
    s.loops = ()
    s.ret = None
    s.mem = {c: v for c, v in st.mem.items() if c[0] != 'm'}
    E.push_frame(s, inst, a, None, None)
    r = E.advance(s)
    n = 0
    while len(r) == 1 and r[0][0] == 'go' and n < 100:
        r = E.advance(r[0][1])
        n += 1
    if len(r) == 1 and r[0][0] == 'done':
        return r[0][1].ret
    raise Undecided('apply: branches')


# ---- comparison of arrays ------------------------------------------------------------------------

def all_eq(ctx, a, b):
    c = 1
    for x, z in zip(a, b):
        if not is_int(x) or not is_int(z):
            raise Undecided('array equality')
        c = bitwise(ctx, '&', c, cond_eq(ctx, norm(ctx, x), norm(ctx, z)))
        if c == 0:
            return 0
    return c


def arr_cond(E, st, a, b):
    x = aslist(sl_value(E, st, sl_of(E, st, a)))
    z = aslist(sl_value(E, st, sl_of(E, st, b)))
    if x[0] != 'L' or z[0] != 'L' or any(s[0] != 'e' for s in x[1] + z[1]):
        raise Undecided('equality of vectors')
    if len(x[1]) != len(z[1]):
        return 0
    return all_eq(st.ctx, [s[1] for s in x[1]], [s[1] for s in z[1]])


@model('std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::ne', 'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq',
       'core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq', 'core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::ne',
       'std::array::equality::<impl std::cmp::PartialEq<[U]> for [T; N]>::eq', 'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T]>::eq',
       'std::array::equality::<impl std::cmp::PartialEq<[U]> for [T; N]>::ne', 'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T]>::ne')
def arr_ne(E, st, t, inst, args):
    c = arr_cond(E, st, args[0], args[1])
    # compared element by element, so that each partition knows the first difference
    if not isinstance(c, int):
        out = []
        x = aslist(sl_value(E, st, sl_of(E, st, args[0])))
        z = aslist(sl_value(E, st, sl_of(E, st, args[1])))
        cur = [st]
        for a, b in zip(x[1], z[1]):
            nxt = []
            for s in cur:
                for s2, eq in E.split(s, cond_eq(s.ctx, norm(s.ctx, a[1]), norm(s.ctx, b[1]))):
                    if eq:
                        nxt.append(s2)
                    else:
                        out += E.fin(s2 if s2 is not s else s2.copy(), t, int('ne' == inst.def_[-2:]))
            cur = nxt
        for s in cur:
            out += E.fin(s, t, int('ne' != inst.def_[-2:]))
        return out
    return E.finish_call(st, t, bnot(c) if inst.def_.endswith('ne') else c)


# ---- strings -------------------------------------------------------------------------------------

UTF8 = '<std::string::String as std::convert::TryFrom<std::vec::Vec<u8>>>::try_from'


@model(UTF8, 'std::string::String::from_utf8')
def from_utf8(E, st, t, inst, args):
    L = aslist(args[0])
    c = utf8_cond(L)
    d = E.place_ty(st.fr[-1].inst, t[3])
    rt = E.res_types(d) if d is not None else None
    out = []
    for s, ok in E.split(st, c):
        if ok:
            out += E.fin(s, t, interp.ok_(('St', L)))
        else:
            n = ('utf8err', L)
            ty = rt[1] if rt else E.P.adts['std::string::FromUtf8Error'][0].id
            VT[n] = ty
            s.failed(('V', n))
            s.trace = s.trace + ('not UTF-8',)
            out += E.fin(s, t, interp.err_(('V', n)))
    return out


def utf8_cond(L):
    if L[0] == 'L' and all(s[0] == 'e' and isinstance(s[1], int) and s[1] < 128 for s in L[1]):
        return 1
    n = ('utf8ok', L)
    DOM.setdefault(n, ((0, 1),))
    return ('y', n)


# ---- io ------------------------------------------------------------------------------------------

def rdr(E, st, v):
    r = E.reader(st, v)
    return r


@model('std::io::Read::take')
def take(E, st, t, inst, args):
    if not E.is_reader(st, args[0]):
        return NotImplemented
    return E.finish_call(st, t, ('A', 'std::io::Take', 0, (args[0], args[1], st.tok)))


@model('std::io::Take::<T>::limit')
def take_limit(E, st, t, inst, args):
    v = E.load(st, args[0])
    if v[0] != 'A' or v[1] != 'std::io::Take':
        raise Undecided('limit')
    return E.finish_call(st, t, norm(st.ctx, E.remaining(st, v[3][1], v[3][2])))


@model('std::io::Take::<T>::get_mut', 'std::io::Take::<T>::get_ref')
def take_inner(E, st, t, inst, args):
    a = args[0]
    return E.finish_call(st, t, ('&', a[1], a[2] + (('f', 0, 0),)))


@model('std::io::Take::<T>::into_inner')
def take_into(E, st, t, inst, args):
    return E.finish_call(st, t, args[0][3][0])


@model('std::io::Cursor::<T>::new')
def cursor_new(E, st, t, inst, args):
    return E.finish_call(st, t, ('A', 'std::io::Cursor', 0, (args[0], 0)))


@model('std::io::Read::chain')
def chain(E, st, t, inst, args):
    a, b = args
    if a[0] == 'A' and a[1] == 'std::io::Cursor':
        bs = a[3][0]
        if bs[0] == '&':
            bs = E.load(st, bs)
        if bs[0] == '&s':
            bs = sl_value(E, st, bs)
        bs = aslist(bs)
        if bs[0] == 'L' and all(x[0] == 'e' for x in bs[1]):
            return E.finish_call(st, t, ('A', 'std::io::Chain', 0, (('T', tuple(x[1] for x in bs[1])), ('A', 'chain', 0, (('K', ''), b)))))
    if a[0] == '&s':
        bs = aslist(sl_value(E, st, a))
        if bs[0] == 'L' and all(x[0] == 'e' for x in bs[1]):
            return E.finish_call(st, t, ('A', 'std::io::Chain', 0, (('T', tuple(x[1] for x in bs[1])), ('A', 'chain', 0, (('K', ''), b)))))
    raise Undecided('chain')


READ_EXACT = ('std::io::Read::read_exact', 'alloc::io::impls::<impl std::io::Read for &mut R>::read_exact',
              'std::io::impls::<impl std::io::Read for &mut R>::read_exact', 'std::io::default_read_exact')


def chain_head(E, st, v):
    """(reference to the innermost-first Chain cell with bytes left) or None"""
    n = 0
    while n < 40:
        n += 1
        if v[0] == '&':
            x = E.load(st, v)
            if x[0] == 'A' and x[1] == 'std::io::Chain':
                if x[3][0][1]:
                    return v, x
                v = x[3][1][3][1]
                continue
            if x[0] == 'A' and x[1] == 'std::io::Take':
                return None
            v = x
            continue
        if v[0] == 'A' and v[1] == 'std::io::Chain':
            if v[3][0][1]:
                return None
            v = v[3][1][3][1]
            continue
        return None
    return None


def reader_of(E, st, v):
    r = E.reader(st, v)
    if r is None or r[0] != 'rd':
        raise Undecided('reader')
    return r


@model(*READ_EXACT)
def read_exact(E, st, t, inst, args):
    rd = E.reader(st, args[0])
    if rd is None:
        return NotImplemented
    if rd[0] != 'rd':
        E.buffered(st)
    buf = args[1]
    if buf[0] == '&':
        buf = sl_of(E, st, buf)
    if buf[0] != '&s':
        raise Undecided('read buffer')
    k = norm(st.ctx, buf[4])
    if isinstance(k, int) and k == 0:
        return E.finish_call(st, t, interp.ok_(interp.UNIT))
    if not isinstance(k, int) or k > 64:
        drop_empty_chains(E, st, rd)
        rd = (rd[0], rd[1], ())
        out = []
        for s, L, err in E.ev_bulk(st, rd, k):
            if L == 'retry':
                out.append(('go', s))
            elif L is not None:
                models2.sl_write(E, s, buf, L)
                out += E.fin(s, t, interp.ok_(interp.UNIT))
            else:
                out += E.fin(s, t, interp.err_(err))
        return out
    pend = []
    if rd[2]:
        h = chain_head(E, st, args[0])
        if h:
            ref, c = h
            bs = c[3][0][1]
            if k <= len(bs):
                put(E, st, buf, bs[:k])
                E.store(st, ref, ('A', 'std::io::Chain', 0, (('T', bs[k:]), c[3][1])))
                return E.finish_call(st, t, interp.ok_(interp.UNIT))
            raise Undecided('read across a chain')
        drop_empty_chains(E, st, rd)
        rd = (rd[0], rd[1], ())
    out = []
    for s, bs, err in E.ev_read(st, rd, k):
        if bs == 'retry':
            out.append(('go', s))
        elif bs is not None:
            put(E, s, buf, bs)
            out += E.fin(s, t, interp.ok_(interp.UNIT))
        else:
            out += E.fin(s, t, interp.err_(err))
    return out


def drop_empty_chains(E, st, rd):
    for ref, c, _ in rd[2]:
        if c[3][0][1]:
            raise Undecided('chain')


def put(E, st, buf, bs):
    for i, b in enumerate(bs):
        E.store(st, ('&', buf[1], buf[2] + (('i', add(buf[3], i)),)), b)


@model('std::io::Read::read_to_end', 'alloc::io::impls::<impl std::io::Read for &mut R>::read_to_end',
       'std::io::impls::<impl std::io::Read for &mut R>::read_to_end', 'std::io::default_read_to_end')
def read_to_end(E, st, t, inst, args):
    rd = E.reader(st, args[0])
    if rd is None:
        return NotImplemented
    if rd[0] != 'rd':
        E.buffered(st)
    drop_empty_chains(E, st, rd)
    rd = (rd[0], rd[1], ())
    out = []
    v0 = aslist(E.load(st, args[1]))
    for s, L, err in E.ev_bulk(st, rd, None):
        if L == 'retry':
            out.append(('go', s))
        elif L is not None:
            E.store(s, args[1], list_append(v0, L[1]))
            out += E.fin(s, t, interp.ok_(norm(s.ctx, list_len(L))))
        else:
            E.store(s, args[1], ('K', 'partial'))
            out += E.fin(s, t, interp.err_(err))
    return out


@model('std::io::Error::kind')
def io_kind(E, st, t, inst, args):
    v = E.load(st, args[0])
    if v[0] == 'V':
        d = E.err_kind(v)
        n = ('iokind', v[1])
        VT[n] = E.P.adts['std::io::ErrorKind'][0].id
        DOM[(n, 'discr')] = DOM[d[1]]
        # one symbol for both
        if (n, 'discr') not in st.ctx.sub:
            st.ctx.sub[(n, 'discr')] = d
        return E.finish_call(st, t, ('V', n))
    if v[0] == 'A' and v[3] and v[1] == 'std::io::Error':
        return E.finish_call(st, t, v[3][0])
    return E.finish_call(st, t, ('K', 'kind'))


@model('<std::io::Error as std::convert::From<std::io::ErrorKind>>::from')
def io_from_kind(E, st, t, inst, args):
    return E.finish_call(st, t, ('A', 'std::io::Error', 0, (args[0],)))


@model('std::io::Error::other', 'std::io::Error::new')
def io_other(E, st, t, inst, args):
    return E.finish_call(st, t, ('A', 'std::io::Error', 0, (('K', 'kind'),) + tuple(args)))


@model('<std::io::ErrorKind as std::cmp::PartialEq>::eq')
def kind_eq(E, st, t, inst, args):
    a, b = E.load(st, args[0]), E.load(st, args[1])
    if a[0] == 'K' or b[0] == 'K':
        return E.finish_call(st, t, ('K', 'kind'))
    return E.finish_call(st, t, cond_eq(st.ctx, norm(st.ctx, discr(a)), norm(st.ctx, discr(b))))


# ---- phf -----------------------------------------------------------------------------------------

def phf_entries(E, st, v):
    """(entries, key of the reference to them) of a constant phf::OrderedMap"""
    if v[0] == '&':
        v = E.load(st, v)
    if v[0] != 'A' or 'phf' not in v[1]:
        raise Undecided('map')
    names = [f[0] for f in E.P.adts[v[1]][0].d['variants'][0]['fields']]
    es = v[3][names.index('entries')]
    lst = sl_value(E, st, es)
    return es, [x[1] for x in lst[1]]


@model('phf::ordered_map::OrderedMap::<K, V>::get', 'phf::map::Map::<K, V>::get', 'phf::Map::<K, V>::get')
def phf_get(E, st, t, inst, args):
    es, entries = phf_entries(E, st, args[0])
    k = args[1]
    while isinstance(k, tuple) and k[0] == '&':
        k = E.load(st, k)
    if not is_int(k):
        raise Undecided('map key')
    vals = {}
    for i, e in enumerate(entries):
        vals.setdefault(e[1][0], i)
    out = []
    for s, v in E.split_int(st, norm(st.ctx, k), sorted(vals)):
        if v is None:
            out += E.fin(s, t, NONE)
        else:
            out += E.fin(s, t, some(('&', es[1], es[2] + (('i', add(es[3], vals[v])), ('f', 1, 0)))))
    return out


# ---- boxes (vec! with elements) -------------------------------------------------------------------

@model('std::boxed::Box::<T>::new_uninit')
def box_uninit(E, st, t, inst, args):
    c = E.heap(st, ('K', 'uninit'))
    return E.finish_call(st, t, ('Bx', c))


@model('std::boxed::Box::<T>::new')
def box_new(E, st, t, inst, args):
    return E.finish_call(st, t, ('Bx', E.heap(st, args[0])))


@model('std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(E, st, t, inst, args):
    v = args[0]
    if v[0] == 'Bx':
        x = E.cell_get(st, v[1])
        while x[0] == 'A' and len(x[3]) >= 1 and x[1].split('::')[-1] in ('MaybeUninit', 'ManuallyDrop', 'MaybeDangling'):
            x = x[3][-1]
        if x[0] == 'R':
            return E.finish_call(st, t, aslist(x))
    raise Undecided('vec!')


@model('core::slice::<impl [T]>::into_vec', 'std::slice::<impl [T]>::into_vec')
def into_vec(E, st, t, inst, args):
    v = args[0]
    if v[0] == '&s':
        return E.finish_call(st, t, sl_value(E, st, v))
    if v[0] == 'Bx':
        x = E.cell_get(st, v[1])
        if x[0] == 'R':
            return E.finish_call(st, t, aslist(x))
    raise Undecided('into_vec')


@model('core::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_vec', '<std::vec::Vec<T, A> as std::clone::Clone>::clone')
def to_vec(E, st, t, inst, args):
    return E.finish_call(st, t, sl_value(E, st, sl_of(E, st, args[0])))


# ---- intrinsics and small things ------------------------------------------------------------------

@model('intrinsic:is_val_statically_known', 'intrinsic:ub_checks', 'intrinsic:cold_path', 'intrinsic:assume', 'intrinsic:assert_inhabited')
def zero(E, st, t, inst, args):
    return E.finish_call(st, t, 0)


@model('intrinsic:likely', 'intrinsic:unlikely', 'intrinsic:black_box', 'std::hint::must_use')
def ident(E, st, t, inst, args):
    return E.finish_call(st, t, args[0])


@model('intrinsic:size_of', 'std::mem::size_of')
def size_of(E, st, t, inst, args):
    ty = E.P.types[inst.args[0]]
    n = (ty.d.get('layout') or {}).get('size')
    return E.finish_call(st, t, n if n is not None else ('K', 'size'))


@model('intrinsic:discriminant_value', 'std::mem::discriminant')
def discr_value(E, st, t, inst, args):
    v = args[0]
    if v[0] == '&':
        v = E.load(st, v)
    if v[0] == 'K':
        return E.finish_call(st, t, v)
    return E.finish_call(st, t, norm(st.ctx, discr(v)))


@model('intrinsic:unreachable', 'std::hint::unreachable_unchecked')
def unreach(E, st, t, inst, args):
    raise interp.Pruned()


@model('intrinsic:wrapping_add')
def wadd(E, st, t, inst, args):
    bits, sg = E.P.int_info(inst.args[0])
    return E.finish_call(st, t, wrap(st.ctx, add(args[0], args[1]), bits, sg))


@model('intrinsic:wrapping_sub')
def wsub(E, st, t, inst, args):
    bits, sg = E.P.int_info(inst.args[0])
    return E.finish_call(st, t, wrap(st.ctx, sub(args[0], args[1]), bits, sg))


@model('intrinsic:three_way_compare')
def cmp3(E, st, t, inst, args):
    a, b = norm(st.ctx, args[0]), norm(st.ctx, args[1])
    if not is_int(a) or not is_int(b):
        return E.finish_call(st, t, ('K', 'cmp'))
    out = []
    for s, ge in E.split(st, cond_ge(st.ctx, a, b)):
        if not ge:
            out += E.fin(s, t, ordering(E, 'Less'))
            continue
        for s2, eq in E.split(s, cond_eq(s.ctx, norm(s.ctx, a), norm(s.ctx, b))):
            out += E.fin(s2 if s2 is not s else s2, t, ordering(E, 'Equal' if eq else 'Greater'))
    return out


def ordering(E, n):
    i, _ = E.P.variant_index('std::cmp::Ordering', n)
    return ('A', 'std::cmp::Ordering', i, ())


@model('std::cmp::impls::<impl std::cmp::PartialOrd for isize>::partial_cmp', 'std::cmp::impls::<impl std::cmp::PartialOrd for u8>::partial_cmp',
       'std::cmp::impls::<impl std::cmp::PartialOrd for usize>::partial_cmp', 'std::cmp::impls::<impl std::cmp::PartialOrd for u32>::partial_cmp',
       'std::cmp::impls::<impl std::cmp::PartialOrd for u64>::partial_cmp', 'std::cmp::impls::<impl std::cmp::PartialOrd for i64>::partial_cmp',
       'std::cmp::impls::<impl std::cmp::PartialOrd for i32>::partial_cmp')
def pcmp(E, st, t, inst, args):
    a, b = E.load(st, args[0]), E.load(st, args[1])
    a, b = norm(st.ctx, a), norm(st.ctx, b)
    out = []
    for s, ge in E.split(st, cond_ge(st.ctx, a, b)):
        if not ge:
            out += E.fin(s, t, some(ordering(E, 'Less')))
            continue
        for s2, eq in E.split(s, cond_eq(s.ctx, norm(s.ctx, a), norm(s.ctx, b))):
            out += E.fin(s2, t, some(ordering(E, 'Equal' if eq else 'Greater')))
    return out


@model('std::clone::Clone::clone')
def clone(E, st, t, inst, args):
    return NotImplemented


@model('<T as std::array::equality::SpecArrayEq<U, N>>::spec_ne')
def spec_ne(E, st, t, inst, args):
    return arr_ne(E, st, t, inst, args)


@model('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next')
def range_next(E, st, t, inst, args):
    r = E.load(st, args[0])
    if r[0] != 'A' or not is_int(r[3][0]):
        raise Undecided('range')
    a, b = norm(st.ctx, r[3][0]), norm(st.ctx, r[3][1])
    E.note_cmp(st, (inst.id, 'next', t[4]), a, b)
    out = []
    for s, more in E.split(st, bnot(cond_ge(st.ctx, a, b))):
        if more:
            E.store(s, args[0], ('A', r[1], 0, (add(a, 1), r[3][1])))
            out += E.fin(s, t, some(a))
        else:
            out += E.fin(s, t, NONE)
    return out
