"""Further models: parts of lists, strings, raw reads, and the iterator entry points with unsafe bodies."""
from terms import *
from values import *
import interp
from models import model, aslist, vlen, some, NONE, sl_of, sl_elem, sl_value, bounds, utf8_cond, drop_empty_chains, chain_head, put


# ---- parts of lists ------------------------------------------------------------------------------

def list_part(ctx, v, lo, hi):
    """elements lo..hi of a list, exactly; 0 <= lo <= hi <= length is known"""
    v = list_norm(ctx, v)
    if v[0] != 'L':
        raise Undecided('part of an updated list')
    lo, hi = norm(ctx, lo), norm(ctx, hi)
    if lo == hi:
        return ('L', ())
    out = []
    pos = 0
    started = False
    segs = v[1]
    for i, s in enumerate(segs):
        n = norm(ctx, seg_len(s))
        end = norm(ctx, add(pos, n))
        last = i == len(segs) - 1
        if not started:
            a = decide(ctx, cond_ge(ctx, lo, end)) if not last else 0
            if a == 1 and not last:
                pos = end
                continue
            if a is None:
                raise Undecided('part of a list')
            off = norm(ctx, sub(lo, pos))
            started = True
        else:
            off = 0
        b = decide(ctx, cond_ge(ctx, hi, end)) if not last else decide(ctx, cond_eq(ctx, hi, end))
        if b == 1:
            out += seg_part(ctx, s, off, n)
            if decide(ctx, cond_eq(ctx, hi, end)) == 1:
                return ('L', tuple(out))
        elif b == 0 or last:
            out += seg_part(ctx, s, off, norm(ctx, sub(hi, pos)))
            return ('L', tuple(out))
        else:
            raise Undecided('part of a list')
        pos = end
    raise Undecided('part of a list')


def seg_part(ctx, s, lo, hi):
    n = norm(ctx, sub(hi, lo))
    if n == 0:
        return ()
    if decide(ctx, cond_eq(ctx, lo, 0)) == 1 and decide(ctx, cond_eq(ctx, hi, norm(ctx, seg_len(s)))) == 1:
        return (s,)
    if s[0] == 'l':
        if isinstance(n, int) and n <= 32:
            return tuple(('e', elem(s[1], norm(ctx, add(lo, i)))) for i in range(n))
        b = ('y', BVn(height_of(lo) + 1))
        return mkcat(n, (('e', elem(s[1], add(b, lo))),))
    if s[0] == 'c' and len(s[2]) == 1 and s[2][0][0] == 'e':
        b = bvof(s[2])
        return mkcat(n, tuple(subst(x, b, add(('y', b), lo)) if lo != 0 else x for x in s[2]))
    raise Undecided('part of a segment')


def height_of(t):
    return 0 if isinstance(t, int) else height(t)


def whole(E, st, ref):
    v = aslist(E.load(st, ref))
    return v


def checked(E, st, cond, t, what, good):
    """the states in which cond holds go on with good(state); the others panic"""
    out = []
    for s, ok in E.split(st, cond):
        if ok:
            out += good(s if s is not st else st)
        else:
            E.panic_site(s, what, True)
    E.panic_site(st, what, False)
    return out


@model('std::vec::Vec::<T, A>::truncate')
def vec_truncate(E, st, t, inst, args):
    out = []
    v = whole(E, st, args[0])
    n = norm(st.ctx, args[1])
    for s, keep in E.split(st, cond_ge(st.ctx, n, norm(st.ctx, list_len(v)))):
        if not keep:
            E.store(s, args[0], list_part(s.ctx, v, 0, n))
        out += E.fin(s, t, interp.UNIT)
    return out


@model('std::vec::Vec::<T, A>::pop')
def vec_pop(E, st, t, inst, args):
    out = []
    v = whole(E, st, args[0])
    n = norm(st.ctx, list_len(v))
    for s, e in E.split(st, cond_eq(st.ctx, n, 0)):
        if e:
            out += E.fin(s, t, NONE)
        else:
            x = list_get(s.ctx, v, sub(n, 1))
            E.store(s, args[0], list_part(s.ctx, v, 0, norm(s.ctx, sub(n, 1))))
            out += E.fin(s, t, some(x))
    return out


@model('std::vec::Vec::<T, A>::insert')
def vec_insert(E, st, t, inst, args):
    v = whole(E, st, args[0])
    n, i = norm(st.ctx, list_len(v)), norm(st.ctx, args[1])

    def good(s):
        a, b = list_part(s.ctx, v, 0, i), list_part(s.ctx, v, i, n)
        E.store(s, args[0], ('L', a[1] + (('e', args[2]),) + b[1]))
        return E.fin(s, t, interp.UNIT)
    return checked(E, st, cond_ge(st.ctx, n, i), t, 'insertion index out of bounds', good)


@model('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def vec_remove(E, st, t, inst, args):
    v = whole(E, st, args[0])
    n, i = norm(st.ctx, list_len(v)), norm(st.ctx, args[1])
    swap = inst.def_.endswith('swap_remove')

    def good(s):
        x = list_get(s.ctx, v, i)
        last = decide(s.ctx, cond_eq(s.ctx, add(i, 1), n)) == 1
        a = list_part(s.ctx, v, 0, i)
        if last:
            r = a[1]
        elif swap:
            r = a[1] + (('e', list_get(s.ctx, v, sub(n, 1))),) + list_part(s.ctx, v, add(i, 1), sub(n, 1))[1]
        else:
            r = a[1] + list_part(s.ctx, v, add(i, 1), n)[1]
        E.store(s, args[0], ('L', r))
        return E.fin(s, t, x)
    return checked(E, st, bnot(cond_ge(st.ctx, i, n)), t, 'removal index out of bounds', good)


@model('std::vec::Vec::<T, A>::split_off')
def vec_split_off(E, st, t, inst, args):
    v = whole(E, st, args[0])
    n, i = norm(st.ctx, list_len(v)), norm(st.ctx, args[1])

    def good(s):
        E.store(s, args[0], list_part(s.ctx, v, 0, i))
        return E.fin(s, t, list_part(s.ctx, v, i, n))
    return checked(E, st, cond_ge(st.ctx, n, i), t, 'split index out of bounds', good)


def range_of(E, st, r, n):
    """(lo, hi, extra condition) of a range argument"""
    if r[0] != 'A':
        raise Undecided('range')
    nm = r[1].split('::')[-1]
    if nm == 'Range':
        lo, hi = r[3][0], r[3][1]
    elif nm == 'RangeFrom':
        lo, hi = r[3][0], n
    elif nm == 'RangeTo':
        lo, hi = 0, r[3][0]
    elif nm == 'RangeFull':
        lo, hi = 0, n
    elif nm == 'RangeToInclusive':
        lo, hi = 0, add(r[3][0], 1)
    elif nm == 'RangeInclusive':
        lo, hi = r[3][0], add(r[3][1], 1)
    else:
        raise Undecided('range')
    return norm(st.ctx, lo), norm(st.ctx, hi)


def range_cond(E, st, lo, hi, n):
    return bitwise(st.ctx, '&', E.dec(st.ctx, cond_ge(st.ctx, hi, lo)), E.dec(st.ctx, cond_ge(st.ctx, n, hi)))


@model('std::vec::Vec::<T, A>::drain', 'std::string::String::drain')
def vec_drain(E, st, t, inst, args):
    """eager: the removed part leaves at once (the borrow keeps the vector from being seen before)"""
    v0 = E.load(st, args[0])
    v = aslist(v0)
    n = norm(st.ctx, list_len(v))
    lo, hi = range_of(E, st, args[1], n)
    isstr = v0[0] == 'St'

    def good(s):
        r = ('L', list_part(s.ctx, v, 0, lo)[1] + list_part(s.ctx, v, hi, n)[1])
        E.store(s, args[0], ('St', r) if isstr else r)
        return E.fin(s, t, ('A', 'std::vec::IntoIter', 0, (list_part(s.ctx, v, lo, hi), 0)))
    return checked(E, st, range_cond(E, st, lo, hi, n), t, 'drain range out of bounds', good)


@model("<std::vec::Drain<'_, T, A> as std::iter::Iterator>::next", "<std::vec::Drain<'a, T, A> as std::iter::Iterator>::next")
def drain_next(E, st, t, inst, args):
    return E.models[interp.canon('<std::vec::IntoIter<T, A> as std::iter::Iterator>::next')](E, st, t, inst, args)


@model('core::slice::<impl [T]>::swap')
def sl_swap(E, st, t, inst, args):
    sl = sl_of(E, st, args[0])
    i, j = norm(st.ctx, args[1]), norm(st.ctx, args[2])
    c = bitwise(st.ctx, '&', E.dec(st.ctx, bnot(cond_ge(st.ctx, i, sl[4]))), E.dec(st.ctx, bnot(cond_ge(st.ctx, j, sl[4]))))

    def good(s):
        a, b = E.load(s, sl_elem(sl, i)), E.load(s, sl_elem(sl, j))
        E.store(s, sl_elem(sl, i), b)
        E.store(s, sl_elem(sl, j), a)
        return E.fin(s, t, interp.UNIT)
    return checked(E, st, c, t, 'swap index out of bounds', good)


@model('core::slice::<impl [T]>::reverse')
def sl_reverse(E, st, t, inst, args):
    sl = sl_of(E, st, args[0])
    L = list_norm(st.ctx, aslist(sl_value(E, st, sl)))
    n = norm(st.ctx, list_len(L))
    if isinstance(n, int) and n <= 64 and all(s[0] == 'e' for s in L[1]):
        r = ('L', tuple(reversed(L[1])))
    elif L[0] == 'L':
        out = []
        for s in reversed(L[1]):
            m = norm(st.ctx, seg_len(s))
            if s[0] == 'l':
                b = ('y', BVn(height_of(m) + 1))
                out += mkcat(m, (('e', elem(s[1], sub(sub(m, 1), b))),))
            elif s[0] == 'e':
                out.append(s)
            else:
                raise Undecided('reverse')
        r = ('L', tuple(out))
    else:
        raise Undecided('reverse')
    v = E.path_get(st, E.cell_get(st, sl[1]), sl[2])
    if norm(st.ctx, sl[3]) != 0 or decide(st.ctx, cond_eq(st.ctx, norm(st.ctx, vlen(v)), n)) != 1:
        raise Undecided('reverse of a part')
    if v[0] == 'R':
        r = ('R', tuple(s[1] for s in r[1]))
    E.store(st, ('&', sl[1], sl[2]), r)
    return E.finish_call(st, t, interp.UNIT)


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def sl_copy(E, st, t, inst, args):
    d, s_ = sl_of(E, st, args[0]), sl_of(E, st, args[1])
    L = aslist(sl_value(E, st, s_))

    def good(s):
        sl_write(E, s, d, L)
        return E.fin(s, t, interp.UNIT)
    return checked(E, st, cond_eq(st.ctx, norm(st.ctx, d[4]), norm(st.ctx, s_[4])), t, 'copy of a slice of another length', good)


def sl_write(E, st, sl, L):
    """overwrite a slice with a list of the same length"""
    v = E.path_get(st, E.cell_get(st, sl[1]), sl[2])
    lo, n = norm(st.ctx, sl[3]), norm(st.ctx, sl[4])
    hi = norm(st.ctx, add(lo, n))
    x = aslist(v)
    m = norm(st.ctx, list_len(x))
    if v[0] == 'R' and isinstance(n, int) and isinstance(lo, int):
        l2 = list_norm(st.ctx, L)[1]
        if all(s[0] == 'e' for s in l2) and len(l2) == n:
            E.store(st, ('&', sl[1], sl[2]), ('R', v[1][:lo] + tuple(s[1] for s in l2) + v[1][lo + n:]))
            return
    if v[0] == 'R':
        x = ('L', tuple(('e', e) for e in v[1]))
        same = len(set(map(id, v[1]))) == 1 or len(set(v[1])) == 1
        if same and v[1]:
            x = ('L', (('c', len(v[1]), (('e', v[1][0]),)),))
    head = list_part(st.ctx, x, 0, lo)[1]
    try:
        tail = list_part(st.ctx, x, hi, m)[1]
    except Undecided:
        # what is left of the old content: anything of that length
        k = ('left', x, hi)
        LT[k] = W.u8
        c = assume(st.ctx, cond_eq(st.ctx, ('y', declare(('len', k), 0, 2 ** 63 - 1)), norm(st.ctx, sub(m, hi))), 1)
        if len(c) != 1:
            raise
        st.ctx = c[0]
        SOFT.update((k, ('len', k)))
        tail = (('l', k),)
    r = head + tuple(L[1]) + tail
    E.store(st, ('&', sl[1], sl[2]), ('L', r))


@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def sl_split_at(E, st, t, inst, args):
    sl = sl_of(E, st, args[0])
    i = norm(st.ctx, args[1])

    def good(s):
        return E.fin(s, t, ('T', (('&s', sl[1], sl[2], sl[3], i), ('&s', sl[1], sl[2], add(sl[3], i), sub(sl[4], i)))))
    return checked(E, st, cond_ge(st.ctx, norm(st.ctx, sl[4]), i), t, 'split index out of bounds', good)


@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def sl_split_first(E, st, t, inst, args):
    sl = sl_of(E, st, args[0])
    first = inst.def_.endswith('first')
    out = []
    n = norm(st.ctx, sl[4])
    for s, e in E.split(st, cond_eq(st.ctx, n, 0)):
        if e:
            out += E.fin(s, t, NONE)
        else:
            m = norm(s.ctx, sub(n, 1))
            rest = ('&s', sl[1], sl[2], add(sl[3], 1) if first else sl[3], m)
            out += E.fin(s, t, some(('T', (sl_elem(sl, 0 if first else m), rest))))
    return out


# ---- equality of lists and strings ---------------------------------------------------------------

def str_list(E, st, v):
    """the bytes of a string, string slice, vector or slice behind references"""
    n = 0
    while n < 12:
        n += 1
        if v[0] == '&str':
            return ('L', tuple(('e', b) for b in as_bytes(v[1])))
        if v[0] == 'str':
            return ('L', tuple(('e', b) for b in as_bytes(v[1])))
        if v[0] == '&s':
            x = sl_value(E, st, v)
            return aslist(x)
        if v[0] == '&':
            v = E.load(st, v)
            continue
        if v[0] in ('St', 'L', 'R'):
            return aslist(v)
        if v[0] == 'A' and v[1].split('::')[-1] == 'Cow':
            v = v[3][0]
            continue
        break
    raise Undecided('string')


def as_bytes(x):
    return list(x) if isinstance(x, (bytes, bytearray)) else list(x.encode('utf-8', 'surrogateescape'))


def concrete(L):
    return L[0] == 'L' and all(s[0] == 'e' for s in L[1])


def lists_equal(E, st, a, b):
    """[(state, 0/1)]: equality of two lists"""
    a, b = list_norm(st.ctx, a), list_norm(st.ctx, b)
    if a == b:
        return [(st, 1)]
    if a[0] != 'L' or b[0] != 'L':
        raise Undecided('equality of lists')
    out = []
    for s, same in E.split(st, cond_eq(st.ctx, norm(st.ctx, list_len(a)), norm(st.ctx, list_len(b)))):
        if not same:
            out.append((s, 0))
            continue
        x, z = list_norm(s.ctx, a), list_norm(s.ctx, b)
        if x == z:
            out.append((s, 1))
            continue
        if concrete(x) and concrete(z) and all(is_int(p[1]) and is_int(q[1]) for p, q in zip(x[1], z[1])):
            cur = [s]
            for p, q in zip(x[1], z[1]):
                nxt = []
                for s1 in cur:
                    for s2, eq in E.split(s1, cond_eq(s1.ctx, norm(s1.ctx, p[1]), norm(s1.ctx, q[1]))):
                        if s2 is s1:
                            s2 = s1.copy()
                        if eq:
                            nxt.append(s2)
                        else:
                            out.append((s2, 0))
                cur = nxt
            out += [(s1, 1) for s1 in cur]
            continue
        k = tuple(sorted((x, z), key=repr))
        n = ('leq',) + k
        DOM.setdefault(n, ((0, 1),))
        if not all(free_list(v) for v in (x, z)):
            SOFT.add(n)
        out += E.split(s, norm(s.ctx, ('y', n)))
    return out


def free_list(v):
    """contents not tied to anything else, so that it can be equal or unequal to another one"""
    return concrete(v) or all(s[0] in ('l', 'e') for s in v[1])


@model('<std::string::String as std::cmp::PartialEq>::eq', '<std::string::String as std::cmp::PartialEq<str>>::eq',
       '<std::string::String as std::cmp::PartialEq>::ne', '<std::string::String as std::cmp::PartialEq<str>>::ne',
       '<std::string::String as std::cmp::PartialEq<&str>>::eq', '<std::string::String as std::cmp::PartialEq<&str>>::ne',
       'std::str::traits::<impl std::cmp::PartialEq for str>::ne', 'core::str::traits::<impl std::cmp::PartialEq for str>::ne',
       '<&str as std::cmp::PartialEq<std::string::String>>::ne', '<str as std::cmp::PartialEq<std::string::String>>::ne',
       "<std::string::String as std::cmp::PartialEq<&'a str>>::eq", 'std::str::traits::<impl std::cmp::PartialEq for str>::eq',
       'core::str::traits::<impl std::cmp::PartialEq for str>::eq', "<&'a str as std::cmp::PartialEq<std::string::String>>::eq",
       '<str as std::cmp::PartialEq<std::string::String>>::eq',
       'std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq',
       'std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::ne',
       'std::vec::partial_eq::<impl std::cmp::PartialEq<[U; N]> for std::vec::Vec<T, A>>::eq',
       'std::vec::partial_eq::<impl std::cmp::PartialEq<&[U; N]> for std::vec::Vec<T, A>>::eq',
       'std::vec::partial_eq::<impl std::cmp::PartialEq<&[U]> for std::vec::Vec<T, A>>::eq',
       'std::vec::partial_eq::<impl std::cmp::PartialEq<[U]> for std::vec::Vec<T, A>>::eq')
def seq_eq(E, st, t, inst, args):
    out = []
    ne = inst.def_.endswith('::ne')
    for s, eq in lists_equal(E, st, str_list(E, st, args[0]), str_list(E, st, args[1])):
        out += E.fin(s, t, (1 - eq) if ne else eq)
    return out


@model('<std::string::String as std::cmp::Ord>::cmp', '<std::string::String as std::cmp::PartialOrd>::partial_cmp',
       'core::str::traits::<impl std::cmp::Ord for str>::cmp', 'std::str::traits::<impl std::cmp::Ord for str>::cmp',
       'core::str::traits::<impl std::cmp::PartialOrd for str>::partial_cmp', 'std::str::traits::<impl std::cmp::PartialOrd for str>::partial_cmp',
       'std::slice::cmp::<impl std::cmp::Ord for [T]>::cmp', 'core::slice::cmp::<impl std::cmp::Ord for [T]>::cmp',
       '<std::vec::Vec<T, A> as std::cmp::Ord>::cmp',
       '<std::string::String as std::cmp::PartialOrd>::lt', '<std::string::String as std::cmp::PartialOrd>::le',
       '<std::string::String as std::cmp::PartialOrd>::gt', '<std::string::String as std::cmp::PartialOrd>::ge')
def seq_cmp(E, st, t, inst, args):
    a, b = (list_norm(st.ctx, str_list(E, st, x)) for x in args)
    how = inst.def_.rsplit('::', 1)[-1]
    out = []
    for s, eq in lists_equal(E, st, a, b):
        if eq:
            rs = [(s, 0)]
        elif concrete(a) and concrete(b) and all(isinstance(x[1], int) for x in a[1] + b[1]):
            rs = [(s, -1 if [x[1] for x in a[1]] < [x[1] for x in b[1]] else 1)]
        elif list_norm(s.ctx, a) == ('L', ()) or list_norm(s.ctx, b) == ('L', ()):
            rs = [(s, -1 if list_norm(s.ctx, a) == ('L', ()) else 1)]
        else:
            x, z = sorted((a, b), key=repr)
            n = ('before', x, z)
            # the order of three strings is not three free choices
            many = n not in s.ctx.dom and sum(1 for k in s.ctx.dom if k[0] == 'before') > 1
            if many:
                n += ('more',)
            DOM.setdefault(n, ((0, 1),))
            if many or not (free_list(a) and free_list(b)):
                SOFT.add(n)
            rs = [(s2, -1 if bool(y) == (x == a) else 1) for s2, y in E.split(s, norm(s.ctx, ('y', n)))]
        for s2, c in rs:
            o = ('A', 'std::cmp::Ordering', c + 1, ())
            v = {'cmp': o, 'partial_cmp': some(o), 'lt': int(c < 0), 'le': int(c <= 0), 'gt': int(c > 0), 'ge': int(c >= 0)}[how]
            out += E.fin(s2, t, v)
    return out


def prefix_eq(E, st, a, b, end):
    """[(state, 0/1)]: list a starts (ends) with list b"""
    a, b = list_norm(st.ctx, a), list_norm(st.ctx, b)
    out = []
    n, k = norm(st.ctx, list_len(a)), norm(st.ctx, list_len(b))
    for s, long_ in E.split(st, cond_ge(st.ctx, n, k)):
        if not long_:
            out.append((s, 0))
            continue
        p = list_part(s.ctx, a, norm(s.ctx, sub(n, k)), n) if end else list_part(s.ctx, a, 0, k)
        out += lists_equal(E, s, p, b)
    return out


@model('core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with', 'core::str::<impl str>::starts_with', 'core::str::<impl str>::ends_with')
def starts_with(E, st, t, inst, args):
    try:
        pat = pattern(E, st, args[1])
    except Undecided:
        if 'str' in inst.def_:
            raise
        raise
    out = []
    for s, eq in prefix_eq(E, st, str_list(E, st, args[0]), pat, 'ends_with' in inst.def_):
        out += E.fin(s, t, eq)
    return out


def pattern(E, st, p):
    if isinstance(p, int):
        return ('L', tuple(('e', b) for b in chr(p).encode('utf-8', 'surrogatepass')))
    return str_list(E, st, p)


@model('core::slice::<impl [T]>::strip_prefix', 'core::slice::<impl [T]>::strip_suffix', 'core::str::<impl str>::strip_prefix', 'core::str::<impl str>::strip_suffix')
def strip(E, st, t, inst, args):
    L = str_list(E, st, args[0])
    pat = pattern(E, st, args[1])
    end = 'suffix' in inst.def_
    out = []
    for s, eq in prefix_eq(E, st, L, pat, end):
        if eq:
            n, k = norm(s.ctx, list_len(L)), norm(s.ctx, list_len(pat))
            p = list_part(s.ctx, L, 0, norm(s.ctx, sub(n, k))) if end else list_part(s.ctx, L, k, n)
            out += E.fin(s, t, some(ref_to(E, s, p, 'str' in inst.def_)))
        else:
            out += E.fin(s, t, NONE)
    return out


def ref_to(E, st, L, isstr):
    c = E.heap(st, ('St', L) if isstr else L)
    return ('&', c, ()) if isstr else ('&s', c, (), 0, norm(st.ctx, list_len(L)))


# ---- strings -------------------------------------------------------------------------------------

@model('std::string::String::as_str', '<std::string::String as std::ops::Deref>::deref', 'std::string::String::as_mut_str',
       '<std::string::String as std::convert::AsRef<str>>::as_ref', '<std::string::String as std::borrow::Borrow<str>>::borrow')
def as_str(E, st, t, inst, args):
    return E.finish_call(st, t, args[0])


@model('<std::string::String as std::clone::Clone>::clone', 'std::str::<impl std::borrow::ToOwned for str>::to_owned', 'alloc::str::<impl std::borrow::ToOwned for str>::to_owned',
       '<std::string::String as std::convert::From<&str>>::from', '<T as std::string::ToString>::to_string', '<str as std::string::SpecToString>::spec_to_string',
       '<std::string::String as std::string::SpecToString>::spec_to_string', 'std::str::<impl str>::to_string',
       '<std::string::String as std::convert::From<&std::string::String>>::from')
def to_owned(E, st, t, inst, args):
    try:
        return E.finish_call(st, t, ('St', str_list(E, st, args[0])))
    except Undecided:
        return E.finish_call(st, t, ('K', 'string'))


@model('std::string::String::as_bytes', 'core::str::<impl str>::as_bytes', 'std::string::String::as_mut_vec')
def str_bytes(E, st, t, inst, args):
    v = args[0]
    n = 0
    while n < 8 and v[0] == '&':
        n += 1
        x = E.load(st, v)
        if x[0] == 'St':
            return E.finish_call(st, t, ('&s', v[1], v[2], 0, norm(st.ctx, list_len(x[1]))))
        v = x
    if v[0] == '&str':
        return E.finish_call(st, t, ref_to(E, st, str_list(E, st, v), False))
    raise Undecided('bytes of a string')


@model('core::str::<impl str>::len', 'core::str::<impl str>::is_empty')
def str_len(E, st, t, inst, args):
    n = norm(st.ctx, list_len(str_list(E, st, args[0])))
    return E.finish_call(st, t, cond_eq(st.ctx, n, 0) if inst.def_.endswith('is_empty') else n)


@model('std::string::String::into_bytes')
def into_bytes(E, st, t, inst, args):
    return E.finish_call(st, t, aslist(args[0]))


@model('std::string::FromUtf8Error::into_bytes')
def utf8err_bytes(E, st, t, inst, args):
    v = args[0]
    if v[0] == 'V' and v[1][0] == 'utf8err':
        return E.finish_call(st, t, v[1][1])
    raise Undecided('bytes of an error')


@model('core::str::from_utf8', 'std::str::from_utf8', 'core::str::converts::from_utf8', 'std::str::converts::from_utf8')
def str_from_utf8(E, st, t, inst, args):
    L = str_list(E, st, args[0])
    out = []
    d = E.place_ty(st.fr[-1].inst, t[3])
    rt = E.res_types(d) if d is not None else None
    for s, ok in E.split(st, utf8_cond(L)):
        if ok:
            out += E.fin(s, t, interp.ok_(ref_to(E, s, L, True)))
        else:
            n = ('utf8err', L)
            if rt is None:
                raise Undecided('utf8')
            VT[n] = rt[1]
            s.failed(('V', n))
            s.trace = s.trace + ('not UTF-8',)
            out += E.fin(s, t, interp.err_(('V', n)))
    return out


@model('std::string::String::from_utf8_lossy', 'std::string::String::from_utf8_lossy_owned')
def from_utf8_lossy(E, st, t, inst, args):
    L = aslist(args[0]) if args[0][0] in ('L', 'R') else str_list(E, st, args[0])
    out = []
    cow = not inst.def_.endswith('owned')
    for s, ok in E.split(st, utf8_cond(L)):
        if ok:
            v = ('A', 'std::borrow::Cow', 0, (ref_to(E, s, L, True),)) if cow else ('St', L)
        else:
            v = ('St', other_list(s, L, 'lossy'))
            v = ('A', 'std::borrow::Cow', 1, (v,)) if cow else v
        out += E.fin(s, t, v)
    return out


@model("std::borrow::Cow::<'_, B>::into_owned", "std::borrow::Cow::<'_, B>::to_mut")
def cow_owned(E, st, t, inst, args):
    if inst.def_.endswith('into_owned') and args[0][0] == 'A':
        return E.finish_call(st, t, ('St', str_list(E, st, args[0][3][0])))
    raise Undecided('cow')


def other_list(st, L, how):
    """a list known to differ from L"""
    n = ('differs', how, L)
    LT[n] = W.u8
    declare(('len', n), 0, 2 ** 63 - 1)
    return ('L', (('l', n),))


@model('core::str::<impl str>::trim', 'core::str::<impl str>::trim_end', 'core::str::<impl str>::trim_start', 'core::str::<impl str>::trim_matches',
       'core::str::<impl str>::trim_end_matches', 'core::str::<impl str>::trim_start_matches', 'core::str::<impl str>::trim_left', 'core::str::<impl str>::trim_right')
def trim(E, st, t, inst, args):
    return transform(E, st, t, inst, args, True)


@model('std::str::<impl str>::to_lowercase', 'std::str::<impl str>::to_uppercase', 'std::str::<impl str>::to_ascii_lowercase', 'std::str::<impl str>::to_ascii_uppercase',
       'std::str::<impl str>::replace', 'std::str::<impl str>::replacen', 'alloc::str::<impl str>::replace')
def change(E, st, t, inst, args):
    return transform(E, st, t, inst, args, False)


def transform(E, st, t, inst, args, isref):
    """a string operation that leaves some strings alone and changes others"""
    L = str_list(E, st, args[0])
    how = inst.def_.split('::')[-1]
    if list_norm(st.ctx, L) == ('L', ()):
        return E.finish_call(st, t, args[0] if isref else ('St', L))
    n = ('kept by', how, L)
    DOM.setdefault(n, ((0, 1),))
    if not all(s[0] == 'l' for s in L[1]):
        SOFT.add(n)
    out = []
    for s, same in E.split(st, ('y', n)):
        if same:
            out += E.fin(s, t, args[0] if isref else ('St', L))
        else:
            v = other_list(s, L, how)
            out += E.fin(s, t, ref_to(E, s, v, True) if isref else ('St', v))
    return out


# ---- repeat --------------------------------------------------------------------------------------

@model('std::iter::repeat_n', 'core::iter::repeat_n', 'core::iter::sources::repeat_n::repeat_n', 'std::iter::sources::repeat_n::repeat_n')
def repeat_n(E, st, t, inst, args):
    return E.finish_call(st, t, ('A', 'repeat_n', 0, (args[0], args[1])))


@model('<std::iter::RepeatN<A> as std::iter::Iterator>::next')
def repeat_n_next(E, st, t, inst, args):
    it = E.load(st, args[0])
    if it[0] != 'A' or it[1] != 'repeat_n':
        raise Undecided('repeat_n')
    x, n = it[3][0], norm(st.ctx, it[3][1])
    E.note_cmp(st, (inst.id, 'next', t[4]), n, 0)
    out = []
    for s, done in E.split(st, cond_eq(st.ctx, n, 0)):
        if done:
            out += E.fin(s, t, NONE)
        else:
            E.store(s, args[0], ('A', 'repeat_n', 0, (x, sub(n, 1))))
            out += E.fin(s, t, some(x))
    return out


def extend_known(E, st, t, ref, it):
    """extending a vector from an iterator whose whole content is known; None otherwise"""
    v = aslist(E.load(st, ref))
    if it[0] == 'A' and it[1] == 'repeat_n':
        E.alloc(st, it[3][1], 'fills memory with')
        L = mkcat(norm(st.ctx, it[3][1]), (('e', it[3][0]),))
    elif it[0] == 'A' and it[1] == 'std::vec::IntoIter' and it[3][1] == 0:
        L = it[3][0][1] if it[3][0][0] == 'L' else None
    elif it[0] == 'L':
        L = it[1]
    else:
        return None
    if L is None or v[0] != 'L':
        return None
    E.store(st, ref, list_append(v, L))
    return E.fin(st, t, interp.UNIT)


@model('absharness::models::m_vec_extend', 'absharness::models::m_vec_extend_ref')
def m_vec_extend(E, st, t, inst, args):
    r = extend_known(E, st, t, args[0], args[1])
    return NotImplemented if r is None else r


# ---- integers ------------------------------------------------------------------------------------

@model('intrinsic:integer_min', 'intrinsic:integer_max')
def imin(E, st, t, inst, args):
    a, b = norm(st.ctx, args[0]), norm(st.ctx, args[1])
    if not is_int(a) or not is_int(b):
        return E.finish_call(st, t, ('K', 'min'))
    out = []
    mx = inst.intrinsic.endswith('max')
    for s, ge in E.split(st, cond_ge(st.ctx, a, b)):
        out += E.fin(s, t, (a if ge else b) if mx else (b if ge else a))
    return out


# ---- raw reads -----------------------------------------------------------------------------------

@model('std::io::BufReader::<R>::new', 'std::io::BufReader::<R>::with_capacity')
def buf_reader(E, st, t, inst, args):
    return E.finish_call(st, t, ('A', 'std::io::BufReader', 0, (args[-1],)))


@model('std::io::Read::bytes')
def read_bytes(E, st, t, inst, args):
    if not E.is_reader(st, args[0]):
        return NotImplemented
    return E.finish_call(st, t, ('A', 'std::io::Bytes', 0, (args[0],)))


@model('<std::io::Bytes<R> as std::iter::Iterator>::next')
def bytes_next(E, st, t, inst, args):
    b = E.load(st, args[0])
    if b[0] != 'A' or b[1] != 'std::io::Bytes':
        raise Undecided('bytes')
    ref = b[3][0]
    rd = E.reader(st, ref)
    if rd is None:
        raise Undecided('bytes')
    if rd[0] != 'rd':
        E.buffered(st)
    if rd[2]:
        if ref[0] != '&':
            raise Undecided('bytes of a chain')
        h = chain_head(E, st, ref)
        if h:
            c, v = h
            bs = v[3][0][1]
            E.store(st, c, ('A', 'std::io::Chain', 0, (('T', bs[1:]), v[3][1])))
            return E.fin(st, t, some(interp.ok_(bs[0])))
        drop_empty_chains(E, st, rd)
    out = []
    for s, n, bs, err in E.ev_raw(st, (rd[0], rd[1], ()), 1):
        if n == 'retry':
            out.append(('go', s))
        elif err is not None:
            if s.intr and not st.intr:          # tries again
                continue
            out += E.fin(s, t, some(interp.err_(err)))
        elif bs is None:
            out += E.fin(s, t, NONE)
        elif bs[0] == 'L':
            out += E.fin(s, t, some(interp.ok_(list_get(s.ctx, bs, 0))))
        else:
            out += E.fin(s, t, some(interp.ok_(bs[0])))
    return out


@model('std::io::Read::read', 'alloc::io::impls::<impl std::io::Read for &mut R>::read', 'std::io::impls::<impl std::io::Read for &mut R>::read',
       'alloc::io::util::<impl std::io::Read for std::io::Take<T>>::read', '<absharness::AbsReader as std::io::Read>::read',
       '<std::io::Take<T> as std::io::Read>::read', '<std::io::Chain<T, U> as std::io::Read>::read',
       'alloc::io::util::<impl std::io::Read for std::io::Chain<T, U>>::read')
def raw_read(E, st, t, inst, args):
    rd = E.reader(st, args[0])
    if rd is None:
        return NotImplemented
    if rd[0] != 'rd':
        E.buffered(st)
    buf = args[1]
    if buf[0] == '&':
        buf = sl_of(E, st, buf)
    if buf[0] != '&s':
        raise Undecided('read buffer')
    k = norm(st.ctx, buf[4])
    out = []
    for s0, empty in E.split(st, cond_eq(st.ctx, k, 0)):
        if empty:
            out += E.fin(s0, t, interp.ok_(0))
            continue
        if rd[2]:
            h = chain_head(E, s0, args[0])
            if h:
                ref, c = h
                bs = c[3][0][1]
                n = min(len(bs), k) if isinstance(k, int) else 1
                put(E, s0, buf, bs[:n])
                E.store(s0, ref, ('A', 'std::io::Chain', 0, (('T', bs[n:]), c[3][1])))
                if n != k:
                    s0.short = True
                out += E.fin(s0, t, interp.ok_(n))
                continue
            drop_empty_chains(E, s0, rd)
        r = (rd[0], rd[1], ())
        for s, n, bs, err in E.ev_raw(s0, r, k):
            if n == 'retry':
                out.append(('go', s))
            elif err is not None:
                out += E.fin(s, t, interp.err_(err))
            elif bs is None:
                out += E.fin(s, t, interp.ok_(0))
            elif isinstance(bs, tuple) and bs and bs[0] == 'L':
                sl_write(E, s, ('&s', buf[1], buf[2], buf[3], n), bs)
                out += E.fin(s, t, interp.ok_(norm(s.ctx, n)))
            else:
                put(E, s, buf, bs)
                out += E.fin(s, t, interp.ok_(n))
    return out


@model('std::io::Read::read_to_string', 'alloc::io::impls::<impl std::io::Read for &mut R>::read_to_string', 'std::io::default_read_to_string')
def read_to_string(E, st, t, inst, args):
    rd = E.reader(st, args[0])
    if rd is None:
        return NotImplemented
    if rd[0] != 'rd':
        E.buffered(st)
    drop_empty_chains(E, st, rd)
    out = []
    v0 = aslist(E.load(st, args[1]))
    for s, L, err in E.ev_bulk(st, (rd[0], rd[1], ()), None):
        if L == 'retry':
            out.append(('go', s))
        elif L is None:
            out += E.fin(s, t, interp.err_(err))
        else:
            for s2, ok in E.split(s, utf8_cond(L)):
                if ok:
                    E.store(s2, args[1], ('St', list_append(v0, L[1])))
                    out += E.fin(s2, t, interp.ok_(norm(s2.ctx, list_len(L))))
                else:
                    e = ('A', 'std::io::Error', 0, (('K', 'invalid data'),))
                    out += E.fin(s2, t, interp.err_(e))
    return out


@model('std::io::copy')
def io_copy(E, st, t, inst, args):
    rd = E.reader(st, args[0])
    if rd is None:
        return NotImplemented
    w = E.P.types[inst.args[1]]
    if w.name not in ('std::io::Sink', 'std::vec::Vec'):
        raise Undecided('copy to a writer')
    if rd[0] != 'rd':
        E.buffered(st)
    drop_empty_chains(E, st, rd)
    out = []
    v0 = aslist(E.load(st, args[1])) if w.name == 'std::vec::Vec' else None
    for s, L, err in E.ev_bulk(st, (rd[0], rd[1], ()), None):
        if L == 'retry':
            out.append(('go', s))
        elif L is None:
            if v0 is not None:
                E.store(s, args[1], ('K', 'partial'))
            out += E.fin(s, t, interp.err_(err))
        else:
            if v0 is not None:
                E.store(s, args[1], list_append(v0, L[1]))
            out += E.fin(s, t, interp.ok_(norm(s.ctx, list_len(L))))
    return out


@model('std::io::Read::read_buf', 'std::io::Read::read_buf_exact', 'std::io::Read::read_vectored')
def other_read(E, st, t, inst, args):
    if any(E.is_reader(st, a) for a in args if isinstance(a, tuple)):
        raise Undecided('raw read')
    return NotImplemented


def exact(ctx, op, a, b):
    if op == 'add':
        return add(a, b)
    if op == 'sub':
        return sub(a, b)
    return scale(a, b) if isinstance(b, int) else scale(b, a) if isinstance(a, int) else ('op', '*', a, b)


@model('intrinsic:saturating_add', 'intrinsic:saturating_sub')
def saturating(E, st, t, inst, args):
    a, b = norm(st.ctx, args[0]), norm(st.ctx, args[1])
    if not is_int(a) or not is_int(b):
        return E.finish_call(st, t, ('K', 'saturating'))
    lo, hi = E.P.int_range(inst.args[0])
    x = exact(st.ctx, inst.intrinsic[11:], a, b)
    out = []
    for s, big in E.split(st, cond_ge(st.ctx, x, hi)):
        if big:
            out += E.fin(s, t, hi)
            continue
        for s2, small in E.split(s, cond_ge(s.ctx, lo, x)):
            out += E.fin(s2, t, lo if small else x)
    return out


@model('intrinsic:add_with_overflow', 'intrinsic:sub_with_overflow', 'intrinsic:mul_with_overflow')
def with_overflow(E, st, t, inst, args):
    a, b = norm(st.ctx, args[0]), norm(st.ctx, args[1])
    if not is_int(a) or not is_int(b):
        return E.finish_call(st, t, ('T', (('K', 'arith'),) * 2))
    lo, hi = E.P.int_range(inst.args[0])
    bits, sg = E.P.int_info(inst.args[0])
    x = exact(st.ctx, inst.intrinsic[:3], a, b)
    l, h = interval(st.ctx, x)
    out = []
    if lo <= l and h <= hi:
        return E.finish_call(st, t, ('T', (x, 0)))
    c = bitwise(st.ctx, '&', E.dec(st.ctx, cond_ge(st.ctx, x, lo)), E.dec(st.ctx, cond_ge(st.ctx, hi, x)))
    for s, fits in E.split(st, c):
        out += E.fin(s, t, ('T', (x if fits else wrap(s.ctx, x, bits, sg), 1 - fits)))
    return out


@model('intrinsic:wrapping_mul')
def wmul(E, st, t, inst, args):
    bits, sg = E.P.int_info(inst.args[0])
    a, b = norm(st.ctx, args[0]), norm(st.ctx, args[1])
    if not is_int(a) or not is_int(b):
        return E.finish_call(st, t, ('K', 'arith'))
    return E.finish_call(st, t, wrap(st.ctx, exact(st.ctx, 'mul', a, b), bits, sg))


@model('intrinsic:ctpop', 'intrinsic:ctlz', 'intrinsic:cttz', 'intrinsic:ctlz_nonzero', 'intrinsic:cttz_nonzero', 'intrinsic:bswap', 'intrinsic:bitreverse',
       'intrinsic:rotate_left', 'intrinsic:rotate_right')
def bitcount(E, st, t, inst, args):
    a = [norm(st.ctx, x) for x in args]
    nm = inst.intrinsic
    bits, sg = E.P.int_info(inst.args[0])
    if not all(is_int(x) for x in a):
        return E.finish_call(st, t, ('K', 'arith'))
    e = bits_of(st.ctx, a[0])
    if e is not None:
        b = list(e[0]) + [e[1]] * max(0, bits - len(e[0]))
        b = b[:bits]
        if nm in ('bswap', 'bitreverse', 'rotate_left', 'rotate_right'):
            if nm == 'bswap':
                b = [x for i in range(bits // 8 - 1, -1, -1) for x in b[8 * i:8 * i + 8]]
            elif nm == 'bitreverse':
                b = b[::-1]
            elif isinstance(a[1], int):
                k = a[1] % bits
                if nm == 'rotate_left':
                    k = (bits - k) % bits
                b = b[k:] + b[:k]
            else:
                return E.finish_call(st, t, ('op', nm) + tuple(a))
            return E.finish_call(st, t, wrap(st.ctx, mkbits(b, 0), bits, sg))
        if nm == 'ctpop':
            r = 0
            for x in b:
                r = add(r, x if isinstance(x, int) else mkbits([x], 0))
            return E.finish_call(st, t, r)
        if all(isinstance(x, int) for x in b):
            order = b if nm.startswith('cttz') else b[::-1]
            return E.finish_call(st, t, order.index(1) if 1 in order else bits)
        # position of the first set bit: one partition per position
        order = b if nm.startswith('cttz') else b[::-1]
        out = []
        cur = [st]
        for i, x in enumerate(order):
            nxt = []
            for s in cur:
                c = x if isinstance(x, int) else norm(s.ctx, mkbits([x], 0))
                for s2, one in (E.split(s, c if not isinstance(c, int) else c)):
                    if s2 is s:
                        s2 = s.copy()
                    if one:
                        out += E.fin(s2, t, i)
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            out += E.fin(s, t, bits)
        return out
    return E.finish_call(st, t, ('op', nm) + tuple(a))


# ---- memory ----------------------------------------------------------------------------------------

@model('std::mem::replace', 'core::mem::replace')
def mem_replace(E, st, t, inst, args):
    v = E.load(st, args[0])
    E.store(st, args[0], args[1])
    return E.finish_call(st, t, v)


@model('std::mem::swap', 'core::mem::swap')
def mem_swap(E, st, t, inst, args):
    a, b = E.load(st, args[0]), E.load(st, args[1])
    E.store(st, args[0], b)
    E.store(st, args[1], a)
    return E.finish_call(st, t, interp.UNIT)


@model('std::mem::drop', 'std::mem::forget')
def mem_drop(E, st, t, inst, args):
    return E.finish_call(st, t, interp.UNIT)


# ---- iterators: helpers of the Rust-level models ----------------------------------------------------

@model('absharness::models::zip_a')
def zip_a(E, st, t, inst, args):
    return E.finish_call(st, t, ('&', args[0][1], args[0][2] + (('f', 0, 0),)))


@model('absharness::models::zip_b')
def zip_b(E, st, t, inst, args):
    return E.finish_call(st, t, ('&', args[0][1], args[0][2] + (('f', 1, 0),)))


@model('absharness::models::vec_array')
def vec_array(E, st, t, inst, args):
    v = args[0]
    if v[0] != 'L' or any(s[0] != 'e' for s in v[1]):
        raise Undecided('array of unknown elements')
    return E.finish_call(st, t, ('R', tuple(s[1] for s in v[1])))


def iter_parts(E, st, ref):
    it = E.load(st, ref)
    if it[0] != 'A':
        raise Undecided('iterator')
    if len(it[3]) == 3:
        return it, norm(st.ctx, it[3][1]), norm(st.ctx, it[3][2])
    return it, norm(st.ctx, it[3][1]), norm(st.ctx, list_len(it[3][0]))


def iter_item(E, st, it, i):
    if len(it[3]) == 3:
        return sl_elem(it[3][0], i)
    return list_get(st.ctx, it[3][0], i)


def iter_at(it, pos, end):
    if len(it[3]) == 3:
        return ('A', it[1], 0, (it[3][0], pos, end))
    return ('A', it[1], 0, (it[3][0], pos))


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::size_hint",
       '<std::vec::IntoIter<T, A> as std::iter::Iterator>::size_hint', '<std::array::IntoIter<T, N> as std::iter::Iterator>::size_hint')
def it_size_hint(E, st, t, inst, args):
    it, pos, end = iter_parts(E, st, args[0])
    n = norm(st.ctx, sub(end, pos))
    return E.finish_call(st, t, ('T', (n, some(n))))


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::count", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::count",
       '<std::vec::IntoIter<T, A> as std::iter::Iterator>::count', '<std::array::IntoIter<T, N> as std::iter::Iterator>::count')
def it_count(E, st, t, inst, args):
    it = args[0]
    if it[0] != 'A':
        raise Undecided('iterator')
    end = it[3][2] if len(it[3]) == 3 else list_len(it[3][0])
    return E.finish_call(st, t, norm(st.ctx, sub(end, it[3][1])))


@model('<std::vec::IntoIter<T, A> as std::iter::ExactSizeIterator>::len', '<std::array::IntoIter<T, N> as std::iter::ExactSizeIterator>::len',
       'std::iter::ExactSizeIterator::len')
def it_len(E, st, t, inst, args):
    v = E.load(st, args[0])
    if v[0] != 'A' or v[1] not in ('std::slice::Iter', 'std::vec::IntoIter'):
        return NotImplemented
    it, pos, end = iter_parts(E, st, args[0])
    return E.finish_call(st, t, norm(st.ctx, sub(end, pos)))


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::nth", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::nth")
def it_nth(E, st, t, inst, args):
    it, pos, end = iter_parts(E, st, args[0])
    i = norm(st.ctx, add(pos, args[1]))
    out = []
    for s, done in E.split(st, cond_ge(st.ctx, i, end)):
        if done:
            E.store(s, args[0], iter_at(it, end, end))
            out += E.fin(s, t, NONE)
        else:
            E.store(s, args[0], iter_at(it, add(i, 1), end))
            out += E.fin(s, t, some(iter_item(E, s, it, i)))
    return out


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::last")
def it_last(E, st, t, inst, args):
    it = args[0]
    if it[0] != 'A':
        raise Undecided('iterator')
    pos, end = norm(st.ctx, it[3][1]), norm(st.ctx, it[3][2])
    out = []
    for s, done in E.split(st, cond_ge(st.ctx, pos, end)):
        out += E.fin(s, t, NONE if done else some(iter_item(E, s, it, sub(end, 1))))
    return out


@model("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back", "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back")
def it_next_back(E, st, t, inst, args):
    it, pos, end = iter_parts(E, st, args[0])
    E.note_cmp(st, (inst.id, 'next', t[4]), pos, end)
    out = []
    for s, done in E.split(st, cond_ge(st.ctx, pos, end)):
        if done:
            out += E.fin(s, t, NONE)
        else:
            e = norm(s.ctx, sub(end, 1))
            E.store(s, args[0], iter_at(it, pos, e))
            out += E.fin(s, t, some(iter_item(E, s, it, e)))
    return out


@model('<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back')
def into_next_back(E, st, t, inst, args):
    it, pos, end = iter_parts(E, st, args[0])
    E.note_cmp(st, (inst.id, 'next', t[4]), pos, end)
    out = []
    for s, done in E.split(st, cond_ge(st.ctx, pos, end)):
        if done:
            out += E.fin(s, t, NONE)
        else:
            e = norm(s.ctx, sub(end, 1))
            x = iter_item(E, s, it, e)
            E.store(s, args[0], ('A', it[1], 0, (list_part(s.ctx, it[3][0], 0, e), it[3][1])))
            out += E.fin(s, t, some(x))
    return out


@model("<std::slice::Iter<'a, T> as std::clone::Clone>::clone", "<std::slice::Iter<'_, T> as std::clone::Clone>::clone", '<std::vec::IntoIter<T, A> as std::clone::Clone>::clone')
def it_clone(E, st, t, inst, args):
    return E.finish_call(st, t, E.load(st, args[0]))


@model("std::slice::Iter::<'a, T>::as_slice")
def it_as_slice(E, st, t, inst, args):
    it, pos, end = iter_parts(E, st, args[0])
    sl = it[3][0]
    return E.finish_call(st, t, ('&s', sl[1], sl[2], add(sl[3], pos), sub(end, pos)))


@model('<std::iter::Zip<A, B> as std::iter::adapters::zip::ZipImpl<A, B>>::new')
def zip_new(E, st, t, inst, args):
    return E.finish_call(st, t, ('A', 'std::iter::Zip', 0, (args[0], args[1], 0, 0)))


@model('<std::iter::Zip<A, B> as std::iter::adapters::zip::ZipImpl<A, B>>::size_hint')
def zip_hint(E, st, t, inst, args):
    return E.finish_call(st, t, ('K', 'hint'))


def hint(E, st, v):
    """the least number of elements an iterator says it has, or None"""
    if not isinstance(v, tuple) or v[0] != 'A':
        return None
    k = v[1].rsplit('::', 1)[-1]
    if k in ('Range', 'RangeInclusive') and is_int(v[3][0]) and is_int(v[3][1]):
        return norm(st.ctx, sub(v[3][1], v[3][0]))
    if k in ('Map', 'Enumerate', 'Rev', 'Cloned', 'Copied', 'Inspect'):
        for x in v[3]:
            h = hint(E, st, x)
            if h is not None:
                return h
    if k == 'Take' and len(v[3]) == 2 and is_int(v[3][1]) and isinstance(v[3][0], tuple) and v[3][0][0] == 'A' and \
            v[3][0][1].rsplit('::', 1)[-1] in ('Repeat', 'RangeFrom', 'RepeatWith', 'Cycle'):
        return norm(st.ctx, v[3][1])
    if k == 'repeat_n':
        return norm(st.ctx, v[3][1])
    return None


@model('absharness::models::reserved')
def reserved(E, st, t, inst, args):
    try:
        n = hint(E, st, E.load(st, args[0]))
    except Undecided:
        n = None
    if n is not None:
        E.alloc(st, n, 'reserves memory for')
    return E.finish_call(st, t, interp.UNIT)
