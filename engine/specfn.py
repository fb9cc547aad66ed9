"""Functions of the grammar's expressions."""
import functools
from terms import *
from values import *


def f_len(E, st, v):
    if v[0] == 'R':
        return len(v[1])
    return norm(st.ctx, list_len(v))


def f_sext(E, st, r, n):
    """r as an n bit two's complement number"""
    if isinstance(r, int):
        return r - (1 << n) if r >> (n - 1) & 1 else r
    b = bits_of(st.ctx, r)
    if b is None:
        return ('op', 'sext', r, n)
    e = b[0] + [b[1]] * max(0, n - len(b[0]))
    return mkbits(e[:n - 1], e[n - 1])


def f_utf8(E, st, b):
    import models
    return models.utf8_cond(b)


def f_string(E, st, b):
    return ('St', b)


def f_float32(E, st, t):
    return ('fl', 32, t)


def f_float64(E, st, t):
    return ('fl', 64, t)


def f_lanes(E, st, b):
    t = E.adt_full('LaneIdx')
    return ('R', tuple(('A', t, 0, (x,)) for x in b[1]))


def f_is_(E, st, x, tag):
    return int(x[2] == tag)


def f_lastrank(E, st, kinds):
    """position of the last of these sections in the prescribed order; 0 when there is none"""
    n = norm(st.ctx, list_len(kinds))
    full = E.adt_full('SectionKind')
    names = [v['name'] for v in E.P.adts[full][0].d['variants']]
    if n == 0:
        return 0
    v = list_get(st.ctx, kinds, sub(n, 1))
    d = norm(st.ctx, discr(v))
    if isinstance(d, int):
        return RANK[names[d]]
    return ('op', 'rank', d)


RANK = dict(Custom=0, Type=1, Import=2, Function=3, Table=4, Memory=5, Tag=6, Global=7, Export=8, Start=9, Element=10,
            DataCount=11, Code=12, Data=13)

DATA = {'MemoryInit', 'DataDrop', 'ArrayNewData', 'ArrayInitData'}


def bor(ctx, a, b):
    return bitwise(ctx, '|', a, b)


def f_hasdata(E, st, v):
    """whether an instruction, or a list of instructions, refers to a data segment at any depth"""
    ctx = st.ctx if st is not None else Ctx()
    k = v[0]
    if k == 'L':
        r = 0
        for s in v[1]:
            if s[0] == 'e':
                r = bor(ctx, r, f_hasdata(E, st, s[1]))
            elif s[0] == 'l':
                n = norm(ctx, y(('len', s[1]), 0, 2 ** 63 - 1))
                if n == 0:
                    continue
                r = bor(ctx, r, 1 if shown(E, st, ctx, s[1]) else norm(ctx, y(('any', 'hasdata', s[1]), 0, 1)))
            elif s[0] == 'c' and len(s[2]) == 1 and s[2][0][0] == 'e':
                r = bor(ctx, r, norm(ctx, y(('anyr', 'hasdata', s), 0, 1)))
            else:
                raise Undecided('hasdata of a list')
            if r == 1:
                return 1
        return r
    if k == 'V':
        d = norm(ctx, discr(v))
        if not isinstance(d, int):
            return norm(ctx, y(('hasdata', v[1]), 0, 1))
        v = known(v, d)
        k = 'A'
    if k == 'A':
        name = E.P.adts[v[1]][0].d['variants'][v[2]]['name']
        if name in DATA:
            return 1
        if name in ('Block', 'Loop'):
            return f_hasdata(E, st, v[3][1])
        if name == 'TryTable':
            return f_hasdata(E, st, v[3][2])
        if name == 'If':
            r = f_hasdata(E, st, v[3][1])
            o = v[3][2]
            if o[0] == 'V':
                d = norm(ctx, discr(o))
                if not isinstance(d, int):
                    return ('op', 'hasdata', v)
                o = known(o, d)
            if o[2] == 1:
                r = bor(ctx, r, f_hasdata(E, st, o[3][0]))
            return r
        return 0
    raise Undecided('hasdata')


def shown(E, st, ctx, L):
    """an element of this list is known to refer to a data segment"""
    for n in (*ctx.dom, *ctx.sub):
        if not isinstance(n, tuple) or len(n) < 2:
            continue
        if n[0] == 'hasdata' and mentions(n[1], L) or n[0] == 'anyr' and mentions(n[2], L):
            if norm(ctx, y(n, 0, 1)) == 1:
                return True
        elif n[1] == 'discr' and mentions(n[0], L) and W.prog.types[VT[n[0]]].name == E.adt_full('Instruction'):
            d = norm(ctx, ('y', n))
            if isinstance(d, int) and W.prog.types[VT[n[0]]].d['variants'][d]['name'] in DATA:
                return True
    return False


@functools.lru_cache(maxsize=200000)
def mentions(n, L):
    if not isinstance(n, tuple):
        return False
    if len(n) == 3 and n[0] == 'el' and n[1] == L:
        return True
    return any(mentions(x, L) for x in n)


def f_is_some(E, st, v):
    return norm(st.ctx, discr(v))


def f_unwrap(E, st, v):
    return vfield(v, 1, 0)


def f_reffuncs(E, st, v):
    """[ref.func x] for every x of the list"""
    ins = E.adt_full('Instruction')
    vi, _ = E.P.variant_index(ins, 'RefFunc')
    return lmap(st, v, lambda x: ('L', (('e', ('A', ins, vi, (x,))),)))


def f_mkfuncs(E, st, v):
    """a function of each type, without locals and body so far"""
    full = E.adt_full('Func')
    fs = [f[0] for f in E.P.adts[full][0].d['variants'][0]['fields']]

    def mk(x):
        return ('A', full, 0, tuple(x if f in ('type', 'r#type') else ('L', ()) for f in fs))
    return lmap(st, v, mk)


def lmap(st, v, f):
    out = []
    for s in list_norm(st.ctx, v)[1]:
        if s[0] == 'e':
            out.append(('e', f(s[1])))
        elif s[0] == 'l':
            n = y(('len', s[1]), 0, 2 ** 63 - 1)
            el = spec_elem(s[1], ('y', BVn(1)))
            out += mkcat(n, (('e', f(el)),))
        else:
            raise Undecided('map of a list')
    return ('L', tuple(out))


def f_anydata(E, st, codes):
    n = norm(st.ctx, list_len(codes))
    if isinstance(n, int) and n <= 8:
        r = 0
        for i in range(n):
            r = bor(st.ctx, r, norm(st.ctx, code_at(st, codes, i)[3][2]))
        return r
    return norm(st.ctx, mk_orp(code_at(st, codes, ('y', BVn(1)))[3][2], n))


def code_at(st, codes, i):
    v = list_get(st.ctx, codes, i, True) if is_int(i) and isinstance(i, int) else spec_elem(codes[1][0][1], i)
    if v[0] != 'rec':
        raise Undecided('code entry')
    return v


def f_fill(E, st, funcs, codes):
    """the i-th function gets the body and the expanded locals of the i-th code entry"""
    full = E.adt_full('Func')
    fs = [f[0] for f in E.P.adts[full][0].d['variants'][0]['fields']]

    def filled(fn, code, raw):
        vals = []
        for i, f in enumerate(fs):
            if f == 'locals':
                vals.append(locals_of(st, code[3][0], raw))
            elif f == 'body':
                vals.append(code[3][1])
            else:
                vals.append(vfield(fn, 0, i))
        return ('A', full, 0, tuple(vals))
    n = norm(st.ctx, list_len(codes))
    if isinstance(n, int) and n <= 8:
        return ('L', tuple(('e', filled(list_get(st.ctx, funcs, i), code_at(st, codes, i), False)) for i in range(n)))
    raise Undecided('fill')


def locals_of(st, groups, raw):
    g = list_norm(st.ctx, groups)
    out = []
    for s in g[1]:
        if s[0] == 'e':
            out += mkcat(norm(st.ctx, s[1][3][0]), (('e', s[1][3][1]),))
        elif s[0] == 'l':
            n = y(('len', s[1]), 0, 2 ** 63 - 1)
            el = spec_elem(s[1], ('y', BVn(2)))
            out += mkcat(n, (('c', el[3][0], (('e', el[3][1]),)),))
        else:
            raise Undecided('locals')
    return ('L', tuple(out))
