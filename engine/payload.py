"""What the values reported in an error should be, from the grammar's point of view."""
from terms import *
from values import *


def kind_of(E, i):
    """the kind of section with identifier i"""
    names = ['Custom', 'Type', 'Import', 'Function', 'Table', 'Memory', 'Global', 'Export', 'Start', 'Element', 'Code', 'Data',
             'DataCount', 'Tag']
    adt = E.adt_full('SectionKind')
    vi = E.P.variant_index(adt, names[i])[0]
    return ('A', adt, vi, ())


def frame(st, var, rule=None):
    for f in reversed(st.sp):
        if var in f.env and (rule is None or f.rule.name == rule):
            return f.env[var]
    return None


def listlen(E, st, v):
    if v is None or not isinstance(v, tuple):
        return None
    return E.spec_fn('len', [v], st)


def window(E, st):
    if not st.wins:
        return None, None
    lim, tok = st.wins[-1]
    return lim, E.remaining(st, lim, tok)


def named(E, st, adt, variant, name):
    short = adt.rsplit('::', 1)[-1]
    if name in ('declared', 'declared_bytes'):
        return window(E, st)[0]
    if name == 'leftover_bytes':
        return window(E, st)[1]
    if name in ('got', 'consumed_bytes') and st.wins:
        d, r = window(E, st)
        return norm(st.ctx, sub(d, r))
    if name in ('current', 'section_kind'):
        i = norm(st.ctx, frame(st, 'id', 'module')) if frame(st, 'id', 'module') is not None else None
        return kind_of(E, i) if isinstance(i, int) and 0 <= i <= 13 else None
    if name == 'previous':
        k = frame(st, 'kinds', 'module')
        if isinstance(k, tuple) and k[0] == 'L' and k[1] and k[1][-1][0] == 'e':
            return k[1][-1][1]
        return None
    if name == 'funcs_len':
        return listlen(E, st, frame(st, 'funcs', 'module'))
    if name == 'codes_len':
        return listlen(E, st, frame(st, 'x', 'module')) if norm(st.ctx, frame(st, 'id', 'module') or 0) == 10 else 0
    if name == 'datas_len':
        d = frame(st, 'datas', 'module')
        if norm(st.ctx, frame(st, 'id', 'module') or 0) == 11:
            d = frame(st, 'x', 'module')
        return listlen(E, st, d)
    if name == 'data_count':
        c = frame(st, 'count', 'module')
        return c[3][0] if isinstance(c, tuple) and c[0] == 'A' and c[3] else None
    if name == 'max_locals':
        return 2 ** 32 - 1
    if name == 'actual_locals':
        t, n = frame(st, 'total', 'local'), frame(st, 'n', 'local')
        return add(t, n) if t is not None and n is not None else None
    if name == 'marker':
        return frame(st, 'b', 'storagetype')
    return None


def fields(E, v):
    if isinstance(v, tuple) and v[0] == 'A' and 'wadec' in v[1]:
        return [E.P.types[f[1]].s.rsplit('::', 1)[-1] for f in E.P.adts[v[1]][0].d['variants'][v[2]]['fields']]
    return []


def check(E, st, e):
    """[(field, reported value, what the input has)]"""
    if not isinstance(e, tuple) or e[0] != 'A':
        return []
    if st.stok != st.tok and e[3] and not any(t == 'SectionKind' for t in fields(E, e)):
        return []           # the error may be about something that comes after what the grammar rejects
    out = []
    lists = [f.env['i'] for f in st.sp if 'i' in f.env and 'n' in f.env and 'r' in f.env or f.rule.name == 'code' and 'i' in f.env]

    def walk(v):
        if not isinstance(v, tuple) or v[0] != 'A':
            return
        adt, vi, fs = v[1], v[2], v[3]
        if 'wadec' not in adt:
            return
        d = E.P.adts[adt][0].d['variants'][vi]
        t = next((t for t in E.P.adts[adt] if len(t.d['variants'][vi]['fields']) == len(fs)), None)
        what = adt.rsplit('::', 1)[-1] + ('::' + d['name'] if d['name'] != adt.rsplit('::', 1)[-1] else '')
        for (fname, fty), x in zip(d['fields'], fs):
            ty = E.P.types[fty]
            tuple_field = fname.isdigit()
            want = None
            if fname == 'position' and ty.k in ('uint', 'int'):
                if lists:
                    want = lists.pop(0)
            elif not tuple_field:
                want = named(E, st, adt, d['name'], fname)
            elif ty.k in ('uint', 'int'):
                if st.sink[0] == 'spec':
                    want = st.glast
            elif ty.k == 'array':
                if st.sink[0] == 'spec' and st.last is not None and len(st.last) == ty.d['len']:
                    want = ('R', st.last)
            elif ty.k == 'adt' and ty.name.endswith('::SectionKind'):
                want = named(E, st, adt, d['name'], 'current')
            if want is not None:
                out.append((what + '.' + fname, x, want))
            elif ty.k == 'adt':
                walk(x)
    walk(e)
    return out
