"""Abstract values, their projections and their comparison.

  integer terms             (terms.py)
  ('A', adt, vi, fields)    variant vi of an adt            ('T', fields) tuple     ('R', elems) array
  ('V', name)               an unknown value of type VT[name]; its variant is the symbol (name,'discr')
  ('L', segs)               Vec: segs are ('e', value) | ('l', name) | ('c', n, bv, segs)
  ('LU', list, idx, value)  a list with one element replaced
  ('St', list)              String            ('fl', bits, term)  float
  ('&', cell, path)         reference         ('&s', cell, path, lo, n) slice reference
  ('F', ty) ('C', ty, caps) functions and closures
  ('rec', rule, tag, comps) result of a grammar rule
  ('K', why)                anything
"""
from terms import *

VT = {}           # V symbol name -> type id
LT = {}           # list symbol name -> element type id (program side)
LR = {}           # list symbol name -> grammar rule of its elements
ELT = {}          # list symbol name -> template of the program's element value


class Undecided(Exception):
    pass


class World:
    prog = None
    grammar = None
    elt = {}          # grammar rule -> how the decoder represents its records


W = World()

RESULT = 'std::result::Result'
OPTION = 'std::option::Option'


def sym(name, ty):
    """an unknown value of program type ty"""
    P = W.prog
    t = P.types[ty]
    k = t.k
    if k in ('int', 'uint', 'bool', 'char'):
        lo, hi = P.int_range(ty)
        return y(name, lo, hi)
    if k == 'float':
        b = t.d['bits']
        return ('fl', b, y((name, 'bits'), 0, (1 << b) - 1))
    if k == 'tuple':
        return ('T', tuple(sym((name, 'f', 0, i), e) for i, e in enumerate(t.d['elems'])))
    if k == 'array':
        n = t.d['len']
        if n is not None and n <= 64:
            return ('R', tuple(sym((name, 'a', i), t.d['elem']) for i in range(n)))
        return ('K', 'array')
    if k == 'adt':
        if t.name == 'std::vec::Vec':
            LT[name] = t.d['args'][0]
            return ('L', (('l', name),))
        if t.name == 'std::string::String':
            n2 = (name, 'utf8')
            LT[n2] = W.u8
            return ('St', ('L', (('l', n2),)))
        if t.d['adt'] == 'struct' and t.name.startswith('wadec'):
            vs = t.d['variants'][0]['fields']
            if len(vs) == 1:
                return ('A', t.name, 0, tuple(sym((name, 'f', 0, i), f[1]) for i, f in enumerate(vs)))
        VT.setdefault(name, ty)
        return ('V', name)
    if k == 'closure' or k == 'fndef':
        return P.zst(ty) if k == 'fndef' else ('K', 'closure')
    return ('K', t.s)


def is_int(v):
    return isinstance(v, int) or (isinstance(v, tuple) and v[0] in ('y', 'lin', 'bits', 'op', 'eq0', 'ge0', 'bnot', 'band', 'bor'))


def discr(v):
    """variant index as a term"""
    if v[0] == 'A':
        return v[2]
    if v[0] == 'V':
        ty = W.prog.types[VT[v[1]]]
        n = len(ty.d['variants'])
        return y((v[1], 'discr'), 0, n - 1)
    raise Undecided('discriminant of ' + str(v[0]))


def vfield(v, vi, i):
    k = v[0] if isinstance(v, tuple) else None
    if k == 'A':
        if i >= len(v[3]):
            raise Undecided('field')
        return v[3][i]
    if k == 'T':
        return v[1][i]
    if k == 'V':
        ty = VT[v[1]]
        return sym((v[1], 'f', vi, i), W.prog.field_ty(ty, vi, i))
    if k == 'C':
        return v[2][i]
    if k == 'Bx':
        return v
    raise Undecided('field of %s' % (k,))


def elem(name, idx):
    """element of an opaque list, as the program sees it"""
    if name not in ELT and name not in LT and LR.get(name) in W.elt:
        ELT[name] = W.elt[LR[name]]
    if name in ELT:
        return instantiate(ELT[name], rule_comps(LR[name], ('el', name, idx)))
    if name in LT:
        return sym(('el', name, idx), LT[name])
    if name in LR:
        c = rule_comps(LR[name], ('el', name, idx))
        if len(c) == 1:
            return c[0]
    raise Undecided('element of list %s' % (name,))


def spec_elem(name, idx):
    """element of an opaque list, as the grammar sees it"""
    if name in LR:
        c = rule_comps(LR[name], ('el', name, idx))
        return c[0] if len(c) == 1 else ('rec', LR[name], None, tuple(c))
    return elem(name, idx)


def rule_comps(rule, name, tag=None):
    kinds = W.grammar.kinds(rule, tag)
    out = []
    for i, k in enumerate(kinds):
        nm = name if len(kinds) == 1 else (name, 'c', i)
        out.append(kind_sym(k, nm, out))
    return out


INTS = {'u8': (0, 255), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'bool': (0, 1),
        'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 's33': (-2**32, 2**32 - 1)}


def kind_sym(k, name, prev=()):
    if k in INTS:
        return y(name, *INTS[k])
    if k.startswith('list:'):
        LR[name] = k[5:]
        t = list_elem_type(k[5:])
        if t is not None:
            LT[name] = t
        elif k[5:] in W.elt:
            ELT[name] = W.elt[k[5:]]
        y(('len', name), 0, 2**63 - 1)
        return ('L', (('l', name),))
    if k == 'bytes':
        LT[name] = W.u8
        return ('L', (('l', name),))
    if k.startswith('vec:'):
        LT[name] = W.adt_type(k[4:])
        y(('len', name), 0, 2**63 - 1)
        return ('L', (('l', name),))
    if k == 'lanes16':
        t = W.adt_name('LaneIdx')
        return ('R', tuple(('A', t, 0, (y((name, 'a', i), 0, 255),)) for i in range(16)))
    if k == 'String':
        n2 = (name, 'utf8')
        LT[n2] = W.u8
        return ('St', ('L', (('l', n2),)))
    if k == 'f32' or k == 'f64':
        b = int(k[1:])
        return ('fl', b, y((name, 'bits'), 0, (1 << b) - 1))
    if k.startswith('='):
        return W.spec_fn(k[1:].split('(')[0], [prev[int(k.split('(')[1].rstrip(')'))]])
    if k == 'raw16':
        return ('R', tuple(y((name, 'a', i), 0, 255) for i in range(16)))
    return sym(name, W.adt_type(k))


def list_elem_type(rule):
    ks = W.grammar.kinds(rule, None)
    if len(ks) != 1:
        return None
    k = ks[0]
    return kind_type(k)


def kind_type(k):
    if k in INTS:
        return W.int_type(k)
    if k.startswith('vec:'):
        return W.vec_type(W.adt_type(k[4:]))
    if k in ('bytes', 'String', 'f32', 'f64', 'raw16', 'lanes16') or k.startswith(('list:', '=')):
        return None
    try:
        return W.adt_type(k)
    except KeyError:
        return None


# ---- templates ----------------------------------------------------------------------------------

def instantiate(t, comps):
    k = t[0]
    if k == 'H':
        return comps[t[1]]
    if k == 'A':
        return ('A', t[1], t[2], tuple(instantiate(x, comps) for x in t[3]))
    if k == 'T':
        return ('T', tuple(instantiate(x, comps) for x in t[1]))
    if k == 'lit':
        return t[1]
    if k == 'O':
        return ('K', 'component of a private result')
    raise ValueError(t)


def template(ctx, v, comps):
    """how the program's value v is made of the grammar's comps on this path"""
    cand = frozenset(i for i, c in enumerate(comps) if vdiff(ctx, v, c) is False)
    symb = cand and not (isinstance(v, int))
    sub = None
    if isinstance(v, tuple) and v[0] == 'A':
        sub = ('A', v[1], v[2], tuple(template(ctx, x, comps) for x in v[3]))
    elif isinstance(v, tuple) and v[0] == 'T':
        sub = ('T', tuple(template(ctx, x, comps) for x in v[1]))
    elif isinstance(v, int) or (isinstance(v, tuple) and v[0] in ('F',)):
        sub = ('lit', v)
    diff = frozenset(i for i, c in enumerate(comps) if vdiff(ctx, v, c) is True)
    # a constant only follows a component if it does so for two values of it
    return ('N', cand, sub, frozenset((i, 'y' if symb else v) for i in cand if symb or isinstance(v, int)), diff)


def follows(t):
    """components that this leaf carries on some path, other than by chance"""
    return frozenset(i for i, x in t[3] if x == 'y' or sum(1 for j, z in t[3] if i == j and z != 'y') > 1)


def tmerge(a, b):
    cand = a[1] & b[1]
    symb = a[3] | b[3]
    diff = a[4] | b[4]
    sa, sb = a[2], b[2]
    sub = None
    if sa is not None and sb is not None and sa[0] == sb[0]:
        if sa[0] == 'A' and sa[1:3] == sb[1:3]:
            sub = ('A', sa[1], sa[2], tuple(tmerge(x, z) for x, z in zip(sa[3], sb[3])))
        elif sa[0] == 'T' and len(sa[1]) == len(sb[1]):
            sub = ('T', tuple(tmerge(x, z) for x, z in zip(sa[1], sb[1])))
        elif sa[0] == 'lit' and sa[1] == sb[1]:
            sub = sa
    return ('N', cand, sub, symb, diff)


def tfinish(t):
    if t[1]:
        return ('H', min(t[1]))
    s = t[2]
    if s is None:
        return ('O',)
    if s[0] == 'A':
        return ('A', s[1], s[2], tuple(tfinish(x) for x in s[3]))
    if s[0] == 'T':
        return ('T', tuple(tfinish(x) for x in s[1]))
    return s


def ttracks(t, out=None, path=''):
    """leaves that follow a component on some path and differ from it on another"""
    if out is None:
        out = []
    if not t[1]:
        s = t[2]
        bad = follows(t) & t[4]
        if bad and (s is None or s[0] == 'lit'):
            out.append((path, min(bad)))
        elif s is not None and s[0] in ('A', 'T'):
            for i, x in enumerate(s[3] if s[0] == 'A' else s[1]):
                ttracks(x, out, '%s.%d' % (path, i))
    return out


def tholes(t, out):
    if t[0] == 'H':
        out.add(t[1])
    elif t[0] == 'A':
        for x in t[3]:
            tholes(x, out)
    elif t[0] == 'T':
        for x in t[1]:
            tholes(x, out)
    return out


# ---- substitution of a bound variable -----------------------------------------------------------

def subst(v, name, term):
    """v with symbol `name` replaced by an integer term, inside symbol names too"""
    if not isinstance(v, tuple) or not v:
        return v
    k = v[0]
    if k == 'y':
        if v[1] == name:
            return term
        n2 = subst(v[1], name, term)
        if n2 != v[1]:
            copy_decl(v[1], n2)
            return ('y', n2)
        return v
    if k == 'lin':
        r = v[1]
        for a, m in v[2]:
            r = add(r, scale(subst(a, name, term), m))
        return r
    if k in ('bits', 'op') and not contains(v, name):
        return v
    if k == 'bits':
        def sb(b):
            if isinstance(b, tuple):
                n2 = subst(b[0], name, term)
                if n2 != b[0]:
                    copy_decl(b[0], n2)
                return (n2, b[1])
            return b
        if any(isinstance(b, tuple) and b[0] == name for b in v[1]):
            return ('op', 'subst', v, term)
        return ('bits', tuple(sb(b) for b in v[1]), sb(v[2]))
    if k in ('V', 'l'):
        n2 = subst(v[1], name, term)
        if n2 != v[1]:
            copy_decl(v[1], n2)
        return (k, n2) + v[2:]
    if not contains(v, name):
        return v
    if k == 'eq0':
        return cond_eq(Ctx(), subst(v[1], name, term), 0)
    if k == 'ge0':
        return cond_ge(Ctx(), subst(v[1], name, term), 0)
    return tuple(subst(x, name, term) for x in v)


def copy_decl(a, b):
    if a in VT:
        VT[b] = VT[a]
    if a in LT:
        LT[b] = LT[a]
    if a in LR:
        LR[b] = LR[a]
    if a in ELT:
        ELT[b] = ELT[a]
    if a in DOM:
        DOM[b] = DOM[a]
    if ('len', a) in DOM:
        DOM[('len', b)] = DOM[('len', a)]


def contains(v, name):
    if v == name:
        return True
    if isinstance(v, tuple):
        return any(contains(x, name) for x in v)
    return False


def mentions(v, names):
    if v in names if not isinstance(v, (list, dict)) else False:
        return True
    if isinstance(v, tuple):
        return any(mentions(x, names) for x in v)
    return False


# ---- lists --------------------------------------------------------------------------------------

def BVn(k):
    """the variable of a comprehension whose body has k - 1 further levels"""
    DOM.setdefault(('bv', k), ((0, 2 ** 62),))
    return ('bv', k)


_height = {}


def height(v):
    """levels of comprehensions inside"""
    if not isinstance(v, tuple) or not v:
        return 0
    h = _height.get(v)
    if h is None:
        if v[0] == 'c' and len(v) == 3:
            h = max(height(v[1]), height(v[2]) + 1)
        elif v[0] == 'PU' and len(v) == 4:
            h = max(height(v[1]), height(v[2]), height(v[3]) + 1)
        elif v[0] == 'orp' and len(v) == 3:
            h = max(height(v[1]) + 1, height(v[2]))
        else:
            h = max(height(x) for x in v)
        _height[v] = h
    return h


def bvof(body):
    return BVn(height(body) + 1)


def mkcat(n, segs):
    """concatenation of segs[bv] for bv in 0..n"""
    if n == 0:
        return ()
    if isinstance(n, int) and n <= 8:
        out = []
        b = bvof(segs)
        for i in range(n):
            out += [subst(s, b, i) for s in segs]
        return tuple(out)
    if len(segs) == 1 and segs[0][0] == 'e':
        v = segs[0][1]
        nm = eta(v, n)
        if nm is not None:
            return (('l', nm),)
    return (('c', n, tuple(segs)),)


def mk_orp(T, n):
    """disjunction of T[bv] for bv in 0..n"""
    if isinstance(T, int):
        return bitwise(Ctx(), '&', T, bnot(cond_eq(Ctx(), n, 0)))
    if n == 0:
        return 0
    b = bvof(T)
    if isinstance(n, int) and n <= 8:
        r = 0
        for i in range(n):
            r = bitwise(Ctx(), '|', r, subst(T, b, i))
        return r
    if isinstance(n, tuple) and n[0] == 'lin' and n[1] > 0:
        m = sub(n, 1)
        return bitwise(Ctx(), '|', mk_orp(T, m), subst(T, b, m))
    return y(('orp', T, n), 0, 1)


def eta(v, n):
    """list name if v is its element bv and n its length"""
    if isinstance(n, tuple) and n[0] == 'y' and isinstance(n[1], tuple) and n[1][0] == 'len':
        nm = n[1][1]
        b = ('y', bvof(v))
        for el in (elem, spec_elem):
            try:
                if el(nm, b) == v:
                    return nm
            except (Undecided, KeyError):
                pass
    return None


def list_len(v):
    if v[0] == 'LU':
        return list_len(v[1])
    n = 0
    for s in v[1]:
        n = add(n, seg_len(s))
    return n


def seg_len(s):
    if s[0] == 'e':
        return 1
    if s[0] == 'l':
        return y(('len', s[1]), 0, 2**63 - 1)
    if s[0] == 'alt':
        return seg_len(s[1][0]) if s[1] else 0
    # concatenation
    m = 0
    for x in s[2]:
        m = add(m, seg_len(x))
    if isinstance(m, int):
        return scale(s[1], m)
    return ('y', declare(('sum', s), 0, 2**63 - 1))


def declare(n, lo, hi):
    DOM.setdefault(n, ((lo, hi),))
    return n


def list_get(ctx, v, idx, spec=False):
    idx = norm(ctx, idx)
    if v[0] == 'LU':
        d = decide(ctx, cond_eq(ctx, v[2], idx))
        if d == 1:
            return v[3]
        if d == 0:
            return list_get(ctx, v[1], idx, spec)
        raise Undecided('list index')
    pos = 0
    for s in v[1]:
        n = norm(ctx, seg_len(s))
        lo = decide(ctx, cond_ge(ctx, idx, pos))
        hi = decide(ctx, cond_ge(ctx, idx, add(pos, n)))
        if lo == 1 and hi == 0 or (lo == 1 and s is v[1][-1]):
            off = sub(idx, pos)
            if s[0] == 'e':
                return s[1]
            if s[0] == 'l':
                return spec_elem(s[1], off) if spec else elem(s[1], off)
            if s[0] == 'c' and len(s[2]) == 1 and s[2][0][0] == 'e':
                return subst(s[2][0][1], bvof(s[2]), off)
            raise Undecided('list element')
        if hi != 1:
            raise Undecided('list index')
        pos = add(pos, n)
    raise Undecided('list index out of range')


def list_set(ctx, v, idx, val):
    idx = norm(ctx, idx)
    if v[0] == 'LU':
        d = decide(ctx, cond_eq(ctx, v[2], idx))
        if d == 1:
            return ('LU', v[1], v[2], val)
        if d == 0:
            b = list_set(ctx, v[1], idx, val)
            if b[0] == 'L':
                return ('LU', b, v[2], v[3])
        raise Undecided('list update')
    if isinstance(idx, int) and idx < len(v[1]) and all(s[0] == 'e' for s in v[1][:idx + 1]):
        segs = list(v[1])
        segs[idx] = ('e', val)
        return ('L', tuple(segs))
    return ('LU', v, idx, val)


def list_append(v, segs):
    if v[0] != 'L':
        raise Undecided('append to an updated list')
    return ('L', v[1] + tuple(segs))


def list_norm(ctx, v):
    """segments with what is known filled in"""
    if v[0] == 'LU':
        b = list_norm(ctx, v[1])
        return ('LU', b, norm(ctx, v[2]), v[3])
    out = []
    for s in v[1]:
        if s[0] == 'l':
            n = norm(ctx, y(('len', s[1]), 0, 2**63 - 1))
            if n == 0:
                continue
            if isinstance(n, int) and n <= 8:
                out += [('e', elem(s[1], i)) for i in range(n)]
                continue
            out.append(s)
        elif s[0] == 'c':
            n = norm(ctx, s[1])
            x = mkcat(n, s[2])
            if isinstance(n, int) and n <= 8 and any(z[0] != 'e' for z in x):
                x = list_norm(ctx, ('L', tuple(x)))[1]
            out += x
        else:
            out.append(s)
    return ('L', tuple(out))


# ---- comparison ---------------------------------------------------------------------------------

def vdiff(ctx, a, b):
    """False: equal on this partition; True: an input exists on which they differ; None: unknown"""
    if a is b or a == b:
        return False
    if is_int(a) and is_int(b):
        return may_differ(ctx, a, b)
    if isinstance(a, int) or isinstance(b, int):
        return None
    if a[0] == 'K' or b[0] == 'K':
        return None
    if a[0] == 'alt' or b[0] == 'alt':
        x, alts = (b, a[1]) if a[0] == 'alt' else (a, b[1])
        rs = [vdiff(ctx, x, z) for z in alts]
        return False if False in rs else None if None in rs else True
    if a[0] == 'A' and b[0] == 'A':
        if a[1] != b[1]:
            return None
        if a[2] != b[2]:
            return None if ctx.soft else True
        return dany(vdiff(ctx, x, z) for x, z in zip(a[3], b[3]))
    if a[0] == 'T' and b[0] == 'T' and len(a[1]) == len(b[1]):
        return dany(vdiff(ctx, x, z) for x, z in zip(a[1], b[1]))
    if a[0] == 'R' and b[0] == 'R':
        if len(a[1]) != len(b[1]):
            return None if ctx.soft else True
        return dany(vdiff(ctx, x, z) for x, z in zip(a[1], b[1]))
    if a[0] == 'R' and b[0] in ('L',):
        return vdiff(ctx, ('L', tuple(('e', x) for x in a[1])), b)
    if b[0] == 'R' and a[0] in ('L',):
        return vdiff(ctx, a, ('L', tuple(('e', x) for x in b[1])))
    if a[0] == 'fl' and b[0] == 'fl':
        return vdiff(ctx, a[2], b[2])
    if a[0] == 'St' and b[0] == 'St':
        return vdiff(ctx, a[1], b[1])
    if a[0] == 'V' and b[0] == 'V':
        da, db = norm(ctx, discr(a)), norm(ctx, discr(b))
        if isinstance(da, int) and isinstance(db, int):
            return vdiff(ctx, known(a, da), known(b, db))
        if ctx.soft or soft_name(a[1]) or soft_name(b[1]):
            return None
        return True
    if a[0] == 'V' and b[0] == 'A' or a[0] == 'A' and b[0] == 'V':
        v, c = (a, b) if a[0] == 'V' else (b, a)
        if W.prog.types[VT[v[1]]].name != c[1]:
            return None
        d = norm(ctx, discr(v))
        if isinstance(d, int):
            return vdiff(ctx, known(v, d), c)
        if decide(ctx, cond_eq(ctx, d, c[2])) == 0:
            return None if ctx.soft or soft_name(v[1]) else True
        if ctx.soft or soft_name(v[1]):
            return None
        return True
    if a[0] in ('L', 'LU') and b[0] in ('L', 'LU'):
        return ldiff(ctx, a, b)
    if a[0] == 'rec' and b[0] == 'rec' and a[1] == b[1]:
        return dany(vdiff(ctx, x, z) for x, z in zip(a[3], b[3]))
    if a[0] == 'rec' and b[0] in ('A', 'T'):
        a, b = b, a
    if b[0] == 'rec' and a[0] in ('A', 'T'):
        return repdiff(ctx, a, b)
    return None


def repdiff(ctx, v, r):
    """the decoder's own representation of a grammar record that is not part of the result"""
    T = W.elt.get(r[1])
    if T is None:
        T = tfinish(template(ctx, v, r[3]))
        if T[0] not in ('A', 'T') or len(tholes(T, set())) != len(r[3]):
            return None
        W.elt[r[1]] = T
    return tdiff(ctx, v, T, r[3])


def tdiff(ctx, v, T, comps):
    if T[0] == 'H':
        return vdiff(ctx, v, comps[T[1]])
    if T[0] in ('lit', 'O'):
        return False
    if not isinstance(v, tuple) or v[0] != T[0]:
        return None
    if T[0] == 'A':
        if v[1:3] != T[1:3]:
            return None
        return dany(tdiff(ctx, x, t, comps) for x, t in zip(v[3], T[3]))
    return dany(tdiff(ctx, x, t, comps) for x, t in zip(v[1], T[1]))


def known(v, d):
    """V expanded into its known variant"""
    ty = W.prog.types[VT[v[1]]]
    n = len(ty.d['variants'][d]['fields'])
    return ('A', ty.name, d, tuple(vfield(v, d, i) for i in range(n)))


def dany(it):
    r = False
    for x in it:
        if x is True:
            return True
        if x is None:
            r = None
    return r


def soft_name(n):
    if n in SOFT:
        return True
    if isinstance(n, tuple):
        return any(soft_name(x) for x in n if isinstance(x, tuple) or isinstance(x, str))
    return False


def ldiff(ctx, a, b):
    a, b = list_norm(ctx, a), list_norm(ctx, b)
    if a == b:
        return False
    if a[0] == 'LU' and b[0] == 'LU':
        if vdiff(ctx, a[2], b[2]) is False and ldiff(ctx, a[1], b[1]) is False:
            return vdiff(ctx, a[3], b[3])
        return None
    if a[0] == 'LU' or b[0] == 'LU':
        u, o = (a, b) if a[0] == 'LU' else (b, a)
        if ldiff(ctx, u[1], o) is not False:
            return None
        try:
            return vdiff(ctx, u[3], list_get(ctx, o, u[2], o is b))
        except Undecided:
            return None
    x, z = list(a[1]), list(b[1])
    # strip equal ends
    res = False
    while x and z:
        d = segdiff(ctx, x[0], z[0])
        if d is False:
            x.pop(0)
            z.pop(0)
        elif d is True:
            return None if ctx.soft else True
        else:
            break
    while x and z:
        d = segdiff(ctx, x[-1], z[-1])
        if d is False:
            x.pop()
            z.pop()
        elif d is True:
            return None if ctx.soft else True
        else:
            break
    if not x and not z:
        return res
    if ctx.soft or any(soft_name(s) for s in x + z):
        return None
    n, m = 0, 0
    for s in x:
        n = add(n, seg_len(s))
    for s in z:
        m = add(m, seg_len(s))
    if decide(ctx, cond_eq(ctx, norm(ctx, n), norm(ctx, m))) == 0:
        return True
    for p, q in ((x, z), (z, x)):
        if len(p) == 1 and p[0][0] == 'l' and isinstance(p[0][1], tuple) and p[0][1][0] == 'differs' and list_norm(ctx, p[0][1][2]) == ('L', tuple(q)):
            return True
    if not x or not z:
        rest = x or z
        n = 0
        for s in rest:
            n = add(n, seg_len(s))
        r = may_differ(ctx, n, 0)
        return r if r else None
    return None


def segdiff(ctx, s, t):
    if s == t:
        return False
    if s[0] == 'e' and t[0] == 'e':
        return vdiff(ctx, s[1], t[1])
    if s[0] == 'l' and t[0] == 'l':
        if soft_name(s[1]) or soft_name(t[1]):
            return None
        return True
    if s[0] == 'c' and t[0] == 'c':
        if vdiff(ctx, s[1], t[1]) is False and len(s[2]) == len(t[2]):
            return dany(segdiff(ctx, p, q) for p, q in zip(s[2], t[2]))
        return None
    return None


def show(v, depth=0):
    """short text of a value for reports"""
    if isinstance(v, int):
        return str(v)
    k = v[0]
    if depth > 3:
        return '..'
    if k == 'A':
        n = v[1].split('::')[-1]
        try:
            vs = W.prog.adts[v[1]][0].d
            if vs['adt'] == 'enum':
                n += '::' + vs['variants'][v[2]]['name']
        except (KeyError, IndexError):
            pass
        return n + ('(' + ', '.join(show(x, depth + 1) for x in v[3]) + ')' if v[3] else '')
    if k == 'T':
        return '(' + ', '.join(show(x, depth + 1) for x in v[1]) + ')'
    if k == 'y':
        return nm(v[1])
    if k == 'V':
        return nm(v[1])
    if k == 'L':
        return '[' + ', '.join(show(s[1], depth + 1) if s[0] == 'e' else nm(s[1]) + '..' if s[0] == 'l' else '{' + str(s[1]) + ' x ..}' for s in v[1][:4]) + ']'
    if k == 'lin':
        return ' + '.join([str(v[1])] * (v[1] != 0) + [('%d*' % m if m != 1 else '') + show(a, depth + 1) for a, m in v[2]])
    if k == 'bits':
        return 'bits(' + ','.join(sorted({nm(e[0]) for e in v[1] if isinstance(e, tuple)})) + ')'
    if k == 'R':
        return '[' + ', '.join(show(x, depth + 1) for x in v[1][:4]) + ']'
    if k == 'fl':
        return 'f%d(%s)' % (v[1], show(v[2], depth + 1))
    if k == 'St':
        return 'str' + show(v[1], depth + 1)
    return str(k)


def nm(n):
    if isinstance(n, str):
        return n
    if isinstance(n, tuple):
        if len(n) == 2 and n[1] in ('discr', 'utf8', 'bits'):
            return nm(n[0]) + '.' + n[1]
        if len(n) >= 4 and n[1] == 'f':
            return nm(n[0]) + '.%s' % (n[3],)
        if n and n[0] == 'el':
            return '%s[%s]' % (nm(n[1]), show(n[2]) if is_int(n[2]) else n[2])
        if n and n[0] == 'len':
            return 'len(%s)' % nm(n[1])
        return '.'.join(nm(x) for x in n)
    return str(n)
