"""Abstract integers of the analysis: exact linear terms and bit-provenance terms over input symbols.

  int                      constant (booleans are 0/1)
  ('y', name)              symbol; its set of possible values is in Ctx.dom / DOM
  ('lin', c, ((atom, k),)) c + sum k*atom, atoms are ('y',..), ('bits',..) or ('op',..)
  ('bits', (e0, e1..), x)  infinite two's complement number: bit i is e_i, then x for ever;
                           an entry is 0, 1 or (symbol name, bit index)
  ('op', name, args..)     value the analysis knows nothing about, except that it is a function of args
  ('eq0', t) ('ge0', t)    conditions (0/1); ('bnot', c) ('band', a, b) ('bor', a, b)
"""

INF = 1 << 200
DOM = {}          # symbol name -> default (lo, hi)
SOFT = set()      # symbols that stand for an over-approximation rather than for input


def y(name, lo=None, hi=None):
    if lo is not None:
        DOM.setdefault(name, ((lo, hi),))
    return ('y', name)


class Ctx:
    """What is known on the current trace partition."""
    __slots__ = ('dom', 'sub', 'facts', 'neq', 'var', 'soft', 'why')

    def __init__(self):
        self.dom = {}
        self.sub = {}
        self.facts = ()
        self.neq = ()
        self.var = {}
        self.soft = False
        self.why = ()

    def copy(self):
        c = Ctx.__new__(Ctx)
        c.dom = dict(self.dom)
        c.sub = dict(self.sub)
        c.facts = self.facts
        c.neq = self.neq
        c.var = dict(self.var)
        c.soft = self.soft
        c.why = self.why
        return c

    def domain(self, name):
        d = self.dom.get(name)
        if d is None:
            d = DOM.get(name)
            if d is None:
                d = ((-INF, INF),)
        return d


def dsize(d):
    return sum(h - l + 1 for l, h in d)


def dvalues(d):
    for l, h in d:
        yield from range(l, h + 1)


def dinter(d, lo, hi):
    return tuple((max(l, lo), min(h, hi)) for l, h in d if max(l, lo) <= min(h, hi))


def dminus(d, v):
    out = []
    for l, h in d:
        if l <= v <= h:
            if l < v:
                out.append((l, v - 1))
            if v < h:
                out.append((v + 1, h))
        else:
            out.append((l, h))
    return tuple(out)


def dfrom(vals):
    out = []
    for v in sorted(vals):
        if out and out[-1][1] == v - 1:
            out[-1][1] = v
        else:
            out.append([v, v])
    return tuple((a, b) for a, b in out)


# ---- construction --------------------------------------------------------------------------------

def mklin(c, d):
    items = tuple(sorted(((a, k) for a, k in d.items() if k != 0), key=_key))
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return ('lin', c, items)


def _key(x):
    return repr(x)


def tolin(t):
    if isinstance(t, int):
        return t, {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def add(a, b, kb=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + kb * b
    if kb == 1 and not isinstance(a, int) and not isinstance(b, int) and 'bits' in (a[0], b[0]):
        m = disjoint_or(a, b)
        if m is not None:
            return m
    ca, da = tolin(a)
    cb, db = tolin(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + kb * v
    return mklin(ca + kb * cb, da)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    c, d = tolin(a)
    return mklin(c * k, {x: v * k for x, v in d.items()})


def mkbits(ents, ext):
    ents = list(ents)
    while ents and ents[-1] == ext:
        ents.pop()
    if ext in (0, 1) and all(e in (0, 1) for e in ents):
        v = sum(e << i for i, e in enumerate(ents))
        return v - (1 << len(ents)) if ext == 1 else v
    # the plain value of one symbol
    if ext == 0 and ents and isinstance(ents[0], tuple) and ents[0][1] == 0:
        n = ents[0][0]
        if all(e == (n, i) for i, e in enumerate(ents)):
            d = DOM.get(n)
            if d and d[0][0] >= 0 and d[-1][1] < (1 << len(ents)):
                return ('y', n)
    return ('bits', tuple(ents), ext)


def bits_of(ctx, t):
    """(entries, ext) or None"""
    if isinstance(t, int):
        n = max(t.bit_length(), 1)
        if t >= 0:
            return [(t >> i) & 1 for i in range(n)], 0
        return [(t >> i) & 1 for i in range(n)], 1
    if t[0] == 'bits':
        return list(t[1]), t[2]
    if t[0] == 'y':
        d = ctx.domain(t[1])
        lo, hi = d[0][0], d[-1][1]
        if lo < 0 or hi >= (1 << 64):
            return None
        n = hi.bit_length()
        dd = DOM.get(t[1])
        if dd and dd[0][0] >= 0 and dd[-1][1] < (1 << 64):
            n = max(dd[-1][1].bit_length(), n)
        ents = []
        for i in range(n):
            if lo >> i == hi >> i:
                ents.append((lo >> i) & 1)
            else:
                ents.append((t[1], i))
        return ents, 0
    if t[0] == 'lin':
        # sums of non-overlapping parts
        c, items = t[1], t[2]
        acc = ([], 0)
        if c < 0:
            return None
        if c:
            acc = bits_of(ctx, c)
        for a, k in items:
            if k <= 0 or k & (k - 1):
                return None
            b = bits_of(ctx, a)
            if b is None or b[1] != 0:
                return None
            b = ([0] * (k.bit_length() - 1) + b[0], 0)
            n = max(len(acc[0]), len(b[0]))
            x = list(acc[0]) + [0] * (n - len(acc[0]))
            z = b[0] + [0] * (n - len(b[0]))
            if any(p != 0 and q != 0 for p, q in zip(x, z)):
                return None
            acc = ([p if p != 0 else q for p, q in zip(x, z)], 0)
        return acc
    return None


_E = Ctx()


def disjoint_or(a, b):
    x, z = bits_of(_E, a), bits_of(_E, b)
    if x is None or z is None or x[1] != 0 or z[1] != 0:
        return None
    n = max(len(x[0]), len(z[0]))
    p = x[0] + [0] * (n - len(x[0]))
    q = z[0] + [0] * (n - len(z[0]))
    if any(i != 0 and j != 0 for i, j in zip(p, q)):
        return None
    return mkbits([i if i != 0 else j for i, j in zip(p, q)], 0)


def _bitop(op, a, b):
    if op == '&':
        if a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1:
            return a
        return a if a == b else None
    if op == '|':
        if a == 1 or b == 1:
            return 1
        if a == 0:
            return b
        if b == 0:
            return a
        return a if a == b else None
    if a == 0:
        return b
    if b == 0:
        return a
    if a == b:
        return 0
    return None


def bitwise(ctx, op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a & b if op == '&' else a | b if op == '|' else a ^ b
    # booleans
    if isbool(a) or isbool(b):
        if op == '&':
            if a == 0 or b == 0:
                return 0
            if a == 1:
                return b
            if b == 1:
                return a
            if a == b:
                return a
            if (isbool(a) or isbit(ctx, a)) and (isbool(b) or isbit(ctx, b)):
                return ('band', a, b)
        if op == '|':
            if a == 1 and isbool(b) or b == 1 and isbool(a):
                return 1
            if a == 0:
                return b
            if b == 0:
                return a
            if a == b:
                return a
            if (isbool(a) or isbit(ctx, a)) and (isbool(b) or isbit(ctx, b)):
                return ('bor', a, b)
        if op == '^':
            if a == 0:
                return b
            if b == 0:
                return a
            if a == 1:
                return bnot(b)
            if b == 1:
                return bnot(a)
        return ('op', op, a, b)
    x, z = bits_of(ctx, a), bits_of(ctx, b)
    if x is None or z is None:
        if op == '|' and a == 0:
            return b
        if op == '|' and b == 0:
            return a
        return ('op', op, a, b)
    n = max(len(x[0]), len(z[0]))
    p = x[0] + [x[1]] * (n - len(x[0]))
    q = z[0] + [z[1]] * (n - len(z[0]))
    ents = [_bitop(op, i, j) for i, j in zip(p, q)]
    ext = _bitop(op, x[1], z[1])
    if ext is None or any(e is None for e in ents):
        return ('op', op, a, b)
    return mkbits(ents, ext)


def shl(ctx, a, k):
    if isinstance(a, int):
        return a << k
    if a == 0:
        return 0
    x = bits_of(ctx, a)
    if x is None:
        return scale(a, 1 << k)
    return mkbits([0] * k + x[0], x[1])


def shr(ctx, a, k):
    if isinstance(a, int):
        return a >> k
    x = bits_of(ctx, a)
    if x is None:
        return ('op', '>>', a, k)
    return mkbits(x[0][k:], x[1])


def wrap(ctx, t, bits, signed):
    """the value of t stored in an integer of that type"""
    if isinstance(t, int):
        t &= (1 << bits) - 1
        if signed and t >> (bits - 1):
            t -= 1 << bits
        return t
    lo, hi = interval(ctx, t)
    if signed:
        if -(1 << (bits - 1)) <= lo and hi < (1 << (bits - 1)):
            return t
    elif 0 <= lo and hi < (1 << bits):
        return t
    x = bits_of(ctx, t)
    if x is None:
        return ('op', 'wrap', t, bits, signed)
    e = x[0] + [x[1]] * max(0, bits - len(x[0]))
    if signed:
        return mkbits(e[:bits - 1], e[bits - 1])
    return mkbits(e[:bits], 0)


def isbool(t):
    return isinstance(t, tuple) and t[0] in ('eq0', 'ge0', 'bnot', 'band', 'bor')


def isbit(ctx, t):
    if isinstance(t, int):
        return t in (0, 1)
    lo, hi = interval(ctx, t)
    return lo >= 0 and hi <= 1


def bnot(c):
    if isinstance(c, int):
        return 1 - c
    if c[0] == 'bnot':
        return c[1]
    if isbool(c):
        return ('bnot', c)
    return ('eq0', c)


# ---- reading a term under a partition ------------------------------------------------------------

def norm(ctx, t):
    """t with what the partition knows filled in"""
    if isinstance(t, int):
        return t
    k = t[0]
    if k == 'y':
        s = ctx.sub.get(t[1])
        if s is not None:
            return norm(ctx, s)
        d = ctx.dom.get(t[1])
        if d is not None and len(d) == 1 and d[0][0] == d[0][1]:
            return d[0][0]
        return t
    if k == 'lin':
        c, d = t[1], {}
        for a, m in t[2]:
            n = norm(ctx, a)
            c2, d2 = tolin(n)
            c += m * c2
            for x, v in d2.items():
                d[x] = d.get(x, 0) + m * v
        return mklin(c, d)
    if k == 'bits':
        e = []
        ch = False
        for b in t[1]:
            if isinstance(b, tuple):
                b2 = _normbit(ctx, b)
                ch |= b2 is not b
                b = b2
            e.append(b)
        x = t[2]
        if isinstance(x, tuple):
            x2 = _normbit(ctx, x)
            ch |= x2 is not x
            x = x2
        return mkbits(e, x) if ch else t
    if k == 'op':
        xs = tuple(norm(ctx, a) if isinstance(a, (int, tuple)) and _isterm(a) else a for a in t[2:])
        if t[1] in ('&', '|', '^') and (isinstance(xs[0], int) or isinstance(xs[1], int) or xs[0] == xs[1]):
            return bitwise(ctx, t[1], *xs)
        return ('op', t[1]) + xs
    if k == 'bnot':
        return bnot(norm(ctx, t[1]))
    if k in ('band', 'bor'):
        return bitwise(ctx, '&' if k == 'band' else '|', norm(ctx, t[1]), norm(ctx, t[2]))
    if k in ('eq0', 'ge0'):
        return (k, norm(ctx, t[1])) if not isinstance(norm(ctx, t[1]), int) else \
            int((norm(ctx, t[1]) == 0) if k == 'eq0' else (norm(ctx, t[1]) >= 0))
    return t


def _isterm(a):
    return isinstance(a, int) or (isinstance(a, tuple) and a and a[0] in ('y', 'lin', 'bits', 'op', 'eq0', 'ge0', 'bnot', 'band', 'bor'))


_BIT = {}


def _normbit(ctx, b):
    s = ctx.sub.get(b[0])
    if s is not None:
        s = norm(ctx, s)
        bb = bits_of(ctx, s)
        if bb is not None:
            return bb[0][b[1]] if b[1] < len(bb[0]) else bb[1]
        return b
    d = ctx.dom.get(b[0])
    if d is None:
        return b
    if len(d) == 1 and d[0][0] == d[0][1]:
        return (d[0][0] >> b[1]) & 1
    r = _BIT.get((d, b[1]))
    if r is None:
        r = 2
        if dsize(d) <= 256:
            vs = {(v >> b[1]) & 1 for v in dvalues(d)}
            if len(vs) == 1:
                r = vs.pop()
        _BIT[(d, b[1])] = r
    return b if r == 2 else r


_SPAN = {}


def _span(d, ws):
    r = _SPAN.get((d, ws))
    if r is None:
        vs = [sum(w for i, w in ws if (v >> i) & 1) for v in dvalues(d)]
        r = _SPAN[(d, ws)] = (min(vs), max(vs))
    return r


def interval(ctx, t):
    if isinstance(t, int):
        return t, t
    k = t[0]
    if k == 'y':
        s = ctx.sub.get(t[1])
        if s is not None:
            return interval(ctx, s)
        d = ctx.domain(t[1])
        if not d:
            return 0, -1
        return d[0][0], d[-1][1]
    if k == 'lin':
        lo = hi = t[1]
        for a, m in t[2]:
            l, h = interval(ctx, a)
            if m > 0:
                lo += m * l
                hi += m * h
            else:
                lo += m * h
                hi += m * l
        return lo, hi
    if k == 'bits':
        groups = {}
        lo = hi = 0
        n = len(t[1])
        for i, e in enumerate(t[1]):
            if e == 1:
                lo += 1 << i
                hi += 1 << i
            elif e != 0:
                groups.setdefault(e[0], []).append((e[1], 1 << i))
        if t[2] == 1:
            lo -= 1 << n
            hi -= 1 << n
        elif t[2] != 0:
            groups.setdefault(t[2][0], []).append((t[2][1], -(1 << n)))
        for s, ws in groups.items():
            d = ctx.domain(s)
            if len(d) == 1 and d[0][0] == d[0][1] and s not in ctx.sub:
                v = d[0][0]
                v = sum(w for i, w in ws if (v >> i) & 1)
                lo += v
                hi += v
            elif s not in ctx.sub and dsize(d) <= 256 and not (d[0][0] == 0 and len(d) == 1 and d[0][1] & (d[0][1] + 1) == 0):
                a, b = _span(d, tuple(ws))
                lo += a
                hi += b
            else:
                lo += sum(w for i, w in ws if w < 0)
                hi += sum(w for i, w in ws if w > 0)
        return lo, hi
    if k in ('eq0', 'ge0', 'bnot', 'band', 'bor'):
        return 0, 1
    if k == 'op':
        if t[1] == 'wrap':
            _, _, _, bits, signed = t
            return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if t[1] == 'in':
            return t[3], t[4]
        return -INF, INF
    raise ValueError(t)


def symbols(t, out=None):
    if out is None:
        out = set()
    if isinstance(t, int):
        return out
    k = t[0]
    if k == 'y':
        out.add(t[1])
    elif k == 'lin':
        for a, _ in t[2]:
            symbols(a, out)
    elif k == 'bits':
        for e in t[1]:
            if isinstance(e, tuple):
                out.add(e[0])
        if isinstance(t[2], tuple):
            out.add(t[2][0])
    elif k == 'op':
        out.add(t)
    else:
        for a in t[1:]:
            if isinstance(a, (int, tuple)):
                symbols(a, out)
    return out


def evaluate(t, env):
    if isinstance(t, int):
        return t
    k = t[0]
    if k == 'y':
        return env[t[1]]
    if k == 'lin':
        return t[1] + sum(m * evaluate(a, env) for a, m in t[2])
    if k == 'bits':
        v = 0
        for i, e in enumerate(t[1]):
            b = e if isinstance(e, int) else (env[e[0]] >> e[1]) & 1
            v += b << i
        x = t[2] if isinstance(t[2], int) else (env[t[2][0]] >> t[2][1]) & 1
        return v - (x << len(t[1]))
    if k == 'eq0':
        return int(evaluate(t[1], env) == 0)
    if k == 'ge0':
        return int(evaluate(t[1], env) >= 0)
    if k == 'bnot':
        return 1 - evaluate(t[1], env)
    if k == 'band':
        return evaluate(t[1], env) & evaluate(t[2], env)
    if k == 'bor':
        return evaluate(t[1], env) | evaluate(t[2], env)
    raise KeyError(t)


def expand(ctx, t):
    """lin over single bits where possible: a canonical form for equality"""
    c, d = tolin(t)
    out = {}
    for a, m in d.items():
        if a[0] == 'bits' or (a[0] == 'y' and True):
            b = bits_of(ctx, a)
            if b is not None and len(b[0]) <= 64:
                for i, e in enumerate(b[0]):
                    if e == 1:
                        c += m << i if m >= 0 else -((-m) << i)
                    elif e != 0:
                        out[e] = out.get(e, 0) + m * (1 << i)
                w = m * (1 << len(b[0]))
                if b[1] == 1:
                    c -= w
                elif b[1] != 0:
                    out[b[1]] = out.get(b[1], 0) - w
                continue
        out[a] = out.get(a, 0) + m
    return c, {k: v for k, v in out.items() if v}


# ---- deciding conditions -------------------------------------------------------------------------

ENUM = 4096


def cond_eq(ctx, a, b):
    """condition term (or 0/1) for a == b"""
    if a == b:
        return 1
    if isbool(a) and isinstance(b, int):
        return (a if b == 1 else bnot(a) if b == 0 else 0)
    if isbool(b) and isinstance(a, int):
        return cond_eq(ctx, b, a)
    d = sub(a, b)
    if isinstance(d, int):
        return int(d == 0)
    return ('eq0', d)


def cond_ge(ctx, a, b):
    d = sub(a, b)
    if isinstance(d, int):
        return int(d >= 0)
    return ('ge0', d)


def decide(ctx, c):
    """1, 0 or None.  Never wrong; None when undecided."""
    c = norm(ctx, c)
    if isinstance(c, int):
        return c
    k = c[0]
    if k == 'bnot':
        r = decide(ctx, c[1])
        return None if r is None else 1 - r
    if k == 'band':
        a, b = decide(ctx, c[1]), decide(ctx, c[2])
        if a == 0 or b == 0:
            return 0
        return 1 if a == 1 and b == 1 else None
    if k == 'bor':
        a, b = decide(ctx, c[1]), decide(ctx, c[2])
        if a == 1 or b == 1:
            return 1
        return 0 if a == 0 and b == 0 else None
    if k == 'eq0':
        t = c[1]
        lo, hi = interval(ctx, t)
        if lo > 0 or hi < 0:
            return 0
        if lo == hi == 0:
            return 1
        cc, ee = expand(ctx, t)
        if not ee:
            return int(cc == 0)
        s = symbols(t)
        if len(s) == 1:
            n = next(iter(s))
            if not (isinstance(n, tuple) and n and n[0] == 'op'):
                if t[0] == 'lin' and len(t[2]) == 1 and t[2][0][0] == ('y', n):
                    m = t[2][0][1]
                    if t[1] % m:
                        return 0
                    v = -t[1] // m
                    return None if any(l <= v <= h for l, h in ctx.domain(n)) else 0
                d = ctx.domain(n)
                if dsize(d) <= ENUM:
                    rs = {evaluate(t, {n: v}) == 0 for v in dvalues(d)}
                    if len(rs) == 1:
                        return int(rs.pop())
                    return None
        if t in ctx.neq or scale(t, -1) in ctx.neq:
            return 0
        # not equal because ordered
        if _entails(ctx, add(t, -1)) or _entails(ctx, add(scale(t, -1), -1)):
            return 0
        if _entails(ctx, t) and _entails(ctx, scale(t, -1)):
            return 1
        return None
    if k == 'ge0':
        t = c[1]
        if _entails(ctx, t):
            return 1
        if _entails(ctx, add(scale(t, -1), -1)):
            return 0
        s = symbols(t)
        if len(s) == 1:
            n = next(iter(s))
            if not (isinstance(n, tuple) and n and n[0] == 'op'):
                d = ctx.domain(n)
                if dsize(d) <= ENUM:
                    rs = {evaluate(t, {n: v}) >= 0 for v in dvalues(d)}
                    if len(rs) == 1:
                        return int(rs.pop())
            return None
        p = _partition(ctx, t, s)
        if p:
            if not p[1] and not p[3]:
                return 1
            if not p[0] and not p[3]:
                return 0
        return None
    # an arbitrary bit-valued term
    lo, hi = interval(ctx, c)
    if lo == hi:
        return int(lo != 0)
    if lo > 0 or hi < 0:
        return 1
    return None


def _entails(ctx, t):
    lo, _ = interval(ctx, t)
    if lo >= 0:
        return True
    for f in ctx.facts:
        d = sub(t, f)
        if interval(ctx, norm(ctx, d))[0] >= 0:
            return True
    return False


def _partition(ctx, t, syms):
    """split of one small-domain symbol into values where t>=0, t<0, undecided"""
    best = None
    for n in syms:
        if isinstance(n, tuple) and n and n[0] == 'op':
            continue
        d = ctx.domain(n)
        if dsize(d) > 256:
            continue
        yes, no, und = [], [], []
        c2 = Ctx()
        c2.dom = dict(ctx.dom)
        c2.sub = ctx.sub
        c2.var = ctx.var
        for v in dvalues(d):
            c2.dom[n] = ((v, v),)
            lo, hi = interval(c2, t)
            (yes if lo >= 0 else no if hi < 0 else und).append(v)
        if best is None or len(und) < len(best[2]):
            best = (yes, no, und, n)
            if not und:
                break
    if best is None:
        return None
    return best[0], best[1], best[3], best[2]


def assume(ctx, c, truth):
    """list of refined partitions in which c is truth (each a fresh copy); [] if impossible"""
    c = norm(ctx, c)
    if isinstance(c, int):
        return [ctx.copy()] if bool(c) == bool(truth) else []
    k = c[0]
    if k == 'bnot':
        return assume(ctx, c[1], not truth)
    if k == 'band' or k == 'bor':
        if (k == 'band') == bool(truth):
            out = []
            for x in assume(ctx, c[1], truth):
                out += assume(x, c[2], truth)
            return out
        out = list(assume(ctx, c[1], truth))
        for x in assume(ctx, c[1], not truth):
            out += assume(x, c[2], truth)
        return out
    r = decide(ctx, c)
    if r is not None:
        return [ctx.copy()] if bool(r) == bool(truth) else []
    n = ctx.copy()
    for s in symbols(c):
        if s in SOFT:
            n.soft = True
    if k == 'eq0':
        t = c[1]
        s = symbols(t)
        if len(s) == 1:
            nm = next(iter(s))
            if not _isop(nm):
                d = ctx.domain(nm)
                if t[0] == 'y' or (t[0] == 'lin' and t[2][0][0] == ('y', nm)):
                    v = 0 if t[0] == 'y' else -t[1] // t[2][0][1]
                    if truth:
                        n.dom[nm] = ((v, v),)
                    else:
                        n.dom[nm] = dminus(d, v)
                    return _recheck(n) if n.dom[nm] else []
                if dsize(d) <= ENUM:
                    n.dom[nm] = dfrom([v for v in dvalues(d) if (evaluate(t, {nm: v}) == 0) == bool(truth)])
                    return _recheck(n) if n.dom[nm] else []
        if truth:
            cc, dd = tolin(t)
            # solve for a plain symbol
            for a, m in sorted(dd.items(), key=_key, reverse=True):
                if a[0] == 'y' and m in (1, -1):
                    rest = dict(dd)
                    del rest[a]
                    val = scale(mklin(cc, rest), -m)
                    if a[1] not in symbols(val):
                        lo, hi = interval(ctx, val)
                        d = ctx.domain(a[1])
                        if hi < d[0][0] or lo > d[-1][1]:
                            return []
                        if not isinstance(val, int) and val[0] == 'y':
                            d2 = ctx.domain(val[1])
                            nd = d2
                            acc = []
                            for l, h in d:
                                acc += dinter(nd, l, h)
                            if not acc:
                                return []
                            n.dom[val[1]] = tuple(acc)
                        n.sub[a[1]] = val
                        rs = _recheck(n)
                        if lo < d[0][0]:
                            rs = [z for x in rs for z in assume(x, ('ge0', add(val, -d[0][0])), True)]
                        if hi > d[-1][1]:
                            rs = [z for x in rs for z in assume(x, ('ge0', sub(d[-1][1], val)), True)]
                        return rs
            n.facts = n.facts + (t, scale(t, -1))
            return _recheck(n)
        n.neq = n.neq + (t,)
        # t >= 0 known and t != 0  =>  t >= 1
        if _entails(ctx, t):
            n.facts = n.facts + (add(t, -1),)
        elif _entails(ctx, scale(t, -1)):
            n.facts = n.facts + (add(scale(t, -1), -1),)
        return _recheck(n)
    if k == 'ge0':
        t = c[1] if truth else add(scale(c[1], -1), -1)
        s = symbols(t)
        if len(s) == 1:
            nm = next(iter(s))
            if not _isop(nm):
                d = ctx.domain(nm)
                if t[0] == 'y' or (t[0] == 'lin' and t[2][0][0] == ('y', nm)):
                    c0, m = (0, 1) if t[0] == 'y' else (t[1], t[2][0][1])
                    if m > 0:
                        n.dom[nm] = dinter(d, -(c0 // m), INF)
                    else:
                        n.dom[nm] = dinter(d, -INF, c0 // (-m))
                    return _recheck(n) if n.dom[nm] else []
                if dsize(d) <= ENUM:
                    n.dom[nm] = dfrom([v for v in dvalues(d) if evaluate(t, {nm: v}) >= 0])
                    return _recheck(n) if n.dom[nm] else []
        p = _partition(ctx, t, s)
        if p:
            yes, no, nm, und = p
            keep = sorted(yes + und)
            if not keep:
                return []
            if no:
                n.dom[nm] = dfrom(keep)
            if not und:
                return _recheck(n)
        n.facts = n.facts + (t,)
        # bound equal from both sides
        if _entails(ctx, scale(t, -1)):
            for x in assume(ctx, ('eq0', t), True):
                return [x]
        # simple bound propagation  x - y >= c
        cc, dd = tolin(t)
        for a, m in dd.items():
            if a[0] == 'y' and m in (1, -1):
                rest = dict(dd)
                del rest[a]
                lo, hi = interval(n, mklin(cc, rest))
                d = n.domain(a[1])
                nd = dinter(d, -hi, INF) if m == 1 else dinter(d, -INF, hi)
                if not nd:
                    return []
                if nd != d:
                    n.dom[a[1]] = nd
        return _recheck(n)
    lo, hi = interval(ctx, c)
    if lo >= 0 and hi <= 1 or k in ('y', 'lin', 'bits', 'op'):
        return assume(ctx, ('eq0', c), not truth)
    raise ValueError(c)


def _isop(n):
    return isinstance(n, tuple) and bool(n) and n[0] == 'op'


def _recheck(n):
    for f in n.facts:
        if interval(n, norm(n, f))[1] < 0:
            return []
    for f in n.neq:
        g = norm(n, f)
        if g == 0:
            return []
    return [n]


def infeasible(ctx, extra=()):
    """the known linear facts contradict each other (rational elimination; False when not shown)"""
    rows = []
    seen = set()
    for f in tuple(ctx.facts) + tuple(extra):
        f = norm(ctx, f)
        c, d = tolin(f)
        if not d:
            if c < 0:
                return True
            continue
        k = (c, tuple(sorted(d.items(), key=_key)))
        if k not in seen:
            seen.add(k)
            rows.append((c, d))
    if not rows:
        return False
    atoms = {a for _, d in rows for a in d}
    for a in atoms:
        lo, hi = interval(ctx, a)
        if lo > -INF:
            rows.append((-lo, {a: 1}))
        if hi < INF:
            rows.append((hi, {a: -1}))
    while atoms:
        best = None
        for a in atoms:
            p = sum(1 for _, d in rows if d.get(a, 0) > 0)
            n = sum(1 for _, d in rows if d.get(a, 0) < 0)
            if best is None or p * n - p - n < best[0]:
                best = (p * n - p - n, a)
        a = best[1]
        atoms.discard(a)
        pos = [r for r in rows if r[1].get(a, 0) > 0]
        neg = [r for r in rows if r[1].get(a, 0) < 0]
        rest = [r for r in rows if not r[1].get(a, 0)]
        if len(pos) * len(neg) + len(rest) > 1500:
            return False
        seen = set()
        out = []
        for c, d in rest:
            k = (c, tuple(sorted(d.items(), key=_key)))
            if k not in seen:
                seen.add(k)
                out.append((c, d))
        for c1, d1 in pos:
            for c2, d2 in neg:
                k1, k2 = d1[a], -d2[a]
                d = {}
                for x, m in d1.items():
                    d[x] = d.get(x, 0) + m * k2
                for x, m in d2.items():
                    d[x] = d.get(x, 0) + m * k1
                d = {x: m for x, m in d.items() if m}
                c = c1 * k2 + c2 * k1
                if not d:
                    if c < 0:
                        return True
                    continue
                k = (c, tuple(sorted(d.items(), key=_key)))
                if k not in seen:
                    seen.add(k)
                    out.append((c, d))
        rows = out
    return False


def may_differ(ctx, a, b):
    """False: equal on this partition.  True: there is an input on which they differ (no opaque or soft
    symbol is involved).  None: not decided."""
    a, b = norm(ctx, a), norm(ctx, b)
    if a == b:
        return False
    if isbool(a) or isbool(b):
        d = None
        for ca in (1, 0):
            for x in assume(ctx, a, ca) if not isinstance(a, int) else ([ctx] if a == ca else []):
                for cb in (1, 0):
                    ys = assume(x, b, cb) if not isinstance(b, int) else ([x] if b == cb else [])
                    for z in ys:
                        if ca != cb:
                            if z.soft or _softsyms(symbols(a) | symbols(b)):
                                d = d or None
                            else:
                                return True
                            return None
        return False
    t = sub(a, b)
    r = decide(ctx, ('eq0', t))
    if r == 1:
        return False
    s = symbols(t)
    if ctx.soft or _softsyms(s):
        return None
    if ctx.facts and infeasible(ctx, (add(t, -1),)) and infeasible(ctx, (add(scale(t, -1), -1),)):
        return False
    return True


def _softsyms(s):
    return any(_isop(n) or n in SOFT for n in s)
