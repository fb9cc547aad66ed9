"""Abstract interpretation of the decoder's MIR, in step with the reference grammar.

The reader is the only input.  Every read is a transition of the product of the decoder's control
flow and the grammar's stack machine; values carry which input they came from (terms.py, values.py).
A decoder function is analysed once per grammar rule it implements and is then a transition of its
callers ("nonterminal"), so recursion and lists need no bound.
"""
import functools
import os
import re
import sys
import time
from terms import *
import values as V
from values import *
from mir import *

sys.setrecursionlimit(20000)


class Frame:
    __slots__ = ('inst', 'bb', 'si', 'dest', 'target', 'tag')

    def __init__(self, inst, dest, target, tag=None):
        self.inst = inst
        self.bb = 0
        self.si = 0
        self.dest = dest
        self.target = target
        self.tag = tag

    def copy(self):
        f = Frame(self.inst, self.dest, self.target, self.tag)
        f.bb = self.bb
        f.si = self.si
        return f


class SF:
    """frame of the grammar machine"""
    __slots__ = ('rule', 'pc', 'env', 'var', 'nwin', 'ev')

    def __init__(self, rule, env, var, nwin):
        self.ev = -1
        self.rule = rule
        self.pc = 0
        self.env = env
        self.var = var
        self.nwin = nwin

    def copy(self):
        f = SF(self.rule, dict(self.env), self.var, self.nwin)
        f.pc = self.pc
        f.ev = self.ev
        return f


class State:
    __slots__ = ('fr', 'mem', 'ctx', 'sp', 'wins', 'final', '_sink', 'stok', 'ended', 'unread', 'tok', 'ev', 'lasterr',
                 'loops', 'trace', 'loc', 'nheap', 'ret', 'inl', 'steps', 'passed', 'short', 'intr', 'glast', 'last', 'dry')

    # why the grammar rejects the input, and where that was
    @property
    def sink(self):
        return self._sink

    @sink.setter
    def sink(self, v):
        self._sink = v
        self.stok = self.tok

    def failed(self, e):
        self.lasterr = (self.lasterr or ()) + (e,)

    def copy(self):
        s = State.__new__(State)
        s.fr = [f.copy() for f in self.fr]
        s.mem = dict(self.mem)
        s.ctx = self.ctx.copy()
        s.sp = [f.copy() for f in self.sp]
        s.wins = self.wins
        s.final = self.final
        s._sink = self._sink
        s.stok = self.stok
        s.ended = self.ended
        s.dry = self.dry
        s.unread = self.unread
        s.tok = self.tok
        s.ev = self.ev
        s.lasterr = self.lasterr
        s.loops = self.loops
        s.trace = self.trace
        s.loc = self.loc
        s.nheap = self.nheap
        s.ret = self.ret
        s.inl = self.inl
        s.steps = self.steps
        s.passed = self.passed
        s.short = self.short
        s.intr = self.intr
        s.glast = self.glast
        s.last = self.last
        return s


class Loop:
    """an active loop of a state"""
    __slots__ = ('depth', 'head', 'count', 'snaps', 'eid', 'gid', 'cmps', 'bounded', 'sym')

    def copy(self):
        l = Loop.__new__(Loop)
        for k in Loop.__slots__:
            setattr(l, k, getattr(self, k))
        return l


class Pruned(Exception):
    """this partition is empty or of no interest"""


class Stop(Exception):
    pass


_fresh = [0]


def fresh(pre='g'):
    _fresh[0] += 1
    return (pre, _fresh[0])


def ok_(v):
    return ('A', RESULT, 0, (v,))


def err_(e):
    return ('A', RESULT, 1, (e,))


def dataless(a):
    """a function or a closure without data"""
    return a[0] == 'F' or a[0] == 'C' and all(isinstance(x, tuple) and dataless(x) for x in a[2])


INTERNAL = (TypeError, KeyError, IndexError, AttributeError, ValueError, AssertionError)
UNIT = ('T', ())
PEEL = (4, 3, 2)            # iterations followed one by one, by nesting depth of the loop


LOCALS = 'the count of a group of locals'
HOLDS = 'takes memory for as many elements as declared by %s, which no input backs'


def atoms(t):
    if isinstance(t, tuple) and t:
        if t[0] == 'y':
            yield t[1]
        elif t[0] == 'bits':
            for x in t[1] + (t[2],):
                if isinstance(x, tuple):
                    yield x[0]
        else:
            for x in t:
                if isinstance(x, tuple):
                    yield from atoms(x)


def source(a):
    """where in the format a decoded number comes from"""
    if isinstance(a, tuple):
        if len(a) > 3 and a[0] in ('nt', 'x'):
            return str(a[3])
        if len(a) > 3 and a[0] in ('b', 'blk'):
            return 'bytes of ' + str(a[1])
        if len(a) == 3 and a[0] == 'el':
            return 'each of ' + source(a[1])
        if len(a) == 3 and a[1] == 'c':
            return 'part %s of %s' % (a[2], source(a[0]))
        if len(a) == 4 and a[1] == 'f':
            return source(a[0]) + '.%s' % a[3]
        if a[0] == 'rem':
            return 'the size left in a limit'
        return source(a[0])
    return str(a)


def measure(mem):
    """how many elements are held in lists"""
    n = 0
    for v in mem.values():
        work = [v]
        while work:
            x = work.pop()
            if isinstance(x, tuple) and x:
                if x[0] == 'L':
                    es = [s[1] for s in x[1] if s[0] == 'e']
                    n += len(es)
                    work += es
                elif x[0] in ('A', 'T', 'R'):
                    work += [z for z in x if isinstance(z, tuple)]
                elif isinstance(x[0], tuple):
                    work += list(x)
    return n


class Violation:
    plain = False
    says = None
    def __init__(self, props, kind, msg, loc, unit, trace, fn):
        self.props = tuple(props)
        self.kind = kind
        self.msg = msg
        self.loc = loc
        self.unit = unit
        self.trace = trace
        self.fn = fn

    def key(self):
        return (self.props, self.kind, self.msg, self.loc, self.fn)

    def text(self):
        return '%s:%s in %s: %s [%s]' % (self.loc[0], self.loc[1], self.fn, self.msg, self.kind)


class Engine:
    def __init__(self, prog, grammar):
        self.final = []
        self.cover = {}
        self.samples = {}
        self.P = prog
        self.G = grammar
        W.prog = prog
        W.grammar = grammar
        W.elt = {}
        W.u8 = next(t.id for t in prog.types if t.s == 'u8')
        W.int_type = self.int_type
        W.adt_type = self.adt_type
        W.spec_fn = self.spec_fn
        W.adt_name = self.adt_full
        W.vec_type = self.vec_type
        self.nt = {}
        self.groups = {}          # functions that break the rule they seem to follow
        self.units = []
        self.viol = []
        self.und = []
        self.panics = {}          # panic sites proved unreachable / reached
        self.inlined = {}
        self.stats = dict(paths=0, steps=0, events=0, ntcalls=0, fns=set(), leaves=0, allocs=set(), reads=set(), loops=set(), deep=set(),
                          rejects=set(), accepts=set(), says=set())
        self.models = {}
        import models
        models.register(self)
        self.kinds_ = {}
        self.preds = {}
        self.predrun = None
        self.lax = False          # branches on unknown values go both ways
        self.tap = None           # replaces calls, for the study of single functions (errors.py)
        self.gids = []
        self.eid = 0
        self.cur = None
        self.tick = 0
        self.unit_s = 120
        self.peel = PEEL
        self.mpeel = (3, 3, 1)
        self.child = False
        self.jobs = 8
        self.deadline = time.time() + 240
        self.log = False
        self.debug = False

    # ---- types ----------------------------------------------------------------------------------
    def int_type(self, k):
        s = {'s33': 'i64', 'bool': 'bool'}.get(k, k)
        return next(t.id for t in self.P.types if t.s == s)

    def adt_full(self, short):
        if short in self.kinds_:
            return self.kinds_[short]
        if short == 'Option':
            return OPTION
        c = [n for n in self.P.adts if n.split('::')[-1] == short and n.startswith('wadec::core')]
        if len(c) != 1:
            c = [n for n in self.P.adts if n.split('::')[-1] == short and n.startswith('wadec')]
        if len(c) != 1:
            raise KeyError('%s: %s' % (short, c))
        self.kinds_[short] = c[0]
        return c[0]

    def vec_type(self, el):
        for t in self.P.adts.get('std::vec::Vec', ()):
            if t.d['args'][0] == el:
                return t.id
        return None

    def adt_type(self, short):
        return self.P.adts[self.adt_full(short)][0].id

    # ---- memory ---------------------------------------------------------------------------------
    def cell_get(self, st, cell):
        if cell[0] == 'al':
            return self.P.alloc_value(cell)
        try:
            return st.mem[cell]
        except KeyError:
            raise Undecided('uninitialised or dead cell %s' % (cell,))

    def path_get(self, st, v, path):
        for s in path:
            v = self.proj(st, v, s)
        return v

    def proj(self, st, v, s):
        if v[0] == 'K':
            return v
        if s[0] == 'f':
            if v[0] == 'V':
                return vfield(v, s[2], s[1])
            if v[0] == 'A' and v[2] != s[2] and s[2] is not None:
                raise Pruned()
            return vfield(v, s[2], s[1])
        # index
        if v[0] == 'R':
            i = norm(st.ctx, s[1])
            if isinstance(i, int):
                if i < len(v[1]):
                    return v[1][i]
                raise Undecided('array index')
            return ('K', 'array element')
        if v[0] in ('L', 'LU', 'PU'):
            return list_get(st.ctx, v, s[1])
        raise Undecided('index of %s' % (v[0],))

    def path_set(self, st, v, path, x):
        if not path:
            return x
        s = path[0]
        if s[0] == 'f':
            if v is None:
                raise Undecided('partial initialisation')
            if v[0] == 'V':
                v = known(v, s[2])
            if v[0] == 'A':
                if s[2] is not None and v[2] != s[2]:
                    raise Pruned()
                f = list(v[3])
                f[s[1]] = self.path_set(st, f[s[1]], path[1:], x)
                return ('A', v[1], v[2], tuple(f))
            if v[0] == 'T':
                f = list(v[1])
                f[s[1]] = self.path_set(st, f[s[1]], path[1:], x)
                return ('T', tuple(f))
            if v[0] == 'C':
                f = list(v[2])
                f[s[1]] = self.path_set(st, f[s[1]], path[1:], x)
                return ('C', v[1], tuple(f))
            if v == ('K', 'uninit'):
                # the wrappers of uninitialised memory
                return ('A', 'MaybeUninit', s[2] or 0, (v,) * s[1] + (self.path_set(st, v, path[1:], x),))
            return ('K', 'write')
        if v[0] == 'R':
            i = norm(st.ctx, s[1])
            if not isinstance(i, int):
                return ('K', 'array')
            f = list(v[1])
            f[i] = self.path_set(st, f[i], path[1:], x)
            return ('R', tuple(f))
        if v[0] in ('L', 'LU', 'PU'):
            old = list_get(st.ctx, v, s[1]) if len(path) > 1 else None
            return list_set(st.ctx, v, s[1], self.path_set(st, old, path[1:], x))
        if v[0] == 'K':
            return v
        raise Undecided('write')

    def load(self, st, ref):
        """value behind a reference"""
        if ref[0] == '&':
            return self.path_get(st, self.cell_get(st, ref[1]), ref[2])
        raise Undecided('load through %s' % ref[0])

    def store(self, st, ref, val):
        if ref[0] != '&':
            raise Undecided('store through %s' % ref[0])
        cell = ref[1]
        if cell[0] == 'al':
            raise Undecided('write to constant')
        if not ref[2]:
            st.mem[cell] = val
        else:
            st.mem[cell] = self.path_set(st, self.cell_get(st, cell), ref[2], val)

    def heap(self, st, val):
        st.nheap += 1
        c = ('h', st.nheap)
        st.mem[c] = val
        return c

    def resolve(self, st, place):
        """place -> ('&', cell, path) or ('&s', ..) for an unsized place"""
        local, projs = place
        d = len(st.fr) - 1
        cell, path = ('m', d, local), ()
        vi = None
        sl = None
        for p in projs:
            if p == '*':
                r = self.path_get(st, self.cell_get(st, cell), path)
                if r[0] == 'Bx':
                    cell, path = r[1], ()
                elif r[0] == '&':
                    cell, path = r[1], r[2]
                elif r[0] == '&s':
                    cell, path = r[1], r[2]
                    sl = (r[3], r[4])
                elif r[0] == '&str' or r[0] == 'K':
                    raise Undecided('deref of %s' % r[0])
                else:
                    raise Undecided('deref of %s' % (r[0],))
                vi = None
                continue
            k = p[0]
            if k == 'd':
                vi = p[1]
            elif k == 'f':
                path = path + (('f', p[1], vi if vi is not None else 0),)
                vi = None
            elif k == 'i':
                ix = self.cell_get(st, ('m', d, p[1]))
                if sl:
                    ix = add(sl[0], ix)
                    sl = None
                path = path + (('i', ix),)
                vi = None
            elif k == 'ci':
                off, _, fe = p[1], p[2], p[3]
                if sl:
                    ix = add(add(sl[0], sl[1]), -off) if fe else add(sl[0], off)
                    sl = None
                else:
                    v = self.path_get(st, self.cell_get(st, cell), path)
                    n = len(v[1]) if v[0] == 'R' else list_len(v)
                    ix = sub(n, off) if fe else off
                path = path + (('i', ix),)
                vi = None
            elif k == 'ss':
                if not sl:
                    v = self.path_get(st, self.cell_get(st, cell), path)
                    sl = (0, len(v[1]) if v[0] == 'R' else list_len(v))
                fr, to, fe = p[1], p[2], p[3]
                hi = sub(sl[1], to) if fe else to
                sl = (add(sl[0], fr), sub(hi, fr))
            else:
                raise Undecided('projection')
        if sl:
            return ('&s', cell, path, sl[0], sl[1])
        return ('&', cell, path)

    def rd_place(self, st, place):
        if not place[1]:
            return self.cell_get(st, ('m', len(st.fr) - 1, place[0]))
        r = self.resolve(st, place)
        if r[0] == '&s':
            raise Undecided('unsized value')
        return self.load(st, r)

    def wr_place(self, st, place, v):
        if not place[1]:
            st.mem[('m', len(st.fr) - 1, place[0])] = v
            return
        d = len(st.fr) - 1
        cell = ('m', d, place[0])
        if cell not in st.mem and all(p != '*' for p in place[1]):
            # field-wise initialisation
            st.mem[cell] = self.blank(st.fr[-1].inst.locals[place[0]])
        r = self.resolve(st, place)
        if r[0] == '&s':
            raise Undecided('unsized write')
        self.store(st, r, v)

    def blank(self, ty):
        t = self.P.types[ty]
        if t.k == 'tuple':
            return ('T', tuple(('K', 'uninit') for _ in t.d['elems']))
        if t.k == 'adt' and t.d['adt'] == 'struct':
            return ('A', t.name, 0, tuple(('K', 'uninit') for _ in t.d['variants'][0]['fields']))
        return ('K', 'uninit')

    def place_ty(self, inst, place):
        ty = inst.locals[place[0]]
        for p in place[1]:
            t = self.P.types[ty]
            if p == '*':
                if t.k in ('ref', 'ptr'):
                    ty = t.d['to']
                elif t.k == 'adt' and t.d['args']:
                    ty = t.d['args'][0]
                else:
                    return None
            elif p[0] == 'f':
                ty = p[2]
            elif p[0] in ('i', 'ci'):
                if t.k not in ('array', 'slice'):
                    return None
                ty = t.d['elem']
        return ty

    def op_ty(self, inst, o):
        if o[0] == 'c':
            return o[1]
        if o[0] == 'rt':
            return None
        return self.place_ty(inst, o[1])

    def operand(self, st, o):
        k = o[0]
        if k == 'c':
            return self.P.const(o[1], o[2])
        if k == 'rt':
            return 0
        return self.rd_place(st, o[1])

    # ---- conditions -----------------------------------------------------------------------------
    def split(self, st, cond):
        """[(state, truth)] ; reuses st when decided"""
        d = decide(st.ctx, cond)
        if d is not None:
            return [(st, d)]
        out = []
        for t in (1, 0):
            for c in assume(st.ctx, cond, t):
                s = st.copy()
                s.ctx = c
                out.append((s, t))
        return out

    def split_int(self, st, term, vals):
        """[(state, value or None)]"""
        term = norm(st.ctx, term)
        if isinstance(term, int):
            return [(st, term if term in vals else None)]
        if isbool(term):
            return [(s, t if t in vals else None) for s, t in self.split(st, term)]
        out = []
        rest = [st]
        for v in vals:
            nrest = []
            for s in rest:
                for s2, t in self.split(s, cond_eq(s.ctx, norm(s.ctx, term), v)):
                    if t:
                        if s2 is s:
                            s2 = s.copy()
                        out.append((s2, v))
                    else:
                        nrest.append(s2)
            rest = nrest
        for s in rest:
            out.append((s, None))
        return out

    # ---- grammar machine ------------------------------------------------------------------------
    def spec_push(self, st, name, args, var):
        if isinstance(name, tuple):
            r = self.list_rule(name[1])
        else:
            r = self.G.rules[name]
        st.sp.append(SF(r, dict(zip(r.params, args)), var, len(st.wins)))
        st.sp[-1].ev = st.ev

    def list_rule(self, elem):
        return self.G.list_rule(elem)

    def spec_op(self, st):
        if st.final is not None or st.sink is not None or not st.sp:
            return None
        f = st.sp[-1]
        return f.rule.code[f.pc]

    def spec_fail(self, st, why, props):
        st.sink = ('spec', why, tuple(props) or self.props(st), tuple(f.rule.name for f in st.sp))

    def props(self, st):
        for f in reversed(st.sp):
            p = f.env.get('@p') or f.rule.props
            if p:
                return p
        if st.final is not None:
            return st.final[3]
        return self.cur.rule.props if self.cur else ()

    def run_spec(self, st):
        """advance to the next lazy stop; list of states"""
        out = []
        work = [st]
        n = 0
        while work:
            s = work.pop()
            while True:
                n += 1
                if n > 20000:
                    raise Undecided('grammar does not settle')
                op = self.spec_op(s)
                if op is None:
                    out.append(s)
                    break
                f = s.sp[-1]
                k = op[0]
                if k == 'rd':
                    kind = op[2]
                    if kind in ('byte', 'byte_or_eof') and s.unread:
                        self.setvar(s, op[1], s.unread[0])
                        s.glast = s.unread[0]
                        s.unread = s.unread[1:]
                        f.pc += 1
                        continue
                    if kind == 'peek' and s.unread:
                        self.setvar(s, op[1], s.unread[0])
                        s.glast = s.unread[0]
                        f.pc += 1
                        continue
                    if kind == 'bytes':
                        m = self.block_rem(s)
                        if isinstance(m, int) and 0 <= m <= len(s.unread):
                            bs = s.unread[:m]
                            s.unread = s.unread[m:]
                            self.end_block(s, tuple(('e', b) for b in bs))
                            continue
                    out.append(s)
                    break
                if k in ('call', 'head'):
                    out.append(s)
                    break
                if k == 'set':
                    v = self.ev_(s, op[2])
                    if op[1]:
                        self.setvar(s, op[1], v)
                    f.pc += 1
                elif k == 'jmp':
                    f.pc = op[1]
                elif k == 'mark':
                    f.env['@p'] = op[1]
                    f.pc += 1
                elif k == 'br':
                    c = self.ev_(s, op[1])
                    r = self.split(s, c)
                    for s2, t in r[1:]:
                        s2.sp[-1].pc = s2.sp[-1].pc + 1 if t else op[2]
                        work.append(s2)
                    s, t = r[0] if r else (None, None)
                    if s is None:
                        break
                    s.sp[-1].pc = s.sp[-1].pc + 1 if t else op[2]
                elif k == 'disp':
                    tg = op[2]
                    r = self.split_int(s, f.env[op[1]], sorted(tg))
                    for s2, v in r:
                        s2.sp[-1].pc = tg[v] if v is not None else op[3]
                    work += [x for x, _ in r[1:]]
                    if not r:
                        break
                    s = r[0][0]
                elif k == 'win':
                    lim = self.ev_(s, op[1])
                    s.wins = s.wins + ((lim, s.tok),)
                    f.env['@w'] = f.env.get('@w', ()) + (f.env.get('@p') or f.rule.props,)
                    f.pc += 1
                elif k == 'endwin':
                    lim, tok = s.wins[-1]
                    rem = self.remaining(s, lim, tok)
                    r = self.split(s, cond_eq(s.ctx, rem, 0))
                    nxt = None
                    for s2, t in r:
                        if t:
                            s2.wins = s2.wins[:-1]
                            s2.sp[-1].pc += 1
                            w = s2.sp[-1].env['@w']
                            s2.sp[-1].env['@w'] = w[:-1]
                            nxt = s2
                        else:
                            self.spec_fail(s2, 'content does not fill the declared size', s2.sp[-1].env['@w'][-1])
                            out.append(s2)
                    if nxt is None:
                        break
                    s = nxt
                elif k == 'ret':
                    comps = [self.ev_(s, e) for e in op[2]]
                    s.sp.pop()
                    if not s.sp:
                        s.final = (op[1], tuple(comps), f.rule.name, f.env.get('@p') or f.rule.props)
                        out.append(s)
                        break
                    self.bind(s, f.var, f.rule.name, op[1], comps)
                elif k == 'fail':
                    self.spec_fail(s, op[1], op[2])
                    out.append(s)
                    break
                else:
                    raise ValueError(op)
        return out

    def block_rem(self, st):
        """bytes of the block at hand that have not been read"""
        f = st.sp[-1]
        op = f.rule.code[f.pc]
        w = self.ev_(st, op[3][0])
        part = f.env.get('@part')
        return norm(st.ctx, sub(w, part[1]) if part else w)

    def end_block(self, st, segs):
        """the grammar's block of bytes is complete"""
        f = st.sp[-1]
        op = f.rule.code[f.pc]
        part = f.env.pop('@part', None)
        segs = (part[0] if part else ()) + tuple(segs)
        if all(x[0] == 'e' for x in segs):
            v = ('R', tuple(x[1] for x in segs))
        else:
            v = ('L', segs)
        self.setvar(st, op[1], v)
        f.pc += 1

    def take_block(self, st, segs, n, tok):
        """n more bytes of the grammar's block have been read: the states that go on"""
        out = []

        def whole(s):
            self.end_block(s, segs)
            out.extend(self.run_spec(s))
        rem = self.block_rem(st)
        if vdiff(st.ctx, n, rem) is False:
            whole(st)
            return out
        for s, ge in self.split(st, cond_ge(st.ctx, rem, n)):
            if s is st:
                s = st.copy()
            if not ge:
                if vdiff(s.ctx, n, self.block_rem(s)):
                    self.report(s, self.props(s), 'length', 'reads %s byte(s) where the format has %s' % (show(n), show(rem)))
                else:
                    self.undecided(s, 'length of a block read')
                continue
            for s2, eq in self.split(s, cond_eq(s.ctx, n, self.block_rem(s))):
                if s2 is s:
                    s2 = s.copy()
                if eq:
                    whole(s2)
                else:
                    f = s2.sp[-1]
                    p = f.env.get('@part')
                    f.env['@part'] = ((p[0] if p else ()) + tuple(segs), add(p[1] if p else 0, n), p[2] if p else tok)
                    out.append(s2)
        return out

    def bind(self, s, var, rule, tag, comps):
        g = s.sp[-1]
        g.pc += 1
        s.glast = comps[0] if tag is None and len(comps) == 1 else None
        if var:
            if tag is None and len(comps) == 1:
                g.env[var] = comps[0]
            else:
                g.env[var] = ('rec', rule, tag, tuple(comps))

    def setvar(self, s, var, v):
        if var:
            s.sp[-1].env[var] = v

    def remaining(self, st, lim, tok):
        if tok == st.tok:
            return lim
        n = ('rem', tok, st.tok)
        DOM.setdefault(n, ((0, 2 ** 64 - 1),))
        t = ('y', n)
        fact = sub(lim, t)
        if not isinstance(fact, int) and fact not in st.ctx.facts and decide(st.ctx, ('ge0', fact)) is None:
            st.ctx.facts = st.ctx.facts + (fact,)
            lo, hi = interval(st.ctx, lim)
            if hi < 2 ** 64 - 1:
                d = dinter(st.ctx.domain(n), 0, hi)
                if d:
                    st.ctx.dom[n] = d
        return t

    def demand(self, st):
        """make the grammar want input: None when it already does, else the states to retry with"""
        op = self.spec_op(st)
        if op is None:
            return None
        if op[0] == 'call':
            s = st
            args = [self.ev_(s, a) for a in op[3]]
            self.spec_push(s, op[2], args, op[1])
            return self.run_spec(s)
        if op[0] == 'head':
            st.sp[-1].pc += 1
            return self.run_spec(st)
        if op[0] == 'rd' and op[2] == 'bytes' and not st.unread and decide(st.ctx, cond_eq(st.ctx, self.block_rem(st), 0)) == 1:
            self.end_block(st, ())
            return self.run_spec(st)
        return None

    # ---- grammar expressions --------------------------------------------------------------------
    def ev_(self, st, e):
        k = e[0]
        if k == 'c':
            return e[1]
        if k == 'v':
            v = st.sp[-1].env[e[1]]
            return v
        if k == 'adt':
            return self.ev_adt(st, e)
        if k == 'list':
            return ('L', tuple(('e', self.ev_(st, x)) for x in e[1]))
        if k == 'tuple':
            return ('T', tuple(self.ev_(st, x) for x in e[1]))
        if k == 'not':
            return bnot(norm(st.ctx, self.ev_(st, e[1])))
        if k == 'neg':
            return scale(self.ev_(st, e[1]), -1)
        if k == 'bin':
            a, b = self.ev_(st, e[2]), self.ev_(st, e[3])
            op = e[1]
            if isinstance(a, tuple) and a[0] == 'L' and op == '+':
                return list_append(a, b[1])
            a, b = norm(st.ctx, a), norm(st.ctx, b)
            if op == '+':
                return add(a, b)
            if op == '-':
                return sub(a, b)
            if op == '*':
                return scale(a, b) if isinstance(b, int) else scale(b, a)
            if op == '<<':
                return shl(st.ctx, a, b)
            if op == '>>':
                return shr(st.ctx, a, b)
            return bitwise(st.ctx, op, a, b)
        if k == 'cmp':
            a, b = self.ev_(st, e[2]), self.ev_(st, e[3])
            op = e[1]
            if not is_int(a) or not is_int(b):
                c = self.value_eq(st, a, b)
                return c if op == '==' else bnot(c)
            c = st.ctx
            a, b = norm(c, a), norm(c, b)
            if op == '==':
                return cond_eq(c, a, b)
            if op == '!=':
                return bnot(cond_eq(c, a, b))
            if op == '>=':
                return cond_ge(c, a, b)
            if op == '<':
                return bnot(cond_ge(c, a, b))
            if op == '<=':
                return cond_ge(c, b, a)
            return bnot(cond_ge(c, b, a))
        if k == 'and':
            a = self.ev_(st, e[1])
            if a == 0:
                return 0
            b = self.ev_(st, e[2])
            return bitwise(st.ctx, '&', a, b)
        if k == 'or':
            a = self.ev_(st, e[1])
            if a == 1:
                return 1
            b = self.ev_(st, e[2])
            return bitwise(st.ctx, '|', a, b)
        if k == 'field':
            v = self.ev_(st, e[1])
            return self.named_field(v, e[2])
        if k == 'fn':
            return self.spec_fn(e[1], [self.ev_(st, a) for a in e[2]], st)
        raise ValueError(e)

    def value_eq(self, st, a, b):
        """equality condition of two values of an enum without data, or of an Option"""
        if a[0] == 'V' or b[0] == 'V' or (a[0] == 'A' and b[0] == 'A'):
            return cond_eq(st.ctx, discr(a), discr(b))
        raise Undecided('grammar comparison')

    def ev_adt(self, st, e):
        _, name, var, args, kw = e
        full = self.adt_full(name)
        if name == 'Option':
            vi = 0 if var == 'None' else 1
            return ('A', OPTION, vi, tuple(self.ev_(st, a) for a in args))
        if var is None:
            vi, fields = 0, [f[0] for f in self.P.adts[full][0].d['variants'][0]['fields']]
        else:
            vi, fields = self.P.variant_index(full, var)
        vals = [self.ev_(st, a) for a in args]
        if kw:
            d = {k: self.ev_(st, v) for k, v in kw.items()}
            vals = []
            for f in fields:
                f2 = f[2:] if f.startswith('r#') else f
                if f2 not in d:
                    raise KeyError('%s.%s' % (name, f2))
                vals.append(d[f2])
        if len(vals) != len(fields):
            raise KeyError('%s::%s has %d fields' % (name, var, len(fields)))
        return ('A', full, vi, tuple(vals))

    def named_field(self, v, name):
        if name.startswith('_') and name[1:].isdigit():
            i = int(name[1:])
            if v[0] == 'rec':
                return v[3][i]
            return vfield(v, 0, i)
        if v[0] == 'rec':
            r = self.G.rules[v[1]]
            names = r.opts.get('fields')
            return v[3][names.index(name)]
        if v[0] == 'A':
            fs = [f[0] for f in self.P.adts[v[1]][0].d['variants'][v[2]]['fields']]
            return v[3][fs.index(name)]
        if v[0] == 'V':
            vs = self.P.types[VT[v[1]]].d['variants']
            if len(vs) == 1:
                return vfield(v, 0, [f[0] for f in vs[0]['fields']].index(name))
        raise Undecided('grammar field')

    def spec_fn(self, name, args, st=None):
        import specfn
        return getattr(specfn, 'f_' + name)(self, st, *args)

    # ---- reading --------------------------------------------------------------------------------
    def reader(self, st, v):
        """('RD' windows) of a reader value, outermost first; None when v is not a reader"""
        wins = []
        pre = []
        n = 0
        where = []
        while True:
            n += 1
            if n > 40:
                return None
            if not isinstance(v, tuple):
                return None
            if v[0] == '&':
                try:
                    nv = self.load(st, v)
                except (Undecided, Pruned):
                    return None
                where.append(v)
                v = nv
                continue
            if v[0] == 'Bx':
                v = self.cell_get(st, v[1])
                continue
            if v[0] == 'A' and v[1] == 'std::io::Take':
                wins.append((v[3][1], v[3][2]))
                v = v[3][0]
                continue
            if v[0] == 'A' and v[1] == 'std::io::Chain':
                if v[3][0][1]:
                    pre.append((where[-1] if where else None, v, len(wins)))
                v = v[3][1][3][1]
                continue
            if v[0] == 'A' and v[1] == 'std::io::BufReader':
                return ('buf',)
            if v[0] == 'RD':
                return ('rd', tuple(reversed(wins)), pre)
            return None

    def is_reader(self, st, v):
        if not isinstance(v, tuple):
            return False
        return self.reader(st, v) is not None

    def check_windows(self, st, wins):
        """compare the limits the program reads under with the grammar's; raises or records"""
        sw = st.wins
        for i in range(min(len(sw), len(wins))):
            d = vdiff(st.ctx, wins[i][0], sw[i][0])
            if d is not False:
                if d:
                    self.report(st, self.winprops(st), 'limit', 'reads under a limit of %s where the format allows %s' % (
                        show(wins[i][0]), show(sw[i][0])))
                    raise Pruned()
                raise Undecided('limit')
            if wins[i][1] != sw[i][1]:
                raise Undecided('limit opened elsewhere')
        if len(wins) < len(sw):
            self.report(st, self.winprops(st), 'limit', 'reads past the declared size: not confined to it')
            raise Pruned()
        if len(wins) > len(sw):
            raise Undecided('extra limit')

    def winprops(self, st):
        # the rule that opened the innermost unmatched window
        for f in reversed(st.sp):
            if f.rule.opts.get('window'):
                return tuple(f.rule.opts['window'])
        return self.props(st)

    def io_error(self, st, why):
        n = ('ioerr', st.ev, why)
        ty = self.P.adts['std::io::Error'][0].id
        VT[n] = ty
        return ('V', n)

    def begun(self, st):
        """the properties of the innermost part of which something has been read"""
        for f in reversed(st.sp):
            p = f.env.get('@p') or f.rule.props
            if p and f.ev < st.ev:
                return p
        return self.props(st)

    def next_tok(self, st):
        st.ev += 1
        st.tok = ('tok', self.cur.name, st.ev, tuple(l.gid for l in st.loops if l.gid))
        self.stats['events'] += 1

    def evname(self, st):
        return (st.ev, st.tok[3] if len(st.tok) > 3 else ())

    def ev_read(self, st, rdr, k):
        """read_exact of k bytes: list of (state, bytes or None, error)"""
        wins, pre = rdr[1], rdr[2]
        self.stats['reads'].add((self.site(st), 'exact'))
        if st.ended or self.is_dry(st, wins):
            e = self.io_error(st, 'read')
            kinds = self.P.adts['std::io::ErrorKind'][0].d['variants']
            ei = next(i for i, v in enumerate(kinds) if v['name'] == 'UnexpectedEof')
            return [(s, None, e) for s, v in self.split_int(st, self.err_kind(e), [ei]) if v == ei]
        if pre:
            raise Undecided('chained read')
        if st.sink is None:
            if len(st.unread) and self.spec_op(st) and self.spec_op(st)[0] in ('call', 'head'):
                pass
            r = self.demand(st)
            if r is not None:
                return [(s, 'retry', None) for s in r]
            op = self.spec_op(st)
            if op is None:
                # the rule is complete
                self.report(st, self.props(st), 'over-read', 'reads %d more byte(s) after the end of %s' % (k, st.final[2]))
                raise Pruned()
            kind = op[2]
            if kind == 'rest':
                raise Undecided('bytewise read of a block')
            if kind == 'bytes' and not isinstance(self.block_rem(st), int):
                if k > 64:
                    raise Undecided('bytewise read of a block')
                out = []
                for s, L, err in self.ev_bulk(st, rdr, k):
                    out.append((s, None if L is None else tuple(x[1] for x in L[1]), err))
                return out
            self.check_windows(st, wins)
            atend = kind == 'byte_or_eof' and not st.unread
            if atend and k != 1:
                raise Undecided('read across a boundary')
        else:
            atend = False
        out = []
        self.next_tok(st)
        # success
        s = st.copy()
        syms = tuple(y(('b', self.cur.name, self.evname(s), i), 0, 255) for i in range(k))
        s.last = syms
        s.trace = s.trace + ('%d byte(s)' % k,)
        if s.sink is None:
            s.unread = s.unread + syms
            for s2 in self.run_spec(s):
                out.append((s2, syms, None))
        else:
            out.append((s, syms, None))
        # failure
        e = self.io_error(st, 'read')
        if atend:
            kinds = self.P.adts['std::io::ErrorKind'][0].d['variants']
            ei = next(i for i, v in enumerate(kinds) if v['name'] == 'UnexpectedEof')
            d = self.err_kind(e)
            for s2, v in self.split_int(st, d, [ei]):
                s2.trace = s2.trace + ('end of input' if v == ei else 'read failure',)
                s2.failed(e)
                if v == ei:
                    s2.sp[-1].env[self.spec_op(s2)[1]] = -1
                    s2.lasterr = st.lasterr
                    s2.ended = True
                    s2.sp[-1].pc += 1
                    for s3 in self.run_spec(s2):
                        out.append((s3, None, e))
                else:
                    s2.sink = ('io', 'read failure', ('C24',), ())
                    out.append((s2, None, e))
        else:
            s = st.copy()
            s.trace = s.trace + ('read failure',)
            s.failed(e)
            if s.sink is None:
                s.sink = ('io', 'read failure', ('C24',), tuple(f.rule.name for f in s.sp))
            out.append((s, None, e))
        return out

    def err_kind(self, e):
        n = len(self.P.adts['std::io::ErrorKind'][0].d['variants'])
        return y((e[1], 'kind'), 0, n - 1)

    def ev_bulk(self, st, rdr, n=None):
        """Read n bytes (read_exact), or, without n, everything up to the innermost limit.
        List of (state, list or 'retry' or None, error or None); a list may be short when n is None."""
        wins, pre = rdr[1], rdr[2]
        self.stats['reads'].add((self.site(st), 'exact' if n is not None else 'to the end of a limit'))
        if n is None and self.is_dry(st, wins):
            return [(st.copy(), ('L', ()), None)]
        if st.ended:
            raise Undecided('block read after the end')
        if pre:
            raise Undecided('chained read')
        name = ('blk', self.cur.name, self.evname(st))
        kind = want = extra = None
        if st.sink is None:
            r = self.demand(st)
            if r is not None:
                return [(s, 'retry', None) for s in r]
            op = self.spec_op(st)
            if op is None:
                self.report(st, self.props(st), 'over-read', 'reads more after the end of %s' % st.final[2])
                raise Pruned()
            if st.unread:
                raise Undecided('block read after a lookahead')
            kind = op[2]
            if kind == 'bytes':
                want = self.block_rem(st)
            elif kind != 'rest':
                raise Undecided('block read where the format reads a byte')
            if n is None and kind == 'rest' and len(wins) > len(st.wins):
                return self.limited_rest(st, wins, name)
            if n is None and kind == 'bytes':
                if len(wins) <= len(st.wins):
                    self.check_windows(st, wins)
                    self.report(st, self.props(st), 'over-read', 'reads everything that is left where the format has %s byte(s)' % show(want))
                    raise Pruned()
                extra = self.block_window(st, wins)
                d = vdiff(st.ctx, extra, want)
                if d:
                    self.report(st, self.props(st), 'length', 'reads %s byte(s) where the format has %s' % (show(extra), show(want)))
                    raise Pruned()
                if d is None:
                    raise Undecided('length of a block read')
            else:
                self.check_windows(st, wins)
                if n is not None and kind == 'rest':
                    lim, tok = st.wins[-1]
                    if vdiff(st.ctx, n, self.remaining(st, lim, tok)) is not False:
                        raise Undecided('sized read of the rest')
        out = []
        tok0 = st.tok
        self.next_tok(st)
        # complete
        s = st.copy()
        s.trace = s.trace + ('block of bytes',)
        size = n if n is not None else want
        small = isinstance(size, int) and size <= 64
        if small:
            L = ('L', tuple(('e', y(('b', self.cur.name, self.evname(st), i), 0, 255)) for i in range(size)))
            cs = [s.ctx]
        else:
            LT[name] = W.u8
            ln = declare(('len', name), 0, 2 ** 63 - 1)
            L = ('L', (('l', name),))
            cs = [s.ctx]
            if size is not None:
                cs = assume(s.ctx, cond_eq(s.ctx, ('y', ln), size), 1)
        for c in cs:
            s1 = s.copy()
            s1.ctx = c
            if s1.sink is not None:
                out.append((s1, L, None))
            elif kind == 'rest':
                self.end_block(s1, L[1])
                s1.dry = (s1.tok, len(s1.wins))
                for s2 in self.run_spec(s1):
                    out.append((s2, L, None))
            else:
                if extra is not None:
                    s1.ctx.sub[('rem', wins[-1][1], s1.tok)] = 0
                for s2 in self.take_block(s1, L[1], size, tok0):
                    out.append((s2, L, None))
        # short
        if n is None and extra is not None:
            s = st.copy()
            s.trace = s.trace + ('input ends inside a block',)
            name2 = (name, 'short')
            LT[name2] = W.u8
            ln2 = ('y', declare(('len', name2), 0, 2 ** 63 - 1))
            for c in assume(s.ctx, cond_ge(s.ctx, sub(want, ln2), 1), 1):
                s1 = s.copy()
                s1.ctx = c
                s1.ctx.sub[('rem', wins[-1][1], s1.tok)] = norm(c, sub(want, ln2))
                s1.sink = ('io', 'input ends inside a block', ('C24',), tuple(f.rule.name for f in s.sp))
                out.append((s1, ('L', (('l', name2),)), None))
        s = st.copy()
        e = self.io_error(st, 'read')
        s.failed(e)
        s.trace = s.trace + ('read failure',)
        if s.sink is None:
            s.sink = ('io', 'read failure', ('C24',), tuple(f.rule.name for f in s.sp))
        out.append((s, None, e))
        return out

    def is_dry(self, st, wins):
        """all of a limit has been read, and nothing since"""
        return st.dry is not None and st.dry[0] == st.tok and len(wins) >= st.dry[1] and st.sink is None

    def rest_rem(self, st):
        """bytes left of the rest of a limit"""
        f = st.sp[-1]
        w = f.env.get('@rest')
        if w is None:
            if st.wins:
                w = self.remaining(st, *st.wins[-1])
            else:
                w = ('y', declare(('rest', self.cur.name, self.evname(st)), 0, 2 ** 64 - 1))
            f.env['@rest'] = w
        part = f.env.get('@part')
        return norm(st.ctx, sub(w, part[1]) if part else w)

    def some_rest(self, st, wins, segs, n, tok, rem, own):
        """n of the bytes of the rest have been read"""
        f = st.sp[-1]
        p = f.env.get('@part')
        f.env['@part'] = ((p[0] if p else ()) + tuple(segs), add(p[1] if p else 0, n), p[2] if p else tok)
        if own is not None:
            st.ctx.sub[('rem', wins[-1][1], st.tok)] = norm(st.ctx, sub(own, n))
        if st.wins:
            st.ctx.sub[('rem', st.wins[-1][1], st.tok)] = norm(st.ctx, sub(rem, n))

    def no_more_rest(self, st):
        self.end_block(st, ())
        st.dry = (st.tok, len(st.wins))
        return self.run_spec(st)

    def rest_window(self, st, wins):
        if st.unread:
            raise Undecided('block read after a lookahead')
        if len(wins) > len(st.wins):
            return self.block_window(st, wins)
        self.check_windows(st, wins)

    def limited_rest(self, st, wins, name):
        """everything up to a limit of the program's own, within the rest of the limit"""
        own = self.rest_window(st, wins)
        rem = self.rest_rem(st)
        out = []
        tok0 = st.tok
        self.next_tok(st)
        LT[name] = W.u8
        ln = ('y', declare(('len', name), 0, 2 ** 63 - 1))
        L = ('L', (('l', name),))
        for full in (True, False):
            s = st.copy()
            s.trace = s.trace + ('block of bytes' if full else 'the rest of the bytes',)
            for c in assume(s.ctx, cond_ge(s.ctx, rem, own), 1 if full else 0):
                for c2 in assume(c, cond_eq(c, ln, own if full else rem), 1):
                    s1 = s.copy()
                    s1.ctx = c2
                    self.some_rest(s1, wins, L[1], ln, tok0, rem, own)
                    if full:
                        out.append((s1, L, None))
                    else:
                        out += [(s2, L, None) for s2 in self.no_more_rest(s1)]
        out.append((*self.read_failure(st), ))
        return out

    def read_failure(self, st):
        s = st.copy()
        e = self.io_error(st, 'read')
        s.failed(e)
        s.trace = s.trace + ('read failure',)
        s.sink = ('io', 'read failure', ('C24',), tuple(f.rule.name for f in s.sp))
        return s, None, e

    def raw_rest(self, st, wins, k):
        """one read call with room for k >= 1 bytes, within the rest of a limit"""
        own = self.rest_window(st, wins)
        rem = self.rest_rem(st)
        out = []
        tok0, ev0 = st.tok, st.ev
        caps = [(st, k)]
        if own is not None:
            caps = []
            for s, z in self.split(st, cond_eq(st.ctx, own, 0)):
                if z:
                    out.append((s.copy(), 0, None, None))
                    continue
                caps += [(s2, own if t else k) for s2, t in self.split(s, cond_ge(s.ctx, k, own))]
        for st, cap in caps:
            st = st.copy()
            self.next_tok(st)
            name = ('blk', self.cur.name, self.evname(st))
            LT[name] = W.u8
            ln = ('y', declare(('len', name), 0, 2 ** 63 - 1))
            L = ('L', (('l', name),))
            for how in ('block of bytes', 'the rest of the bytes', 'part of a block of bytes'):
                s = st.copy()
                s.trace = s.trace + (how,)
                cs = assume(s.ctx, cond_ge(s.ctx, rem, 1), 1)
                if how == 'block of bytes':
                    cs = [d for c in cs for d in assume(c, cond_ge(c, rem, cap), 1)]
                    cs = [d for c in cs for d in assume(c, cond_eq(c, ln, cap), 1)]
                elif how == 'the rest of the bytes':
                    cs = [d for c in cs for d in assume(c, cond_ge(c, rem, cap), 0)]
                    cs = [d for c in cs for d in assume(c, cond_eq(c, ln, rem), 1)]
                else:
                    s.short = True
                    cs = [d for c in cs for d in assume(c, cond_ge(c, ln, 1), 1)]
                    cs = [d for c in cs for d in assume(c, cond_ge(c, ln, rem), 0)]
                    cs = [d for c in cs for d in assume(c, cond_ge(c, ln, cap), 0)]
                for c in cs:
                    s1 = s.copy()
                    s1.ctx = c
                    self.some_rest(s1, wins, L[1], ln, tok0, rem, own)
                    out.append((s1, ln, L, None))
            s = st.copy()
            s.trace = s.trace + ('end of the rest',)
            s.tok, s.ev = tok0, ev0
            for s2 in self.no_more_rest(s):
                out.append((s2, 0, None, None))
            e = self.io_error(st, 'read')
            kinds = self.P.adts['std::io::ErrorKind'][0].d['variants']
            ei = next(i for i, v in enumerate(kinds) if v['name'] == 'Interrupted')
            for s, v in self.split_int(st, self.err_kind(e), [ei]):
                if s is st:
                    s = st.copy()
                if v == ei:
                    if s.intr:
                        continue
                    s.tok, s.ev = tok0, ev0
                    s.intr = s.short = True
                    s.trace = s.trace + ('interrupted read',)
                else:
                    s.failed(e)
                    s.trace = s.trace + ('read failure',)
                    s.sink = ('io', 'read failure', ('C24',), tuple(f.rule.name for f in s.sp))
                out.append((s, None, None, e))
        return out

    def block_window(self, st, wins):
        """bytes left in a limit of the program's own, set for the block at hand"""
        part = st.sp[-1].env.get('@part')
        lim, tok = wins[-1]
        if len(wins) != len(st.wins) + 1 or tok != (part[2] if part else st.tok):
            raise Undecided('limit of a block read')
        self.check_windows(st, wins[:-1])
        return norm(st.ctx, sub(lim, part[1]) if part else lim)

    def ev_raw(self, st, rdr, k):
        """one read call with room for k >= 1 bytes: list of (state, count or 'retry', bytes or list or None, error)"""
        wins = rdr[1]
        self.stats['reads'].add((self.site(st), 'raw'))
        if st.ended or self.is_dry(st, wins):
            return [(st.copy(), 0, None, None)]          # it has ended for good
        block, extra = None, None
        kind = None
        if st.sink is None:
            r = self.demand(st)
            if r is not None:
                return [(s, 'retry', None, None) for s in r]
            op = self.spec_op(st)
            if op is None:
                self.report(st, self.props(st), 'over-read', 'reads more after the end of %s' % st.final[2])
                raise Pruned()
            kind = op[2]
            if kind == 'rest':
                return self.raw_rest(st, wins, k)
            if kind == 'bytes' and not (isinstance(self.block_rem(st), int) and isinstance(k, int) and k <= 16):
                if st.unread:
                    raise Undecided('block read after a lookahead')
                block = self.block_rem(st)
                if len(wins) > len(st.wins):
                    extra = self.block_window(st, wins)
                else:
                    self.check_windows(st, wins)
            else:
                self.check_windows(st, wins)
            atend = kind == 'byte_or_eof' and not st.unread
        else:
            atend = False
        if block is None and not (isinstance(k, int) and k <= 16) and st.sink is None:
            raise Undecided('raw read of unknown size')
        out = []
        tok0, ev0 = st.tok, st.ev
        self.next_tok(st)
        # data
        if block is None and isinstance(k, int) and k <= 16:
            for n in range(1, k + 1):
                s = st.copy()
                if n < k:
                    s.short = True
                    s.trace = s.trace + ('%d of %d byte(s)' % (n, k),)
                else:
                    s.trace = s.trace + ('%d byte(s)' % k,)
                syms = tuple(y(('b', self.cur.name, self.evname(s), i), 0, 255) for i in range(n))
                if s.sink is None:
                    s.last = syms
                    s.unread = s.unread + syms
                    for s2 in self.run_spec(s):
                        out.append((s2, n, syms, None))
                else:
                    out.append((s, n, syms, None))
        else:
            name = ('blk', self.cur.name, self.evname(st))
            LT[name] = W.u8
            ln = ('y', declare(('len', name), 0, 2 ** 63 - 1))
            L = ('L', (('l', name),))
            for full in (True, False):
                s = st.copy()
                s.short = s.short or not full
                s.trace = s.trace + ('block of bytes' if full else 'part of a block of bytes',)
                if full:
                    cs = []
                    if extra is None:
                        cs = assume(s.ctx, cond_eq(s.ctx, ln, k), 1)
                    else:
                        for c in assume(s.ctx, cond_ge(s.ctx, extra, k), 1):
                            cs += assume(c, cond_eq(c, ln, k), 1)
                        for c in assume(s.ctx, cond_ge(s.ctx, extra, k), 0):
                            for c2 in assume(c, cond_ge(c, extra, 1), 1):
                                cs += assume(c2, cond_eq(c2, ln, extra), 1)
                else:
                    cs = []
                    for c in assume(s.ctx, cond_ge(s.ctx, ln, 1), 1):
                        for c2 in assume(c, cond_ge(c, ln, k), 0):
                            cs += assume(c2, cond_ge(c2, ln, extra), 0) if extra is not None else [c2]
                for c in cs:
                    s1 = s.copy()
                    s1.ctx = c
                    if s1.sink is not None:
                        out.append((s1, ln, L, None))
                        continue
                    if extra is not None:
                        s1.ctx.sub[('rem', wins[-1][1], s1.tok)] = norm(c, sub(extra, ln))
                    for s2 in self.take_block(s1, L[1], ln, tok0):
                        out.append((s2, ln, L, None))
        # end of input
        s = st.copy()
        s.trace = s.trace + ('end of input',)
        s.ended = True
        if s.sink is not None:
            out.append((s, 0, None, None))
        elif atend:
            s.sp[-1].env[self.spec_op(s)[1]] = -1
            s.sp[-1].pc += 1
            for s3 in self.run_spec(s):
                out.append((s3, 0, None, None))
        else:
            s.sink = ('io', 'end of input', ('C24',), tuple(f.rule.name for f in s.sp))
            s.tok, s.ev = tok0, ev0
            out.append((s, 0, None, None))
        # failures
        e = self.io_error(st, 'read')
        kinds = self.P.adts['std::io::ErrorKind'][0].d['variants']
        ei = next(i for i, v in enumerate(kinds) if v['name'] == 'Interrupted')
        eof = next(i for i, v in enumerate(kinds) if v['name'] == 'UnexpectedEof')
        for s, v in self.split_int(st, self.err_kind(e), [ei, eof] if atend else [ei]):
            if s is st:
                s = st.copy()
            if v == eof:            # a source may say so itself
                s.sp[-1].env[self.spec_op(s)[1]] = -1
                s.sp[-1].pc += 1
                for s3 in self.run_spec(s):
                    out.append((s3, None, None, e))
                continue
            if v == ei:
                if s.intr:
                    continue
                s.intr = s.short = True
                s.trace = s.trace + ('interrupted read',)
                out.append((s, None, None, e))
                continue
            s.failed(e)
            s.trace = s.trace + ('read failure',)
            if s.sink is None:
                s.sink = ('io', 'read failure', ('C24',), tuple(f.rule.name for f in s.sp))
            out.append((s, None, None, e))
        return out

    def buffered(self, st):
        """a read through a buffer, which takes more from the input than is asked for"""
        if self.cur.name == 'module' and not st.wins:
            self.report(st, ('C29',), 'over-read', 'reads the input through a buffer, past what the sections declare')
            raise Pruned()
        raise Undecided('buffered reader')

    # ---- reporting ------------------------------------------------------------------------------
    def report(self, st, props, kind, msg):
        if infeasible(st.ctx):
            raise Pruned()
        if st.short:
            props = ('C29',)
        if st.ctx.soft or any(f.tag == 'soft' for f in st.fr):
            self.undecided(st, kind + ': ' + msg)
            return
        fn = ''
        for f in reversed(st.fr):
            if 'wadec' in f.inst.def_ and not f.inst.def_.startswith('std'):
                fn = f.inst.def_
                break
        fn = fn or (self.cur.inst.def_ if self.cur else '')
        v = Violation(props, kind, msg, st.loc, self.cur.name if self.cur else '', st.trace, fn)
        self.viol.append(v)

    # ---- memory ---------------------------------------------------------------------------------
    def unbacked(self, st, n):
        """the source of a number that the input declares without backing it by as many bytes, or None"""
        n = norm(st.ctx, n)
        if not is_int(n) or isinstance(n, int) or interval(st.ctx, n)[1] < 1 << 24:
            return None
        src = []
        for a in atoms(n):
            d = st.ctx.domain(a)
            if d and d[-1][1] < 1 << 24 and not (isinstance(a, tuple) and a[0] == 'b'):
                continue
            if isinstance(a, tuple) and a[0] == 'len':      # elements that have been decoded
                continue
            src.append(self.origin(st, a))
        return ' '.join(sorted(set(src))) or None

    def origin(self, st, a):
        for f in st.sp:
            for k, v in f.env.items():
                if v == ('y', a):
                    if f.rule.name == 'local' and k == 'n':
                        return LOCALS
                    return '%s of %s' % (k, f.rule.name)
        r = source(a)
        if r == 'part 0 of each of part 0 of each of list(code)' or r == 'u32' and self.cur.name in ('code', 'local', 'list(local)'):
            return LOCALS
        return r

    def alloc(self, st, n, how):
        self.stats['allocs'].add((self.site(st), how))
        src = self.unbacked(st, n)
        if src is not None:
            self.direct(st, ('C26',), 'memory', HOLDS % src)

    def site(self, st):
        for f in reversed(st.fr):
            if 'wadec' in f.inst.def_ and not f.inst.def_.startswith('std'):
                return f.inst.def_
        return ''

    def direct(self, st, props, kind, msg):
        """report what does not depend on the grammar rule at hand"""
        n, short = len(self.viol), st.short
        st.short = False
        try:
            self.report(st, props, kind, msg)
        except Pruned:
            pass
        st.short = short
        self.final += self.viol[n:]
        del self.viol[n:]

    def undecided(self, st, why):
        fn = ''
        for f in reversed(st.fr):
            if 'wadec' in f.inst.def_:
                fn = f.inst.def_
                break
        self.und.append((self.cur.name if self.cur else '', why, st.loc, fn, st.trace[-8:]))

    # ---- execution ------------------------------------------------------------------------------
    def push_frame(self, st, inst, args, dest, target, tag=None):
        if inst.blocks is None:
            raise Undecided('no body: ' + inst.def_)
        if len(st.fr) > 120:
            c = {}
            for f in st.fr:
                c[f.inst.def_] = c.get(f.inst.def_, 0) + 1
            self.stats['deep'] |= {n for n, k in c.items() if k > 20}
            raise Undecided('call depth')
        if inst.argc != len(args):
            raise Undecided('argument count of ' + inst.def_)
        st.fr.append(Frame(inst, dest, target, tag))
        d = len(st.fr) - 1
        for i, a in enumerate(args):
            st.mem[('m', d, i + 1)] = a
        self.stats['fns'].add(inst.def_)
        return self.enter(st, 0)

    def enter(self, st, bb):
        """jump within the current frame; True when the state goes on, False when it was handed over"""
        f = st.fr[-1]
        f.bb = bb
        f.si = 0
        inst = f.inst
        heads = inst.loops()
        d = len(st.fr) - 1
        loops = st.loops
        ch = False
        while loops and loops[-1].depth == d and bb not in inst.bodies[loops[-1].head]:
            loops = loops[:-1]
            ch = True
        if ch:
            st.loops = loops
        if bb in heads:
            if loops and loops[-1].depth == d and loops[-1].head == bb:
                l = loops[-1].copy()
                l.count += 1
                st.loops = loops[:-1] + (l,)
            else:
                l = Loop()
                l.depth, l.head, l.count = d, bb, 0
                l.snaps = ()
                self.eid += 1
                l.eid = self.eid
                l.gid = None
                l.cmps = {}
                l.bounded = False
                l.sym = ()
                st.loops = st.loops + (l,)
            return l
        return None

    def pop_frame(self, st):
        d = len(st.fr) - 1
        while st.loops and st.loops[-1].depth >= d:
            st.loops = st.loops[:-1]
        f = st.fr.pop()
        for c in [c for c in st.mem if c[0] == 'm' and c[1] == d]:
            del st.mem[c]
        return f

    def explore(self, init, gid=None):
        """run to completion; returns (arrivals, exits) of generalised loop `gid`"""
        work = list(init)
        arrivals, exits = [], []
        pend = {}
        parked = []
        while work or pend or parked:
            if not work and not pend:
                if len(parked) < 32 or self.child or self.jobs < 2:
                    self.child = True
                    work, parked = parked, []
                else:
                    self.fork(parked)
                    parked = []
                continue
            if not work:
                k = min(pend)
                work += self.generalise(pend.pop(k))
                continue
            st = work.pop()
            if gid is not None and not any(l.gid == gid for l in st.loops):
                exits.append(st)
                continue
            try:
                res = self.advance(st)
            except Undecided as u:
                self.undecided(st, str(u))
                continue
            except INTERNAL as ex:
                if self.debug:
                    raise
                if os.environ.get('TB'):
                    import traceback
                    traceback.print_exc()
                self.undecided(st, 'internal: %r' % ex)
                continue
            except Pruned:
                continue
            for kind, s in res:
                if kind == 'go':
                    work.append(s)
                elif kind == 'done':
                    if gid is not None:
                        exits.append(s)
                    else:
                        try:
                            self.leaf(s)
                        except Undecided as u:
                            self.undecided(s, str(u))
                        except INTERNAL as ex:
                            if self.debug:
                                raise
                            if os.environ.get('TB'):
                                import traceback
                                traceback.print_exc()
                            self.undecided(s, 'internal: %r' % ex)
                        except Pruned:
                            pass
                elif kind == 'park':
                    parked.append(s)
                elif kind == 'arrive':
                    l = s.loops[-1]
                    if l.gid is not None and l.gid == gid:
                        arrivals.append(s)
                    else:
                        pend.setdefault(l.eid, []).append(s)
            self.stats['paths'] += max(0, len(res) - 1)
            self.tick += 1
            if self.tick % 50 == 0:
                now = time.time()
                if now > self.deadline or now - self.cur.t0 > self.unit_s:
                    raise Stop('too many partitions')
        return arrivals, exits

    def advance(self, st):
        """run until the state forks, ends or reaches a loop; list of (kind, state)"""
        if st.ret is not None:
            return [('done', st)]
        while True:
            f = st.fr[-1]
            b = f.inst.blocks[f.bb]
            stmts = b['s']
            if f.si == 0:
                self.stats['steps'] += len(stmts) + 1
                st.steps += 1
                if st.steps > 60000:
                    raise Undecided('path too long')
            while f.si < len(stmts):
                r = self.stmt(st, f.inst, stmts[f.si])
                f.si += 1
                if r is not None:
                    return [('go', s) for s in r]
            if 'wadec' in f.inst.def_[:40]:
                self.setloc(st, f.inst, b)
            r = self.term(st, f, b['t'])
            if r is None:
                continue
            if isinstance(r, Loop):
                k = self.arrive(st, r)
                if k:
                    return [(k, st)]
                continue
            return r

    def setloc(self, st, inst, b):
        at = b['at'].rsplit(':', 1)
        if '/repo/' in at[0] or at[0].startswith('src') or 'wadec' in at[0]:
            st.loc = (at[0].split('/repo/')[-1], int(at[1]))

    def goto(self, st, bb):
        return self.enter(st, bb)

    def arrive(self, st, l):
        """at a loop head: None to go on, or how to hand the state over"""
        if l.gid is not None:
            return 'arrive' if l.count > 0 else None
        steady = False
        if l.count > 0:
            p = l.snaps[-1]
            if l.count <= 300 and p.ev == st.ev and p.ctx.dom == st.ctx.dom and p.ctx.facts == st.ctx.facts and p.ctx.sub == st.ctx.sub and p.tok == st.tok:
                steady = True          # nothing was learnt in this iteration: it is a computation on constants
            elif st.sink is not None and l.count >= 2 and not l.bounded and p.sink is not None and l.snaps[-2].sink is not None:
                raise Undecided('loop after the input was already rejected')
        f = st.fr[-1]
        self.stats['loops'].add((f.inst.def_, l.head))
        if l.count > 0:
            self.progress(st, l)
        s2 = st.copy()
        l2 = l.copy()
        l2.snaps = l.snaps + (s2,)
        st.loops = st.loops[:-1] + (l2,)
        if l.bounded:
            if l.count > 300:
                raise Undecided('bounded loop too long')
            return None
        n = sum(1 for x in st.loops if not x.bounded) - 1
        p = self.mpeel if self.cur.name == 'module' else self.peel
        if l.count >= p[min(n, len(p) - 1)]:
            return None if steady else 'arrive'
        if l.count == 2 and len(st.loops) == 1 and not self.child and self.cur.name == 'module' and not steady:
            return 'park'
        return None

    def progress(self, st, l):
        """what the iteration that just ended did"""
        p = l.snaps[-1]
        if p.ev != st.ev:
            return
        # nothing was read
        d = l.depth
        here = {k: v for k, v in st.mem.items() if k[0] == 'm' and k[1] <= d}
        before = {k: v for k, v in p.mem.items() if k[0] == 'm' and k[1] <= d}
        if here == before and all(st.mem.get(k) == v for k, v in p.mem.items() if k[0] == 'h') and len(p.mem) == len(st.mem):
            self.direct(st, ('C28',), 'endless', 'a loop comes back to the state it was in without reading input')
            raise Pruned()
        if len(l.sym) and measure(st.mem) > measure(p.mem):
            for site, c, a, b in l.sym:
                for x in (a, b):
                    src = self.unbacked(st, x[1] if isinstance(x, tuple) and x[0] == 'k' else x) if is_int(x) else None
                    if src is not None:
                        self.direct(st, ('C26',), 'memory', HOLDS % src)
                        return

    def fork(self, states):
        """explore the states in parallel; what is found is merged into this process"""
        import os
        import pickle
        import traceback
        unit = self.cur
        n = min(self.jobs, len(states))
        pipes = []
        sys.stdout.flush()
        for j in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    os.close(r)
                    self.child = True
                    self.viol, self.und, self.final = [], [], []
                    self.cover, self.samples = {}, {}
                    self.stats = dict(paths=0, steps=0, events=0, ntcalls=0, fns=set(), leaves=0, allocs=set(), reads=set(), loops=set(), deep=set(),
                          rejects=set(), accepts=set(), says=set())
                    unit.acc, unit.inl = {}, []
                    old = len(self.units)
                    try:
                        self.explore(states[j::n])
                    except Stop as ex:
                        self.und.append((unit.name, str(ex), states[0].loc, unit.inst.def_, ()))
                    res = dict(viol=self.viol, und=self.und, final=self.final, cover=self.cover, samples=self.samples,
                               stats=self.stats, acc=unit.acc if unit.mode != 'template' else {},
                               inl=[x['key'] for x in unit.inl], panics=self.panics)
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(res, f)
                except BaseException:
                    traceback.print_exc()
                    rc = 1
                os._exit(rc)
            os.close(w)
            pipes.append((pid, r))
        for pid, r in pipes:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                self.und.append((unit.name, 'a worker failed', states[0].loc, unit.inst.def_, ()))
                continue
            res = pickle.loads(data)
            self.viol += res['viol']
            self.final += res['final']
            self.und += res['und']
            unit.acc.update(res['acc'])
            for k, x in res['stats'].items():
                if isinstance(x, set):
                    self.stats[k] |= x
                else:
                    self.stats[k] = self.stats.get(k, 0) + x
            for pr, c in res['cover'].items():
                d = self.cover.setdefault(pr, {})
                for k, x in c.items():
                    d[k] = d.get(k, 0) + x
            for pr, l in res['samples'].items():
                d = self.samples.setdefault(pr, [])
                d += l[:max(0, 6 - len(d))]
            rank = {'unreachable': 0, 'undecided': 1, 'reached': 2}
            for k, x in res['panics'].items():
                if rank[x] > rank.get(self.panics.get(k), -1):
                    self.panics[k] = x
            for k in res['inl']:
                x = self.nt.get(k)
                if x is not None and x not in unit.inl:
                    unit.inl.append(x)

    def leaves_loop(self, st):
        """the block at hand decides whether the innermost loop goes on"""
        if not st.loops:
            return False
        l, f = st.loops[-1], st.fr[-1]
        if l.bounded or l.gid is not None:
            return False
        if l.depth != len(st.fr) - 1:
            return any(x.inst.def_.endswith('::next') for x in st.fr[l.depth + 1:])
        b = f.inst.bodies[l.head]
        t = f.inst.blocks[f.bb]['t']
        return t[0] == 'switch' and any(x not in b for x in successors(t))

    def note_cmp(self, st, site, a, b):
        if not st.loops:
            return
        l = st.loops[-1]
        if l.bounded or l.gid is not None:
            return
        old = l.cmps.get(site)
        if old is not None and old != (a, b) and old[2] != l.count:
            pass
        if isinstance(a, int) and isinstance(b, int):
            if old is not None and old[2] < l.count and ((old[0] == a) != (old[1] == b)) and abs(a - b) <= 300:
                l = l.copy()
                l.bounded = True
                st.loops = st.loops[:-1] + (l,)
                return
            l = l.copy()
            l.cmps = dict(l.cmps)
            l.cmps[site] = (a, b, l.count)
            st.loops = st.loops[:-1] + (l,)
        else:
            l = l.copy()
            l.sym = l.sym + ((site, l.count, a, b),)
            st.loops = st.loops[:-1] + (l,)

    # ---- statements
    def stmt(self, st, inst, s):
        k = s[0]
        if k == '=':
            v = self.rvalue(st, inst, s[2], s[1])
            self.wr_place(st, s[1], v)
        elif k == 'dead':
            st.mem.pop(('m', len(st.fr) - 1, s[1]), None)
        elif k == 'sd':
            v = self.rd_place(st, s[1])
            if v[0] == 'A':
                self.wr_place(st, s[1], ('A', v[1], s[2], v[3]))
            else:
                raise Undecided('set discriminant')
        return None

    def rvalue(self, st, inst, r, dest):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1])
        if k == 'ref':
            return self.ref(st, r[1])
        if k in ('bin', 'chk'):
            return self.binary(st, inst, r, dest)
        if k == 'un':
            return self.unary(st, inst, r)
        if k == 'cast':
            return self.cast(st, inst, r)
        if k == 'discr':
            if not r[1][1] and ('m', len(st.fr) - 1, r[1][0]) not in st.mem:
                return ('K', 'discriminant of a moved value')
            v = self.rd_place(st, r[1])
            if v[0] == 'K':
                return v
            d = norm(st.ctx, discr(v))
            # discriminant values differ from variant indices only for explicit discriminants
            ty = self.P.types[VT[v[1]]] if v[0] == 'V' else (self.P.adts[v[1]][0] if v[1] in self.P.adts else None)
            if ty is not None and ty.d.get('adt') == 'enum':
                vals = [int(x['discr']) for x in ty.d['variants']]
                dt = self.place_ty(inst, dest)
                if dt is not None and self.P.is_int(dt):
                    bits, signed = self.P.int_info(dt)
                    vals = [x % (1 << bits) for x in vals]
                    if signed:
                        vals = [x - (1 << bits) if x >> (bits - 1) else x for x in vals]
                if vals != list(range(len(vals))):
                    if isinstance(d, int):
                        return vals[d]
                    raise Undecided('explicit discriminants')
            return d
        if k == 'len':
            rf = self.resolve(st, r[1])
            if rf[0] == '&s':
                return rf[4]
            v = self.load(st, rf)
            return len(v[1]) if v[0] == 'R' else list_len(v)
        if k == 'rep':
            v = self.operand(st, r[1])
            if r[2] is None or r[2] > 4096:
                return ('K', 'repeat')
            return ('R', (v,) * r[2])
        if k == 'agg':
            ops = tuple(self.operand(st, o) for o in r[2])
            a = r[1]
            if a[0] == 'adt':
                t = self.P.types[a[1]]
                if t.d['adt'] == 'union':
                    return ops[0] if ops else ('K', 'union')
                if a[3] is not None:
                    return ops[0]
                return ('A', t.name, a[2], ops)
            if a[0] == 'tuple':
                return ('T', ops)
            if a[0] == 'array':
                return ('R', ops)
            if a[0] == 'closure':
                return ('C', a[1], ops)
            if a[0] == 'rawptr':
                p, m = ops
                if isinstance(p, tuple) and p[0] == '&':
                    return ('&s', p[1], p[2], 0, m) if is_int(m) else p
            return ('K', 'aggregate')
        return ('K', k)

    def ref(self, st, place):
        local, projs = place
        # &*x where x is a slice, a string constant or opaque: the reference itself
        if projs and projs[-1] == '*':
            v = self.rd_place(st, [local, projs[:-1]])
            if v[0] in ('&s', '&str', 'K', '&'):
                return v
            if v[0] == 'Bx':
                return ('&', v[1], ())
        return self.resolve(st, place)

    def binary(self, st, inst, r, dest):
        op = r[1]
        a, b = self.operand(st, r[2]), self.operand(st, r[3])
        base = op.replace('Unchecked', '')
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if not is_int(a) or not is_int(b):
                if isinstance(a, tuple) and isinstance(b, tuple) and a[0] in ('&', '&s') and base in ('Eq', 'Ne'):
                    raise Undecided('pointer comparison')
                if base in ('Eq', 'Ne') and isinstance(a, tuple) and isinstance(b, tuple) and \
                        a[0] == b[0] == 'fl':
                    x = float_eq(st.ctx, a, b)
                    if x is not None:
                        return x if base == 'Eq' else bnot(x)
                return ('K', 'compare')
            c = st.ctx
            a, b = norm(c, a), norm(c, b)
            if self.leaves_loop(st):
                self.note_cmp(st, (inst.id, tuple(map(str, r[2])), tuple(map(str, r[3])), st.fr[-1].bb), a, b)
            if base == 'Eq':
                return cond_eq(c, a, b)
            if base == 'Ne':
                return bnot(cond_eq(c, a, b))
            if base == 'Ge':
                return cond_ge(c, a, b)
            if base == 'Lt':
                return bnot(cond_ge(c, a, b))
            if base == 'Le':
                return cond_ge(c, b, a)
            return bnot(cond_ge(c, b, a))
        ty = self.op_ty(inst, r[2])
        if not is_int(a) or not is_int(b) or ty is None or not self.P.is_int(ty):
            v = ('K', 'arith')
            return ('T', (v, v)) if r[0] == 'chk' else v
        bits, signed = self.P.int_info(ty)
        c = st.ctx
        a, b = norm(c, a), norm(c, b)
        if base == 'Add':
            x = add(a, b)
        elif base == 'Sub':
            x = sub(a, b)
        elif base == 'Mul':
            x = scale(a, b) if isinstance(b, int) else scale(b, a) if isinstance(a, int) else ('op', '*', a, b)
        elif base in ('BitAnd', 'BitOr', 'BitXor'):
            x = bitwise(c, {'BitAnd': '&', 'BitOr': '|', 'BitXor': '^'}[base], a, b)
        elif base in ('Shl', 'Shr'):
            if not isinstance(b, int):
                x = ('op', base, a, b)
            else:
                sh = b % bits
                x = shl(c, a, sh) if base == 'Shl' else shr(c, a, sh)
                if r[0] == 'chk':
                    return ('T', (wrap(c, x, bits, signed), int(not 0 <= b < bits)))
        elif base in ('Div', 'Rem') and isinstance(a, int) and isinstance(b, int) and b:
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            x = q if base == 'Div' else a - q * b
        elif base in ('Div', 'Rem') and isinstance(b, int) and b > 0 and b & (b - 1) == 0 and interval(c, a)[0] >= 0:
            n = b.bit_length() - 1
            x = shr(c, a, n) if base == 'Div' else bitwise(c, '&', a, b - 1)
        elif base == 'Cmp':
            return ('K', 'cmp')
        else:
            x = ('op', base, a, b)
        if r[0] == 'chk':
            lo, hi = self.P.int_range(ty)
            l, h = interval(c, x)
            if lo <= l and h <= hi:
                return ('T', (x, 0))
            inr = bitwise(c, '&', self.dec(c, cond_ge(c, x, lo)), self.dec(c, cond_ge(c, hi, x)))
            w = wrap(c, x, bits, signed)
            if inr == 1:
                return ('T', (x, 0))
            return ('T', (x, bnot(inr)))
        return wrap(c, x, bits, signed)

    def dec(self, c, cond):
        d = decide(c, cond)
        return cond if d is None else d

    def unary(self, st, inst, r):
        v = self.operand(st, r[2])
        if r[1] == 'PtrMetadata':
            if v[0] == '&s':
                return v[4]
            if v[0] == '&str':
                return len(v[1])
            return ('K', 'meta')
        if not is_int(v):
            return ('K', 'un')
        ty = self.op_ty(inst, r[2])
        bits, signed = self.P.int_info(ty)
        v = norm(st.ctx, v)
        if r[1] == 'Not':
            if self.P.types[ty].k == 'bool':
                return bnot(v)
            return wrap(st.ctx, sub(-1, v), bits, signed) if not isinstance(v, int) else wrap(st.ctx, ~v, bits, signed)
        return wrap(st.ctx, scale(v, -1), bits, signed)

    def cast(self, st, inst, r):
        kind = r[1]
        v = self.operand(st, r[2])
        ty = r[3]
        if kind == 'IntToInt':
            if not is_int(v):
                return ('K', 'cast')
            bits, signed = self.P.int_info(ty)
            return wrap(st.ctx, norm(st.ctx, v), bits, signed)
        if kind.startswith('PointerCoercion(Unsize'):
            t = self.P.types[ty]
            if t.k in ('ref', 'ptr') and self.P.types[t.d['to']].k == 'slice' and v[0] == '&':
                a = self.load(st, v)
                if a[0] == 'R':
                    return ('&s', v[1], v[2], 0, len(a[1]))
                src = self.op_ty(inst, r[2])
                n = self.P.types[self.P.types[src].d['to']].d.get('len')
                return ('&s', v[1], v[2], 0, n)
            return v
        if kind.startswith('PointerCoercion(ReifyFnPointer') or kind.startswith('PointerCoercion(ClosureFnPointer'):
            return v
        if kind == 'Transmute':
            t = self.P.types[ty]
            if t.k == 'float' and v[0] == 'R':
                return ('fl', t.d['bits'], self.le(st, v[1]))
            if t.k == 'float' and is_int(v):
                return ('fl', t.d['bits'], v)
            if t.k in ('int', 'uint') and v[0] == 'R':
                return wrap(st.ctx, self.le(st, v[1]), t.d['bits'], bool(t.d.get('signed')))
            if t.k in ('int', 'uint') and is_int(v):
                return wrap(st.ctx, v, t.d['bits'], bool(t.d.get('signed')))
            if t.k in ('int', 'uint') and v[0] == 'fl':
                return v[2]
            if t.k == 'array' and is_int(v):
                n = t.d['len']
                return ('R', tuple(bitwise(st.ctx, '&', shr(st.ctx, norm(st.ctx, v), 8 * i), 255) for i in range(n)))
            if t.k == 'bool' and is_int(v):
                return v
            x = v
            while isinstance(x, tuple) and x[0] == 'A' and len(x[3]) == 1 and 'NonZero' in x[1]:
                x = x[3][0]
            if t.k in ('int', 'uint') and is_int(x):
                return wrap(st.ctx, x, t.d['bits'], bool(t.d.get('signed')))
            if t.k == 'adt' and is_int(x):
                x = norm(st.ctx, x)
                if t.name == 'std::num::NonZero' and x != 0:
                    return ('A', t.name, 0, (x,))
                if t.name == 'std::option::Option' and self.P.types[t.d['args'][0]].name == 'std::num::NonZero' and isinstance(x, int):
                    return ('A', t.name, 1, (('A', 'std::num::NonZero', 0, (x,)),)) if x else ('A', t.name, 0, ())
            return v if not is_int(v) and v[0] in ('&', '&s', 'Bx') else ('K', 'transmute')
        if kind in ('PtrToPtr', 'FnPtrToFnPtr', 'Subtype') or kind.startswith('PointerCoercion'):
            return v
        if kind == 'BoxDerefTransmute':
            return v
        return ('K', 'cast ' + kind)

    def le(self, st, bs):
        x = 0
        for i, b in enumerate(bs):
            x = bitwise(st.ctx, '|', x, shl(st.ctx, norm(st.ctx, b), 8 * i))
        return x

    # ---- terminators
    def term(self, st, f, t):
        k = t[0]
        if k == 'goto':
            return self.goto(st, t[1])
        if k == 'ret':
            return self.do_ret(st)
        if k == 'switch':
            return self.switch(st, f, t)
        if k == 'drop':
            return self.goto(st, t[2])
        if k == 'assert':
            return self.do_assert(st, f, t)
        if k == 'call':
            return self.call(st, f, t)
        if k in ('unreachable', 'resume', 'abort'):
            raise Pruned()
        raise Undecided('terminator ' + k)

    def switch(self, st, f, t):
        v = self.operand(st, t[1])
        if isinstance(v, tuple) and v[0] == 'K' and self.lax:
            out = []
            for b in dict.fromkeys([b for _, b in t[2]] + [t[3]]):
                if b is None or f.inst.blocks[b]['t'][0] == 'unreachable':
                    continue
                s = st.copy()
                l = self.enter(s, b)
                k = self.arrive(s, l) if l is not None else None
                out.append((k or 'go', s))
            return out
        if isinstance(v, tuple) and v[0] == 'K':
            raise Undecided('branch on an unknown value (%s)' % (v[1],))
        if not is_int(v):
            raise Undecided('branch on %s' % (v[0],))
        ty = self.op_ty(f.inst, t[1])
        bits, signed = self.P.int_info(ty) if ty is not None else (1, False)
        vals = [int(x) for x, _ in t[2]]
        if signed:
            vals = [x - (1 << bits) if x >> (bits - 1) else x for x in vals]
        tg = {x: b for x, (_, b) in zip(vals, t[2])}
        v = norm(st.ctx, v)
        if isinstance(v, int):
            return self.goto(st, tg.get(v, t[3]))
        # decided on this partition?
        out = []
        other = f.inst.blocks[t[3]]['t'][0] if t[3] is not None else 'unreachable'
        for s, x in self.split_int(st, v, vals):
            if x is None and t[3] is None:
                continue
            if x is None and other == 'unreachable' and not f.inst.blocks[t[3]]['s']:
                continue
            l = self.enter(s, tg[x] if x is not None else t[3])
            k = self.arrive(s, l) if l is not None else None
            out.append((k or 'go', s))
        return out

    def do_assert(self, st, f, t):
        msg = t[4]
        m = msg[0] if isinstance(msg, list) else msg
        if isinstance(m, str) and ('misaligned' in m or 'null pointer' in m):
            return self.goto(st, t[3])
        v = self.operand(st, t[1])
        if isinstance(v, tuple) and v[0] == 'K':
            self.panic_site(st, m, None)
            return self.goto(st, t[3])
        exp = int(bool(t[2]))
        out = []
        for s, tr in self.split(st, norm(st.ctx, v)):
            if tr == exp:
                l = self.enter(s, t[3])
                k = self.arrive(s, l) if l is not None else None
                out.append((k or 'go', s))
            else:
                self.panic_site(s, m, True)
        self.panic_site(st, m, False)
        return out

    def panic_site(self, st, what, reached):
        loc = st.loc
        old = self.panics.get((loc, what))
        if reached:
            if not st.ctx.soft and not self.softfacts(st):
                self.report(st, ('C25',), 'panic', 'can panic: %s' % what)
                self.panics[(loc, what)] = 'reached'
            elif old != 'reached':
                self.panics[(loc, what)] = 'undecided'
        elif reached is None:
            if old != 'reached':
                self.panics[(loc, what)] = 'undecided'
        elif old is None:
            self.panics[(loc, what)] = 'unreachable'

    def softfacts(self, st):
        return False

    def do_ret(self, st):
        d = len(st.fr) - 1
        v = st.mem.get(('m', d, 0), UNIT)
        if len(st.fr) == 1:
            st.ret = v
            return [('done', st)]
        f = self.pop_frame(st)
        return self.ret_to(st, f, v)

    def ret_to(self, st, f, v):
        if f.target is None:
            raise Pruned()
        self.wr_place(st, f.dest, v)
        return self.goto(st, f.target)

    def finish_call(self, st, t, v):
        """the modelled call of terminator t returned v"""
        self.wr_place(st, t[3], v)
        if t[4] is None:
            raise Pruned()
        return self.goto(st, t[4])

    def fin(self, st, t, v):
        """as finish_call, for lists of states"""
        try:
            l = self.finish_call(st, t, v)
        except Pruned:
            return []
        k = self.arrive(st, l) if isinstance(l, Loop) else None
        return [(k or 'go', st)]

    def call(self, st, f, t):
        fn = t[1]
        args = [self.operand(st, a) for a in t[2]]
        if fn[0] == 'op':
            v = self.operand(st, fn[1])
            return self.call_value(st, t, v, args)
        if fn[0] == 'unresolved':
            raise Undecided('unresolved call ' + fn[1])
        inst = self.P.insts[fn[1]]
        return self.call_inst(st, t, inst, args, fn[2])

    def call_value(self, st, t, v, args):
        if v[0] == '&':
            v = self.load(st, v)
        if v[0] == 'F':
            ty = self.P.types[v[1]]
            i = ty.d.get('inst')
            if i is None:
                raise Undecided('call of an unresolved function')
            return self.call_inst(st, t, self.P.insts[i], args, self.P.insts[i].def_)
        if v[0] == 'FP':
            return self.call_inst(st, t, self.P.insts[v[1]], args, self.P.insts[v[1]].def_)
        raise Undecided('call of %s' % v[0])

    def call_inst(self, st, t, inst, args, defname):
        if self.tap is not None:
            r = self.tap(st, t, inst, args, defname)
            if r is not NotImplemented:
                return r
        m = self.models.get(canon(inst.def_)) or self.models.get(canon(defname))
        if m is None and inst.intrinsic:
            m = self.models.get('intrinsic:' + inst.intrinsic)
            if m is None:
                if t[4] is None:
                    raise Pruned()
                return self.finish_call(st, t, ('K', inst.intrinsic))
        if m is not None:
            r = m(self, st, t, inst, args)
            if r is not NotImplemented:
                return r
        if t[4] is None:
            self.panic_call(st, inst)
            raise Pruned()
        if inst.closure and len(args) == 2 and args[1][0] == 'T' and 'ops::Fn' in defname:
            args = [args[0]] + list(args[1][1])
        r = self.try_nt(st, t, inst, args)
        if r is not None:
            return r
        r = self.try_pred(st, t, inst, args)
        if r is not None:
            return r
        if inst.blocks is None:
            c = self.ctor(st.fr[-1].inst, t, inst)
            if c is not None:
                return self.finish_call(st, t, ('A', c[0], c[1], tuple(args)))
            if any(self.is_reader(st, a) for a in args if isinstance(a, tuple)):
                raise Undecided('reader passed to ' + inst.def_)
            for a in args:
                if isinstance(a, tuple) and a[0] == '&' and a[1][0] != 'al':
                    try:
                        self.store(st, a, ('K', inst.def_))
                    except Undecided:
                        pass
            return self.finish_call(st, t, ('K', inst.def_))
        return self.push_frame(st, inst, args, t[3], t[4])

    def ctor(self, caller, t, inst):
        """(adt, variant) when inst is the constructor of a tuple struct or variant"""
        d = self.place_ty(caller, t[3])
        if d is None or self.P.types[d].k != 'adt':
            return None
        ty = self.P.types[d]
        for i, v in enumerate(ty.d['variants']):
            if inst.def_ in (ty.name + '::' + v['name'], ty.name) and (ty.d['adt'] == 'enum' or inst.def_ == ty.name):
                return ty.name, i
        return None

    def panic_call(self, st, inst):
        what = inst.def_.split('::')[-1]
        if any(x in inst.def_ for x in ('panic', 'unwrap_failed', 'expect_failed', 'slice_index', 'unreachable', 'handle_error', 'assert_failed')):
            self.panic_site(st, what, True)

    # ---- nonterminals ---------------------------------------------------------------------------
    def res_types(self, ty):
        t = self.P.types[ty]
        if t.k == 'adt' and t.name == RESULT:
            return t.d['args']
        return None

    def kind_ok(self, k, ty):
        t = self.P.types[ty]
        if k in INTS:
            return t.s == {'s33': 'i64'}.get(k, k)
        if k.startswith('list:'):
            if t.name != 'std::vec::Vec':
                return False
            ek = self.G.kinds(k[5:], None)
            if len(ek) == 1:
                return self.kind_ok(ek[0], t.d['args'][0])
            return self.priv(self.P.types[t.d['args'][0]])
        if k.startswith('vec:'):
            return t.name == 'std::vec::Vec' and (self.P.types[t.d['args'][0]].name or '').split('::')[-1] == k[4:]
        if k == 'lanes16':
            return t.k == 'array' and t.d['len'] == 16 and (self.P.types[t.d['elem']].name or '').split('::')[-1] == 'LaneIdx'
        if k == 'bytes':
            return t.name == 'std::vec::Vec' and self.P.types[t.d['args'][0]].s == 'u8'
        if k == 'String':
            return t.name == 'std::string::String'
        if k in ('f32', 'f64'):
            return t.s == k
        if k == 'raw16':
            return t.s == '[u8; 16]'
        if k.startswith('='):
            return True
        return t.k == 'adt' and t.name is not None and t.name.startswith('wadec') and t.name.split('::')[-1] == k

    def priv(self, t):
        return t.k == 'tuple' and len(t.d['elems']) > 1 or (t.k == 'adt' and t.name.startswith('wadec::decode'))

    def compat(self, okty, X):
        kinds = self.G.kinds(X, None)
        tags = self.G.tags(X)
        t = self.P.types[okty]
        if not tags and len(kinds) == 1 and self.kind_ok(kinds[0], okty):
            return 'direct'
        priv = self.priv(t)
        if t.k == 'tuple' and not t.d['elems'] and not tags and not kinds:
            return 'direct'
        if priv and (tags or len(kinds) != 1):
            return 'template'
        if priv and len(kinds) == 1 and t.k == 'adt':
            return 'template'
        if t.k == 'adt' and t.name == OPTION and tags:
            return 'template'
        return None

    def fkey(self, inst, args, skip):
        fs = []
        for i, a in enumerate(args):
            if i == skip:
                continue
            fs.append(self.fname(a))
        return (inst.def_, self.nonreader(inst), tuple(fs))

    def fname(self, a):
        if a[0] == 'F':
            j = self.P.types[a[1]].d.get('inst')
            return self.P.insts[j].def_ + self.nonreader(self.P.insts[j]) if j is not None else str(a[1])
        return self.P.types[a[1]].s.split('<')[0] + str(self.P.types[a[1]].d.get('def', a[1])) + ''.join(self.fname(x) for x in a[2])

    def nonreader(self, inst):
        out = []
        for a in inst.args:
            s = self.P.types[a].s if isinstance(a, int) else str(a)
            if 'AbsReader' not in s:
                out.append(s)
        return '<' + ','.join(out) + '>'

    def nt_shape(self, st, inst, args):
        """index of the only reader argument when the rest carries no data"""
        if inst.blocks is None or 'wadec' not in inst.def_:
            return None
        ri = None
        for i, a in enumerate(args):
            if isinstance(a, int):
                return None
            if dataless(a):
                continue
            if a[0] in ('&', 'RD', 'A') and self.is_reader(st, a):
                if ri is not None:
                    return None
                ri = i
                continue
            return None
        return ri

    def try_nt(self, st, t, inst, args):
        ri = self.nt_shape(st, inst, args)
        if ri is None:
            return None
        rt = inst.locals[0]
        res = self.res_types(rt)
        if res is None:
            return None
        okty, errty = res[0], res[1]
        rdr = self.reader(st, args[ri])
        if rdr[0] == 'rd' and rdr[2]:
            self.by_itself(st, inst, args, ri, okty, len(rdr[2]))
            return None
        if rdr[0] != 'rd':
            return None
        if st.sink is not None:
            if any(f.inst.def_ == inst.def_ and self.nonreader(f.inst) == self.nonreader(inst) for f in st.fr):
                self.stats['deep'].add(inst.def_)
            return self.nt_sink(st, t, inst, okty, errty)
        if st.final is not None:
            return None
        op = self.spec_op(st)
        if op[0] == 'head':
            st.sp[-1].pc += 1
            return [('go', s) for s in self.run_spec(st)]
        if op[0] == 'rd':
            r = self.demand(st)
            if r is not None:
                return [('go', s) for s in r]
        if op[0] == 'call' and st.unread:
            return [('go', s) for s in self.demand(st)]
        if op[0] != 'call':
            return None
        # which rule on the grammar's leading calls fits the type
        sim = st.copy()
        for _ in range(8):
            op = self.spec_op(sim)
            if op is None or op[0] != 'call':
                return None
            X = op[2]
            mode = self.compat(okty, X)
            if mode:
                key = (self.fkey(inst, args, ri), X)
                rec = self.nt_get(key, inst, X, args, ri, mode)
                if rec['ok']:
                    return self.nt_apply(sim, t, inst, X, rec, rdr, errty)
                n = self.inlined.get((self.cur, key), 0)
                if rec['state'] == 'run':
                    raise Undecided('%s calls itself for %s' % (inst.def_, self.G.rname(X)))
                if n >= 2 and not rec['refuted'] or n >= 40:
                    rec['blocked'] = True
                    raise Undecided('%s does not follow %s' % (inst.def_, self.G.rname(X)))
                # not this rule by itself: look at it in context
                if rec not in self.cur.inl:
                    self.cur.inl.append(rec)
            else:
                key = None
            if key is not None and not self.G.leads_call(X):
                self.inlined[(self.cur, key)] = self.inlined.get((self.cur, key), 0) + 1
                return None
            args_ = [self.ev_(sim, a) for a in op[3]]
            self.spec_push(sim, op[2], args_, op[1])
            r = self.run_spec(sim)
            if len(r) != 1:
                return None
            sim = r[0]
        return None

    def by_itself(self, st, inst, args, ri, okty, n):
        """a function called on a reader with bytes put back in front is followed in its place, but is also looked
        at by itself, so that a fault of its own is told from one of its caller"""
        if st.sink is not None or st.final is not None or len(st.unread) != n:
            return
        X = self.spec_op(st)
        if X is None or X[0] != 'call':
            return
        X = X[2]
        mode = self.compat(okty, X)
        if mode:
            rec = self.nt_get((self.fkey(inst, args, ri), X), inst, X, args, ri, mode)
            if not rec['ok'] and rec['state'] != 'run' and rec not in self.cur.inl:
                self.cur.inl.append(rec)

    def nt_sink(self, st, t, inst, okty, errty):
        self.stats['ntcalls'] += 1
        self.next_tok(st)
        nm = ('x', self.cur.name, self.evname(st), inst.def_)
        out = []
        s = st.copy()
        out += self.fin(s, t, ok_(sym((nm, okty), okty)))
        s = st.copy()
        e = sym((nm, 'err', errty), errty)
        s.failed(e)
        out += self.fin(s, t, err_(e))
        return out

    def nt_apply(self, st, t, inst, X, rec, rdr, errty):
        """take the call as one transition: it does what rule X says"""
        self.check_windows(st, rdr[1])
        self.stats['ntcalls'] += 1
        op = self.spec_op(st)
        sargs = [self.ev_(st, a) for a in op[3]]
        self.next_tok(st)
        nm = ('nt', self.cur.name, self.evname(st), self.G.rname(X))
        out = []
        temps = rec['temps']
        if rec['mode'] == 'template' and None in temps and isinstance(X, str):
            W.elt.setdefault(X, temps[None])
        for tag, T in sorted(temps.items(), key=str):
            s = st.copy()
            comps = rule_comps(X, nm if tag is None else (nm, tag), tag)
            s.trace = s.trace + (self.G.rname(X) + (':' + tag if tag else ''),)
            v = instantiate(T, comps)
            self.bind(s, op[1], self.G.rname(X), tag, comps)
            s.passed = s.passed | {X}
            for s2 in self.run_spec(s):
                out += self.fin(s2, t, ok_(v))
        if True:
            s = st.copy()
            e = sym((nm, 'err', errty), errty)
            s.failed(e)
            s.trace = s.trace + ('failure in ' + self.G.rname(X),)
            s.sink = ('nt', 'failure in ' + self.G.rname(X), self.props(s), tuple(f.rule.name for f in s.sp) + (self.G.rname(X),))
            out += self.fin(s, t, err_(e))
        return out

    def nt_get(self, key, inst, X, args, ri, mode):
        rec = self.nt.get(key)
        if rec is not None and rec['state'] == 'run':
            self.stats['deep'].add(inst.def_)
        if rec is None:
            rec = self.nt[key] = dict(state='run', temps={}, ok=True, mode=mode, refuted=False, depth=0, X=X, inst=inst, key=key)
            self.verify(key, inst, X, args, ri, mode, rec)
        return rec

    def arg_value(self, st, ty, cell):
        """a reader argument of that type"""
        t = self.P.types[ty]
        if t.k == 'ref':
            inner = self.P.types[t.d['to']]
            if inner.k == 'ref':
                c = self.heap(st, self.arg_value(st, inner.id, cell))
                return ('&', c, ())
            return ('&', cell, ())
        return ('RD', 0)

    def verify(self, key, inst, X, args, ri, mode, rec):
        saved = (self.cur, self.viol, self.und)
        unit = Unit(self, inst, X, mode)
        unit.t0 = time.time()
        rounds = 0
        while True:
            rounds += 1
            self.cur = unit
            self.viol, self.und = [], []
            unit.acc = {}
            unit.seen = []
            st = self.initial(inst, args, ri, X)
            unit.inl = []
            for k in [k for k in self.inlined if k[0] is unit]:
                del self.inlined[k]
            try:
                self.explore(self.start(st, inst, args, ri))
            except Stop as ex:
                self.und.append((unit.name, str(ex), st.loc, inst.def_, ()))
            if mode == 'template':
                new = {tag: tfinish(x) for tag, x in unit.acc.items()}
            else:
                new = {None: ('H', 0)} if unit.acc else {}
                if not self.G.kinds(X, None):
                    new = {None: ('T', ())} if unit.acc else {}
            if new == rec['temps'] or rounds > 4:
                break
            rec['temps'] = new
        for tag, x in unit.acc.items():
            for path, i in (ttracks(x) if mode == 'template' else ()):
                kinds = self.G.kinds(X, tag)
                fn = kinds[i][1:].split('(')[0] if kinds and i < len(kinds) and kinds[i].startswith('=') else None
                n = len(self.viol)
                self.strays(unit, inst, tag, path, i, FACTS.get(fn))
                if fn in FACTS:
                    # a fact about the other parts of the result: its callers are looked at as if it were right
                    self.final += self.viol[n:]
                    del self.viol[n:]
                    rec['temps'][tag] = plug(rec['temps'][tag], [int(z) for z in path.split('.')[1:]], i)
        if self.viol and self.settled(unit, inst, rec):
            # functions used here have been found to break their rules: with those out of the way
            self.cur, self.viol, self.und = saved
            rec['temps'] = {}
            return self.verify(key, inst, X, args, ri, mode, rec)
        unit.seen = []
        rec['state'] = 'done'
        rec['viol'] = self.viol
        rec['und'] = self.und
        rec['unit'] = unit
        rec['rounds'] = rounds
        if self.viol:
            rec['ok'] = False
            # a function may break the rule it seems to implement by agreement with its caller, so
            # it is looked at again inside its callers; two levels up it is taken for a violation
            bad = [r for r in unit.inl if not r['ok']]
            rec['depth'] = 1 + max([r['depth'] for r in bad] or [-1])
            # a wrong value is the fault of the innermost function that returns a wrong value
            inner = [v for r in bad for v in r['blame'] if v.kind == 'value']
            rec['blame'] = inner + [v for v in self.viol if v.kind != 'value' or not inner]
            g = self.groups.get(inst.def_)
            if rec['depth'] >= 2 or unit.rule.name == 'module' or g and g['final']:
                self.final += rec['blame']
                rec['ok'] = True
        elif not self.und or all('loop' in u[1] for u in self.und):
            for r in unit.inl:
                r['refuted'] = True
                self.groups.setdefault(r['inst'].def_, dict(bad={}, good=False, final=False))['good'] = True
        self.units.append(rec)
        self.cur, self.viol, self.und = saved

    def strays(self, unit, inst, tag, path, i, of=None):
        """part `path` of the result is component i of the grammar's value on some paths and something else on others"""
        done = set()
        at = [int(x) for x in path.split('.')[1:]]
        for tag2, T, val, comps, props, st in unit.seen:
            if tag2 != tag:
                continue
            loc, trace = st.loc, st.trace
            for x in at:
                sub = T[2]
                T, val = (sub[3] if sub[0] == 'A' else sub[1])[x], val[3 if val[0] == 'A' else 1][x]
            if i in T[4]:
                want = comps[i]
                props = of or self.parts(st.ctx, val, want, props or unit.rule.props)
                if props in done:
                    continue
                done.add(props)
                v = Violation(props, 'value', 'part %s of the result is %s, expected %s' % (path, show(val), show(want)), loc,
                              unit.name, trace, inst.def_)
                v.plain = all(isinstance(z, tuple) and z[0] == 'A' for z in (val, want)) and val[1] == want[1] and 'wadec' in val[1]
                self.viol.append(v)
        if not done:
            self.viol.append(Violation(of or unit.rule.props, 'value', 'part %s of the result does not always carry component %d of %s' % (
                path, i, unit.name), (inst.file().split('/repo/')[-1], int(inst.at.rsplit(':', 1)[1].split('-')[0])), unit.name, (), inst.def_))

    def settled(self, unit, inst, rec):
        """a function (all its instances) that breaks its rule in two callers, and in none of those looked at does not"""
        kinds = {v.kind for v in self.viol}
        new = False
        for r in unit.inl:
            if r['ok'] or r['inst'].def_ == inst.def_ or not kinds & {v.kind for v in r['viol']}:
                continue
            g = self.groups.setdefault(r['inst'].def_, dict(bad={}, good=False, final=False))
            g['bad'].setdefault(inst.def_, rec)
            if g['good'] or g['final'] or len(g['bad']) < 2:
                continue
            g['final'] = new = True
            for x in list(self.nt.values()):
                if x['state'] == 'done' and not x['ok'] and x['inst'].def_ == r['inst'].def_:
                    self.final += x['blame']
                    x['ok'] = True
            for k, x in list(self.nt.items()):
                # callers looked at with it are looked at again
                if x['state'] == 'done' and not x['ok'] and x['inst'].def_ in g['bad'] and x is not rec:
                    del self.nt[k]
        return new

    def initial(self, inst, args, ri, X):
        st = State.__new__(State)
        st.fr = []
        st.mem = {}
        st.ctx = Ctx()
        st.sp = []
        st.wins = ()
        st.final = None
        st.unread = ()
        st.tok = ('tok', 'start', 0)
        st.sink = None
        st.ended = False
        st.dry = None
        st.ev = 0
        st.lasterr = None
        st.loops = ()
        st.trace = ()
        st.loc = (inst.file().split('/repo/')[-1], 0)
        st.nheap = 0
        st.ret = None
        st.inl = frozenset()
        st.steps = 0
        st.passed = frozenset()
        st.short = False
        st.intr = False
        st.glast = st.last = None
        return st

    def start(self, st, inst, args, ri):
        c = self.heap(st, ('RD', 0))
        X = self.cur.X
        self.spec_push(st, X, [], None)
        vals = []
        for i, a in enumerate(args):
            vals.append(self.arg_value(st, inst.locals[i + 1], c) if i == ri else a)
        out = []
        for s in self.run_spec(st):
            l = self.push_frame(s, inst, vals, None, None)
            if l is not None:
                self.arrive(s, l)
            out.append(s)
        return out

    def root(self, inst, X):
        """analyse the entry point"""
        args = [('RD', 0) if self.P.types[inst.locals[1]].k != 'ref' else ('&', ('h', 1), ())]
        key = (self.fkey(inst, args, 0), X)
        mode = self.compat(self.res_types(inst.locals[0])[0], X) or 'direct'
        rec = self.nt_get(key, inst, X, args, 0, mode)
        # a function that is wrong together with a caller, where what that caller's callers make of
        # it could not be followed to the end
        # (so is one that returns a wrong value after reading exactly what it should, or takes what is invalid)
        for r in self.units:
            if r['ok'] or r['refuted'] or not r.get('blame'):
                continue
            users = [q for q in self.units if r in q['unit'].inl]
            if any(not q['ok'] or q['viol'] for q in users if q is not r):
                continue
            if r['depth'] >= 1:
                self.final += r['blame']
            elif r.get('blocked'):
                self.final += [v for v in r['blame'] if v.kind == 'value' and (r['mode'] == 'direct' or v.plain) or
                               v.kind == 'accepts-invalid' and r['unit'].rule.props]
        # so is one that ends early or takes what is invalid for each of the rules it is used for, in callers none of
        # which makes up for it
        by = {}
        for r in self.units:
            by.setdefault(r['inst'].def_, []).append(r)
        for d, rs in by.items():
            g = self.groups.get(d)
            if g and (g['good'] or g['final']) or any(r['ok'] or r['refuted'] or not r.get('blame') for r in rs):
                continue
            if len({r['unit'].name for r in rs}) >= 3 and len({v.kind for r in rs for v in r['viol']} & {'under-read', 'accepts-invalid'}) == 1 and \
                    all(r['unit'].name.startswith('list(') and {v.kind for v in r['viol']} <= {'under-read', 'accepts-invalid'} for r in rs):
                for r in rs:
                    self.final += r['blame']
        # where a caller was found wrong, so is what it was looked at together with, unless that was right elsewhere
        found = {id(v) for v in self.final}
        todo = [r for r in self.units if any(id(v) in found for v in r['viol'])]
        while todo:
            for r in todo.pop()['unit'].inl:
                g = self.groups.get(r['inst'].def_)
                if r['ok'] or r['refuted'] or not r.get('blame') or g and g['good']:
                    continue
                r['ok'] = True
                self.final += [v for v in r['blame'] if id(v) not in found]
                found |= {id(v) for v in r['blame']}
                todo.append(r)
        # what an error is returned for elsewhere is what it wrongly says here
        says = {}
        for k, p in self.stats['says']:
            says.setdefault(k, set()).add(p)
        for v in self.final:
            if v.kind == 'rejects-valid' and 0 < len(says.get(v.says, ())) <= 2:
                v.props = tuple(dict.fromkeys(v.props + tuple(sorted(says[v.says]))))
        # a list decoder for one kind of element only is part of that element's section
        for v in self.final:
            if v.unit.startswith('list('):
                of = {r['unit'].name for r in self.units if r['inst'].def_ == v.fn}
                r = self.G.rules.get(v.unit[5:-1])
                if of == {v.unit} and r is not None:
                    v.props = tuple(dict.fromkeys(v.props + tuple(r.props)))
        return rec

    # ---- ends of paths --------------------------------------------------------------------------
    def leaf(self, st):
        self.stats['leaves'] += 1
        v = st.ret
        unit = self.cur
        self.count(st, unit)
        if unit.mode == 'pred':
            unit.rets.append(st)
            return
        if v[0] == 'V':
            for s, d in self.split_int(st, discr(v), [0, 1]):
                s.ret = known(v, d)
                self.leaf(s)
            return
        if v[0] != 'A' or v[1] != RESULT:
            raise Undecided('result is %s' % (v[0],))
        if v[2] == 1:
            says = self.says(v[3][0])
            if st.sink is not None:
                if says and st.sink[0] == 'spec' and not st.short:
                    self.stats['says'] |= {(says, p) for p in st.sink[2]}
                self.check_cause(st, v[3][0])
                self.check_payload(st, v[3][0])
                return
            r = self.settle(st)
            for s in r:
                if s.sink is not None:
                    if says and s.sink[0] == 'spec' and not s.short:
                        self.stats['says'] |= {(says, p) for p in s.sink[2]}
                    self.check_cause(s, v[3][0])
                    self.check_payload(s, v[3][0])
                    continue
                n = len(self.viol)
                self.report(s, self.begun(s) if s.final is None else unit.rule.props, 'rejects-valid',
                            'returns %s on input the format accepts so far (%s)' % (show(v[3][0]), self.where(s)))
                for x in self.viol[n:]:
                    x.says = says if not s.short else None
            return
        val = v[3][0]
        if ANY in st.trace:
            # what the list holds is not known
            for s in self.settle(st) if st.sink is None else ():
                if s.sink is None and s.final is None:
                    self.report(s, self.begun(s), 'under-read', 'returns Ok before reading %s' % self.where(s))
            return
        if st.sink is not None:
            if st.sink[0] == 'io' or st.sink[0] == 'nt':
                self.report(st, tuple(dict.fromkeys(('C24',) + tuple(self.begun(st)))), 'swallowed', 'returns Ok after %s' % st.sink[1])
            else:
                self.report(st, st.sink[2], 'accepts-invalid', 'returns Ok although: %s' % st.sink[1])
            return
        for s in self.settle(st):
            if s.sink is not None:
                self.report(s, s.sink[2], 'accepts-invalid', 'returns Ok although: %s' % s.sink[1])
                continue
            if s.final is None and s.sp and self.spec_op(s)[:1] == ('rd',) and self.spec_op(s)[2] == 'rest' and (
                    s.wins or s.sp[-1].env.get('@rest') is not None):
                if decide(s.ctx, cond_eq(s.ctx, self.rest_rem(s), 0)) == 1:
                    self.end_block(s, ())
                    s = self.run_spec(s)[0]
                    if s.sink is not None:
                        raise Undecided('rest of a limit')
            if s.final is None:
                self.report(s, self.begun(s), 'under-read', 'returns Ok before reading %s' % self.where(s))
                continue
            if s.unread:
                self.report(s, self.props(s) or unit.rule.props, 'over-read', 'has read past the end of %s' % unit.name)
                continue
            self.note_accept(s, val)
            self.compare(s, val)

    def says(self, e):
        """the kind of an error that the decoder makes itself; None when it hands on another"""
        if e[0] != 'A' or not e[1].startswith('wadec'):
            return None
        for x in e[3]:
            if isinstance(x, tuple) and (x[0] == 'V' or x[0] == 'A' and 'Error' in x[1]):
                x = self.says(x) if x[0] == 'A' else None
                return x
        return '%s.%s' % (e[1], e[2])

    def count(self, st, unit):
        """one more path class on which the code and the grammar were compared"""
        if unit.mode == 'pred':
            ps = ('C22',)
        elif st.sink is not None:
            ps = st.sink[2]
        elif st.final is not None:
            ps = st.final[3]
        else:
            ps = unit.rule.props
        for p in set(ps):
            c = self.cover.setdefault(p, {})
            k = (unit.name, unit.inst.def_)
            c[k] = c.get(k, 0) + 1
            if len(self.samples.setdefault(p, [])) < 6 and c[k] <= 2:
                self.samples[p].append('%s as %s: %s -> %s' % (unit.inst.def_, unit.name, ' '.join(str(t) for t in st.trace[-6:]) or '-',
                                       ('rejected: ' + st.sink[1]) if st.sink else 'accepted'))
        if st.lasterr is not None and st.sink is not None:
            c = self.cover.setdefault('C31', {})
            k = (unit.name, unit.inst.def_)
            c[k] = c.get(k, 0) + 1

    def where(self, st):
        if st.final is not None:
            return 'end of ' + st.final[2]
        op = self.spec_op(st)
        r = st.sp[-1].rule
        if op and op[0] == 'call':
            return '%s of %s' % (self.G.rname(op[2]), r.name)
        return 'the next byte of %s' % r.name

    def settle(self, st):
        """follow the grammar as far as it goes without input"""
        out = []
        work = [st]
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > 500:
                raise Undecided('grammar does not settle')
            r = self.demand(s)
            if r is not None:
                work += r
                continue
            op = self.spec_op(s)
            if op is not None and op[0] == 'rd' and op[2] == 'bytes' and not s.unread:
                rem = self.block_rem(s)
                if decide(s.ctx, cond_eq(s.ctx, rem, 0)) is None:
                    for s2, z in self.split(s, cond_eq(s.ctx, rem, 0)):
                        if z:
                            work.append(s2)
                        else:
                            out.append(s2)
                    continue
            out.append(s)
        return out

    def compare(self, st, val):
        unit = self.cur
        tag, comps, _, props = st.final
        if unit.mode == 'direct':
            if not comps:
                unit.acc[None] = True
                return
            unit.acc[None] = True
            self.compare_value(st, val, comps[0], unit.rule, props)
            return
        T = template(st.ctx, val, comps)
        unit.seen.append((tag, T, val, comps, props, st))
        old = unit.acc.get(tag)
        unit.acc[tag] = T if old is None else tmerge(old, T)

    def compare_value(self, st, val, want, rule, props):
        fp = rule.opts.get('field_props')
        if fp and val[0] == 'A' and want[0] == 'A' and val[1] == want[1]:
            names = [f[0] for f in self.P.adts[val[1]][0].d['variants'][0]['fields']]
            for n, a, b in zip(names, val[3], want[3]):
                self.cmp1(st, a, b, tuple(fp.get(n, props)), n)
            return
        self.cmp1(st, val, want, props, None)

    def parts(self, ctx, a, b, props):
        """props, and those of the rules that give the parts in which a differs from b"""
        out = list(props)
        work = [(a, b)]
        while work:
            a, b = work.pop()
            if not (isinstance(a, tuple) and isinstance(b, tuple)) or vdiff(ctx, a, b) is False:
                continue
            if a[0] == b[0] == 'A' and a[1:3] == b[1:3]:
                work += zip(a[3], b[3])
                continue
            if a[0] == b[0] == 'T':
                work += zip(a[1], b[1])
                continue
            todo = [b]
            while todo:
                x = todo.pop()
                if not isinstance(x, tuple):
                    continue
                if len(x) >= 4 and x[0] == 'nt':
                    r = self.G.rules.get(x[3])
                    for p in (r.props if r is not None else ()):
                        if p not in out:
                            out.append(p)
                    continue
                todo += list(x)
        return tuple(out)

    def cmp1(self, st, a, b, props, name):
        d = vdiff(st.ctx, a, b)
        if d:
            props = self.parts(st.ctx, a, b, props)
            self.report(st, props, 'value', 'result%s is %s, expected %s' % (' field ' + name if name else '', show(a), show(b)))
        elif d is None:
            self.undecided(st, 'result%s: %s against %s' % (' field ' + name if name else '', show(a), show(b)))

    def check_cause(self, st, e):
        """the error that ended decoding is part of the error that is returned"""
        le = st.lasterr
        if le is None:
            return
        self.stats.setdefault('causes', 0)
        self.stats['causes'] += 1
        if any(self.has_part(e, x) for x in le):
            return
        if self.opaque(e):
            self.undecided(st, 'error value')
            return
        read = any(isinstance(x, tuple) and x[0] == 'V' and x[1][0] == 'ioerr' for x in le)
        self.report(st, ('C31', 'C24') if read else ('C31',), 'cause', 'the returned error %s does not carry the failure that caused it (%s)' % (show(e), show(le[-1])))

    def note_reject(self, st, e):
        """which values of the input make the decoder return this error"""
        if not isinstance(e, tuple) or e[0] != 'A' or 'wadec' not in e[1]:
            return
        for x in e[3]:
            if isinstance(x, tuple) and x[0] == 'A':
                self.note_reject(st, x)
        ints = [norm(st.ctx, x) for x in e[3] if is_int(x)]
        if len(ints) == 1 and len(e[3]) == 1:
            x = ints[0]
            if isinstance(x, int):
                self.stats['rejects'].add((e[1], e[2], self.cur.name, None, ((x, x),)))
            elif x[0] == 'y':
                self.stats['rejects'].add((e[1], e[2], self.cur.name, x[1], tuple(st.ctx.domain(x[1]))))
            else:
                self.stats['rejects'].add((e[1], e[2], self.cur.name, None, None))

    def note_accept(self, st, val):
        if len(self.stats['accepts']) > 5000:
            return
        names = set()

        def walk(v):
            if isinstance(v, tuple) and v and v[0] == 'A':
                if 'wadec' in v[1]:
                    names.add(self.P.adts[v[1]][0].d['variants'][v[2]]['name'])
                for f in v[3]:
                    walk(f)
        walk(val)
        l = tuple(sorted(((a, k) for a, k in st.ctx.sub.items() if isinstance(k, int)), key=str))
        self.stats['accepts'].add((self.cur.name, l[:40], frozenset(names)))

    def check_payload(self, st, e):
        """the values an error reports are those the input has"""
        from payload import check
        self.note_reject(st, e)
        for what, got, want in check(self, st, e):
            self.stats['payload'] = self.stats.get('payload', 0) + 1
            c = self.cover.setdefault('C32', {})
            k = (self.cur.name, self.cur.inst.def_)
            c[k] = c.get(k, 0) + 1
            l = self.samples.setdefault('C32', [])
            if len(l) < 10 and c[k] <= 2:
                l.append('%s of an error of %s is %s' % (what, self.cur.inst.def_, show(got)))
            d = vdiff(st.ctx, got, want)
            if d:
                self.report(st, ('C32',), 'reported value', '%s is %s, but the input has %s' % (what, show(got), show(want)))
            elif d is None:
                self.undecided(st, '%s: %s against %s' % (what, show(got), show(want)))

    def has_part(self, v, x):
        if v == x:
            return True
        if isinstance(v, tuple):
            if v[0] == 'A':
                return any(self.has_part(f, x) for f in v[3])
            if v[0] in ('T', 'R'):
                return any(self.has_part(f, x) for f in v[1])
        return False

    def opaque(self, v):
        if not isinstance(v, tuple):
            return False
        if v[0] == 'K':
            return True
        if v[0] == 'A':
            return any(self.opaque(f) for f in v[3])
        if v[0] == 'T':
            return any(self.opaque(f) for f in v[1])
        return v[0] in ('Bx', 'C')

    # ---- predicates over instructions -----------------------------------------------------------
    def pred_rec(self, inst):
        """variants of Instruction for which this predicate is not `refers to a data segment`; None: not one"""
        if inst in self.preds:
            if inst is self.predrun:
                self.stats['deep'].add(inst.def_)
            return self.preds[inst]
        self.preds[inst] = None
        na = 2 if inst.closure else 1
        if inst.blocks is None or inst.argc != na or self.P.types[inst.locals[0]].k != 'bool':
            return None
        rt = self.P.types[inst.locals[na]]
        if rt.k != 'ref' or not self.P.types[rt.d['to']].name == self.adt_full('Instruction'):
            return None
        ty = self.P.types[rt.d['to']]
        if inst.closure and self.P.types[inst.locals[1]].k == 'ref':
            pass
        bad = set()
        outer, self.predrun = self.predrun, inst
        self.preds[inst] = bad        # recursive calls may rely on the answer: induction on the depth
        import specfn
        saved = (self.cur, self.viol, self.und)
        nm = ('pred', inst.def_)
        VT[nm] = ty.id
        for d in range(len(ty.d['variants'])):
            u = Unit.__new__(Unit)
            u.t0 = time.time()
            u.inl = []
            u.name, u.acc, u.mode, u.X, u.inst = 'predicate ' + inst.def_, {}, 'pred', None, inst
            self.cur = u
            self.viol, self.und = [], []
            v = known(('V', nm), d)
            st = self.initial(inst, [], 0, None)
            c = self.heap(st, v)
            env = ('C', inst.ty, ()) if inst.closure else None
            a = [('&', self.heap(st, env), ()) if self.P.types[inst.locals[1]].k == 'ref' else env] if inst.closure else []
            u.rets = []
            ok = True
            try:
                l = self.push_frame(st, inst, a + [('&', c, ())], None, None)
                if l is not None:
                    self.arrive(st, l)
                self.explore([st])
                for s in u.rets:
                    for s2 in self.pred_split(s, v):
                        if vdiff(s2.ctx, s2.ret, norm(s2.ctx, specfn.f_hasdata(self, s2, v))) is not False:
                            ok = False
            except Undecided:
                ok = False
            if not ok or self.und or self.viol:
                bad.add(d)
        self.cur, self.viol, self.und = saved
        self.predrun = outer
        self.stats['preds'] = self.stats.get('preds', 0) + 1
        if len(bad) > 12:
            self.preds[inst] = None
        return self.preds[inst]

    def pred_split(self, s, v):
        for f in v[3]:
            if isinstance(f, tuple) and f[0] == 'V' and self.P.types[VT[f[1]]].name == OPTION:
                return [x for x, _ in self.split_int(s, discr(f), [0, 1])]
        return [s]

    def pred_bad(self, st, inst):
        bad = self.pred_rec(inst)
        if bad and (inst is self.predrun or any(f.inst is inst for f in st.fr)):
            # induction on the depth: inside it, it is right about what is nested
            return set()
        return bad

    def try_pred(self, st, t, inst, args):
        if inst.closure or len(args) != 1 or isinstance(args[0], int) or args[0][0] != '&':
            return None
        bad = self.pred_bad(st, inst)
        if bad is None:
            return None
        import specfn
        try:
            v = self.load(st, args[0])
        except Undecided:
            return None
        if v[0] == 'A':
            if v[2] in bad:
                return None
            return self.fin(st, t, norm(st.ctx, specfn.f_hasdata(self, st, v)))
        if v[0] != 'V':
            return None
        if not bad:
            return self.fin(st, t, norm(st.ctx, specfn.f_hasdata(self, st, v)))
        if st.sink is not None:
            return None
        out = []
        for s, d in self.split_int(st, discr(v), sorted(bad)):
            if d is None:
                out += self.fin(s, t, y(('hasdata', v[1]), 0, 1))
            else:
                self.store(s, args[0], known(v, d))
                l = self.push_frame(s, inst, args, t[3], t[4])
                if l is not None:
                    self.arrive(s, l)
                out.append(('go', s))
        return out

    def generalise(self, states):
        """one more iteration for any number of elements before it, where the loop reads a list"""
        out = []
        for s in states:
            self.undecided(s, 'loop')
            a = self.anycount(s) if s.loops[-1].gid is None and len(out) < 40 else None
            if a is not None:
                out.append(a)
        return out

    def anycount(self, st):
        """the state after any number of iterations, not fewer than there were, when the last ones differ in nothing
        but counters and lists that grow; None when that cannot be told"""
        l = st.loops[-1]
        k = l.count
        f = st.sp[-1] if st.sp else None
        if f is None or len(l.snaps) < 3 or st.sink is not None or st.final is not None or st.short or st.unread:
            return None
        q, p = l.snaps[-3:-1]
        if f.rule.code[f.pc][0] != 'head' or any(len(x.sp) != len(st.sp) or x.sp[-1].pc != f.pc or x.unread or x.sink for x in (p, q)) or \
                not st.ev - p.ev == p.ev - q.ev > 0:
            return None
        cnt = y(('count', self.cur.name, l.eid, k), 0, 2 ** 63 - 1)
        more = sub(cnt, k)
        names = {}

        class No(Exception):
            pass

        def segs(v):
            return v[1] if v[0] == 'L' else tuple(('e', x) for x in v[1])

        def go(z, a, b, n=0):
            if a == b and z == b:
                return b
            if n > 40 or () in (a, b, z):
                raise No
            if is_int(a) and is_int(b) and is_int(z):
                d = norm(st.ctx, sub(b, a))
                if d in (1, -1) and norm(p.ctx, sub(a, z)) == d:
                    names.setdefault(None)
                    return add(b, more if d == 1 else scale(-1, more))
                if isinstance(a, int) or isinstance(b, int) or isinstance(d, int) or a[0] != b[0] or a[0] == 'lin':
                    raise No
                return b                      # something that was read
            if not isinstance(a, tuple) or not isinstance(b, tuple) or not isinstance(z, tuple) or not a or not b or not z:
                raise No
            if a[0] in ('L', 'R') and b[0] in ('L', 'R') and z[0] in ('L', 'R') and a != b:
                x, w, v = segs(b), segs(a), segs(z)
                if len(x) == len(w) + 1 == len(v) + 2 and x[:-1] == w and w[:-1] == v and all(e[0] == 'e' for e in x):
                    m = names.setdefault(x, ('any', self.cur.name, l.eid, k, len(names)))
                    return ('L', (('l', m),))
            if a[0] != b[0] and isinstance(a[0], str):
                raise No
            if a[0] in ('V', 'H', 'l', 'K', 'St', 'fl', 'Bx'):
                return b
            if a[0] in ('&', '&s'):
                if a[1][0] == b[1][0]:
                    return b
                raise No
            if len(a) == len(b) == len(z) and (a[0] in ('A', 'T', 'R', 'L', 'e', 'rec') or not isinstance(a[0], str)):
                return tuple(go(w, x, v, n + 1) for w, x, v in zip(z, a, b))
            raise No
        try:
            mem = {c: go(q.mem[c], p.mem[c], v) if c in p.mem and c in q.mem else v for c, v in st.mem.items()}
            env = {c: go(q.sp[-1].env[c], p.sp[-1].env[c], v) if c in p.sp[-1].env and c in q.sp[-1].env else v for c, v in f.env.items()}
        except No:
            return None
        if not names:
            return None
        s = st.copy()
        s.mem = mem
        s.sp[-1].env = env
        cs = assume(s.ctx, cond_ge(s.ctx, cnt, k), 1)
        if is_int(env.get('i')) and is_int(env.get('n')):
            cs = [c2 for c in cs for c2 in assume(c, cond_ge(c, norm(c, env['n']), norm(c, env['i'])), 1)]
        if len(cs) != 1:
            return None
        s.ctx = cs[0]
        for x, m in names.items():
            if x is not None:
                y(('len', m), 0, 2 ** 63 - 1)
                s.ctx.sub[('len', m)] = add(cnt, len(x) - k)
        l = l.copy()
        l.gid = 'any'
        l.count = 0
        s.loops = s.loops[:-1] + (l,)
        s.trace = s.trace + (ANY,)
        s.tok = ('tok', self.cur.name, 'any', s.tok)
        self.stats['any'] = self.stats.get('any', 0) + 1
        return s


@functools.lru_cache(maxsize=None)
def canon(name):
    """the name of a function of the standard library without its lifetimes"""
    return re.sub(r"&'\w+ ", '&', name)


ANY = 'any number of elements'

# facts that the grammar derives from other parts of a result, and the property they serve
FACTS = {'hasdata': ('C22',)}


def float_eq(ctx, a, b):
    """equality of two floating-point numbers as a condition on their bits; None when it is not that simple"""
    a, b = ('fl', a[1], norm(ctx, a[2])), ('fl', b[1], norm(ctx, b[2]))
    low, inf = (1 << a[1] - 1) - 1, {32: 0x7F800000, 64: 0x7FF0000000000000}[a[1]]

    def mag(x):
        return norm(ctx, bitwise(ctx, '&', x[2], low))
    if a == b:
        return cond_ge(ctx, inf, mag(a))          # only NaN differs from itself
    if isinstance(a[2], int):
        a, b = b, a
    if not isinstance(b[2], int):
        return None
    m = b[2] & low
    if m > inf:
        return 0
    return cond_eq(ctx, a[2], b[2]) if m else cond_eq(ctx, mag(a), 0)


def plug(T, at, i):
    """template T with component i at that position"""
    if not at:
        return ('H', i)
    if T[0] not in ('A', 'T'):
        return T
    xs = list(T[3] if T[0] == 'A' else T[1])
    xs[at[0]] = plug(xs[at[0]], at[1:], i)
    return T[:3] + (tuple(xs),) if T[0] == 'A' else ('T', tuple(xs))


class Unit:
    def __init__(self, eng, inst, X, mode):
        self.inst = inst
        self.X = X
        self.mode = mode
        self.rule = eng.list_rule(X[1]) if isinstance(X, tuple) else eng.G.rules[X]
        self.name = eng.G.rname(X)
        self.acc = {}
