"""Error values: what `source` returns and what `fmt` writes, variant by variant."""
import re
import time
from terms import *
from values import *
from interp import Undecided, Unit, Pruned
from models import sl_value

OK_UNIT = ('A', 'std::result::Result', 0, (('T', ()),))
STD_ERRORS = re.compile(r'^(std|core|alloc)::.*(Error|Err)$')


def is_error(P, ty, errs):
    t = P.types[ty]
    if t.k == 'adt' and t.d.get('box'):
        a = t.d['args'][0]
        return isinstance(a, int) and (is_error(P, a, errs) or P.types[a].k == 'dyn' and 'Error' in P.types[a].s)
    return ty in errs or t.k == 'adt' and bool(STD_ERRORS.match(t.name))


def run_fn(E, inst, mk):
    """the states in which inst, called with the arguments mk(state), returns"""
    saved = (E.cur, E.viol, E.und)
    u = Unit.__new__(Unit)
    u.t0 = time.time()
    u.inl = []
    u.name, u.acc, u.mode, u.X, u.inst = inst.def_, {}, 'pred', None, inst
    u.rets = []
    E.cur = u
    E.viol, E.und = [], []
    try:
        st = E.initial(inst, [], 0, None)
        l = E.push_frame(st, inst, mk(st), None, None)
        if l is not None:
            E.arrive(st, l)
        E.explore([st])
        return u.rets, [x[1] for x in E.und] + [v.msg for v in E.viol]
    except Undecided as x:
        return [], [str(x)]
    finally:
        E.cur, E.viol, E.und = saved


# ---- source ---------------------------------------------------------------------------------------
def source_tap(E, top):
    def tap(st, t, inst, args, defname):
        if inst is not top and inst.def_.endswith('::source') and 'rror' in inst.def_ and len(args) == 1:
            return E.fin(st, t, ('K', ('source', args[0])))
        return NotImplemented
    return tap


def strip(path):
    return [p for p in path if p != '*' and p != ('*',)]


def points_at(v, cell, i):
    """v is a reference to (a part of) field i of the value in cell"""
    return isinstance(v, tuple) and v[0] == '&' and v[1] == cell and len(v[2]) >= 1 and strip(v[2])[0][:1] == ('f',) and strip(v[2])[0][1] == i


def field_of(v, cell):
    if isinstance(v, tuple) and v[0] == '&' and v[1] == cell and v[2]:
        p = [x for x in v[2] if isinstance(x, tuple) and x[0] == 'f']
        return p[0] if p else None
    return None


def variants(E, e):
    ty = E.P.types[e['ty']]
    nm = ('err', e['ty'])
    VT[nm] = ty.id
    for d, v in enumerate(ty.d['variants']):
        yield d, v, known(('V', nm), d)


def results(E, inst, value, tap, extra=()):
    cell = []

    def mk(st):
        cell.append(E.heap(st, value))
        return [('&', cell[0], ())] + [x(st) for x in extra]
    E.tap = tap
    try:
        rets, und = run_fn(E, inst, mk)
    finally:
        E.tap = None
    return cell[0] if cell else None, rets, und


# ---- display --------------------------------------------------------------------------------------
def decode_template(b, args):
    """the pieces of a compiled format string: text or ('hole', how, flags, width, value)"""
    out = []
    i = 0
    nxt = 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(bytes(b[i:i + n]).decode('utf8', 'replace'))
            i += n
        elif n == 0x80:
            k = b[i] | b[i + 1] << 8
            i += 2
            out.append(bytes(b[i:i + k]).decode('utf8', 'replace'))
            i += k
        else:
            flags = width = 0
            if n & 1:
                flags = int.from_bytes(bytes(b[i:i + 4]), 'little')
                i += 4
            if n & 2:
                width = int.from_bytes(bytes(b[i:i + 2]), 'little')
                i += 2
            if n & 4:
                i += 2
            if n & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            a = args[nxt] if nxt < len(args) else ('K', 'argument')
            nxt += 1
            if isinstance(a, tuple) and a[0] == 'K' and isinstance(a[1], tuple) and a[1][0] == 'arg':
                out.append(('hole', a[1][1], flags, width) + a[1][2:])
            else:
                raise Undecided('format argument')
    return out


def deref(E, st, v, n=6):
    while n and isinstance(v, tuple) and v[0] == '&':
        try:
            v = E.load(st, v)
        except Undecided:
            return v
        n -= 1
    return v


def target(E, st, v, n=6):
    """the reference behind references to references"""
    while n and isinstance(v, tuple) and v[0] == '&':
        try:
            x = E.load(st, v)
        except Undecided:
            return v
        if not (isinstance(x, tuple) and x[0] == '&'):
            return v
        v = x
        n -= 1
    return v


def text_value(E, st, v):
    v = deref(E, st, v)
    if isinstance(v, tuple) and v[0] == 'str':
        return v[1]
    if isinstance(v, tuple) and v[0] == '&s':
        try:
            x = E.P.alloc_value(v[1]) if v[1][0] == 'al' else None
        except Exception:
            x = None
        if x and x[0] == 'str':
            return x[1]
    return None


def bytes_value(E, st, v):
    v = deref(E, st, v)
    if isinstance(v, tuple) and v[0] == 'R' and all(isinstance(x, int) for x in v[1]):
        return list(v[1])
    return None


def display_tap(E, top):
    """models of the formatting machinery; what is written is appended to the trace"""
    def wrote(st, t, pieces):
        st.trace = st.trace + tuple(('w', p) for p in pieces)
        return E.fin(st, t, OK_UNIT)

    def tap(st, t, inst, args, defname):
        n = inst.def_
        if n.endswith('Formatter::<\'a>::write_str') or n.endswith("Formatter::<'a>::pad") or n == "std::fmt::Write::write_str":
            s = text_value(E, st, args[1])
            if s is None:
                raise Undecided('text')
            return wrote(st, t, [s])
        if n.endswith("Arguments::<'a>::from_str_nonconst") or n.endswith("Arguments::<'a>::from_str"):
            s = text_value(E, st, args[0])
            if s is None:
                raise Undecided('text')
            return E.fin(st, t, ('K', ('fmt', (s,))))
        if n.endswith("Arguments::<'a>::new"):
            b = bytes_value(E, st, args[0])
            a = deref(E, st, args[1])
            if b is None or not isinstance(a, tuple) or a[0] != 'R':
                raise Undecided('format string')
            return E.fin(st, t, ('K', ('fmt', tuple(decode_template(b, a[1])))))
        if "::rt::Argument::<'_>::new_" in n:
            how = n.rsplit('new_', 1)[1]
            r = target(E, st, args[0])
            return E.fin(st, t, ('K', ('arg', how, r, deref(E, st, r))))
        if n.endswith("Formatter::<'a>::write_fmt"):
            a = args[1]
            if isinstance(a, tuple) and a[0] == 'K' and isinstance(a[1], tuple) and a[1][0] == 'fmt':
                return wrote(st, t, a[1][1])
            raise Undecided('format arguments')
        if n in ('std::fmt::format', 'alloc::fmt::format'):
            return E.fin(st, t, ('K', ('text', args[0])))
        if n in ('std::slice::<impl [T]>::join', 'std::slice::<impl [T]>::concat'):
            sep = text_value(E, st, args[1]) if len(args) > 1 else ''
            L = sl_value(E, st, args[0])
            if sep is None or not isinstance(L, tuple) or L[0] != 'L' or any(x[0] != 'e' for x in L[1]):
                raise Undecided('texts put together')
            ps = []
            for i, x in enumerate(L[1]):
                ps += ([sep] if i and sep else []) + [('hole', 'display', 0, 0, x[1], deref(E, st, x[1]))]
            return E.fin(st, t, ('K', ('text', ('K', ('fmt', tuple(ps))))))
        if inst is not top and n.endswith('::fmt') and len(args) == 2:
            how = 'display' if 'Display' in n else 'debug' if 'Debug' in n else n.split(' as ')[-1]
            r = target(E, st, args[0])
            return wrote(st, t, [('hole', how, 0, 0, r, deref(E, st, r))])
        return NotImplemented
    return tap


def displays(E, inst, value):
    """(cell, [pieces written]) for that value, or None when it cannot be told"""
    fmt = lambda st: ('&', E.heap(st, ('K', 'formatter')), ())
    cell, rets, und = results(E, inst, value, display_tap(E, inst), [fmt])
    if und or not rets:
        return cell, None
    out = []
    for s in rets:
        ps = [x[1] for x in s.trace if isinstance(x, tuple) and x[0] == 'w']
        out.append((s, ps))
    return cell, out


def render(E, st, p, holes=None):
    """text of a piece: constants are written out, other values become \\0"""
    if isinstance(p, str):
        return p
    _, how, flags, width, v, x = p
    if isinstance(x, tuple) and x[0] == 'K' and isinstance(x[1], tuple) and x[1][0] == 'text':
        a = x[1][1]
        if isinstance(a, tuple) and a[0] == 'K' and isinstance(a[1], tuple) and a[1][0] == 'fmt':
            return ''.join(render(E, st, q, holes) for q in a[1][1])
    if isinstance(x, tuple) and x[0] == 'str':
        return x[1]
    if isinstance(x, int) and how in ('display', 'upper_hex', 'lower_hex', 'debug'):
        if 'hex' in how or flags & (3 << 25):
            s = '%X' % x
            return '0x' + s.rjust(2, '0')
        return str(x)
    if how == 'debug' and isinstance(x, tuple) and x[0] == 'A' and not x[3] and isinstance(x[2], int):
        return E.P.name_of(x[1], x[2])
    if holes is not None:
        holes.append((how, v, x))
    return '\0'


# ---- C31: every layer hands on the error it holds --------------------------------------------------
def check_sources(E, R):
    P = E.P
    errs = {e['ty'] for e in P.errors}
    for e in P.errors:
        inst = P.insts[e['source']]
        for d, v, val in variants(E, e):
            held = [i for i, f in enumerate(v['fields']) if is_error(P, f[1], errs)]
            if not held:
                continue
            short = e['name'].rsplit('::', 1)[-1]
            what = short + ('::' + v['name'] if v['name'] != short else '')
            cell, rets, und = results(E, inst, val, source_tap(E, inst))
            if und or not rets:
                R.undecided('source of %s: %s' % (what, und[:1]))
                R.ok()
                continue
            shown = None
            for s in rets:
                r = s.ret
                fs = {x: '%s' % P.types[v['fields'][x][1]].s.rsplit('::', 1)[-1] for x in held}
                names = ', '.join(fs.values())
                if isinstance(r, tuple) and r[0] == 'A' and r[2] == 1:
                    if any(points_at(r[3][0], cell, i) for i in held):
                        R.ok('%s: source() is the %s it holds' % (what, names))
                    elif field_of(r[3][0], cell) is None:
                        R.ok()
                        R.undecided('source of %s' % what)
                    else:
                        R.ok()
                        R.violation('%s: source' % what, '%s: source() does not return the error it holds (%s)' % (what, names))
                elif isinstance(r, tuple) and r[0] == 'A' and r[2] == 0:
                    R.ok()
                    if transparent(E, P, e, val, held, s):
                        R.violation('%s: source' % what, '%s: is displayed as the error it holds (%s), but source() returns nothing: the causes of that error are lost' % (what, names))
                    else:
                        R.violation('%s: source' % what, '%s: source() returns nothing although it holds the error that caused it (%s)' % (what, names))
                elif isinstance(r, tuple) and r[0] == 'K' and isinstance(r[1], tuple) and r[1][0] == 'source':
                    i = next((i for i in held if points_at(r[1][1], cell, i)), None)
                    R.ok()
                    if i is None:
                        R.undecided('source of %s' % what)
                    elif transparent(E, P, e, val, held, s, i) is False:
                        R.violation('%s: source' % what, '%s: source() skips the error it holds (%s), and its own message does not show it' % (what, fs[i]))
                    else:
                        R.samples.append('%s: stands for the %s it holds' % (what, fs[i])) if len(R.samples) < 12 else None
                else:
                    R.ok()
                    R.undecided('source of %s' % what)


def transparent(E, P, e, val, held, st, i=None):
    """the message is that of the error held: True, False or None (cannot tell)"""
    cell, r = displays(E, P.insts[e['display']], val)
    if r is None:
        return None
    for s, ps in r:
        ok = any(not isinstance(p, str) and p[1] == 'display' and any(points_at(p[4], cell, k) for k in (held if i is None else [i])) for p in ps)
        if not ok:
            return False
    return True


# ---- C32: the message shows each value under its own name ------------------------------------------
def check_labels(E, R):
    P = E.P
    for e in P.errors:
        for d, v, val in variants(E, e):
            names = [f[0] for f in v['fields']]
            if not names or names[0].isdigit() or len(names) < 2:
                continue
            short = e['name'].rsplit('::', 1)[-1]
            what = short + '::' + v['name']
            cell, r = displays(E, P.insts[e['display']], val)
            if r is None:
                R.undecided('message of ' + what)
                continue
            for s, ps in r:
                text = ''
                for p in ps:
                    x = render(E, s, p)
                    if x != '\0' or isinstance(p, str):
                        text += x
                        continue
                    f = field_of(p[4], cell)
                    m = re.search(r'([a-z_]+):? *$', text)
                    text += x
                    if f is None or not m:
                        continue
                    w = m.group(1)
                    fits = [n for n in names if n == w or n.startswith(w + '_')]
                    if not fits:
                        continue
                    R.ok('%s: the message shows %s after "%s"' % (what, names[f[1]], w))
                    if names[f[1]] not in fits:
                        R.violation('%s: message' % what, '%s: the message gives the value of `%s` as "%s"' % (what, names[f[1]], w))


# ---- C33: the markers listed in messages -----------------------------------------------------------
NUM = re.compile(r'\[\s*(\d+)\s*,\s*(\d+)\s*\]|(0x[0-9A-Fa-f]+|\b\d+\b)|\(([A-Za-z_]\w*)\)')


def listed(text):
    """({value: label or None}) from `expected ... ; got`"""
    m = re.search(r'\bexpected\b(.*?)(;|$)', text, re.S)
    if not m:
        return None
    vals, pend = {}, []
    for a, b, n, l in NUM.findall(m.group(1)):
        if a:
            for k in range(int(a), int(b) + 1):
                vals[k] = None
                pend.append(k)
        elif n:
            k = int(n, 0)
            vals[k] = None
            pend.append(k)
        else:
            for k in pend:
                vals[k] = l
            pend = []
    return vals


def inside(d, k):
    return any(l <= k <= h for l, h in d)


def check_markers(E, R, undecided_units):
    P = E.P
    rej = {}
    for adt, vi, unit, atom, dom in E.stats['rejects']:
        rej.setdefault((adt, vi), []).append((unit, atom, dom))
    for e in P.errors:
        ty = P.types[e['ty']]
        for d, v, val in variants(E, e):
            if len(v['fields']) != 1:
                continue
            ft = P.types[v['fields'][0][1]]
            short = e['name'].rsplit('::', 1)[-1]
            what = short + ('::' + v['name'] if v['name'] != short else '')
            if ft.k == 'array':
                preamble(E, R, e, what, val)
                continue
            if ft.k not in ('int', 'uint'):
                continue
            cell, r = displays(E, P.insts[e['display']], val)
            if r is None or len(r) != 1:
                R.undecided('message of ' + what)
                continue
            s, ps = r[0]
            holes = []
            text = ''.join(render(E, s, p, holes) for p in ps)
            if not re.search(r'\bexpected\b', text):
                continue
            vals = None
            vals = listed(text)
            if not vals:
                R.undecided('what is listed in the message of ' + what)
                continue
            lo, hi = P.int_range(ft.id)
            rs = rej.get((ty.name, d), [])
            if not rs:
                rs = made(E, e['ty'], d)
            if not rs:
                R.undecided('no path of the decoder returns ' + what)
                continue
            R.ok('%s lists %s' % (what, ', '.join('0x%02X' % k + (' (%s)' % n if n else '') for k, n in sorted(vals.items()))))
            key = '%s: markers' % what
            cover = set()
            whole = True
            for unit, atom, dom in rs:
                if dom is None:
                    whole = False
                    continue
                for k in sorted(vals):
                    R.ok()
                    if inside(dom, k):
                        R.violation(key, '%s: the message lists 0x%02X as expected, but the decoder returns this error for it (in %s)' % (what, k, unit))
                if unit in undecided_units:
                    whole = False
            if whole:
                for k in unlisted(lo, hi, [d for _, _, d in rs]):
                    R.ok()
                    if k not in vals:
                        R.violation(key, '%s: the decoder does not return this error for 0x%02X, but the message does not list it as expected' % (what, k))
            labels(E, R, what, vals, rs)


def made(E, ty, d):
    """for which bytes a function from a byte to a result makes that error, where the decoder discards it"""
    from callgraph import own
    P = E.P
    out = []
    for i in P.insts.values():
        if not i.blocks or i.argc != 1 or P.types[i.locals[1]].k not in ('int', 'uint') or P.int_range(i.locals[1]) != (0, 255):
            continue
        r = P.types[i.locals[0]]
        if r.k != 'adt' or r.name != 'std::result::Result' or r.d['args'][1] != ty or not own(P, i):
            continue
        atom = ('b', 'marker', ty)
        rets, und = run_fn(E, i, lambda st: [y(atom, 0, 255)])
        for s in rets:
            k = norm(s.ctx, y(atom))
            if s.ret[0] == 'A' and s.ret[2] == 0 and isinstance(k, int) and s.ret[3][0][0] == 'A' and s.ret[3][0][1] in P.adts:
                E.stats['accepts'].add((i.def_, ((atom, k),), frozenset([P.name_of(*s.ret[3][0][1:3])])))
            if s.ret[0] == 'A' and s.ret[2] == 1 and s.ret[3][0][0] == 'A' and s.ret[3][0][2] == d:
                x = norm(s.ctx, s.ret[3][0][3][0])
                if isinstance(x, int):
                    out.append((i.def_, None, ((x, x),)))
                elif x[0] == 'y':
                    out.append((i.def_, atom, tuple(s.ctx.domain(x[1]))))
        if und:
            out.append((i.def_, None, None))
    return out


def unlisted(lo, hi, doms):
    """the values that no domain holds, if few"""
    pts = sorted(x for d in doms for x in d)
    out, at = [], lo
    for l, h in pts:
        if l > at:
            out.append((at, l - 1))
        at = max(at, h + 1)
    if at <= hi:
        out.append((at, hi))
    if sum(h - l + 1 for l, h in out) > 64:
        return [l for l, h in out][:64]
    return [k for l, h in out for k in range(l, h + 1)]


def labels(E, R, what, vals, rs):
    """the name given to a value is that of what the decoder makes of it"""
    for unit, atom, _ in rs:
        if atom is None:
            continue
        got = {}
        for u, known_, names in E.stats['accepts']:
            if u == unit:
                for a, k in known_:
                    if a == atom and k in vals:
                        got.setdefault(k, []).append(names)
        for k, sets in got.items():
            l = vals[k]
            if not l:
                continue
            R.ok()
            fits = lambda n: n.lower().startswith(l.lower()[:4]) or l.lower().startswith(n.lower()[:3])
            others = {x for x in vals.values() if x and x != l}
            if not any(fits(n) for ns in sets for n in ns):
                wrong = [n for ns in sets for n in ns if any(n.lower().startswith(x.lower()[:3]) for x in others)]
                if wrong:
                    R.violation('%s: label' % what, '%s: the message calls 0x%02X "%s", but the decoder takes it as %s' % (what, k, l, ', '.join(sorted(set(wrong)))))


def preamble(E, R, e, what, val):
    cell, r = displays(E, E.P.insts[e['display']], val)
    if r is None:
        R.undecided('message of ' + what)
        return
    for s, ps in r:
        text = ''
        for p in ps:
            x = None if isinstance(p, str) else p[5]
            if x is not None and x[0] == 'R' and all(isinstance(b, int) for b in x[1]):
                if 'expected' in text:
                    R.ok('%s expects %s' % (what, ' '.join('%02X' % b for b in x[1])))
                    if list(x[1]) != [0, 0x61, 0x73, 0x6d, 1, 0, 0, 0]:
                        R.violation('%s: markers' % what, '%s: the message expects %s' % (what, list(x[1])))
            text += render(E, s, p)
