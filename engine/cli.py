"""The command-line tool: every path of main, with what it opens, decodes, writes and how it ends."""
from terms import *
from values import *
from interp import Undecided, UNIT
import errors
from errors import deref, display_tap

RESULT = 'std::result::Result'
OPTION = 'std::option::Option'
CHAIN = 12                    # error chains are followed up to this many causes

# what fails when the input cannot be had
INPUTS = ('patharg::', 'std::fs::', '<std::fs::', 'std::io::', '<std::io::', '<either::', 'either::', 'wadec::decode', 'core::io::')
PANICS = ('panic', 'unwrap_failed', 'expect_failed', 'slice_index', 'assert_failed', 'handle_error')


def contains(v, pred, n=0):
    if n > 40:
        return False
    if isinstance(v, tuple):
        if v and pred(v):
            return True
        return any(contains(x, pred, n + 1) for x in v)
    return False


def opened(st, E, v):
    """what the value is made of, references followed"""
    seen = set()

    def go(x, n):
        if n > 12 or not isinstance(x, tuple):
            return x
        if x and x[0] in ('&', '&s', 'Bx') and x not in seen:
            seen.add(x)
            try:
                return ('ref', go(E.cell_get(st, x[1]) if x[0] == 'Bx' else E.load(st, x), n + 1))
            except Exception:
                return x
        return tuple(go(y, n + 1) for y in x)
    return go(v, 0)


def stream_of(v):
    if contains(v, lambda x: x[0] == 'K' and isinstance(x[1], tuple) and x[1][0] == 'call' and x[1][1].startswith('std::io::stdout')):
        return 'stdout'
    if contains(v, lambda x: x[0] == 'K' and isinstance(x[1], tuple) and x[1][0] == 'call' and x[1][1].startswith('std::io::stderr')):
        return 'stderr'
    return None


def buffered(v):
    return contains(v, lambda x: x[0] == 'K' and isinstance(x[1], tuple) and x[1][0] == 'call' and 'BufWriter' in x[1][1])


def cli_value(E, inst, t):
    """the parsed arguments: one variant for each combination of its flags"""
    ty = E.place_ty(inst, t[3])
    T = E.P.types[ty]
    if T.k == 'adt' and T.name == RESULT:
        T = E.P.types[T.d['args'][0]]
    if T.k != 'adt' or not T.name.startswith('wadec'):
        return None, None
    outs = [[]]
    names = []
    for f in T.d['variants'][0]['fields']:
        names.append(f[0])
        if E.P.types[f[1]].s == 'bool':
            outs = [o + [x] for o in outs for x in (0, 1)]
        else:
            outs = [o + [('K', ('arg-value', f[0]))] for o in outs]
    return names, [('A', T.name, 0, tuple(o)) for o in outs]


def tap(E, top):
    fmt = display_tap(E, top)

    def ev(st, *e):
        st.trace = st.trace + (e,)

    def pieces(st, a):
        a = deref(E, st, a)
        if not (isinstance(a, tuple) and a[0] == 'K' and isinstance(a[1], tuple) and a[1][0] == 'fmt'):
            raise Undecided('text written')
        out = []
        for p in a[1][1]:
            if isinstance(p, str):
                out.append(p)
                continue
            v = deref(E, st, p[4])
            if txt(st, v) is not None and p[1] == 'display':
                out += txt(st, v)
            elif isinstance(v, int) and p[1] == 'display':
                out.append(str(v))
            elif isinstance(v, tuple) and v[0] == 'str' and p[1] == 'display':
                out.append(v[1])
            else:
                out.append((p[1], opened(st, E, v)))
        return tuple(out)

    def txt(st, v):
        """the pieces of a string"""
        v = deref(E, st, v)
        if isinstance(v, tuple) and v[0] == 'K' and isinstance(v[1], tuple) and v[1][0] == 'txt':
            return v[1][1]
        x = errors.text_value(E, st, v)
        return None if x is None else (x,) if x else ()

    def text(ps):
        return ('K', ('txt', tuple(ps)))

    def strings(st, t, n, defname, args):
        m = defname.rsplit('::', 1)[-1]
        if n in ('std::fmt::format', 'alloc::fmt::format', 'std::fmt::format::format_inner'):
            return E.fin(st, t, text(pieces(st, args[0])))
        if n in ('std::string::String::new', 'std::string::String::with_capacity') or n == '<std::string::String as std::default::Default>::default':
            return E.fin(st, t, text(()))
        if n == '<std::string::String as std::fmt::Write>::write_fmt' or defname == 'std::fmt::Write::write_fmt':
            old = txt(st, args[0])
            if old is None:
                raise Undecided('string')
            E.store(st, errors.target(E, st, args[0]), text(old + pieces(st, args[1])))
            return E.fin(st, t, ('A', RESULT, 0, (UNIT,)))
        if not args:
            return NotImplemented
        if 'tring' in n or 'str' in n:
            a = txt(st, args[0])
            v = deref(E, st, args[0])
            mine = isinstance(v, tuple) and v[0] == 'K' and a is not None
            if m in ('push_str', 'add', 'add_assign', 'write_str') and len(args) == 2 and (mine or a is not None):
                b = txt(st, args[1])
                if b is None:
                    b = (('other', opened(st, E, args[1])),)
                r = text(a + b)
                if m == 'add':
                    return E.fin(st, t, r)
                E.store(st, errors.target(E, st, args[0]), r)
                return E.fin(st, t, UNIT if m != 'write_str' else ('A', RESULT, 0, (UNIT,)))
            if m == 'push' and mine:
                c = chr(args[1]) if isinstance(args[1], int) else '?'
                E.store(st, errors.target(E, st, args[0]), text(a + (c,)))
                return E.fin(st, t, UNIT)
            if m in ('from', 'to_owned', 'to_string', 'clone', 'into', 'into_string', 'into_boxed_str') and a is not None:
                return E.fin(st, t, text(a))
            if m in ('as_str', 'deref', 'as_ref', 'borrow', 'as_bytes') and mine:
                return E.fin(st, t, errors.target(E, st, args[0]))
            if m == 'is_empty' and mine and all(isinstance(x, str) for x in a):
                return E.fin(st, t, int(not ''.join(a)))
            if m in ('eq', 'ne') and len(args) == 2 and a is not None and txt(st, args[1]) is not None:
                b = txt(st, args[1])
                if a == b or all(isinstance(x, str) for x in a + b):
                    return E.fin(st, t, int((''.join(a) == ''.join(b) if a != b else True) == (m == 'eq')))
                c = y(('same text',) + tuple(sorted((a, b), key=str)), 0, 1)
                return E.fin(st, t, c if m == 'eq' else bnot(c))
            if mine and any(not isinstance(x, str) for x in a):
                r = unknown(st, t, n, args)
                if r is not None:
                    return r
                raise Undecided('string operation ' + m)
        return NotImplemented

    def unknown(st, t, n, args):
        """a number or a condition that depends on what is not known"""
        d = E.place_ty(st.fr[-1].inst, t[3])
        T = E.P.types[d] if d is not None else None
        if T is None or T.k not in ('bool', 'int', 'uint') or not args:
            return None
        lo, hi = (0, 1) if T.k == 'bool' else E.P.int_range(d)
        return E.fin(st, t, y((n, tuple(opened(st, E, a) for a in args)), lo, hi))

    def ends(st, what):
        st.ret = what
        return [('done', st)]

    def result(st, t, name, good, kind, bad=None):
        """a call that may fail"""
        s2 = st.copy()
        ev(s2, 'fail', name, kind)
        n = len(s2.trace)
        ev(st, 'ok', name, kind)
        return (E.fin(st, t, ('A', RESULT, 0, (good,))) +
                E.fin(s2, t, ('A', RESULT, 1, (bad if bad is not None else ('K', ('err', (name, n), 0)),))))

    def model(st, t, inst, args, defname):
        n = inst.def_
        names = (n, defname)
        r = strings(st, t, n, defname, args)
        if r is not NotImplemented:
            return r
        if (n in E.models or defname in E.models) and args and txt(st, args[0]) is None:
            v = deref(E, st, args[0])
            if isinstance(v, tuple) and v[0] == 'K':
                r = unknown(st, t, n, args)
                if r is not None:
                    return r
        if defname == 'std::io::Read::take' or n.endswith('::Read::take'):
            return E.fin(st, t, ('K', ('call', 'Read::take', tuple(opened(st, E, a) for a in args))))
        if any(x.endswith(('Parser::parse', 'Parser::parse_from', 'Parser::try_parse', 'Parser::try_parse_from')) for x in names):
            fl, vs = cli_value(E, st.fr[-1].inst, t)
            if vs is None:
                raise Undecided('arguments')
            out = []
            for v in vs:
                s = st.copy()
                ev(s, 'args', tuple((a, b) for a, b in zip(fl, v[3]) if isinstance(b, int)))
                if 'try_parse' in defname:
                    s2 = s.copy()
                    ev(s2, 'fail', 'parsing the arguments', 'args')
                    out += E.fin(s, t, ('A', RESULT, 0, (v,)))
                    out += E.fin(s2, t, ('A', RESULT, 1, (('K', ('err', ('args', 0), 0)),)))
                else:
                    out += E.fin(s, t, v)
            return out
        if n in ('wadec::decode_module', 'wadec::decode::decode_module'):
            ev(st, 'decode', opened(st, E, args[0]))
            return result(st, t, 'decode_module', ('K', ('module',)), 'decode')
        if n in ('std::io::_eprint', 'std::io::_print', 'std::io::stdio::_eprint', 'std::io::stdio::_print'):
            s = 'stderr' if '_eprint' in n else 'stdout'
            ps = pieces(st, args[0])
            out = []
            if s == 'stdout':
                s2 = st.copy()
                ev(s2, 'fail', 'writing standard output', 'print')
                out = ends(s2, ('end', 101, 'a panic'))
            ev(st, s, ps)
            return out + E.fin(st, t, UNIT)
        if n == 'std::process::exit':
            c = args[0]
            if not isinstance(c, int):
                raise Undecided('exit status')
            return ends(st, ('end', c & 255, 'exit(%d)' % c))
        if n in ('std::process::abort', 'std::intrinsics::abort'):
            return ends(st, ('end', 134, 'abort'))
        if t[4] is None:
            if not st.fr[-1].inst.def_.startswith(('wadec', '<wadec', 'std::result', 'std::option', 'core::result', 'core::option')):
                raise Undecided('panic inside ' + st.fr[-1].inst.def_)
            if any(x in n for x in PANICS) or 'panic' in defname:
                return ends(st, ('end', 101, 'a panic'))
            return NotImplemented
        if inst.blocks is not None and not n.endswith(('::write_fmt', '::flush', '::write_all', '::write')):
            r = fmt(st, t, inst, args, defname)
            if r is not NotImplemented:
                return r
        if n.endswith('ExitCode as std::convert::From<u8>>::from') and isinstance(args[0], int):
            return E.fin(st, t, ('K', ('status', args[0])))
        m = defname.rsplit('::', 1)[-1]
        if m in ('write_fmt', 'write_all', 'write_str', 'write', 'flush') and args:
            v = opened(st, E, args[0])
            s = stream_of(v)
            if s is not None:
                if m == 'write':
                    raise Undecided('partial write')
                good = UNIT
                if m == 'flush':
                    ev(st, 'flush', s)
                else:
                    ps = pieces(st, args[1]) if m == 'write_fmt' else txt(st, args[1])
                    if ps is None:
                        ps = (('other', opened(st, E, args[1])),)
                    s2 = st.copy()
                    ev(st, s, ps)
                    if buffered(v):
                        ev(st, 'pending', s)
                kind = 'print' if s == 'stdout' else 'stderr'
                what = 'writing ' + ('standard output' if s == 'stdout' else 'standard error')
                return result(st, t, what, good, kind)
        if m == 'source' and len(args) == 1 and ('rror' in defname):
            v = deref(E, st, args[0])
            if isinstance(v, tuple) and v[0] == 'K' and isinstance(v[1], tuple) and v[1][0] == 'err':
                e = v[1]
                known = next((x[2] for x in st.trace if x[0] == 'src' and x[1] == e), None)
                nxt = ('K', ('err', e[1], e[2] + 1))
                out = []
                for has in ((0, 1) if known is None else (known,)):
                    if has and e[2] >= CHAIN:
                        continue
                    s = st.copy()
                    if known is None:
                        ev(s, 'src', e, has)
                    out += E.fin(s, t, ('A', OPTION, 1, (('&', E.heap(s, nxt), ()),)) if has else ('A', OPTION, 0, ()))
                return out
            raise Undecided('source of something')
        r = fmt(st, t, inst, args, defname)
        if r is not NotImplemented:
            return r
        if n.endswith('::to_string') or n.endswith('ToString>::to_string'):
            return E.fin(st, t, text((('display', opened(st, E, deref(E, st, args[0]))),)))
        if inst.blocks is None and not inst.intrinsic and E.ctor(st.fr[-1].inst, t, inst) is None:
            if n in E.models or defname in E.models:
                return NotImplemented
            d = E.place_ty(st.fr[-1].inst, t[3])
            T = E.P.types[d] if d is not None else None
            held = tuple(opened(st, E, a) for a in args)
            for a in args:
                if isinstance(a, tuple) and a[0] == '&' and a[1][0] != 'al':
                    # what is behind a mutable reference may now be anything made of the arguments
                    try:
                        x = E.load(st, a)
                        if not (isinstance(x, tuple) and x[0] in ('K', 'A')):
                            E.store(st, a, ('K', ('call', n, held)))
                    except Undecided:
                        pass
            if T is not None and T.k == 'adt' and T.name == RESULT:
                kind = 'input' if n.startswith(INPUTS) else 'other'
                return result(st, t, n, ('K', ('call', n, held)), kind)
            return E.fin(st, t, ('K', ('call', n, held)))
        return NotImplemented
    return model


def status(E, st, main):
    """(exit status, how) of a path"""
    v = st.ret
    if v[0] == 'end':
        return v[1], v[2]
    if v == UNIT or v == ('T', ()):
        return 0, 'the end of main'
    if v[0] == 'A' and v[1] == RESULT:
        if v[2] == 1:
            e = opened(st, E, v[3][0])
            st.trace = st.trace + (('stderr', ('Error: ', ('debug', e))),)
            return 1, 'an error returned by main'
        st.ret = v[3][0]
        return status(E, st, main)
    ints = []

    def go(x):
        if isinstance(x, int) and not isinstance(x, bool):
            ints.append(x)
        elif isinstance(x, tuple):
            for y in x[1:] if x and x[0] != 'A' else x[3]:
                go(y)
    if v[0] == 'K' and isinstance(v[1], tuple) and v[1][0] == 'status':
        return v[1][1], 'the exit code returned by main'
    if v[0] == 'A':
        go(v)
    if len(ints) == 1:
        return ints[0] & 255, 'the exit code returned by main'
    raise Undecided('exit status')


def shows(ps, how, pred):
    """positions in the text where the value is shown that way"""
    return [i for i, p in enumerate(ps) if isinstance(p, tuple) and p[0] == how and contains(p[1], pred)]


def err_is(e):
    return lambda x: x[0] == 'K' and x[1] == e


def paths(E):
    """every way main can go"""
    mains = [i for i in E.P.insts.values() if i.def_ == 'wadec::main' and i.blocks]
    if not mains:
        return None, [], []
    main = mains[0]
    E.tap = tap(E, main)
    E.lax = True
    try:
        rets, und = errors.run_fn(E, main, lambda st: [])
    finally:
        E.tap, E.lax = None, False
    return main, rets, und


WHAT = {'input': 'reading the input', 'decode': 'decoding', 'print': 'writing standard output', 'args': 'parsing the arguments'}


def describe(tr):
    out = []
    for e in tr:
        if e[0] == 'args':
            out.append('called with ' + (', '.join('%s=%s' % (a, 'yes' if b else 'no') for a, b in e[1]) or 'no flags'))
        elif e[0] in ('ok', 'fail'):
            out.append('%s %s' % (e[1], 'succeeds' if e[0] == 'ok' else 'fails'))
        elif e[0] == 'src':
            out.append('cause %d of the error %s' % (e[1][2] + 1, 'is there' if e[2] else 'does not exist'))
        elif e[0] in ('stdout', 'stderr'):
            out.append(('%s: %s' % (e[0], ''.join(p if isinstance(p, str) else '<%s of %s>' % (p[0], naming(p[1])) for p in e[1]))).replace('\n', '\\n'))
        elif e[0] == 'pending':
            out.append('(kept in a buffer)')
        elif e[0] == 'flush':
            out.append('flush of ' + e[1])
    return '\n  '.join(out)


def naming(v):
    r = []

    def go(x):
        if isinstance(x, tuple) and x:
            if x[0] == 'K' and isinstance(x[1], tuple) and x[1][0] == 'err':
                r.append('the error' if x[1][2] == 0 else 'cause %d' % x[1][2])
            elif x[0] == 'K' and isinstance(x[1], tuple) and x[1][0] == 'module':
                r.append('the module')
            else:
                for y in x:
                    go(y)
    go(v)
    return r[0] if r else 'a value'


def vague(ps):
    """some of the text is not understood"""
    return any(not isinstance(p, str) and (p[0] == 'other' or naming(p[1]) == 'a value') for p in ps)


def check(E, R, which):
    main, rets, und = paths(E)
    if main is None:
        return False
    for u in und:
        R.undecided(u)
    for st in rets:
        try:
            code, how = status(E, st, main)
        except Undecided as u:
            R.undecided(str(u))
            R.ok()
            continue
        tr = st.trace
        args = dict(next((e[1] for e in tr if e[0] == 'args'), ()))
        verbose = args.get('verbose')
        fails = [e for e in tr if e[0] == 'fail' and e[2] in ('input', 'decode', 'print', 'args')]
        other = [e for e in tr if e[0] == 'fail' and e[2] in ('stderr', 'other')]
        decs = [e for e in tr if e[0] == 'decode']
        good = any(e[0] == 'ok' and e[2] == 'decode' for e in tr)
        text = 'main:\n  %s\n  ends by %s, status %d' % (describe(tr), how, code)
        out = tuple(p for e in tr if e[0] == 'stdout' for p in e[1])
        err = tuple(p for e in tr if e[0] == 'stderr' for p in e[1])
        module = lambda x: x[0] == 'K' and x[1] == ('module',)
        R.ok(text.replace('\n  ', '; ') if sum(1 for e in tr if e[0] == 'src') < 2 else None)
        if which == 'C34':
            for d in decs:
                if contains(d[1], lambda x: x[0] == 'K' and isinstance(x[1], tuple) and x[1][0] == 'call' and x[1][1].endswith('Read::take')):
                    R.violation('main: decodes only a part of its input', 'decodes only a part of the input\n' + text)
                elif not contains(d[1], lambda x: x[0] == 'K' and isinstance(x[1], tuple) and x[1][0] == 'arg-value'):
                    if contains(d[1], lambda x: x[0] == 'K' and isinstance(x[1], tuple) and x[1][0] == 'call' and x[1][1].startswith('std::io::stdin')):
                        R.violation('main: does not decode the file named', 'what is decoded is not the file given\n' + text)
                    else:
                        R.undecided('origin of what is decoded')
            if code == 0:
                for f in fails:
                    R.violation('main: success after failure of ' + WHAT[f[2]], 'the exit status is 0 although %s failed\n%s' % (WHAT[f[2]], text))
                if not decs:
                    R.violation('main: success without decoding', 'the exit status is 0 without anything being decoded\n' + text)
                pend = None
                for e in tr:
                    if e[0] == 'pending' and e[1] == 'stdout':
                        pend = e
                    if e[0] == 'flush' and e[1] == 'stdout':
                        pend = None
                if pend and not fails:
                    R.violation('main: unreported write failure', 'the exit status is 0 although what was left in the output buffer may fail to be written\n' + text)
                if verbose and good and not fails and not vague(out) and not shows(out, 'debug', module) and not shows(out, 'display', module):
                    R.violation('main: success without printing', 'the exit status is 0 although the module asked for was not printed\n' + text)
            elif not fails and good:
                if other:
                    R.undecided('a failure of ' + other[0][1])
                else:
                    R.violation('main: failure after success', 'the exit status is %d although the module was decoded\n%s' % (code, text))
            continue
        # C35
        if vague(out) or vague(err):
            R.undecided('text written')
            continue
        if not fails:
            if code == 0 and good:
                if err:
                    R.violation('main: standard error on success', 'writes to standard error although decoding succeeded\n' + text)
                if out and not verbose:
                    R.violation('main: standard output on success', 'writes to standard output although verbose output was not asked for\n' + text)
                if verbose and not shows(out, 'debug', module):
                    R.violation('main: verbose output', 'does not print the module although verbose output was asked for\n' + text)
            continue
        f = fails[0]
        if f[2] == 'args':
            continue
        if out and f[2] != 'print':
            R.violation('main: standard output on failure', 'writes to standard output although %s failed\n%s' % (WHAT[f[2]], text))
        n = tr.index(f) + 1
        # the error made by that failure
        e0 = ('err', (f[1], n), 0)
        chain = [e0]
        for k in range(CHAIN + 1):
            s = next((x[2] for x in tr if x[0] == 'src' and x[1] == ('err', e0[1], k)), None)
            if s:
                chain.append(('err', e0[1], k + 1))
            else:
                break
        full = any(x[0] == 'src' and x[1] == chain[-1] and x[2] == 0 for x in tr)
        pos = [shows(err, 'display', err_is(e)) for e in chain]
        if not pos[0]:
            R.violation('main: error not reported after failure of ' + WHAT[f[2]], 'the error is not written to standard error when %s fails\n%s' % (WHAT[f[2]], text))
            continue
        if not full:
            R.violation('main: causes not followed', 'causes beyond number %d are never looked for when %s fails\n%s' % (len(chain) - 1, WHAT[f[2]], text))
            continue
        at = -1
        for k, p in enumerate(pos):
            p = [x for x in p if x > at]
            if not p:
                R.violation('main: causes in the wrong order' if pos[k] else 'main: cause not reported',
                            ('cause %d is not written after what it caused' if pos[k] else 'cause %d is not written to standard error') % k + '\n' + text)
                break
            at = p[0]
        dbg = shows(err, 'debug', err_is(e0))
        if verbose and not dbg:
            R.violation('main: verbose error', 'verbose output lacks the debug form of the error\n' + text)
        if verbose == 0 and dbg:
            R.violation('main: debug output', 'the debug form of the error is written although verbose output was not asked for\n' + text)
    return True
