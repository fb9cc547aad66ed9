"""The rules, one entry per property."""
import os
import time
from spec import Grammar
from interp import Engine

HERE = os.path.dirname(os.path.abspath(__file__))
ASSUME = [
    'rustc\'s monomorphic MIR (nightly, mir-opt-level 0) of /repo is the program analysed',
    'the standard library behaves as documented where a model stands for it (engine/models.py)',
    'the format grammar in engine/wasm.spec states the WebAssembly 3.0 binary format',
]

GRAMMAR = ['C%02d' % i for i in range(1, 25)]


# how each property without a grammar rule of its own is decided: (technique, note)
_AI = 'abstract interpretation of MIR, traces partitioned by the format grammar'
_LIM = ' Paths that the abstraction cannot follow are counted as undecided in the evidence and never reported. Trusts rustc\'s MIR, the models of std functions and the grammar file.'
NOTES = {
    'C25': (_AI + '; every panic edge is an obligation', 'No path of the interpreted functions may reach a failed overflow, bounds or division check or a panicking call, whatever the input.' + _LIM),
    'C26': (_AI + '; effect rule on allocation sites', 'A size that the input only declares may not flow into an operation that takes memory for that many elements, and a loop that adds elements must read for each.' + _LIM),
    'C27': ('call graph: strongly connected components, with bounds from abstract interpretation', 'Every cycle of calls reachable from the decoder is reported unless the interpretation followed it to its end. Two unbounded cycles are known findings.'),
    'C28': (_AI + '; progress rule on every loop', 'No loop may come back to its head in the same state without having read input.' + _LIM),
    'C29': (_AI + '; reader typestate with short and interrupted reads', 'A plain read is modelled as returning any part of what was asked for, or being interrupted; result and consumption must be the same.' + _LIM),
    'C30': ('effect analysis over the call graph, statics and unsafe code', 'No function of the decoder, its error types or destructors calls an operation that reaches outside the call; no static can change; unsafe code is forbidden by the compiler. Trusts the list of effects in engine/callgraph.py.'),
    'C31': (_AI + '; source() and fmt() of every error variant interpreted', 'The error returned on a path where a step failed holds that failure, and source() of every variant that holds an error hands it on.' + _LIM),
    'C32': (_AI + '; values in errors compared with the input', 'Each number, byte, position and section kind in a returned error is compared with what the input has there; messages show each value after its own name.' + _LIM),
    'C33': (_AI + '; rejected values compared with interpreted messages', 'The values for which an error is returned are compared with the values its message lists.' + _LIM),
    'C34': ('path enumeration over the MIR of the command-line tool, effect traces', 'Every path of main, each fallible call going both ways, each flag both ways; error chains of 0 to 12 causes. clap and patharg are trusted.'),
    'C35': ('path enumeration over the MIR of the command-line tool, effect traces', 'Every path of main, each fallible call going both ways, each flag both ways; error chains of 0 to 12 causes. clap and patharg are trusted.'),
    'C36': ('compile-time witness: type-checked trait bounds', 'A crate that requires the bounds type-checks against the crate; decided by rustc for every value of the types.'),
}


class Missing(Exception):
    pass


_cache = {}


# properties about how the sections of a module work together: more sections are followed one by one
DEEP = {'C16', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25'}


# sections of a module, iterations of loops in it, seconds for a function and for all
TIERS = [((3, 2, 2), (2, 2, 1), 60, 120), ((4, 3, 2), (3, 3, 1), 120, 240), ((4, 3, 2), (4, 3, 2), 300, 400)]


def analysis(build, pid):
    """grammar agreement of the whole decoder: (program, engine, root record); deeper and deeper until something is found"""
    if 'root' not in _cache:
        P = build('lib')
        for i in P.by_def.get('wadec::decode_module', []):
            break
        else:
            raise Missing('decode_module is not reachable from the entry point')
        root = [i for i in P.insts.values() if i.def_ == 'absharness::entry'][0]
        for n, (peel, mpeel, s, total) in enumerate(TIERS):
            if n == 0 and pid in ('C26', 'C27', 'C33') or n == 2 and pid not in DEEP:
                continue
            E = Engine(P, Grammar(os.path.join(HERE, 'wasm.spec')))
            E.peel, E.mpeel, E.unit_s, E.deadline = peel, mpeel, s, time.time() + total
            rec = E.root(root, 'module')
            if any(pid in v.props for v in E.final):
                break
        _cache['root'] = (P, E, rec)
    return _cache['root']


def vkey(v):
    return '%s: %s: %s' % (v.fn, v.kind, v.msg)


def grammar(pid, R, build):
    P, E, rec = analysis(build, pid)
    R.rule.append('Abstract interpretation of the monomorphic MIR of everything reachable from the decoder, with traces partitioned '
                  'along the rules of the format grammar: every path of every function that reads input must accept exactly what its '
                  'grammar rule accepts, and return exactly the value the rule denotes.')
    for v in E.final:
        if pid in v.props:
            R.violation(vkey(v), '%s\n  in the analysis of: %s\n  along: %s' % (v.text(), v.unit, ' ; '.join(str(t) for t in v.trace[-12:])))
    cov = E.cover.get(pid, {})
    for (u, d), n in sorted(cov.items()):
        R.obl += n
    R.samples += E.samples.get(pid, [])
    units = sorted({'%s as %s' % (d, u) for u, d in cov})
    R.cov['units'] = units
    R.cov['paths_analysed'] = E.stats['paths']
    R.cov['functions_interpreted'] = len(E.stats['fns'])
    names = {u for u, d in cov}
    for r in E.units:
        if r['unit'].name in names and pid in r['unit'].rule.props:
            for u in r['und']:
                R.undecided('%s: %s' % (u[3], u[1]))
    if not R.obl:
        raise Missing('no path of the decoder reaches a rule of %s' % pid)


def engine_part(pid, R, build, nofn=False):
    """violations of the property that the grammar analysis comes across"""
    P, E, rec = analysis(build, pid)
    for v in E.final:
        if pid in v.props:
            R.violation('%s: %s' % (v.kind, v.msg) if nofn else vkey(v),
                        '%s\n  in the analysis of: %s\n  along: %s' % (v.text(), v.unit, ' ; '.join(str(t) for t in v.trace[-12:])))
    R.cov['paths_analysed'] = E.stats['paths']
    R.cov['functions_interpreted'] = len(E.stats['fns'])
    return P, E, rec


INTERP = ('Abstract interpretation of the monomorphic MIR of everything reachable from the decoder, with traces partitioned along '
          'the rules of the format grammar. ')


def lint_C25(R, build):
    P, E, rec = engine_part('C25', R, build)
    R.rule.append(INTERP + 'Every panic edge (failed overflow, bounds or division check, call of a panicking function, failed unwrap) of '
                  'the interpreted functions is an obligation: no path may reach it.')
    for (loc, what), s in sorted(E.panics.items(), key=str):
        R.ok('%s:%s %s is %s' % (loc[0], loc[1], what, s))
        if s == 'undecided':
            R.undecided('%s:%s: %s' % (loc[0], loc[1], what))
    if not E.panics:
        R.ok('no panic edge in the interpreted functions')
    for u in sorted({'%s: %s' % (u[3], u[1]) for u in rec['und'] if not u[1].startswith('loop')}):
        R.undecided(u)
    R.rule.append('Sequences of sections are followed one by one up to the fourth section; what a fifth does after them is counted as undecided.')


def lint_C26(R, build):
    P, E, rec = engine_part('C26', R, build, True)
    R.rule.append(INTERP + 'Every operation that takes memory for a number of elements at once (with_capacity, reserve, resize, vec![x; n], '
                  'extending from a repeating iterator, collecting an iterator with a lower size bound) must not have a number that the '
                  'input only declares; a loop that adds elements must read input for each.')
    for fn, how in sorted(E.stats['allocs']):
        R.ok('%s: %s' % (fn, how))
    for fn, how in sorted(E.stats['reads']):
        R.ok('%s: read %s takes memory as it reads' % (fn, how)) if 'end' in how else R.ok()
    for fn, h in sorted(E.stats['loops']):
        R.ok('%s: loop at block %d' % (fn, h))
    if not R.obl:
        raise Missing('no read, loop or allocation in the decoder')


def lint_C27(R, build):
    from callgraph import Graph, own, mentions
    P, E, rec = analysis(build, 'C27')
    R.rule.append('Call graph of the monomorphic program (calls through closures and function values included): every cycle reachable '
                  'from the decoder must be shown bounded, which is the case when the abstract interpretation followed it to its end '
                  'without repeating a function without bound.')
    G = Graph(P)
    r = G.reach([rootinst(P).id])
    R.ok(n=len([x for x in r if own(P, P.insts[x])]))
    R.cov['functions_in_call_graph'] = len(r)
    R.cov['calls'] = sum(len(G.out[x]) for x in r)
    R.samples.append('%d functions, %d calls reachable from decode_module' % (len(r), R.cov['calls']))
    merged = []
    for c in G.sccs(r):
        c = {P.insts[x] for x in c}
        o = {i.def_ for i in c if own(P, i)}
        if not o:
            continue
        for m in merged:
            if m[0] & o:
                m[0] |= o
                m[1] |= c
                break
        else:
            merged.append([set(o), set(c)])
    instr = next((t for t in P.adts if t.endswith('::Instruction')), None)
    kinds = {}
    for o, c in sorted(merged, key=lambda m: sorted(m[0])):
        R.ok()
        names = sorted(o)
        fns = E.stats['fns']
        if all(n in fns for n in o) and not (o & E.stats['deep']):
            R.samples.append('bounded recursion: ' + ', '.join(names))
            continue
        reads = any(P.types[a].k != 'other' and reader(P, a) for i in c if i.blocks and own(P, i) for a in i.locals[1:i.argc + 1])
        holds = instr and any(mentions(P, a, instr) for i in c if i.blocks and own(P, i) for a in i.locals[:i.argc + 1])
        if holds and reads:
            k = 'recursion: one level of stack for each level of nesting of the instructions read'
        elif holds:
            k = 'recursion: one level of stack for each level of nesting of instructions already decoded'
        else:
            k = 'recursion: ' + ', '.join(names)
        kinds[k] = kinds.get(k, 0) + 1
        if kinds[k] > 1:
            k += ' (%d)' % kinds[k]
        R.violation(k, '%s: %s call each other without a bound on the depth' % (k, ', '.join(names)))


def rootinst(P):
    for i in P.by_def.get('absharness::entry', []):
        return i
    raise Missing('entry')


def reader(P, ty):
    t = P.types[ty]
    while t.k == 'ref':
        t = P.types[t.d['to']]
    return t.k == 'adt' and (t.name.endswith('AbsReader') or t.name.startswith('std::io::') and t.name.rsplit('::', 1)[-1] in (
        'Take', 'Chain', 'Cursor', 'BufReader', 'Bytes'))


def lint_C28(R, build):
    from callgraph import Graph, own
    P, E, rec = engine_part('C28', R, build)
    R.rule.append(INTERP + 'A loop may not come back to its head with the same values and without having read input. Every loop of the '
                  'decoder is an obligation: it reads input, or steps an iterator or counter.')
    G = Graph(P)
    r = G.reach([rootinst(P).id])
    reads = {x for x in r if P.insts[x].def_.startswith('std::io::Read::') or '::Read>::' in P.insts[x].def_}
    for x in sorted(r):
        i = P.insts[x]
        if not own(P, i) or not i.blocks:
            continue
        for h, body in sorted(i.loops().items()):
            calls = [P.insts[c] for c, b in G.sites[x] if b in body]
            if any(c.def_.endswith('::next') for c in calls):
                how = 'steps an iterator'
            elif any(reads & G.reach([c.id]) for c in calls):
                how = 'reads input'
            elif any(s[0] == '=' and s[2][0] in ('bin', 'cbin', 'checked', 'binop') for b in body for s in i.blocks[b]['s']):
                how = 'steps a counter'
            else:
                how = None
            R.ok('%s: loop at block %d %s' % (i.def_, h, how or '?'))
            if how is None and (i.def_, h) not in E.stats['loops']:
                R.undecided('%s: loop at block %d' % (i.def_, h))


def lint_C29(R, build):
    P, E, rec = engine_part('C29', R, build)
    R.rule.append(INTERP + 'Reads are modelled with any split: a plain read may return fewer bytes than asked for or be interrupted, and the '
                  'decoder must accept and return the same in all cases; nothing may be read through a buffer that takes more than asked for.')
    for fn, how in sorted(E.stats['reads']):
        R.ok('%s: reads %s' % (fn, how))
    if not R.obl:
        raise Missing('no read in the decoder')


def lint_C30(R, build):
    from callgraph import Graph, own, effect, cellful
    P = build('lib')
    R.rule.append('Call graph: no function of the decoder, its error types or their destructors calls an operation of the standard library '
                  'that reaches outside the call (files, network, environment, processes, threads, clocks, standard streams, random seeds); '
                  'no static of the crate is mutable, thread-local or holds a cell; the crate compiles with unsafe code forbidden.')
    G = Graph(P)
    r = G.reach(list(P.roots.values()) + [e['source'] for e in P.errors] + [e['display'] for e in P.errors] + list(P.drops))
    for x in sorted(r):
        i = P.insts[x]
        if not (own(P, i) and i.blocks):
            continue
        R.ok()
        for c, b in G.sites[x]:
            R.ok()
            w = effect(P.insts[c].name) or effect(P.insts[c].def_)
            if w:
                R.violation('%s: calls %s' % (i.def_, P.insts[c].def_), '%s (%s): calls %s, which %s' % (i.def_, i.at, P.insts[c].def_, w))
    for a in P.allocs.values():
        if 'static' in a and a['static'].split('::')[0].lstrip('<') == 'wadec':
            R.ok('static %s: %s holds no cell' % (a['static'], P.types[a['ty']].s))
            if a.get('m') or cellful(P, a['ty']):
                R.violation('static %s' % a['static'], 'static %s: %s can change between calls' % (a['static'], P.types[a['ty']].s))
    for i in r:
        n = P.insts[i]
        if n.blocks and own(P, n):
            for b in n.blocks:
                for s in b['s']:
                    if s[0] == '=' and s[2][0] in ('tls', 'threadlocal'):
                        R.violation('%s: thread-local' % n.def_, '%s (%s): uses a thread-local variable' % (n.def_, n.at))
    R.ok('compiles with unsafe code forbidden')
    out = build.forbid()
    if out:
        R.violation('unsafe code', 'unsafe code in the crate:\n' + out)


def lint_C31(R, build):
    import errors
    P, E, rec = engine_part('C31', R, build)
    R.rule.append(INTERP + 'On every path on which a step fails, the error returned holds that failure. In addition source() and fmt() of '
                  'every variant of every error type are interpreted: source() must return the error the variant holds, or stand for it '
                  '(same message, same causes).')
    for n in E.cover.get('C31', {}).values():
        R.obl += n
    R.samples += E.samples.get('C31', [])[:4]
    errors.check_sources(E, R)
    for r in E.units:
        for u in r['und']:
            if u[1] == 'error value':
                R.undecided('%s: %s' % (u[3], u[1]))


def lint_C32(R, build):
    import errors
    P, E, rec = engine_part('C32', R, build)
    R.rule.append(INTERP + 'On every path that returns an error, each number, byte, position and section kind in it is compared with what '
                  'the input has at that point; the message of each variant shows each value after its own name.')
    for n in E.cover.get('C32', {}).values():
        R.obl += n
    R.samples += E.samples.get('C32', [])
    errors.check_labels(E, R)
    if not R.obl:
        raise Missing('no error with a value')


def lint_C33(R, build):
    import errors
    P, E, rec = analysis(build, 'C33')
    R.rule.append(INTERP + 'The set of values for which each error is returned is compared with the values that its message (fmt() is '
                  'interpreted) lists as expected, and the names given to them with what the decoder makes of them.')
    errors.check_markers(E, R, {r['unit'].name for r in E.units if any(not u[1].startswith('loop') for u in r['und'])})
    if not R.obl:
        raise Missing('no message lists expected values')


def lint_C36(R, build):
    R.rule.append('Compile-time witness: a crate that requires Module, DecodeModuleError and their parts to be Send, Sync and \'static, '
                  'and the result of decoding a borrowed slice to outlive it, type-checks against the crate.')
    out, n = build.witness()
    R.ok(n=n)
    R.samples.append('%d bounds required of the public types' % n)
    for k, text in out:
        R.violation(k, text)


CLI = ('Every path of the command-line tool\'s main is followed over its MIR, with each call that may fail going both ways, each flag both '
       'set and not set, and error chains of 0 to 12 causes; what is decoded, what is written where and the exit status are recorded. ')


def cli(pid, R, build):
    import cli as C
    P = build('cli')
    E = Engine(P, Grammar(os.path.join(HERE, 'wasm.spec')))
    R.cov['functions'] = sorted({i.def_ for i in P.insts.values() if i.blocks and i.def_.startswith('wadec::')})
    if not C.check(E, R, pid):
        raise Missing('the command-line tool has no main')
    if not R.obl:
        raise Missing('no path of main could be followed: %s' % R.und[:3])


def lint_C34(R, build):
    R.rule.append(CLI + 'The status is 0 exactly on the paths on which opening, reading, decoding and (with verbose) printing all succeed, and what '
                  'is decoded is the input named on the command line.')
    cli('C34', R, build)


def lint_C35(R, build):
    R.rule.append(CLI + 'After a failure standard error has the display form of the error, then of each cause in order, then (verbose only) the '
                  'debug form, and standard output has nothing; after success standard error has nothing and standard output only what verbose asks for.')
    cli('C35', R, build)


def run(pid, R, build, tier):
    if pid in GRAMMAR:
        grammar(pid, R, build)
    f = globals().get('lint_' + pid)
    if f:
        f(R, build)
    elif pid not in GRAMMAR:
        raise Missing('no rule for ' + pid)
