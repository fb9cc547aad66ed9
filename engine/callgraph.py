"""Call graph, loops and effects of the dumped program."""
import re
from mir import successors


class Graph:
    def __init__(self, P):
        self.P = P
        self.out = {}            # inst id -> {callee inst id}
        self.sites = {}          # inst id -> [(callee inst id, block)]
        for i in P.insts.values():
            o = self.sites[i.id] = []
            for n, b in enumerate(i.blocks or ()):
                t = b['t']
                if t[0] == 'call':
                    if t[1][0] == 'fn':
                        o.append((t[1][1], n))
                elif t[0] == 'drop':
                    pass
            self.out[i.id] = {c for c, _ in o}
            for a in i.args:
                if isinstance(a, int):
                    self.out[i.id] |= self.held(a)

    def held(self, ty, seen=None):
        """functions and closures whose type is part of this type: whoever has the value can call them"""
        seen = seen if seen is not None else set()
        if ty in seen:
            return set()
        seen.add(ty)
        t = self.P.types[ty]
        r = set()
        if t.k in ('fndef', 'closure') and t.d.get('inst') is not None:
            r.add(t.d['inst'])
            if t.k == 'closure' and t.d.get('upvars') is not None:
                r |= self.held(t.d['upvars'], seen)
        elif t.k in ('ref', 'ptr'):
            r |= self.held(t.d['to'], seen)
        elif t.k == 'tuple':
            for e in t.d['elems']:
                r |= self.held(e, seen)
        elif t.k == 'adt':
            for a in t.d.get('args', []):
                if isinstance(a, int):
                    r |= self.held(a, seen)
        return r

    def reach(self, roots):
        seen = set(roots)
        work = list(roots)
        while work:
            x = work.pop()
            for c in self.out.get(x, ()):
                if c not in seen:
                    seen.add(c)
                    work.append(c)
        return seen

    def sccs(self, nodes):
        """strongly connected components with a cycle"""
        idx, low, on, st, out = {}, {}, set(), [], []
        n = [0]
        for r in sorted(nodes):
            if r in idx:
                continue
            work = [(r, iter(sorted(self.out.get(r, ()))))]
            idx[r] = low[r] = n[0]
            n[0] += 1
            st.append(r)
            on.add(r)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in nodes:
                        continue
                    if w not in idx:
                        idx[w] = low[w] = n[0]
                        n[0] += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(sorted(self.out.get(w, ())))))
                        break
                    if w in on:
                        low[v] = min(low[v], idx[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        c = []
                        while True:
                            w = st.pop()
                            on.discard(w)
                            c.append(w)
                            if w == v:
                                break
                        if len(c) > 1 or v in self.out.get(v, ()):
                            out.append(c)
        return out


def own(P, i):
    """defined in the decoder's crate (closures and trait implementations included)"""
    return '/repo/' in i.file()


def mentions(P, ty, name, seen=None):
    """the type holds a value of the named ADT, directly or behind pointers, slices, vectors"""
    seen = seen if seen is not None else set()
    if ty in seen:
        return False
    seen.add(ty)
    t = P.types[ty]
    if t.name == name:
        return True
    if t.k in ('ref', 'ptr'):
        return mentions(P, t.d['to'], name, seen)
    if t.k in ('slice', 'array'):
        return mentions(P, t.d['elem'], name, seen)
    if t.k == 'tuple':
        return any(mentions(P, e, name, seen) for e in t.d['elems'])
    if t.k == 'adt':
        if any(isinstance(a, int) and mentions(P, a, name, seen) for a in t.d.get('args', [])):
            return True
        if t.name.startswith('wadec'):
            return any(mentions(P, f[1], name, seen) for v in t.d['variants'] for f in v['fields'])
    return False


# ---- effects -------------------------------------------------------------------------------------
EFFECT = [
    (r'\bstd::fs::', 'uses the file system'),
    (r'\bstd::net::', 'uses the network'),
    (r'\bstd::env::', 'uses the environment of the process'),
    (r'\bstd::process::', 'uses processes'),
    (r'\bstd::thread::(local::)?LocalKey', 'keeps state of the thread between calls'),
    (r'\bstd::thread::', 'uses threads'),
    (r'\bstd::time::(Instant|SystemTime)', 'consults the clock'),
    (r'\bstd::os::', 'uses the operating system'),
    (r'\bstd::sync::mpsc::', 'uses channels'),
    (r'\bstd::io::(stdio::)?(stdin|stdout|stderr|_print|_eprint|set_output_capture)\b', 'uses the standard streams of the process'),
    (r'\bstd::io::(stdio::)?(Stdin|Stdout|Stderr)', 'uses the standard streams of the process'),
    (r'\bstd::panic::(set_hook|take_hook|update_hook)', 'changes the panic hook'),
    (r'\bstd::panicking::(set_hook|take_hook|update_hook)', 'changes the panic hook'),
    (r'\b(hash|hash_map|random)::RandomState( as std::default::Default>)?::(new|default)$', 'uses a random seed'),
    (r'\bHash(Map|Set)\b.*::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|into_iter|extract_if)$',
     'goes through a hash table, in an order that depends on a random seed'),
    (r'\bstd::alloc::(set_alloc_error_hook)', 'changes the allocator'),
    (r'\bBox::<T(, A)?>::leak\b|\bVec::<T(, A)?>::leak\b|\bString::leak\b|\bmem::forget\b', 'keeps memory after the call'),
]
EFFECT = [(re.compile(a), b) for a, b in EFFECT]


def effect(name):
    for r, w in EFFECT:
        if r.search(name):
            return w
    return None


def cellful(P, ty, seen=None):
    """the type has interior mutability"""
    seen = seen if seen is not None else set()
    if ty in seen:
        return False
    seen.add(ty)
    t = P.types[ty]
    if t.k == 'adt':
        if t.name in ('std::cell::UnsafeCell', 'core::cell::UnsafeCell'):
            return True
        if t.name.rsplit('::', 1)[-1] in ('LazyLock', 'LazyCell'):
            return any(isinstance(a, int) and cellful(P, a, seen) for a in t.d.get('args', [])[:1])
        return any(cellful(P, f[1], seen) for v in t.d['variants'] for f in v['fields'])
    if t.k in ('array', 'slice'):
        return cellful(P, t.d['elem'], seen)
    if t.k == 'tuple':
        return any(cellful(P, e, seen) for e in t.d['elems'])
    return False
