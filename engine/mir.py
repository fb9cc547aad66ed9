"""The dumped monomorphic MIR, decoded for the analysis."""
import json

TAG_A, TAG_T, TAG_R = 'A', 'T', 'R'


class Ty:
    __slots__ = ('id', 'k', 'd', 'name', 's')

    def __init__(self, i, d):
        self.id = i
        self.d = d
        self.k = d['k']
        self.name = d.get('name')
        self.s = d['s']


class Inst:
    __slots__ = ('id', 'def_', 'name', 'kind', 'intrinsic', 'args', 'ty', 'closure', 'at', 'stopped',
                 'locals', 'argc', 'spread', 'blocks', 'heads', 'bodies')

    def __init__(self, d):
        self.id = d['id']
        self.def_ = d['def']
        self.name = d['name']
        self.kind = d['kind']
        self.intrinsic = d.get('intrinsic')
        self.args = d['args']
        self.ty = d['ty']
        self.closure = d['closure']
        self.at = d.get('at') or ''
        self.stopped = d['stopped']
        b = d.get('body')
        self.heads = None
        self.bodies = None
        if b:
            self.locals = b['locals']
            self.argc = b['argc']
            self.spread = b['spread']
            self.blocks = b['blocks']
        else:
            self.locals = self.blocks = None

    def file(self):
        return self.at.rsplit(':', 1)[0]

    def loops(self):
        """loop headers -> set of blocks in the natural loop (all back edges of a header merged)"""
        if self.heads is not None:
            return self.bodies
        n = len(self.blocks)
        succ = [successors(b['t']) for b in self.blocks]
        # dfs back edges
        color = [0] * n
        back = []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            v, it = stack[-1]
            for w in it:
                if color[w] == 0:
                    color[w] = 1
                    stack.append((w, iter(succ[w])))
                    break
                if color[w] == 1:
                    back.append((v, w))
            else:
                color[v] = 2
                stack.pop()
        pred = [[] for _ in range(n)]
        for v in range(n):
            if color[v]:
                for w in succ[v]:
                    pred[w].append(v)
        bodies = {}
        for v, h in back:
            body = bodies.setdefault(h, {h})
            work = [v]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work += pred[x]
        self.bodies = bodies
        self.heads = set(bodies)
        return bodies


def successors(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'drop':
        return [t[2]] if t[2] is not None else []
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[3]]
    return []


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = [Ty(i, t) for i, t in enumerate(d['types'])]
        self.insts = {}
        for x in d['insts']:
            i = Inst(x)
            self.insts[i.id] = i
        self.roots = dict((n, i) for n, i in d['roots'])
        self.allocs = {a: b for a, b in d['allocs']}
        self.errors = d['errors']
        self.drops = d.get('drops', [])
        self.by_def = {}
        for i in self.insts.values():
            self.by_def.setdefault(i.def_, []).append(i)
        self.adts = {}
        for t in self.types:
            if t.k == 'adt':
                self.adts.setdefault(t.name, []).append(t)
        self._static = {}
        self._variants = {}

    # -- types
    def variant_index(self, adt, vname):
        """(index, field names)"""
        for i, v in enumerate(self.adts[adt][0].d['variants']):
            if v['name'] == vname:
                return i, [f[0] for f in v['fields']]
        raise KeyError((adt, vname))

    def field_ty(self, ty, variant, i):
        t = self.types[ty]
        if t.k == 'adt':
            return t.d['variants'][variant]['fields'][i][1]
        if t.k == 'tuple':
            return t.d['elems'][i]
        if t.k == 'closure':
            up = self.types[t.d['upvars']]
            return up.d['elems'][i]
        raise KeyError((t.s, variant, i))

    def is_int(self, ty):
        return self.types[ty].k in ('int', 'uint', 'bool', 'char')

    def int_info(self, ty):
        t = self.types[ty]
        if t.k == 'bool':
            return 1, False
        if t.k == 'char':
            return 32, False
        return t.d['bits'], bool(t.d.get('signed'))

    def int_range(self, ty):
        b, s = self.int_info(ty)
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)

    # -- constants
    def const(self, ty, c):
        if c == 'zst':
            return self.zst(ty)
        if isinstance(c, dict):
            return self.read(ty, bytes.fromhex(c['bytes'].replace('__', '00')), {o: a for o, a in c['prov']}, 0)
        return ('K', 'const')

    def zst(self, ty):
        t = self.types[ty]
        if t.k in ('fndef',):
            return ('F', ty)
        if t.k == 'closure':
            up = self.types[t.d['args'][-1]] if t.d.get('args') and isinstance(t.d['args'][-1], int) else None
            return ('C', ty, tuple(self.zst(e) for e in up.d['elems']) if up is not None and up.k == 'tuple' else ())
        if t.k == 'tuple':
            return ('T', tuple(self.zst(e) for e in t.d['elems']))
        if t.k == 'adt':
            vs = t.d['variants']
            for i, v in enumerate(vs):
                lay = t.d.get('layout', {}).get('variants')
                if isinstance(lay, dict) and lay.get('single', 0) != i and 'single' in lay:
                    continue
                return ('A', t.name, i, tuple(self.zst(f[1]) for f in v['fields']))
        if t.k == 'array':
            return ('R', tuple(self.zst(t.d['elem']) for _ in range(t.d['len'] or 0)))
        return ('K', 'zst')

    def read(self, ty, mem, prov, off):
        t = self.types[ty]
        k = t.k
        lay = t.d.get('layout') or {}
        size = lay.get('size', 0)
        if k in ('int', 'uint', 'bool', 'char'):
            raw = mem[off:off + size]
            return int.from_bytes(raw, 'little', signed=bool(t.d.get('signed')))
        if k == 'float':
            return ('fl', t.d['bits'], int.from_bytes(mem[off:off + size], 'little'))
        if k in ('ref', 'ptr'):
            to = self.types[t.d['to']]
            a = prov.get(off)
            if a is None:
                return ('K', 'ptr')
            addend = int.from_bytes(mem[off:off + 8], 'little')
            if to.k in ('slice', 'str'):
                n = int.from_bytes(mem[off + 8:off + 16], 'little')
                return ('&s', ('al', a, to.id, n), (), 0, n)
            if to.k == 'dyn':
                return ('K', 'dynptr')
            return ('&', ('al', a, to.id, addend), ())
        if k == 'tuple':
            offs = lay['fields']
            return ('T', tuple(self.read(e, mem, prov, off + offs[i]) for i, e in enumerate(t.d['elems'])))
        if k == 'array':
            st = lay['fields']['stride'] if isinstance(lay['fields'], dict) else 0
            return ('R', tuple(self.read(t.d['elem'], mem, prov, off + i * st) for i in range(t.d['len'])))
        if k == 'adt':
            vs = lay.get('variants')
            if t.d['adt'] == 'union':
                return ('K', 'union')
            if isinstance(vs, dict) and 'single' in vs:
                i = vs['single']
                fs = t.d['variants'][i]['fields']
                offs = lay['fields']
                return self.special(('A', t.name, i, tuple(self.read(f[1], mem, prov, off + offs[j]) for j, f in enumerate(fs))))
            if isinstance(vs, dict):
                tag_off = off + (lay['fields'][vs['tag_field']] if isinstance(lay['fields'], list) else 0)
                raw = mem[tag_off:tag_off + vs['tag_size']]
                tag = int.from_bytes(raw, 'little')
                if vs['enc'] == 'direct':
                    mask = (1 << (8 * vs['tag_size'])) - 1
                    i = next(j for j, v in enumerate(t.d['variants']) if int(v['discr']) & mask == tag)
                else:
                    untag, ns, ne, start = vs['enc']
                    start = int(start)
                    mod = 1 << (8 * vs['tag_size'])
                    rel = (tag - start) % mod
                    if tag_off in prov or rel > ne - ns:
                        i = untag
                    else:
                        i = ns + rel
                fs = t.d['variants'][i]['fields']
                offs = vs['variants'][i]
                return ('A', t.name, i, tuple(self.read(f[1], mem, prov, off + offs[j]) for j, f in enumerate(fs)))
            return ('K', 'adt')
        if k == 'fndef' or k == 'closure':
            return self.zst(ty)
        if k == 'fnptr':
            a = prov.get(off)
            al = self.allocs.get(a)
            if al and 'fn' in al:
                return ('FP', al['fn'])
            return ('K', 'fnptr')
        return ('K', k)

    def special(self, v):
        return v

    def alloc_value(self, cell):
        """value behind a constant reference"""
        if cell in self._static:
            return self._static[cell]
        _, a, ty, n = cell
        al = self.allocs.get(a)
        v = ('K', 'alloc')
        if al is not None and 'mem' in al and al['mem'] is not None and not al.get('m'):
            mem = bytes.fromhex(al['mem']['bytes'].replace('__', '00'))
            prov = {o: x for o, x in al['mem']['prov']}
            t = self.types[ty]
            if t.k == 'str':
                v = ('str', mem[:n].decode('utf8', 'replace'))
            elif t.k == 'slice':
                el = self.types[t.d['elem']]
                st = (el.d.get('layout') or {}).get('size', 1)
                v = ('R', tuple(self.read(el.id, mem, prov, i * st) for i in range(n)))
            else:
                v = self.read(ty, mem, prov, n)
        self._static[cell] = v
        return v

    def phf_entries(self, v):
        """[(key, value)] of a phf::OrderedMap / Map constant value, or None"""
        if v[0] != 'A' or 'phf' not in v[1]:
            return None
        return v

    def fndef_inst(self, ty):
        return self.types[ty].d.get('inst')

    def name_of(self, adt, vi):
        return self.adts[adt][0].d['variants'][vi]['name']
