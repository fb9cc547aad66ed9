"""The reference grammar.

`wasm.spec` is written in Python syntax but never executed: it is parsed with `ast` and compiled to a
small stack machine, which the product analysis advances alongside the program.

Statements:  x = byte()      x = peek()      x = byte_or_eof()   x = bytes(n)    x = rest()
             x = SomeRule(a) x = expr        if/elif/else        while           with window(n): ...
             return e        return Tag, e   fail("why")         dispatch(x, "Table")
"""
import ast


class Rule:
    __slots__ = ('name', 'params', 'code', 'props', 'ret', 'tags', 'line', 'pure', 'opts')

    def __init__(self, name):
        self.name = name
        self.code = []
        self.props = ()
        self.ret = None
        self.tags = None
        self.pure = False
        self.opts = {}


READS = ('byte', 'peek', 'byte_or_eof', 'bytes', 'rest')


class Grammar:
    def __init__(self, path):
        self.rules = {}
        self.tables = {}
        src = open(path).read()
        tree = ast.parse(src)
        names = [n.name for n in tree.body if isinstance(n, ast.FunctionDef)]
        self.names = set(names)
        for n in sorted(tree.body, key=lambda n: isinstance(n, ast.FunctionDef)):
            if isinstance(n, ast.FunctionDef):
                self.compile(n)
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
                self.table(n.targets[0].id, n.value.value)
            elif isinstance(n, ast.Expr):
                pass
            else:
                raise SyntaxError(ast.dump(n))

    # tables:  "<number> <Variant> imm imm..  [-> (order)] [@props]"
    def table(self, name, text):
        rows = {}
        for line in text.splitlines():
            line = line.split('#')[0].strip()
            if not line:
                continue
            w = line.split()
            order = None
            if '->' in w:
                i = w.index('->')
                order = [int(x) for x in w[i + 1:]]
                w = w[:i]
            rows[int(w[0], 0)] = (w[1], w[2:], order)
        self.tables[name] = rows

    def compile(self, fn):
        r = Rule(fn.name)
        r.params = [a.arg for a in fn.args.args]
        r.line = fn.lineno
        for d in fn.decorator_list:
            f = d.func.id
            vals = [ast.literal_eval(a) for a in d.args]
            if f == 'p':
                r.props = tuple(vals)
            elif f == 'ret':
                r.ret = vals
            elif f == 'tags':
                r.tags = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
            elif f == 'opt':
                for k in d.keywords:
                    r.opts[k.arg] = ast.literal_eval(k.value)
        self.rules[fn.name] = r
        self.cur = r
        self.block(fn.body)
        if not r.code or r.code[-1][0] not in ('ret', 'fail', 'jmp'):
            r.code.append(('ret', None, None))

    def emit(self, *op):
        self.cur.code.append(list(op))
        return len(self.cur.code) - 1

    def block(self, body):
        for s in body:
            self.stmt(s)

    def is_rule(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            (e.func.id in self.names or e.func.id == 'list_of')

    def stmt(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return
        if isinstance(s, ast.Pass):
            return
        if isinstance(s, ast.Assign) or isinstance(s, ast.Expr):
            e = s.value
            var = s.targets[0].id if isinstance(s, ast.Assign) else None
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
                f = e.func.id
                if f in READS:
                    self.emit('rd', var, f, [self.expr(a) for a in e.args])
                    return
                if f == 'fail':
                    why = ast.literal_eval(e.args[0])
                    props = tuple(ast.literal_eval(a) for a in e.args[1:])
                    self.emit('fail', why, props)
                    return
                if f == 'mark':
                    self.emit('mark', tuple(ast.literal_eval(a) for a in e.args))
                    return
                if f == 'dispatch':
                    self.dispatch(e)
                    return
                if f == 'list_of':
                    self.emit('call', var, ('list', e.args[0].id), [])
                    return
                if f in self.names:
                    self.emit('call', var, f, [self.expr(a) for a in e.args])
                    return
            self.emit('set', var, self.expr(e))
            return
        if isinstance(s, ast.If):
            b = self.emit('br', self.expr(s.test), None)
            self.block(s.body)
            if s.orelse:
                j = self.emit('jmp', None)
                self.cur.code[b][2] = len(self.cur.code)
                self.block(s.orelse)
                self.cur.code[j][1] = len(self.cur.code)
            else:
                self.cur.code[b][2] = len(self.cur.code)
            return
        if isinstance(s, ast.While):
            h = self.emit('head')
            true = isinstance(s.test, ast.Constant) and s.test.value is True
            b = None if true else self.emit('br', self.expr(s.test), None)
            self.brk = getattr(self, 'brk', [])
            self.brk.append([])
            self.block(s.body)
            self.emit('jmp', h)
            end = len(self.cur.code)
            if b is not None:
                self.cur.code[b][2] = end
            for j in self.brk.pop():
                self.cur.code[j][1] = end
            return
        if isinstance(s, ast.Break):
            self.brk[-1].append(self.emit('jmp', None))
            return
        if isinstance(s, ast.With):
            self.emit('win', self.expr(s.items[0].context_expr.args[0]))
            self.block(s.body)
            self.emit('endwin')
            return
        if isinstance(s, ast.Return):
            e = s.value
            tag = None
            if isinstance(e, ast.Tuple) and isinstance(e.elts[0], ast.Constant) and isinstance(e.elts[0].value, str):
                tag = e.elts[0].value
                comps = [self.expr(x) for x in e.elts[1:]]
            elif isinstance(e, ast.Tuple):
                comps = [self.expr(x) for x in e.elts]
            elif e is None:
                comps = []
            else:
                comps = [self.expr(e)]
            self.emit('ret', tag, comps)
            return
        raise SyntaxError(ast.dump(s))

    def dispatch(self, e):
        """dispatch(x, "Table", "RetTag" or None): read the immediates and return the instruction"""
        var = e.args[0].id
        rows = self.tables[e.args[1].value]
        tag = e.args[2].value
        d = self.emit('disp', var, {})
        targets = {}
        for v, (name, imms, order) in sorted(rows.items()):
            targets[v] = len(self.cur.code)
            vs = []
            for i, im in enumerate(imms):
                x = '_i%d' % i
                if im.startswith('list:'):
                    self.emit('call', x, ('list', im[5:]), [])
                elif im.startswith('='):
                    self.emit('set', x, ('c', int(im[1:])))
                else:
                    self.emit('call', x, im, [])
                vs.append(('v', x))
            if order:
                vs = [vs[k] for k in order]
            val = ('adt', 'Instruction', name, vs, None)
            self.emit('ret', tag, [val])
        self.cur.code[d][2] = targets
        self.cur.code[d].append(len(self.cur.code))

    # ---- expressions
    def expr(self, e):
        if isinstance(e, ast.Constant):
            if e.value is True or e.value is False:
                return ('c', int(e.value))
            if e.value is None:
                return ('adt', 'Option', 'None', [], None)
            return ('c', e.value)
        if isinstance(e, ast.Name):
            if e.id[0].isupper():
                return ('adt', e.id, None, [], None)
            return ('v', e.id)
        if isinstance(e, ast.List):
            return ('list', [self.expr(x) for x in e.elts])
        if isinstance(e, ast.Tuple):
            return ('tuple', [self.expr(x) for x in e.elts])
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return ('not', self.expr(e.operand))
            return ('neg', self.expr(e.operand))
        if isinstance(e, ast.BinOp):
            op = {ast.Add: '+', ast.Sub: '-', ast.BitAnd: '&', ast.BitOr: '|', ast.LShift: '<<', ast.RShift: '>>', ast.Mult: '*'}[type(e.op)]
            return ('bin', op, self.expr(e.left), self.expr(e.right))
        if isinstance(e, ast.Compare):
            op = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(e.ops[0])]
            return ('cmp', op, self.expr(e.left), self.expr(e.comparators[0]))
        if isinstance(e, ast.BoolOp):
            op = 'and' if isinstance(e.op, ast.And) else 'or'
            r = self.expr(e.values[0])
            for x in e.values[1:]:
                r = (op, r, self.expr(x))
            return r
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id[0].isupper():
                return ('adt', e.value.id, e.attr.rstrip('_'), [], None)
            return ('field', self.expr(e.value), e.attr)
        if isinstance(e, ast.Call):
            f = e.func
            kw = {k.arg.rstrip('_'): self.expr(k.value) for k in e.keywords} or None
            args = [self.expr(a) for a in e.args]
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id[0].isupper():
                return ('adt', f.value.id, f.attr.rstrip('_'), args, kw)
            if isinstance(f, ast.Name):
                if f.id == 'Some':
                    return ('adt', 'Option', 'Some', args, None)
                if f.id[0].isupper():
                    return ('adt', f.id, None, args, kw)
                return ('fn', f.id, args)
        raise SyntaxError(ast.dump(e))

    # ---- queries
    def list_rule(self, elem):
        k = 'list(%s)' % elem
        if k in self.rules:
            return self.rules[k]
        src = 'def f():\n n = u32()\n i = 0\n r = []\n while i < n:\n  x = %s()\n  r = r + [x]\n  i = i + 1\n return r\n' % elem
        self.compile(ast.parse(src).body[0])
        r = self.rules.pop('f')
        r.name = k
        r.props = ('C03',)
        r.ret = ['list:' + elem]
        self.rules[k] = r
        return r

    def rule(self, X):
        if isinstance(X, tuple):
            return self.list_rule(X[1])
        return self.rules[X]

    def rname(self, X):
        return 'list(%s)' % X[1] if isinstance(X, tuple) else X

    def kinds(self, X, tag):
        r = self.rule(X)
        if tag is not None:
            return r.tags[tag]
        return r.ret if r.ret is not None else []

    def tags(self, X):
        return self.rule(X).tags

    def leads_call(self, X):
        for op in self.rule(X).code:
            if op[0] in ('set', 'mark'):
                continue
            return op[0] == 'call'
        return False
