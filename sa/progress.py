"""Progress of the loops and of the recursive calls, from the syntax tree.

For each loop whose number of iterations is not that of a finite sequence: the paths of its body that come back to its test, the
variables its exits depend on (test, guards of the exits, and what determines them in the body), and what each path may change of
them. For counters, the exact change of both sides of the comparison along each path."""
import ast
import copy
from .ambient import functions, dotted

LIMIT = 4000
PURE = {'len', 'abs', 'min', 'max', 'sum', 'isinstance', 'int', 'float', 'bool', 'complex', 'tuple', 'list', 'set', 'sorted', 'any', 'all', 'range', 'enumerate', 'zip', 'round',
        'str', 'repr', 'type', 'divmod', 'pow', 'frozenset', 'dict', 'reversed', 'callable', 'hasattr', 'ord', 'chr'}
PURE_METHODS = {'any', 'all', 'sum', 'max', 'min', 'mean', 'keys', 'values', 'items', 'index', 'count', 'get', 'startswith', 'endswith', 'strip', 'split', 'lower', 'upper',
                'copy', 'conjugate', 'find', 'isdigit', 'format', 'join', 'replace', 'union', 'intersection', 'difference', 'issubset', 'is_integer', 'tolist', 'transpose', 'dot'}
PURE_EXT = ('numpy.', 'math.', 'mpmath.', 'scipy.')
GROW = {'append': 1, 'insert': 1, 'appendleft': 1}
SHRINK = {'pop': -1, 'popleft': -1, 'remove': -1, 'popitem': -1}
CHANGE = set(GROW) | set(SHRINK) | {'extend', 'clear', 'add', 'discard', 'update', 'sort', 'reverse', 'extendleft', 'setdefault', 'put', 'get_nowait', 'send', 'next', '__next__',
                                    'readline', 'read', 'readlines', 'seek', 'write', 'fill', 'itemset', 'resize'}


class TooMany(Exception):
    pass


def key(e):
    """name or dotted path of an expression, without its subscripts"""
    while isinstance(e, (ast.Subscript, ast.Starred)):
        e = e.value
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        k = key(e.value)
        return None if k is None else k + '.' + e.attr
    return None


def reads(e):
    """the paths an expression reads"""
    out = set()
    for n in ast.walk(e):
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            k = key(n)
            if k:
                out.add(k)
    return out


def related(a, b):
    """one path is inside the other"""
    return a == b or a.startswith(b + '.') or b.startswith(a + '.')


def conditional(e):
    """the first conditional value of an arithmetic expression: (node, test, value if true, value if false)"""
    if isinstance(e, ast.IfExp):
        return e, e.test, e.body, e.orelse
    if isinstance(e, ast.Compare):
        return e, e, ast.Constant(1), ast.Constant(0)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('int', 'bool', 'float') and len(e.args) == 1 and isinstance(e.args[0], (ast.Compare, ast.IfExp)):
        _, t, a, b = conditional(e.args[0])
        return e, t, a, b
    if isinstance(e, ast.BinOp):
        return conditional(e.left) or conditional(e.right)
    if isinstance(e, ast.UnaryOp):
        return conditional(e.operand)
    return None


def desugar(s):
    """x += a if t else b  as a conditional statement"""
    if not (isinstance(s, ast.AugAssign) or isinstance(s, ast.Assign) and len(s.targets) == 1 and not isinstance(s.value, (ast.Compare, ast.UnaryOp))):
        return None
    c = conditional(s.value)
    if c is None:
        return None
    node, test, a, b = c
    out = []
    for v in (a, b):
        t = copy.copy(s)
        t.value = copy.deepcopy(s.value, {id(node): v})
        out.append(ast.copy_location(t, s))
    return ast.copy_location(ast.If(test, [out[0]], [out[1]]), s)


def paths(body, lim=None):
    """paths of a block: (events, end); events are ('stmt', node), ('cond', test, truth), ('loop', node), ('raised', node)"""
    out = [([], 'fall')]
    for s in body:
        nxt = []
        for ev, end in out:
            if end != 'fall':
                nxt.append((ev, end))
                continue
            for ev2, end2 in step(s):
                nxt.append((ev + ev2, end2))
        if len(nxt) > LIMIT:
            raise TooMany()
        out = nxt
    return out


def step(s):
    s = desugar(s) or s
    if isinstance(s, ast.If):
        r = []
        c = constant(s.test)
        if c is not False:
            r += [([('cond', s.test, True)] + ev, end) for ev, end in paths(s.body)]
        if c is not True:
            r += [([('cond', s.test, False)] + ev, end) for ev, end in paths(s.orelse)]
        return r
    if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
        # nested loops: any number of iterations; they may leave the function
        r = [([('loop', s)], 'fall')] if not endless(s) else []
        for ev, end in paths(s.body):
            if end in ('return', 'raise'):
                r.append(([('loop', s)] + [e for e in ev if e[0] == 'cond'], end))
        return r
    if isinstance(s, (ast.With, ast.AsyncWith)):
        return [([('stmt', s)] + ev, end) for ev, end in paths(s.body)]
    if isinstance(s, ast.Try):
        r = []
        for ev, end in paths(s.body):
            if end == 'fall':
                r += [(ev + ev2, end2) for ev2, end2 in paths(s.orelse)]
            else:
                r.append((ev, end))
        # an exception at any statement of the body
        for k in range(len(s.body)):
            for ev, end in paths(s.body[:k]):
                if end == 'fall':
                    for h in s.handlers:
                        r += [(ev + [('raised', s.body[k])] + ev2, end2) for ev2, end2 in paths(h.body)]
        if s.finalbody:
            fin = paths(s.finalbody)
            r = [(ev + ev2, end if end2 == 'fall' else end2) for ev, end in r for ev2, end2 in fin]
        return r
    if isinstance(s, ast.Return):
        return [([('stmt', s)], 'return')]
    if isinstance(s, ast.Raise):
        return [([('stmt', s)], 'raise')]
    if isinstance(s, ast.Break):
        return [([], 'break')]
    if isinstance(s, ast.Continue):
        return [([], 'continue')]
    if isinstance(s, ast.Match):
        r = []
        for c in s.cases:
            r += [([('cond', s.subject, True)] + ev, end) for ev, end in paths(c.body)]
        return r + [([('cond', s.subject, False)], 'fall')]
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and key(s.value.func) in ('sys.exit', 'exit', 'os._exit', 'quit'):
        return [([('stmt', s)], 'raise')]
    return [([('stmt', s)], 'fall')]


def constant(t):
    if isinstance(t, ast.Constant):
        return bool(t.value)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        c = constant(t.operand)
        return None if c is None else not c
    return None


def endless(s):
    """a loop that is left only by a return or an exception"""
    return isinstance(s, ast.While) and constant(s.test) is True and not any(end == 'break' for _, end in paths(s.body))


class Writes:
    """what a statement may change: exact changes of numbers and lengths, other writes"""

    def __init__(self, fn):
        self.fn = fn
        self.local = {}
        for n in ast.walk(fn):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
                if isinstance(n, ast.FunctionDef):
                    self.local[n.name] = n

    def of(self, node, cond=False):
        """list of (path, change): change is ('num', c), ('len', c), ('content',) or None (unknown)"""
        out = []
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            return [(node.name, None)] if not isinstance(node, ast.Lambda) else []
        if isinstance(node, ast.Assign) and not cond:
            for t in node.targets:
                out += self.target(t, node.value)
        elif isinstance(node, ast.AugAssign):
            k = key(node.target)
            if k:
                c = number(node.value)
                if isinstance(node.target, ast.Subscript):
                    out.append((k, ('content',)))
                elif c is not None and isinstance(node.op, (ast.Add, ast.Sub)):
                    out.append((k, ('num', c if isinstance(node.op, ast.Add) else -c)))
                elif isinstance(node.op, ast.Add) and isinstance(node.value, (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in node.value.elts):
                    out.append((k, ('len', len(node.value.elts))))
                else:
                    out.append((k, None))
        elif isinstance(node, ast.AnnAssign) and node.value is not None:
            out += self.target(node.target, node.value)
        elif isinstance(node, ast.Delete):
            for t in node.targets:
                k = key(t)
                if k:
                    out.append((k, ('len', -1) if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice) else None))
        elif isinstance(node, (ast.With, ast.AsyncWith)):
            for i in node.items:
                if i.optional_vars is not None:
                    out += self.target(i.optional_vars, None)
        elif isinstance(node, (ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
            return []
        items = [i.context_expr for i in node.items] if isinstance(node, (ast.With, ast.AsyncWith)) else [node]
        for it in items:
            for n in ast.walk(it):
                if isinstance(n, ast.NamedExpr):
                    out += self.target(n.target, n.value)
                elif isinstance(n, ast.Call):
                    out += self.call(n, node)
                elif isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                    out.append(('*', None))
        return out

    def target(self, t, v):
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [None] * len(t.elts)
            return [w for x, y in zip(t.elts, vs) for w in self.target(x, y if not isinstance(t, ast.Starred) else None)]
        if isinstance(t, ast.Starred):
            return self.target(t.value, None)
        k = key(t)
        if k is None:
            return [('*', None)]
        if isinstance(t, ast.Subscript):
            return [(k, ('content',) if not isinstance(t.slice, ast.Slice) else None)]
        if v is not None:
            if key(v) == k and not isinstance(v, ast.Subscript):
                return []                      # x = x
            c = change(t, v)
            if c is not None:
                return [(k, ('num', c))]
        return [(k, None)]

    def call(self, n, stmt):
        out = []
        f = n.func
        if isinstance(f, ast.Attribute):
            k = key(f.value)
            alone = isinstance(stmt, (ast.Expr, ast.Assign)) and stmt.value is n
            if k is not None:
                if f.attr in GROW and alone:
                    out.append((k, ('len', GROW[f.attr])))
                elif f.attr in SHRINK and alone:
                    out.append((k, ('len', SHRINK[f.attr])))
                elif f.attr == 'extend' and alone and n.args and isinstance(n.args[0], (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in n.args[0].elts):
                    out.append((k, ('len', len(n.args[0].elts))))
                elif f.attr not in PURE_METHODS:
                    out.append((k, None))
        name = f.id if isinstance(f, ast.Name) else None
        if name in self.local:
            # a function defined here: what it changes outside of itself
            g = self.local[name]
            own = {a.arg for a in g.args.args}
            outer = set()
            for m in ast.walk(g):
                if isinstance(m, (ast.Nonlocal, ast.Global)):
                    outer |= set(m.names)
            for m in ast.walk(g):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load) and m.id not in own or isinstance(m, ast.Name) and m.id in outer:
                    out.append((m.id, None))
        if name in PURE:
            return out
        if isinstance(f, ast.Attribute) and f.attr in PURE_METHODS | set(GROW) and not any(isinstance(a, ast.Starred) for a in n.args):
            return out
        for a in list(n.args) + [w.value for w in n.keywords]:
            # objects given to unknown functions may be changed by them
            for x in ast.walk(a):
                if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load):
                    k = key(x)
                    if k:
                        out.append((k, ('content',)))
        return out


def number(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
        c = number(e.operand)
        return None if c is None else -c if isinstance(e.op, ast.USub) else c
    return None


def change(t, v):
    """x = x + c"""
    if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub)):
        a, b = v.left, v.right
        if key(a) == key(t) and not isinstance(a, ast.Subscript) and number(b) is not None:
            return number(b) if isinstance(v.op, ast.Add) else -number(b)
        if isinstance(v.op, ast.Add) and key(b) == key(t) and not isinstance(b, ast.Subscript) and number(a) is not None:
            return number(a)
    return None


def linear(e):
    """{term: coefficient}: terms are ('num', path), ('len', path), ('expr', dump, node)"""
    if number(e) is not None:
        return {(): number(e)}
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        a, b = linear(e.left), linear(e.right)
        s = 1 if isinstance(e.op, ast.Add) else -1
        out = dict(a)
        for k, c in b.items():
            out[k] = out.get(k, 0) + s * c
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        for x, y in ((e.left, e.right), (e.right, e.left)):
            if number(x) is not None:
                return {k: number(x) * c for k, c in linear(y).items()}
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return {k: -c for k, c in linear(e.operand).items()}
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1 and key(e.args[0]) and not isinstance(e.args[0], ast.Subscript):
        return {('len', key(e.args[0])): 1}
    if isinstance(e, (ast.Name, ast.Attribute)) and key(e):
        return {('num', key(e)): 1}
    return {('expr', ast.dump(e), frozenset(reads(e)), any(isinstance(n, ast.Call) for n in ast.walk(e))): 1}


def order_atoms(t, pol=True):
    """[(linear form, strict)]: the loop goes on only while every form is > 0 (or >= 0); and the other atoms"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return order_atoms(t.operand, not pol)
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And if pol else ast.Or):
        out = []
        for v in t.values:
            out += order_atoms(v, pol)
        return out
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        op, a, b = t.ops[0], t.left, t.comparators[0]
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            up = isinstance(op, (ast.Lt, ast.LtE))
            if not pol:
                up = not up
            f = linear(b) if up else linear(a)
            g = linear(a) if up else linear(b)
            out = dict(f)
            for k, c in g.items():
                out[k] = out.get(k, 0) - c
            return [('order', {k: c for k, c in out.items() if c and k != ()}, t)]
        if isinstance(op, ast.NotEq if pol else ast.Eq) and number(b) == 0 and len(linear(a)) == 1 and next(iter(linear(a)))[:1] == ('len',):
            return [('order', linear(a), t)]
    if isinstance(t, (ast.Name, ast.Attribute)) and pol:
        return [('truth', key(t), t)]
    return [('other', t, t)]


class Loop:
    def __init__(self, A, mod, qual, fn, node):
        self.A, self.mod, self.qual, self.fn, self.node = A, mod, qual, fn, node
        self.W = Writes(fn)
        self.where = '%s::%s' % (mod.path_ if hasattr(mod, 'path_') else mod.name, qual)
        self.ps = paths(node.body)
        self.cycles = [ev for ev, end in self.ps if end in ('fall', 'continue')]
        self.exits = [ev for ev, end in self.ps if end in ('break', 'return', 'raise')]
        self.atoms = order_atoms(node.test) if constant(node.test) is None else []

    def writes(self, ev):
        out = []
        for e in ev:
            if e[0] == 'stmt':
                out += self.W.of(e[1])
            elif e[0] == 'cond':
                out += self.W.of(e[1], True)
            elif e[0] == 'loop':
                n = e[1]
                if isinstance(n, ast.For):
                    out += self.W.target(n.target, None)
                    out += self.W.of(n.iter, True)
                else:
                    out += self.W.of(n.test, True)
                for m in ast.walk(ast.Module(body=n.body, type_ignores=[])):
                    if isinstance(m, ast.stmt):
                        out += [(k, None) for k, _ in self.W.of(m)]
        return out

    def slice(self):
        """what the exits depend on: the paths read, and whether hidden state is read"""
        exprs = [] if constant(self.node.test) is not None else [self.node.test]
        for ev in self.exits:
            exprs += [e[1] for e in ev if e[0] in ('cond', 'raised')]
            if any(e[0] == 'loop' for e in ev):
                exprs += [e[1] for e in ev if e[0] == 'loop']
        raising = [e[1] for ev in self.cycles for e in ev if e[0] == 'raised']
        exprs += raising
        todo, S, hidden = list(exprs), set(), False
        seen = set()
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            hidden = hidden or self.hidden(x)
            new = reads(x) - S
            S |= new
            for ev, end in self.ps:
                for i, e in enumerate(ev):
                    ws = self.writes([e])
                    if any(k == '*' or related(k, s) for k, _ in ws for s in S):
                        n = e[1]
                        todo.append(n)
                        todo += [p[1] for p in ev[:i] if p[0] == 'cond']
        return S, hidden

    def hidden(self, x):
        """an expression whose value may change by itself: calls that are not known to be functions of their arguments"""
        for n in ast.walk(x):
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Name) and f.id in PURE and self.A.prog.resolve(self.mod, f.id) is None:
                    continue
                if isinstance(f, ast.Attribute) and f.attr in PURE_METHODS | CHANGE:
                    continue
                d = dotted(self.A.prog, self.mod, f, {})
                if d and d.startswith(PURE_EXT) and 'random' not in d and not d.split('.')[-1].startswith('rand'):
                    continue
                return True
            elif isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                return True
        return False

    def delta(self, form, ev):
        """exact change of a linear form along a path, or None"""
        tot = 0
        ws = self.writes(ev)
        if any(k == '*' for k, _ in ws):
            return None
        for t, c in form.items():
            if t[0] == 'num' and self.reset(t[1]):
                # the same constant at the end of every path: no change from one iteration to the next
                continue
            if t[0] == 'expr':
                if t[3] or any(related(k, r) for k, _ in ws for r in t[2]):
                    return None
                continue
            for k, ch in ws:
                if k == t[1]:
                    if ch is None:
                        return None
                    if ch[0] == t[0]:
                        tot += c * ch[1]
                    elif ch == ('content',):
                        # the elements, or an object that an unknown function may change: numbers do not change
                        if t[0] == 'len':
                            return None
                    else:
                        return None
                elif related(k, t[1]) and t[1].startswith(k + '.'):
                    # the object that holds the value
                    return None
        return tot

    def reset(self, name):
        """every path back to the test ends with the same constant in a variable"""
        if not hasattr(self, 'resets'):
            self.resets = {}
        if name not in self.resets:
            got = set()
            for ev in getattr(self, 'cycles', ()):
                last = None
                for e in ev:
                    if any(k == '*' or related(k, name) for k, _ in self.writes([e])):
                        n = e[1]
                        v = number(n.value) if e[0] == 'stmt' and isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name else None
                        last = ('other', id(n)) if v is None else ('const', v)
                got.add(last)
            self.resets[name] = len(got) == 1 and next(iter(got)) is not None and next(iter(got))[0] == 'const'
        return self.resets[name]

    def judge(self):
        """[(verdict, rule, text, line)]"""
        out = []
        line = self.node.lineno
        if isinstance(self.node, ast.While) and constant(self.node.test) is False:
            return [('ok', 'progress', 'never entered', line)]
        if not self.cycles:
            return [('ok', 'progress', 'one iteration at most', line)]
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(self.node))
        if constant(self.node.test) is True and not self.exits:
            return [('ok', 'progress', 'generator: the caller ends it', line)] if gen else [('viol', 'progress', 'no exit', line)]
        S, hidden = self.slice()
        raising = any(e[0] == 'raised' for ev in self.cycles for e in ev)
        bad = None
        for ev in self.cycles:
            ws = self.writes(ev)
            if not hidden and not any(k == '*' or related(k, s) for k, _ in ws for s in S):
                bad = ev
                break
        names = ', '.join(sorted(S)[:6])
        if bad is not None:
            out.append(('viol', 'progress', 'on the path %s nothing of what the exit depends on (%s) is changed' % (text(bad), names), line))
        else:
            out.append(('ok', 'progress', '%d path(s) back to the test, each changes what the exit depends on' % len(self.cycles), line))
        ranked = False
        for a in self.atoms:
            if a[0] == 'order':
                ds = [self.delta(a[1], ev) for ev in self.cycles]
                con = ast.unparse(a[2])
                if all(d is not None and d < 0 for d in ds):
                    ranked = True
                    out.append(('ok', 'bound', '%s: every path makes the exit closer' % con, line))
                elif all(d is not None and d >= 0 for d in ds):
                    out.append(('viol', 'bound', '%s: no path makes the exit closer' % con, line))
                elif self.limit(a) and any(d is not None and d >= 0 for d in ds):
                    k = [i for i, d in enumerate(ds) if d is not None and d >= 0][0]
                    out.append(('viol', 'bound', '%s, the limit of the number of iterations: not closer on the path %s' % (con, text(self.cycles[k])), line))
                elif self.counter(a) and any(d is not None and d >= 0 for d in ds) and all(d is not None for d in ds) and self.alone(a, ds):
                    k = [i for i, d in enumerate(ds) if d >= 0][0]
                    out.append(('viol', 'bound', '%s: not closer to the exit on the path %s' % (con, text(self.cycles[k])), line))
            elif a[0] == 'truth':
                # a sequence emptied by the loop
                ds = [self.delta({('len', a[1]): 1}, ev) for ev in self.cycles]
                if all(d is not None and d < 0 for d in ds):
                    ranked = True
                    out.append(('ok', 'bound', '%s: every path removes elements' % a[1], line))
                elif all(d is not None and d >= 0 for d in ds) and any(d > 0 for d in ds):
                    out.append(('viol', 'bound', '%s: elements are added and never removed' % a[1], line))
        self.ranked = ranked
        return out

    def limit(self, a):
        """a counter compared with a number beside another condition: it is there to bound the number of iterations"""
        return len(self.atoms) > 1 and any(b[0] != 'order' for b in self.atoms) and self.counter(a) and len(a[1]) == 1 and isinstance(a[2], ast.Compare) and \
            any(number(x) is not None for x in (a[2].left, a[2].comparators[0]))

    def counter(self, a):
        return all(t[0] == 'num' for t in a[1])

    def alone(self, a, ds):
        """the paths that do not advance change nothing else of what they depend on"""
        for ev, d in zip(self.cycles, ds):
            if d >= 0:
                conds = set().union(*[reads(e[1]) for e in ev if e[0] == 'cond'] or [set()])
                if any(self.hidden(e[1]) for e in ev if e[0] == 'cond'):
                    continue
                if not any(k == '*' or related(k, s) for k, _ in self.writes(ev) for s in conds | reads(self.node.test)):
                    return True
        return False


def text(ev):
    c = [('%s' if t[2] else 'not (%s)') % ast.unparse(t[1]) for t in ev if t[0] == 'cond']
    return ' and '.join(c)[:160] or 'of the body'


# ------------------------------------------------------------------------------------------------------ calls

class Recursion:
    """the calls made on every path of a function: a cycle of them never ends"""

    def __init__(self, prog):
        self.prog = prog
        self.must = {}
        self.fns = {}
        for mod, cls, qual, node in functions(prog):
            if isinstance(node, ast.FunctionDef):
                self.fns[id(node)] = (mod, cls, qual, node)
        for k, (mod, cls, qual, node) in self.fns.items():
            self.must[k] = self.musts(mod, cls, node)

    def musts(self, mod, cls, node):
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
            return set()
        try:
            ps = paths(node.body)
        except TooMany:
            return set()
        self_ = node.args.args[0].arg if cls and node.args.args else None
        C = self.prog.find_class(mod.name, cls) if cls else None
        local = {a.arg for a in node.args.args + node.args.kwonlyargs} | {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        tot = None
        for ev, end in ps:
            got = set()
            for i, e in enumerate(ev):
                if e[0] in ('stmt', 'cond'):
                    got |= self.evaluated(e[1], mod, C, self_, local, node)
                elif e[0] == 'loop':
                    got |= self.evaluated(e[1].iter if isinstance(e[1], (ast.For, ast.AsyncFor)) else e[1].test, mod, C, self_, local, node)
                elif e[0] == 'raised':
                    break
            tot = got if tot is None else tot & got
        return tot or set()

    def evaluated(self, e, mod, C, self_, local, fn):
        out = set()

        def visit(n):
            if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Try, ast.Assert)):
                if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    visit(n.generators[0].iter)
                return
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    visit(i.context_expr)
                return
            if isinstance(n, ast.BoolOp):
                visit(n.values[0])
                return
            if isinstance(n, ast.IfExp):
                visit(n.test)
                return
            if isinstance(n, ast.Compare):
                visit(n.left)
                visit(n.comparators[0])
                return
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Name) and f.id not in local:
                    r = self.prog.resolve(mod, f.id)
                    if r is not None and r[0] == 'func' and id(r[1]) in self.fns:
                        out.add(id(r[1]))
                elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == self_ and C is not None:
                    m = self.prog.lookup_method(C, f.attr)
                    if m and m[0] == 'meth' and id(m[1]) in self.fns:
                        out.add(id(m[1]))
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == self_ and C is not None:
                if isinstance(n.ctx, ast.Load) and n.attr in C.props:
                    out.add(id(C.props[n.attr]))
                elif isinstance(n.ctx, ast.Store) and n.attr in C.setters:
                    out.add(id(C.setters[n.attr]))
            for c in ast.iter_child_nodes(n):
                visit(c)
        visit(e)
        return out

    def cycles(self):
        """functions that reach themselves by calls made on every path"""
        out = []
        for k in self.fns:
            seen, todo = set(), list(self.must[k])
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += list(self.must.get(x, ()))
            if k in seen:
                out.append(k)
        return out


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.loops, self.fors, self.failed = [], [], []
        for mod, cls, qual, node in functions(prog):
            for n in own(node):
                if isinstance(n, ast.While):
                    try:
                        self.loops.append(Loop(self, mod, qual, node, n))
                    except TooMany:
                        self.failed.append((mod, qual, n))
                elif isinstance(n, (ast.For, ast.AsyncFor)):
                    self.fors.append((mod, qual, node, n))

    def endless_iter(self, mod, fn, n):
        """(kind, what): a sequence that never ends or that the loop makes longer at every iteration"""
        it = n.iter
        while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('enumerate', 'iter') and len(it.args) == 1:
            it = it.args[0]
        if isinstance(it, ast.Call):
            d = dotted(self.prog, mod, it.func, {})
            if d in ('itertools.count', 'itertools.cycle') or d == 'itertools.repeat' and len(it.args) < 2 and not it.keywords:
                ps = paths(n.body)
                if not any(end in ('break', 'return', 'raise') for _, end in ps) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
                    return 'viol', 'the sequence %s never ends and the loop has no exit' % d
                return 'ok', d
            return None
        k = key(it)
        if k is None or isinstance(it, ast.Subscript):
            return None
        W = Writes(fn)
        L = Loop.__new__(Loop)
        L.W, L.node, L.A, L.mod = W, n, self, mod
        try:
            ps = paths(n.body)
        except TooMany:
            return None
        ds = []
        for ev, end in ps:
            if end in ('fall', 'continue'):
                ds.append(L.delta({('len', k): 1}, ev))
        if ds and all(d is not None and d > 0 for d in ds) and not any(end in ('break', 'return', 'raise') for _, end in ps):
            return 'viol', 'every iteration adds an element to %s, which is the sequence iterated' % k
        return 'ok', k


def own(node):
    todo = list(node.body)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(x))
