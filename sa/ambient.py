"""Typestate analysis of process-wide numeric state: what every function leaves changed on each of its exits.

Every function of the library is analysed on its structured control flow, with an exceptional edge from every statement that can
raise and a suspension at every yield. The state of a path is: the settings changed and not restored on it, the variables holding
the value a setting had when the function was entered, and the outcome of the tests made on it. Functions of the library that
set or restore a setting for their callers are summarised and followed through the calls."""
import ast
import builtins
from .program import ext_object

CALL, ATTR = 'call', 'attr'
PREC = ('mpmath.mp.prec', 'mpmath.mp.dps', 'mpmath.mp._prec', 'mpmath.mp._dps')
ATTRS = {a: 'working precision' for a in PREC}
ATTRS.update({'mpmath.iv.prec': 'interval precision', 'mpmath.iv.dps': 'interval precision', 'sollya.settings.prec': 'sollya precision',
              'mpmath.fp.prec': 'working precision', 'mpmath.mp.pretty': 'display options', 'mpmath.mp.rounding': 'rounding mode',
              'mpmath.mp._prec_rounding': 'working precision', 'mpmath.mp.trap_complex': 'complex trapping',
              'decimal.getcontext().prec': 'decimal precision'})
LOSSY = {'mpmath.mp.dps', 'mpmath.iv.dps'}          # a number of digits does not determine the number of bits
SETTERS = {'numpy.set_printoptions': 'display options', 'numpy.seterr': 'floating-point error handling', 'numpy.seterrcall': 'floating-point error handling',
           'os.chdir': 'working directory', 'os.fchdir': 'working directory', 'numpy.random.seed': 'numpy random seed', 'random.seed': 'random seed',
           'numpy.random.set_state': 'numpy random seed', 'random.setstate': 'random seed', 'locale.setlocale': 'locale',
           'decimal.setcontext': 'decimal precision', 'numpy.set_string_function': 'display options', 'sys.setrecursionlimit': 'recursion limit'}
GETTERS = {'numpy.get_printoptions': 'display options', 'numpy.geterr': 'floating-point error handling', 'os.getcwd': 'working directory',
           'numpy.random.get_state': 'numpy random seed', 'random.getstate': 'random seed', 'numpy.seterr': 'floating-point error handling',
           'decimal.getcontext': 'decimal precision', 'sys.getrecursionlimit': 'recursion limit', 'locale.setlocale': 'locale', 'os.path.abspath': None}
MANAGERS = {'mpmath.workprec': 'working precision', 'mpmath.workdps': 'working precision', 'mpmath.extraprec': 'working precision',
            'mpmath.extradps': 'working precision', 'numpy.printoptions': 'display options', 'numpy.errstate': 'floating-point error handling',
            'contextlib.chdir': 'working directory', 'decimal.localcontext': 'decimal precision'}
for _m in ('workprec', 'workdps', 'extraprec', 'extradps'):
    MANAGERS['mpmath.mp.' + _m] = 'working precision'
SEEDS = {'numpy.random.seed', 'random.seed'}
SAFE = (ast.Name, ast.Constant, ast.Load, ast.Store, ast.Compare, ast.Is, ast.IsNot, ast.Eq, ast.NotEq, ast.Tuple, ast.Del, ast.expr_context, ast.cmpop,
        ast.BoolOp, ast.boolop, ast.UnaryOp, ast.Not, ast.unaryop, ast.IfExp, ast.JoinedStr, ast.FormattedValue)


def functions(prog):
    """(module, class name or None, qualified name, node) of every function, nested ones and module bodies included"""
    out = []

    def visit(mod, body, cls, qual):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = qual + [s.name]
                out.append((mod, cls, '.'.join(q), s))
                visit(mod, s.body, cls, q)
            elif isinstance(s, ast.ClassDef):
                visit(mod, s.body, s.name, qual + [s.name])
            else:
                for f in ('body', 'orelse', 'finalbody'):
                    if isinstance(getattr(s, f, None), list):
                        visit(mod, getattr(s, f), cls, qual)
                for h in getattr(s, 'handlers', []):
                    visit(mod, h.body, cls, qual)
                for h in getattr(s, 'cases', []):
                    visit(mod, h.body, cls, qual)
    for m in prog.modules.values():
        out.append((m, None, '<module>', m.tree))
        visit(m, m.tree.body, None, [])
    return out


def dotted(prog, mod, e, local):
    """external dotted name an expression denotes, or None"""
    if isinstance(e, ast.Name):
        if e.id in local:
            return local[e.id]
        r = prog.resolve(mod, e.id)
        if r is None:
            return None
        if r[0] == 'ext':
            return canonical(r[1])
        if r[0] == 'value' and isinstance(r[1], (ast.Name, ast.Attribute)) and not (isinstance(r[1], ast.Name) and r[1].id == e.id):
            return dotted(prog, r[2], r[1], {})
        return None
    if isinstance(e, ast.Attribute):
        b = dotted(prog, mod, e.value, local)
        if b is None:
            r = prog.resolve_expr(mod, e) if base_name(e) not in local else None
            return canonical(r[1]) if r is not None and r[0] == 'ext' else None
        return canonical(b + '.' + e.attr)
    if isinstance(e, ast.Call) and not e.args and not e.keywords:
        b = dotted(prog, mod, e.func, local)
        return b + '()' if b is not None else None
    return None


def base_name(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


_canon = {}


def canonical(d):
    """one name per object: mpmath.mp for mpmath.ctx_mp..., numpy for its submodules"""
    if d in _canon:
        return _canon[d]
    r = d
    for k in list(SETTERS) + list(GETTERS) + list(MANAGERS) + ['mpmath.mp']:
        if k == d:
            break
    else:
        o = ext_object(d)
        if o is not None and not isinstance(o[0], (int, float, str, tuple)):
            for k in list(SETTERS) + [g for g in GETTERS if GETTERS[g]] + list(MANAGERS) + ['mpmath.mp', 'numpy', 'random', 'numpy.random', 'os', 'mpmath']:
                x = ext_object(k)
                if x is not None and x[0] is o[0]:
                    r = k
                    break
    _canon[d] = r
    return r


class Fn:
    """one function under analysis"""

    def __init__(self, mod, cls, qual, node):
        self.mod, self.cls, self.qual, self.node = mod, cls, qual, node
        self.name = qual.split('.')[-1]
        a = getattr(node, 'args', None)
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] if a else []
        d = [ast.dump(x) for x in getattr(node, 'decorator_list', [])]
        self.is_cm = any('contextmanager' in x for x in d)
        self.defaults = {}
        if a:
            ps = a.posonlyargs + a.args
            for p, v in zip(ps[len(ps) - len(a.defaults):], a.defaults):
                self.defaults[p.arg] = v
            for p, v in zip(a.kwonlyargs, a.kw_defaults):
                if v is not None:
                    self.defaults[p.arg] = v
        # summary
        self.sets = {}          # setting -> site left changed on a normal exit
        self.raises = {}        # setting -> site left changed when it raises
        self.yields = {}        # setting -> site changed while suspended
        self.returns_saved = None
        self.restores = {}      # setting -> parameter (or attribute) it is set from
        self.saves = {}         # attribute -> setting
        self.seed_param = {}    # setting -> parameter handed to the seeding
        self.cm_sets = {}       # settings changed at the yield of a context manager
        self.sites = 0
        self.local = {}

    @property
    def where(self):
        return '%s::%s' % (self.mod.name.replace('.', '/') + ('/__init__' if self.mod.is_pkg else '') + '.py', self.qual)

    def local_names(self, prog):
        """names bound in the function: to an external object when a single assignment says so"""
        loc = {}
        if isinstance(self.node, ast.Module):
            return loc
        for p in self.params:
            loc[p] = None
        counts = {}
        for s in own(self.node):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            counts.setdefault(x.id, []).append(s.value if isinstance(t, ast.Name) else None)
            elif isinstance(s, (ast.For, ast.With, ast.AugAssign, ast.AnnAssign, ast.NamedExpr, ast.comprehension)):
                for x in ast.walk(s.target if not isinstance(s, ast.With) else ast.Tuple([i.optional_vars for i in s.items if i.optional_vars], ast.Store())):
                    if isinstance(x, ast.Name):
                        counts.setdefault(x.id, []).append(None)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    n = a.asname or a.name.split('.')[0]
                    if isinstance(s, ast.Import):
                        loc[n] = a.name if a.asname else n
                    else:
                        b = self.mod.absolute(s.module, s.level)
                        loc[n] = canonical(b + '.' + a.name) if b not in prog.modules and not b.startswith('fixif') else None
        for n, vs in counts.items():
            loc[n] = None
            if len(vs) == 1 and isinstance(vs[0], (ast.Name, ast.Attribute)):
                d = dotted(prog, self.mod, vs[0], {k: v for k, v in loc.items() if k != n})
                if d is not None and d not in ATTRS:
                    loc[n] = d
        return loc


def own(node):
    """statements and expressions of a function, without those of functions defined inside"""
    todo = list(node.body)
    while todo:
        s = todo.pop()
        yield s
        for c in ast.iter_child_nodes(s):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            todo.append(c)


class State:
    """dirty: {setting: site}; saved: {variable: (setting, how)}; facts: {test text: bool}"""
    __slots__ = ('dirty', 'saved', 'facts', '_k')

    def __init__(self, dirty=(), saved=(), facts=()):
        self.dirty, self.saved, self.facts = dict(dirty), dict(saved), dict(facts)

    def copy(self):
        return State(self.dirty, self.saved, self.facts)

    def key(self):
        return (tuple(sorted(self.dirty.items(), key=repr)), tuple(sorted(self.saved.items())), tuple(sorted(self.facts.items(), key=repr)))


def dedup(states):
    out = {}
    for s in states:
        out.setdefault(s.key(), s)
    r = list(out.values())
    if len(r) > 64:             # join: keep the changed settings, forget tests
        out = {}
        for s in r:
            s.facts = {}
            out.setdefault(s.key(), s)
        r = list(out.values())
    return r


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.fns = [Fn(*f) for f in functions(prog)]
        self.by_name = {}
        for f in self.fns:
            self.by_name.setdefault(f.name, []).append(f)
        self.callers = {}
        self.statements = 0
        for f in self.fns:
            f.local = f.local_names(prog)
            for s in own(f.node):
                if isinstance(s, ast.Call):
                    for g in self.targets(f, s):
                        self.callers.setdefault(g.where, set()).add(f.where)
        for _ in range(6):
            before = [self.summary(f) for f in self.fns]
            for f in self.fns:
                self.run(f)
            if before == [self.summary(f) for f in self.fns]:
                break

    @staticmethod
    def summary(f):
        return repr((sorted(f.sets), sorted(f.raises), sorted(f.yields), f.returns_saved, sorted(f.restores.items()), sorted(f.saves.items()),
                     sorted(f.cm_sets), sorted(f.seed_param.items())))

    def targets(self, f, call):
        """functions of the library a call can reach, when it can be told"""
        e = call.func
        if isinstance(e, ast.Name):
            if e.id in f.local and f.local[e.id] is None:
                return [g for g in self.by_name.get(e.id, []) if g.mod is f.mod and g.qual.startswith(f.qual + '.')]
            r = self.prog.resolve(f.mod, e.id)
            if r is not None and r[0] == 'func':
                return [g for g in self.by_name.get(r[1].name, []) if g.node is r[1]]
            if r is not None and r[0] == 'class':
                m = self.prog.lookup_method(r[1], '__init__')
                return [g for g in self.by_name.get('__init__', []) if m is not None and g.node is m[1]]
            return [g for g in self.by_name.get(e.id, []) if g.mod is f.mod and '.' in g.qual and f.qual.startswith(g.qual.rsplit('.', 1)[0])]
        if isinstance(e, ast.Attribute):
            r = self.prog.resolve_expr(f.mod, e)
            if r is not None and r[0] == 'func':
                return [g for g in self.by_name.get(r[1].name, []) if g.node is r[1]]
            if r is not None and r[0] == 'ext':
                return []
            if e.attr in UBIQUITOUS:
                return []
            gs = [g for g in self.by_name.get(e.attr, []) if g.cls is not None]
            same = [g for g in gs if g.cls == f.cls]
            if isinstance(e.value, ast.Name) and e.value.id in ('self', 'cls') and same:
                return same
            return gs
        return []

    # ------------------------------------------------------------ one function
    def run(self, f):
        self.f = f
        f.sets, f.raises, f.yields, f.restores, f.seed_param = {}, {}, {}, {}, {}
        f.saves = {}
        f.sites = 0
        self.returned = []
        out = self.block(f.node.body, [State()])
        ends = out['fall'] + out['return']
        for s in ends:
            for r, (site, how) in s.dirty.items():
                f.sets.setdefault(r, site)
                if isinstance(how, tuple) and how[0] == 'from':
                    f.restores[r] = how[1]
        for s in out['raise']:
            for r, (site, how) in s.dirty.items():
                f.raises.setdefault(r, site)
        vals = {x for x in self.returned}
        f.returns_saved = vals.pop() if len(vals) == 1 else None

    def block(self, body, states):
        o = dict(fall=[], **{'return': [], 'raise': [], 'break': [], 'continue': []})
        cur = states
        for s in body:
            if not cur:
                break
            r = self.stmt(s, cur)
            for k in ('return', 'raise', 'break', 'continue'):
                o[k] += r[k]
            cur = dedup(r['fall'])
        o['fall'] = cur
        for k in o:
            o[k] = dedup(o[k])
        return o

    def res(self, **kw):
        o = {'fall': [], 'return': [], 'raise': [], 'break': [], 'continue': []}
        for k, v in kw.items():
            o[k.rstrip('_')] = v
        return o

    def stmt(self, s, states):
        self.statements += 1
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Pass, ast.Global, ast.Nonlocal)):
            return self.res(fall=states)
        if isinstance(s, (ast.Break, ast.Continue)):
            return self.res(**{'break_' if isinstance(s, ast.Break) else 'continue_': states})
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.res(fall=states, raise_=[x.copy() for x in states])
        if isinstance(s, ast.If):
            o = self.res(raise_=self.expr(s.test, states))
            t = ast.dump(s.test)
            names = {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)}
            pure = not any(isinstance(n, (ast.Call, ast.Subscript, ast.Attribute)) for n in ast.walk(s.test))
            yes, no = [], []
            for x in states:
                for v, l in ((True, yes), (False, no)):
                    if pure and x.facts.get(self.fkey(t, names), v) != v:
                        continue
                    y = x.copy()
                    if pure:
                        y.facts[self.fkey(t, names)] = v
                    for txt, b in facts_of(s.test, v):
                        y.facts[txt] = b
                    l.append(y)
            for b, st in ((s.body, yes), (s.orelse, no)):
                r = self.block(b, st)
                for k in o:
                    o[k] += r[k]
            return o
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            head = s.iter if isinstance(s, (ast.For, ast.AsyncFor)) else s.test
            o = self.res(raise_=self.expr(head, states))
            seen = {}
            cur = dedup([self.forget(x, s.target) if hasattr(s, 'target') else x for x in states])
            exits = [x for x in states]
            while True:
                new = [x for x in cur if x.key() not in seen]
                if not new:
                    break
                for x in new:
                    seen[x.key()] = x
                if not isinstance(s, ast.While):
                    o['raise'] += [x.copy() for x in new]       # the iterator itself can raise
                r = self.block(s.body, new)
                o['return'] += r['return']
                o['raise'] += r['raise']
                o['fall'] += r['break']
                cur = dedup(r['fall'] + r['continue'])
                exits += cur
                if hasattr(s, 'target'):
                    cur = [self.forget(x, s.target) for x in cur]
                if len(seen) > 200:
                    break
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
                exits = []
            r = self.block(s.orelse, dedup(exits)) if s.orelse else self.res(fall=dedup(exits))
            for k in o:
                o[k] += r[k]
            return o
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.with_(s, states)
        if isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            return self.try_(s, states)
        if isinstance(s, ast.Return):
            o = self.res()
            if s.value is not None:
                o['raise'] = self.expr(s.value, states)
                states = self.after(s.value, states)
                for x in states:
                    self.returned.append(self.saved_value(s.value, x))
            else:
                self.returned.append(None)
            o['return'] = states
            return o
        if isinstance(s, ast.Raise):
            for x in (s.exc, s.cause):
                if x is not None:
                    self.expr(x, states)
            return self.res(raise_=states)
        if isinstance(s, ast.Assert):
            return self.res(fall=states, raise_=self.expr(s.test, states) + [x.copy() for x in states])
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return self.res(fall=states)
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            o = self.res(raise_=self.expr(s.value, states))
            for t in ts:
                if not isinstance(t, ast.Name) and self.setting(t) is None and not isinstance(t, (ast.Tuple, ast.List)):
                    o['raise'] += [x.copy() for x in states] if not isinstance(t, ast.Attribute) else []
            old = [x.copy() for x in states]
            states = self.after(s.value, states)
            new = []
            for x0, x in zip(old, states):
                y = x.copy()
                for t in ts:
                    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                        for a, b in zip(t.elts, s.value.elts):
                            self.assign(a, b, x0, y)
                    else:
                        self.assign(t, s.value, x0, y)
                new.append(y)
            o['fall'] = new
            return o
        if isinstance(s, ast.AugAssign):
            o = self.res(raise_=self.expr(s.value, states))
            r = self.setting(s.target)
            new = []
            for x in states:
                y = x.copy()
                if r is not None:
                    self.f.sites += 1
                    d = (type(s.op).__name__, ast.dump(s.value))
                    u = y.dirty.get(r)
                    if u is not None and u[1] == ('delta', OPP.get(d[0]), d[1]):
                        del y.dirty[r]
                    elif u is None:
                        y.dirty[r] = (s.lineno, ('delta', d[0], d[1]))
                    else:
                        y.dirty[r] = (s.lineno, None)
                else:
                    y = self.forget(y, s.target)
                new.append(y)
            o['fall'] = new
            return o
        if isinstance(s, ast.Expr):
            return self.res(fall=self.after(s.value, [x.copy() for x in states]), raise_=self.expr(s.value, states))
        if isinstance(s, ast.Delete):
            return self.res(fall=states, raise_=[x.copy() for x in states])
        if type(s).__name__ == 'Match':
            o = self.res(raise_=self.expr(s.subject, states), fall=[x.copy() for x in states])
            for c in s.cases:
                r = self.block(c.body, [x.copy() for x in states])
                for k in o:
                    o[k] += r[k]
            return o
        return self.res(fall=states, raise_=[x.copy() for x in states])

    def fkey(self, t, names):
        return ('test', t)

    # ------------------------------------------------------------ values
    def dot(self, e):
        return dotted(self.prog, self.f.mod, e, self.f.local)

    def setting(self, t):
        """the setting an assignment target denotes"""
        if isinstance(t, ast.Attribute):
            d = self.dot(t)
            return ATTRS.get(d) if d else None
        return None

    def text(self, e):
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            return e.value.id + '.' + e.attr
        return None

    def saved_value(self, e, x):
        """the setting whose original value an expression holds in state x"""
        t = self.text(e)
        if t is not None and t in x.saved:
            return x.saved[t]
        if isinstance(e, ast.Attribute):
            d = self.dot(e)
            if d in ATTRS and ATTRS[d] not in x.dirty:
                return ATTRS[d] if d not in LOSSY else None
        if isinstance(e, ast.Call):
            d = self.dot(e.func)
            if d in GETTERS and GETTERS[d] and GETTERS[d] not in x.dirty:
                return GETTERS[d]
            for g in self.targets(self.f, e):
                if g.returns_saved and g.returns_saved not in x.dirty:
                    return g.returns_saved
        return None

    def forget(self, x, t):
        y = x.copy()
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                y.saved.pop(n.id, None)
                for k in [k for k in y.facts if isinstance(k, tuple) and ("id='%s'" % n.id) in k[1] or k == n.id]:
                    del y.facts[k]
        return y

    def assign(self, t, v, before, y):
        """target t receives expression v, evaluated in the state before; y is updated"""
        r = self.setting(t)
        if r is not None:
            self.f.sites += 1
            w = self.saved_value(v, before)
            lossy = self.dot(t) in LOSSY
            if w == r and not lossy:
                y.dirty.pop(r, None)
            elif isinstance(v, ast.Name) and v.id in self.f.params:
                y.dirty[r] = (t.lineno, ('from', v.id))
            elif isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == 'self':
                y.dirty[r] = (t.lineno, ('from', 'self.' + v.attr))
            else:
                y.dirty[r] = (t.lineno, None)
            return
        w = self.saved_value(v, before)
        z = self.forget(y, t)
        y.saved, y.facts = z.saved, z.facts
        n = self.text(t)
        if n is not None:
            y.saved.pop(n, None)
            if w is not None:
                y.saved[n] = w
                if '.' in n:
                    self.f.saves[n] = w
        elif isinstance(t, (ast.Tuple, ast.List)):
            for a in t.elts:
                z = self.forget(y, a)
                y.saved, y.facts = z.saved, z.facts

    def expr(self, e, states):
        """states in which evaluating e raises (before or within its calls); yields suspend"""
        out = []
        for n in walk_own(e):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                for x in states:
                    for r, (site, how) in x.dirty.items():
                        if self.f.is_cm:
                            self.f.cm_sets[r] = site
                        else:
                            self.f.yields.setdefault(r, (site, n.lineno))
        if any(not isinstance(n, SAFE) and not (isinstance(n, ast.Attribute) and self.dot(n)) for n in walk_own(e)):
            out = [x.copy() for x in states]
        for n in walk_own(e):
            if isinstance(n, ast.Call):
                for g in self.targets(self.f, n):
                    for r, site in g.raises.items():
                        if g.where != self.f.where and self.propagates(g):
                            for x in states:
                                y = x.copy()
                                y.dirty.setdefault(r, (n.lineno, None))
                                out.append(y)
        return out

    def propagates(self, g):
        """a helper: the change it leaves is its callers' business"""
        if g.name in ('__enter__', '__exit__') and g.cls is not None:
            return self.restoring_pair(g)
        private = g.name.startswith('_') and not (g.name.startswith('__') and g.name.endswith('__')) or nested(g)
        return private and not g.is_cm and bool(self.callers.get(g.where))

    def restoring_pair(self, g):
        """the __exit__ of the class sets back what its __enter__ (or constructor) saved"""
        m = {f.name: f for f in self.fns if f.mod is g.mod and f.cls == g.cls and f.name in ('__enter__', '__exit__', '__init__')}
        if '__enter__' not in m or '__exit__' not in m:
            return False
        saves = dict(m['__enter__'].saves, **(m['__init__'].saves if '__init__' in m else {}))
        return all(saves.get(m['__exit__'].restores.get(r)) == r for r in set(m['__enter__'].sets) | set(m['__exit__'].sets))

    def after(self, e, states):
        """effect of the calls of an expression on the settings"""
        calls = [n for n in walk_own(e) if isinstance(n, ast.Call)]
        if not calls:
            return states
        out = []
        for x in states:
            y = x.copy()
            for c in reversed(calls):
                self.call(c, x, y)
            out.append(y)
        return out

    def call(self, c, x, y):
        f = self.f
        d = self.dot(c.func)
        if d == 'builtins.setattr' or isinstance(c.func, ast.Name) and c.func.id == 'setattr' and len(c.args) == 3:
            o = self.dot(c.args[0])
            if o and isinstance(c.args[1], ast.Constant) and ATTRS.get('%s.%s' % (o, c.args[1].value)):
                r = ATTRS['%s.%s' % (o, c.args[1].value)]
                f.sites += 1
                if self.saved_value(c.args[2], x) == r:
                    y.dirty.pop(r, None)
                else:
                    y.dirty[r] = (c.lineno, None)
            return
        if d in SETTERS:
            r = SETTERS[d]
            f.sites += 1
            vals = list(c.args) + [k.value for k in c.keywords]
            if d in SEEDS:
                a = vals[0] if vals else None
                if isinstance(a, ast.Name) and self.from_caller(a.id):
                    t = y.facts.get(a.id)
                    if t == 'given' or a.id not in f.defaults and a.id in f.params:
                        f.seed_param[r] = a.id
                        return
                    y.dirty[r] = (c.lineno, 'reached when no %s is given' % a.id)
                    return
                y.dirty[r] = (c.lineno, 'not the seed the caller gave')
                return
            if any(self.saved_value(v, x) == r for v in vals):
                y.dirty.pop(r, None)
            elif vals and isinstance(vals[0], ast.Name) and vals[0].id in f.params and r != 'display options':
                y.dirty[r] = (c.lineno, ('from', vals[0].id))
            elif vals and isinstance(vals[0], ast.Attribute) and self.text(vals[0]) and self.text(vals[0]).startswith('self.'):
                y.dirty[r] = (c.lineno, ('from', self.text(vals[0])))
            else:
                y.dirty[r] = (c.lineno, None)
            return
        for g in self.targets(f, c):
            if g.where == f.where or not self.propagates(g) or g.is_cm or is_generator(g.node):
                continue
            for r, site in g.sets.items():
                f.sites += 1
                p = g.restores.get(r)
                a = actual(g, c, p) if p else None
                w = self.saved_value(a, x) if a is not None else (x.saved.get(p) if p and p.startswith('self.') else None)
                if w == r:
                    y.dirty.pop(r, None)
                elif isinstance(a, ast.Name) and a.id in f.params:
                    y.dirty[r] = (c.lineno, ('from', a.id))
                else:
                    y.dirty[r] = (c.lineno, None)
            for n, r in g.saves.items():
                if r not in x.dirty:
                    y.saved[n] = r
            for r, p in g.seed_param.items():
                a = actual(g, c, p)
                if a is None or isinstance(a, ast.Constant) and a.value is None:
                    continue
                if isinstance(a, ast.Name) and self.from_caller(a.id):
                    f.seed_param[r] = a.id
                else:
                    y.dirty[r] = (c.lineno, 'not the seed the caller gave')

    def from_caller(self, name, seen=()):
        """the variable only ever holds what the caller gave, or something read from it"""
        f = self.f
        if name in seen:
            return True
        seen = seen + (name,)
        found = name in f.params
        for s in own(f.node):
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.NamedExpr, ast.With)):
                if isinstance(s, ast.With):
                    ts, v = [i.optional_vars for i in s.items if i.optional_vars], None
                elif isinstance(s, ast.For):
                    ts, v = [s.target], s.iter
                else:
                    ts, v = s.targets if isinstance(s, ast.Assign) else [s.target], s.value
                if not any(isinstance(n, ast.Name) and n.id == name for t in ts for n in ast.walk(t)):
                    continue
                if v is None:
                    return False
                used = [n for n in ast.walk(v) if isinstance(n, ast.Name) and not (n.id in BUILTINS or self.prog.resolve(f.mod, n.id))]
                if not used and not (isinstance(v, ast.Constant) and (v.value is None or isinstance(v.value, str))):
                    return False
                if not all(self.from_caller(n.id, seen) for n in used):
                    return False
                for n in ast.walk(v):
                    d = self.dot(n.func) if isinstance(n, ast.Call) else None
                    if d and d.split('.')[0] in ('random', 'time', 'os', 'secrets', 'uuid') or d and d.startswith('numpy.random'):
                        return False
                found = True
        return found

    # ------------------------------------------------------------ with / try
    def managed(self, e):
        """settings a context manager changes and restores, [] when none, None when not known"""
        if isinstance(e, ast.Call):
            d = self.dot(e.func)
            if d in MANAGERS:
                return [MANAGERS[d]]
            for g in self.targets(self.f, e):
                if g.is_cm:
                    return list(g.cm_sets)
            if isinstance(e.func, (ast.Name, ast.Attribute)):
                r = self.prog.resolve_expr(self.f.mod, e.func)
                if r is not None and r[0] == 'class':
                    en, ex = self.prog.lookup_method(r[1], '__enter__'), self.prog.lookup_method(r[1], '__exit__')
                    if en and ex:
                        a = [g for g in self.by_name.get('__enter__', []) if g.node is en[1]]
                        b = [g for g in self.by_name.get('__exit__', []) if g.node is ex[1]]
                        i = self.prog.lookup_method(r[1], '__init__')
                        c = [g for g in self.by_name.get('__init__', []) if i and g.node is i[1]]
                        if a and b:
                            saves = dict(a[0].saves, **(c[0].saves if c else {}))
                            good, bad = [], []
                            for s in a[0].sets:
                                src = b[0].restores.get(s)
                                (good if src and saves.get(src) == s else bad).append(s)
                            return good if not bad else None
        if isinstance(e, ast.Name) and e.id in self.f.local:
            for s in own(self.f.node):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == e.id and isinstance(s.value, ast.Call):
                    return self.managed(s.value)
        return []

    def with_(self, s, states):
        o = self.res()
        rs = []
        unknown = False
        for it in s.items:
            o['raise'] += self.expr(it.context_expr, states)
            m = self.managed(it.context_expr)
            if m is None:
                unknown = True
            else:
                rs += m
            if not m and m is not None:
                states = self.after(it.context_expr, states)
            if it.optional_vars is not None:
                states = [self.forget(x, it.optional_vars) for x in states]
        groups = {}
        for x in states:
            k = tuple((r, x.dirty.get(r)) for r in sorted(set(rs)))
            groups.setdefault(k, []).append(x)
        if rs:
            self.f.sites += len(rs)
        for k, xs in groups.items():
            ins = []
            for x in xs:
                y = x.copy()
                for r in set(rs):
                    y.dirty[r] = (s.lineno, 'with')
                ins.append(y)
            r = self.block(s.body, ins)
            for cat in o:
                for y in r[cat]:
                    z = y.copy()
                    for name, old in k:
                        z.dirty.pop(name, None)
                        if old is not None:
                            z.dirty[name] = old
                    o[cat].append(z)
        if not rs:          # an unknown manager may swallow the exception
            o['fall'] += [x.copy() for x in o['raise']] if unknown else []
        for cat in o:
            o[cat] = dedup(o[cat])
        return o

    def try_(self, s, states):
        o = self.res()
        b = self.block(s.body, states)
        esc = b['raise']
        acc = self.res()
        caught_all = False
        for h in s.handlers:
            ins = [self.forget(x, ast.Name(h.name, ast.Store())) if h.name else x.copy() for x in esc]
            r = self.block(h.body, ins)
            for k in acc:
                acc[k] += r[k]
            if h.type is None or isinstance(h.type, ast.Name) and h.type.id in ('BaseException', 'Exception'):
                caught_all = True
        if not caught_all:
            acc['raise'] += esc
        for k in ('return', 'break', 'continue'):
            acc[k] += b[k]
        if s.orelse:
            r = self.block(s.orelse, b['fall'])
            for k in acc:
                acc[k] += r[k]
        else:
            acc['fall'] += b['fall']
        if not s.finalbody:
            return {k: dedup(v) for k, v in acc.items()}
        for k in acc:
            xs = dedup(acc[k])
            if not xs:
                continue
            r = self.block(s.finalbody, xs)
            o[k] += r['fall']
            for j in ('return', 'raise', 'break', 'continue'):
                if j == 'raise':        # an exception inside the clean-up: only its own unchanged settings are to be blamed
                    continue
                o[j] += r[j]
        return {k: dedup(v) for k, v in o.items()}


BUILTINS = set(dir(builtins))
OPP = {'Add': 'Sub', 'Sub': 'Add', 'Mult': 'FloorDiv', 'FloorDiv': 'Mult'}
UBIQUITOUS = {'append', 'copy', 'join', 'format', 'items', 'keys', 'values', 'get', 'update', 'write', 'read', 'close', 'extend', 'pop', 'index', 'transpose', 'all', 'any'}


def nested(g):
    q = g.qual.split('.')
    return len(q) >= 2 and not (g.cls is not None and q[-2] == g.cls)


def is_generator(node):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(node))


def reassigned(node):
    out = set()
    for s in own(node):
        if isinstance(s, ast.Name) and isinstance(s.ctx, (ast.Store, ast.Del)):
            out.add(s.id)
    return out


def actual(g, call, p):
    """the argument of a call that reaches parameter p"""
    if p is None or p not in g.params:
        return None
    for k in call.keywords:
        if k.arg == p:
            return k.value
    ps = g.params[1:] if g.params[:1] in (['self'], ['cls']) and isinstance(call.func, ast.Attribute) else g.params
    if p in ps and ps.index(p) < len(call.args) and not any(isinstance(a, ast.Starred) for a in call.args):
        return call.args[ps.index(p)]
    return None


def facts_of(test, v):
    """what a test says about a parameter being given"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return facts_of(test.operand, not v)
    if isinstance(test, ast.Name):
        return [(test.id, 'given' if v else 'falsy')]
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
        if isinstance(test.ops[0], (ast.IsNot, ast.NotEq)):
            return [(test.left.id, 'given' if v else 'none')]
        if isinstance(test.ops[0], (ast.Is, ast.Eq)):
            return [(test.left.id, 'none' if v else 'given')]
    if isinstance(test, ast.BoolOp) and (isinstance(test.op, ast.And) and v or isinstance(test.op, ast.Or) and not v):
        return [x for t in test.values for x in facts_of(t, v)]
    return []


def walk_own(e):
    todo = [e]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, ast.Lambda):
                todo.append(c)
