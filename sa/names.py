"""Binding analysis: names, attributes, calls and formats of every function of the library, decided from the source alone.

Names: for every read of a variable, the assignments that reach it along each path of the structured control flow (tests of the same
expression are correlated, a loop body runs at least once, a statement of a try block can raise). Attributes and calls: a light type
inference (modules, classes, functions, instances, values of built-in types) tells which object an attribute is taken from or a call
reaches; when it is not known, the name must at least belong to something the library can hold."""
import ast
import builtins
import importlib
import inspect
import pkgutil
import re
import sys
import types
import warnings
from .program import OPTIONAL, ext_object

ABSENT = tuple(OPTIONAL) + ('fixif.WCPG', 'fixif.FxP', 'fixif.Zonos')
# what the repository expects of the objects of the libraries it does not contain (FxP, sollya, the matlab engine)
EXTERNAL = {'msb', 'lsb', 'wl', 'LaTeX', 'FPF', 'approx', 'mantissa', 'signed', 'value', 'SollyaObject', 'settings', 'tf', 'design', 'fdesign', 'struct', 'mpf', 'wml', 'minmax'}
MODVARS = {'__file__', '__name__', '__doc__', '__package__', '__path__', '__spec__', '__loader__', '__builtins__', '__class__'}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def absent(dotted):
    """a library that is not part of the repository and may be missing: nothing is known of what it holds"""
    return any(dotted == a or dotted.startswith(a + '.') for a in ABSENT)


# ---------------------------------------------------------------------------------------------------- binding of local names

class Scope:
    """one function (or module body, or class body): the names it binds"""

    def __init__(self, node, parent, mod, cls):
        self.node, self.parent, self.mod, self.cls = node, parent, mod, cls
        self.binds, self.globals, self.nonlocals = set(), set(), set()
        self.comp = []
        self.is_func = isinstance(node, FUNCS + (ast.Lambda,))
        if self.is_func:
            a = node.args
            self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        else:
            self.params = []
        self.binds |= set(self.params)
        body = [node.body] if isinstance(node, ast.Lambda) else node.body
        for s in body:
            self._collect(s)
        self.binds -= self.globals | self.nonlocals

    def _collect(self, s):
        if isinstance(s, FUNCS + (ast.ClassDef,)):
            self.binds.add(s.name)
            for d in s.decorator_list:
                self._collect(d)
            return
        if isinstance(s, ast.Lambda):
            return
        if isinstance(s, COMPS):
            for x in ast.walk(s):
                if isinstance(x, ast.NamedExpr):
                    self.binds.add(x.target.id)
            return
        if isinstance(s, ast.Name) and isinstance(s.ctx, (ast.Store, ast.Del)):
            self.binds.add(s.id)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                self.binds.add(a.asname or a.name.split('.')[0])
        elif isinstance(s, ast.Global):
            self.globals |= set(s.names)
        elif isinstance(s, ast.Nonlocal):
            self.nonlocals |= set(s.names)
        elif isinstance(s, ast.ExceptHandler) and s.name:
            self.binds.add(s.name)
        elif isinstance(s, (ast.MatchAs, ast.MatchStar)) and s.name:
            self.binds.add(s.name)
        for c in ast.iter_child_nodes(s):
            self._collect(c)


class Path:
    """the names certainly bound, and the outcome of the tests made"""
    __slots__ = ('bound', 'facts', 'weak')

    def __init__(self, bound=frozenset(), facts=(), weak=frozenset()):
        self.bound, self.facts, self.weak = frozenset(bound), dict(facts), frozenset(weak)

    def key(self):
        return (self.bound, tuple(sorted(self.facts.items())), self.weak)

    def add(self, names):
        f = {k: v for k, v in self.facts.items() if not any(re.search(r"id='%s'" % re.escape(n), k) for n in names)}
        return Path(self.bound | set(names), f, self.weak)

    def sub(self, names):
        return Path(self.bound - set(names), self.facts, self.weak)


def merge(ps):
    out = {}
    for p in ps:
        out.setdefault(p.key(), p)
    r = list(out.values())
    if len(r) > 48:
        groups = {}
        for p in r:
            groups.setdefault((p.bound, p.weak), Path(p.bound, (), p.weak))
        r = list(groups.values())
        if len(r) > 48:
            b = frozenset.intersection(*[p.bound for p in r])
            w = frozenset.union(*[p.weak for p in r]) | (frozenset.union(*[p.bound for p in r]) - b)
            r = [Path(b, (), w)]
    return r


def atoms(t, pol):
    """the facts implied by a test being true (or false)"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return atoms(t.operand, not pol)
    if isinstance(t, ast.BoolOp):
        if isinstance(t.op, ast.And) and pol or isinstance(t.op, ast.Or) and not pol:
            return [a for v in t.values for a in atoms(v, pol)]
        return [(ast.dump(t), pol)]
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        o = t.ops[0]
        flip = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.Gt: ast.LtE}
        if type(o) in flip:
            return [(ast.dump(ast.Compare(t.left, [flip[type(o)]()], t.comparators)), not pol)]
    return [(ast.dump(t), pol)]


def assume(p, t, pol):
    """the path on which the test has this outcome, or None"""
    if isinstance(t, ast.Constant):
        return p if bool(t.value) == pol else None
    f = dict(p.facts)
    for k, v in atoms(t, pol):
        if f.get(k, v) != v:
            return None
        f[k] = v
    # a disjunction whose members are all known false, a conjunction whose members are all known true
    if isinstance(t, ast.BoolOp):
        isand = isinstance(t.op, ast.And)
        vals = [[f.get(k) == v for k, v in atoms(x, True)] for x in t.values]
        no = [any(f.get(k) is not None and f[k] != v for k, v in atoms(x, True)) for x in t.values]
        if isand and not pol and all(all(v) for v in vals):
            return None
        if not isand and pol and all(no):
            return None
    if any(isinstance(x, ast.Call) for x in ast.walk(t)):
        f = dict(p.facts)       # a call may answer differently the next time
        pure = [k for k, v in atoms(t, pol) if re.match(r"Call\(func=Name\(id='(isinstance|len|callable|hasattr|type)'", k)]
        for k, v in atoms(t, pol):
            if k in pure:
                if f.get(k, v) != v:
                    return None
                f[k] = v
    return Path(p.bound, f, p.weak)


class Flow:
    """assignments reaching every read of a variable"""

    def __init__(self, scope, report):
        self.s, self.report = scope, report
        self.loops, self.tries, self.reads, self.turn = [], [], 0, []
        self.exits = []

    def run(self):
        node = self.s.node
        p = [Path(self.s.params)]
        if isinstance(node, ast.Lambda):
            self.expr(node.body, p)
        else:
            self.block(node.body, p)

    def block(self, body, ps):
        for s in body:
            if not ps:
                break
            ps = self.stmt(s, merge(ps))
        return ps

    # reads: every name of the scope must be bound
    def expr(self, e, ps):
        """paths after the evaluation"""
        if e is None:
            return ps
        if isinstance(e, (ast.Lambda,) + FUNCS):
            return ps
        if isinstance(e, ast.IfExp):
            ps = self.expr(e.test, ps)
            a = self.expr(e.body, [q for q in (assume(p, e.test, True) for p in ps) if q])
            b = self.expr(e.orelse, [q for q in (assume(p, e.test, False) for p in ps) if q])
            return merge(a + b)
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            out = []
            for v in e.values[:-1]:
                ps = self.expr(v, ps)
                out += [q for q in (assume(p, v, not isand) for p in ps) if q]
                ps = [q for q in (assume(p, v, isand) for p in ps) if q]
            ps = self.expr(e.values[-1], ps) if ps else []
            return merge(out + ps)
        if isinstance(e, COMPS):
            inner = set()
            for g in e.generators:
                self._comp(g.iter, ps, inner)
                inner |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    self._comp(c, ps, inner)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self._comp(x, ps, inner)
            return [p.add({x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr)}) if any(isinstance(x, ast.NamedExpr) for x in ast.walk(e)) else p for p in ps]
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.read(e, ps)
            return ps
        if isinstance(e, ast.NamedExpr):
            ps = self.expr(e.value, ps)
            return [p.add([e.target.id]) for p in ps]
        for c in ast.iter_child_nodes(e):
            ps = self.expr(c, ps)
        return ps

    def _comp(self, e, ps, inner):
        # inside a comprehension the names of the comprehension hide those of the function
        self.expr(e, [Path(p.bound | inner, p.facts, p.weak) for p in ps])

    def read(self, e, ps):
        if e.id not in self.s.binds or not ps:
            return
        self.reads += 1
        miss = [p for p in ps if e.id not in p.bound]
        if not miss:
            return
        sure = len(miss) == len(ps) and not any(e.id in p.weak for p in miss)
        hard = any(e.id not in p.weak for p in miss)
        self.report(e, 'sure' if sure else 'path' if hard else 'weak')

    def store(self, t, ps):
        if isinstance(t, ast.Name):
            return [p.add([t.id]) for p in ps]
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                ps = self.store(x, ps)
            return ps
        if isinstance(t, ast.Starred):
            return self.store(t.value, ps)
        return self.expr(t, ps)

    def stmt(self, s, ps):
        if not (isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)) or isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and
                all(isinstance(t, ast.Name) for t in s.targets)):
            for hold in self.tries:
                hold.extend(ps)
        if isinstance(s, FUNCS + (ast.ClassDef,)):
            for d in s.decorator_list:
                ps = self.expr(d, ps)
            if not isinstance(s, ast.ClassDef):
                for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
                    ps = self.expr(d, ps)
            else:
                for d in s.bases:
                    ps = self.expr(d, ps)
            return [p.add([s.name]) for p in ps]
        if isinstance(s, ast.Assign):
            ps = self.expr(s.value, ps)
            for t in s.targets:
                ps = self.store(t, ps)
            return ps
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return ps
            return self.store(s.target, self.expr(s.value, ps))
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.read(s.target, ps)
            ps = self.expr(s.value, ps)
            return self.store(s.target, ps)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return [p.add([a.asname or a.name.split('.')[0] for a in s.names]) for p in ps]
        if isinstance(s, ast.Return):
            self.expr(s.value, ps)
            self.finals(ps)
            return []
        if isinstance(s, ast.Raise):
            ps = self.expr(s.exc, ps)
            self.expr(s.cause, ps)
            return []
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.read(t, ps)
                    ps = [p.sub([t.id]) for p in ps]
                else:
                    ps = self.expr(t, ps)
            return ps
        if isinstance(s, ast.If):
            ps = self.expr(s.test, ps)
            a = [q for q in (assume(p, s.test, True) for p in ps) if q]
            b = [q for q in (assume(p, s.test, False) for p in ps) if q]
            later = frozenset().union(*self.turn)
            if later:
                # a test inside a loop may hold in a later turn only
                a = [Path(p.bound, p.facts, p.weak | (later - p.bound)) for p in a]
                b = [Path(p.bound, p.facts, p.weak | (later - p.bound)) for p in b]
            a = self.block(s.body, a) if a else []
            subj = chain(s)
            if b and s.orelse:
                b = self.block(s.orelse, b)
            elif b and subj and not self.open_choice(s, subj):
                # an unfinished chain of equalities on one subject: whether another value reaches it is a matter of its callers
                names = assigned(s)
                b = [Path(p.bound, p.facts, p.weak | (names - p.bound)) for p in b]
            return merge(a + b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            ps = self.expr(s.iter, ps)
            ps = self.store(s.target, ps)
            return self.loop(s, ps, None)
        if isinstance(s, ast.While):
            ps = self.expr(s.test, ps)
            ps = [q for q in (assume(p, s.test, True) for p in ps) if q] or ps
            ps = [Path(p.bound, (), p.weak) for p in ps]
            return self.loop(s, ps, s.test)
        if isinstance(s, ast.Break):
            self.loops[-1][0].extend(ps)
            return []
        if isinstance(s, ast.Continue):
            self.loops[-1][1].extend(ps)
            return []
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                ps = self.expr(i.context_expr, ps)
                if i.optional_vars is not None:
                    ps = self.store(i.optional_vars, ps)
            return self.block(s.body, ps)
        if isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            return self.trystmt(s, ps)
        if isinstance(s, ast.Match):
            ps = self.expr(s.subject, ps)
            out, total = [], False
            for c in s.cases:
                names = {x.name for x in ast.walk(c.pattern) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name}
                q = [p.add(names) for p in ps] if names else ps
                q = self.expr(c.guard, q)
                out += self.block(c.body, q)
                total |= c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None
            if not total:
                names = assigned(s)
                out += [Path(p.bound, p.facts, p.weak | (names - p.bound)) for p in ps]
            return merge(out)
        for c in ast.iter_child_nodes(s):
            ps = self.expr(c, ps)
        if isinstance(s, ast.Expr) and leaves(s.value):
            return []
        return ps

    def open_choice(self, s, subj):
        """the subject is an argument of a public function that nothing in it checks: any value reaches the end of the chain"""
        node = self.s.node
        if not isinstance(node, FUNCS) or node.name.startswith('_') or self.s.parent is None or isinstance(self.s.parent.node, FUNCS):
            return False
        names = mentioned(subj)
        if not names or not names <= set(self.s.params) or 'Call(' in subj or 'Attribute(' in subj:
            return False
        inside = set(ast.walk(s))
        for x in ast.walk(node):
            if x in inside:
                continue
            if isinstance(x, ast.Assert) and names & mentioned(ast.dump(x.test)):
                return False
            if isinstance(x, ast.If) and names & mentioned(ast.dump(x.test)):
                return False
            if isinstance(x, (ast.Name,)) and isinstance(x.ctx, ast.Store) and x.id in names:
                return False
            if isinstance(x, ast.Call) and any(isinstance(y, ast.Name) and y.id in names for a in x.args for y in ast.walk(a)):
                return False            # handed to something that may refuse it
        return True

    def loop(self, s, ps, test):
        self.loops.append(([], []))
        # facts do not survive from one turn to the next
        ps = [Path(p.bound, {k: v for k, v in p.facts.items() if not (mentioned(k) & assigned(s))}, p.weak) for p in ps]
        names = assigned(s)
        self.turn.append(names)
        end = self.block(s.body, ps)
        self.turn.pop()
        brk, cont = self.loops.pop()
        # a search that finds nothing: whether it can is a matter of the data
        end = [Path(p.bound, p.facts, p.weak | (names - p.bound)) for p in end]
        cont = [Path(p.bound, p.facts, p.weak | (names - p.bound)) for p in cont]
        end = merge(end + cont)
        forever = isinstance(test, ast.Constant) and bool(test.value)
        after = [] if forever else end
        if s.orelse and after:
            after = self.block(s.orelse, after)
        return merge(brk + after)

    def finals(self, ps):
        pass

    def trystmt(self, s, ps):
        hold = []
        self.tries.append(hold)
        body = self.block(s.body, ps)
        self.tries.pop()
        can = [p for p in hold]
        out = self.block(s.orelse, body) if s.orelse else body
        bound = frozenset.union(*[p.bound for p in can]) if can else frozenset()
        for h in s.handlers:
            q = self.expr(h.type, merge(can)) if h.type is not None else merge(can)
            if h.name:
                q = [p.add([h.name]) for p in q]
            # what the block may or may not have bound before raising
            q = self.block(h.body, q)
            if h.name:
                q = [p.sub([h.name]) for p in q]
            out = out + q
        out = merge(out)
        if s.finalbody:
            if not out:
                self.block(s.finalbody, merge([Path(frozenset.intersection(*[p.bound for p in can]), (), bound)] if can else ps))
                return []
            fin = self.block(s.finalbody, out)
            return fin
        return out


def leaves(e):
    """a call that never returns"""
    return isinstance(e, ast.Call) and (isinstance(e.func, ast.Name) and e.func.id in ('exit', 'quit') or
                                        isinstance(e.func, ast.Attribute) and e.func.attr in ('exit', '_exit', 'abort') and isinstance(e.func.value, ast.Name) and
                                        e.func.value.id in ('sys', 'os'))


def mentioned(dump):
    return set(re.findall(r"Name\(id='(\w+)'", dump))


def assigned(s):
    return {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def chain(s):
    """the subject of a chain of equality (or membership, or type) tests without a final else, or None"""
    subj = None
    while True:
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.In)):
            x = ast.dump(t.left)
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and t.args:
            x = ast.dump(t.args[0])
        else:
            return None
        if subj is not None and x != subj:
            return None
        subj = x
        if not s.orelse:
            return subj
        if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
            s = s.orelse[0]
        else:
            return None


# ---------------------------------------------------------------------------------------------------- what names denote

BUILTIN_TYPES = (list, dict, str, tuple, set, frozenset, int, float, complex, bool, bytes)
_np = None


def closed_types():
    """types whose attributes are all visible on the type itself"""
    global _np
    if _np is None:
        _np = list(BUILTIN_TYPES)
        for d in ('numpy.ndarray', 'numpy.matrix', 'numpy.generic'):
            o = ext_object(d)
            if o is not None:
                _np.append(o[0])
    return tuple(_np)


def universe(prog):
    """every attribute name an object the library can hold may have"""
    names = set()
    roots = set()
    for m in prog.modules.values():
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Import):
                roots |= {a.name for a in s.names}
            elif isinstance(s, ast.ImportFrom) and not s.level and s.module:
                roots.add(s.module)
    mods = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for r in sorted(roots | {'io', 'subprocess', 're', 'ctypes', 'collections', 'types'}):
            if r.split('.')[0] == 'fixif' or absent(r):
                continue
            o = ext_object(r)
            if o is not None:
                mods.append(o[0])
        keep = {(m.__name__ if isinstance(m, types.ModuleType) else type(m).__module__).split('.')[0] for m in mods}
        for k in list(sys.modules):
            if k.split('.')[0] in keep and sys.modules[k] is not None:
                names |= set(k.split('.'))
                mods.append(sys.modules[k])
        for t in BUILTIN_TYPES + (object, type(lambda: 0), type(None), BaseException, OSError, SyntaxError, ImportError, types.ModuleType, type, types.GeneratorType, property, slice, range):
            names |= set(dir(t))
        seen = set()
        for m in mods:
            for k in dir(m) if not isinstance(m, type) else [None]:
                try:
                    v = getattr(m, k) if k else m
                except Exception:
                    continue
                if k:
                    names.add(k)
                if isinstance(v, type) and id(v) not in seen:
                    seen.add(id(v))
                    names |= set(dir(v))
                    names |= set(getattr(v, '__annotations__', ()) or ())
    names |= EXTERNAL | {'filename', 'lineno', 'offset', 'returncode', 'stdout', 'stderr', 'args'}
    return names


class T:
    """what is known of a value. kinds: ext (dotted), module, class, inst, func, type (a closed type), opaque"""
    __slots__ = ('k', 'v', 'x')

    def __init__(self, k, v, x=None):
        self.k, self.v, self.x = k, v, x

    def key(self):
        return (self.k, id(self.v) if not isinstance(self.v, str) else self.v, id(self.x) if self.x is not None else None)


def union(ts):
    """[T…] or None when one is unknown"""
    out = {}
    for t in ts:
        if t is None:
            return None
        for x in t:
            out[x.key()] = x
    return list(out.values()) if 0 < len(out) <= 6 else None


class World:
    def __init__(self, prog):
        self.prog = prog
        self.scopes = []            # every function, module body and class body
        self.of = {}                # node -> Scope
        for m in prog.modules.values():
            self._scan(m.tree, None, m, None)
        self.classes = [c for m in prog.modules.values() for c in m.classes.values()]
        self.subs = {}
        for c in self.classes:
            for b in prog.mro(c):
                self.subs.setdefault(b, []).append(c)
        self.selfattrs = {}         # class -> {name: [(value or None, scope)]}
        self.stored = set()
        for s in self.scopes:
            if s.is_func:
                self._stores(s)
        for m in prog.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    self.stored.add(x.attr)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) > 1:
                    a = x.args[1]
                    self.stored.add(a.value if isinstance(a, ast.Constant) else '*')
        self.own = set(self.stored)
        for c in self.classes:
            self.own |= set(c.methods) | set(c.props) | set(c.attrs) | set(c.setters)
        for m in prog.modules.values():
            self.own |= set(m.funcs) | set(m.classes) | set(m.assigns) | set(m.imports) | {m.name.split('.')[-1]}
        self.universe = universe(prog) | self.own
        self._local = {}
        self._busy = set()

    def _scan(self, node, parent, mod, cls):
        s = Scope(node, parent, mod, cls)
        s.qual = ''
        self.scopes.append(s)
        self.of[node] = s
        todo = [node.body] if isinstance(node, ast.Lambda) else list(node.body)
        if isinstance(node, FUNCS + (ast.Lambda,)):
            pass
        while todo:
            x = todo.pop()
            if isinstance(x, FUNCS + (ast.Lambda,)):
                self._scan(x, s, mod, cls if not isinstance(node, ast.ClassDef) else cls)
                for d in (x.args.defaults + [y for y in x.args.kw_defaults if y]) + getattr(x, 'decorator_list', []):
                    todo.append(d)
            elif isinstance(x, ast.ClassDef):
                c = mod.classes.get(x.name) if parent is None and isinstance(node, ast.Module) else None
                self._scan(x, s, mod, c)
            else:
                todo.extend(ast.iter_child_nodes(x))

    def qual(self, s):
        q = []
        while s is not None:
            n = getattr(s.node, 'name', '<lambda>' if isinstance(s.node, ast.Lambda) else None)
            if n:
                q.append(n)
            s = s.parent
        return '.'.join(reversed(q)) or '<module>'

    def where(self, s):
        m = s.mod
        return '%s::%s' % (m.name.replace('.', '/') + ('/__init__' if m.is_pkg else '') + '.py', self.qual(s))

    def func_kind(self, s):
        """(class, kind) of a function defined directly in a class"""
        if s.parent is not None and isinstance(s.parent.node, ast.ClassDef) and s.cls is not None and isinstance(s.node, FUNCS):
            d = [ast.dump(x) for x in s.node.decorator_list]
            k = 'static' if any("'staticmethod'" in x for x in d) else 'class' if any("'classmethod'" in x for x in d) else 'inst'
            return s.cls, k
        return None, None

    def self_name(self, s):
        c, k = self.func_kind(s)
        if c is not None and k == 'inst' and s.node.args.args:
            return s.node.args.args[0].arg
        return None

    def _stores(self, s):
        me = self.self_name(s)
        if me is None:
            return
        c = s.cls
        for st in walk_own(s.node):
            tv = []
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, (ast.Tuple, ast.List)):
                        vs = st.value.elts if isinstance(st.value, (ast.Tuple, ast.List)) and len(st.value.elts) == len(t.elts) else [None] * len(t.elts)
                        tv += list(zip(t.elts, vs))
                    else:
                        tv.append((t, st.value))
            elif isinstance(st, (ast.AugAssign,)):
                tv.append((st.target, None))
            elif isinstance(st, ast.AnnAssign):
                tv.append((st.target, st.value))
            elif isinstance(st, (ast.For, ast.comprehension)):
                tv.append((st.target, None))
            elif isinstance(st, ast.withitem) and st.optional_vars is not None:
                tv.append((st.optional_vars, None))
            for t, v in tv:
                for x in ast.walk(t) if not isinstance(t, ast.Attribute) else [t]:
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                        self.selfattrs.setdefault(c, {}).setdefault(x.attr, []).append((v if x is t else None, s))

    # -- names
    def lookup(self, s, name):
        """('local', scope) ('global', resolution) ('builtin', …) or None"""
        first = True
        while s is not None and not isinstance(s.node, ast.Module):
            if (first or not isinstance(s.node, ast.ClassDef)) and name in s.binds:
                return ('local', s)
            if name in s.globals:
                break
            first = False
            s2 = s.parent
            s = s2
        mod = s.mod if s is not None else None
        return self.global_name(mod, name)

    def global_name(self, mod, name):
        r = self.prog.resolve(mod, name)
        if r is not None:
            return ('global', r)
        top = self.of[mod.tree]
        if name in top.binds:
            return ('global', None)
        for x in self.scopes:
            if x.mod is mod and name in x.globals:
                return ('global', None)
        for base, _ in mod.stars:
            if absent(base) or base not in self.prog.modules and ext_object(base) is None:
                return ('global', None)
        if hasattr(builtins, name) or name in MODVARS:
            return ('builtin', name)
        return None

    # -- types
    def local_type(self, s, name):
        k = (id(s), name)
        if k in self._local:
            return self._local[k]
        if k in self._busy:
            return None
        self._busy.add(k)
        r = self._local_type(s, name)
        self._busy.discard(k)
        self._local[k] = r
        return r

    def _local_type(self, s, name):
        if name in s.params:
            c, kind = self.func_kind(s)
            first = s.node.args.args[0].arg if getattr(s.node, 'args', None) and s.node.args.args else None
            if c is not None and name == first and kind in ('inst', 'class'):
                for st in walk_own(s.node):
                    if name in stored_names(st):
                        return None
                return [T('self' if kind == 'inst' else 'selfcls', c)]
            return None
        ts = []
        for st in walk_own(s.node):
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        ts.append(self.type_of(s, st.value))
                    elif not isinstance(t, ast.Name) and name in {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}:
                        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) and len(t.elts) == len(st.value.elts) \
                                and all(isinstance(x, ast.Name) for x in t.elts):
                            ts += [self.type_of(s, v) for x, v in zip(t.elts, st.value.elts) if x.id == name]
                        else:
                            return None
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for a in st.names:
                    if (a.asname or a.name.split('.')[0]) == name:
                        ts.append(self.import_type(s.mod, st, a))
            elif isinstance(st, FUNCS) and st.name == name:
                ts.append([T('func', st, (s.mod, None, None))])
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == name:
                ts.append(self.type_of(s, st.value) if st.value is not None else None)
            elif name in stored_names(st):
                return None
        return union(ts) if ts else None

    def import_type(self, mod, st, a):
        if isinstance(st, ast.Import):
            n = a.name if a.asname else a.name.split('.')[0]
            return [T('module', n)] if n in self.prog.modules else [T('ext', n)]
        b = mod.absolute(st.module, st.level)
        return self.resolved(self.prog.resolve_import(('from', b, a.name)))

    def resolved(self, r):
        if r is None:
            return None
        k = r[0]
        if k == 'func':
            return [T('func', r[1], (r[2], None, None))]
        if k == 'class':
            return [T('class', r[1])]
        if k == 'module':
            return [T('module', r[1])]
        if k == 'ext':
            return [T('ext', r[1])]
        if k == 'missing':
            return [T('opaque', r[1])] if absent(r[1]) else [T('missing', r[1])]
        if k == 'value' and r[1] is not None:
            top = self.of[r[2].tree]
            n = sum(1 for st in walk_own(r[2].tree) for t in stored_names(st) if isinstance(st, ast.Assign) and any(isinstance(x, ast.Name) and st.value is r[1] for x in st.targets))
            return self.type_of(top, r[1]) if n == 1 else None
        return None

    def narrowed(self, s, e):
        return None

    def type_of(self, s, e):
        if isinstance(e, ast.Name):
            r = self.lookup(s, e.id)
            if r is None or e.id in getattr(s, 'hidden', ()):
                return None
            if r[0] == 'local':
                return self.local_type(r[1], e.id)
            if r[0] == 'builtin':
                return [T('ext', 'builtins.' + e.id)]
            if r[1] is not None and r[1][0] == 'value':
                top = self.of[r[1][2].tree]
                if any(e.id in x.globals for x in self.scopes):
                    return None
                return self.local_type(top, e.id)
            if s.mod.optional.get(e.id):
                return None
            return self.resolved(r[1])
        if isinstance(e, ast.Attribute):
            b = self.type_of(s, e.value)
            if b is None:
                return None
            return union([self.attr_type(x, e.attr, s) for x in b])
        if isinstance(e, ast.Call):
            f = self.type_of(s, e.func)
            if f is None:
                if isinstance(e.func, ast.Name) and e.func.id == 'super':
                    return None
                return None
            return union([self.call_type(x, e, s) for x in f])
        if isinstance(e, (ast.List, ast.ListComp)):
            return [T('type', list)]
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return [T('type', dict)]
        if isinstance(e, (ast.Set, ast.SetComp)):
            return [T('type', set)]
        if isinstance(e, ast.Tuple):
            return [T('type', tuple)]
        if isinstance(e, ast.JoinedStr):
            return [T('type', str)]
        if isinstance(e, ast.Constant):
            return [T('type', type(e.value))] if isinstance(e.value, BUILTIN_TYPES) else None
        if isinstance(e, ast.IfExp):
            return union([self.type_of(s, e.body), self.type_of(s, e.orelse)])
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
            l = self.type_of(s, e.left)
            return l if l and len(l) == 1 and l[0].v is str else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            l, r = self.type_of(s, e.left), self.type_of(s, e.right)
            if l and r and len(l) == len(r) == 1 and l[0].k == r[0].k == 'type' and l[0].v is r[0].v and l[0].v in (list, str, tuple):
                return l
        return None

    # -- members
    def family(self, t):
        """classes an instance may belong to"""
        if t.k in ('self', 'selfcls'):
            return self.subs.get(t.v, [t.v])
        return [t.v]

    def members(self, c, name):
        """how instances of a class have an attribute: a description or None"""
        m = self.prog.lookup_method(c, name)
        if m is not None:
            return m
        for b in self.prog.mro(c):
            if name in b.setters:
                return ('attr', None, b)
            if name in self.selfattrs.get(b, {}):
                return ('self', self.selfattrs[b][name], b)
            if any(isinstance(x, ast.ClassDef) and x.name == name for x in b.node.body):
                return ('attr', None, b)
            if '__getattr__' in b.methods or '__getattribute__' in b.methods:
                return ('attr', None, b)
            for x in b.node.body:
                if isinstance(x, (ast.If, ast.Try, ast.For, ast.With)) and name in {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)} | {
                        y.name for y in ast.walk(x) if isinstance(y, FUNCS)}:
                    return ('attr', None, b)
                if isinstance(x, ast.Assign) and name in {y.id for t in x.targets for y in ast.walk(t) if isinstance(y, ast.Name)}:
                    return ('attr', None, b)
                if isinstance(x, (ast.Import, ast.ImportFrom)) and name in {a.asname or a.name.split('.')[0] for a in x.names}:
                    return ('attr', None, b)
        bases = self.prog.ext_bases(c)
        known = True
        for b in bases:
            o = ext_object(b)
            if o is None:
                return ('attr', None, c)        # a base that cannot be read
            if hasattr(o[0], name):
                return ('ext', b, c)
            if o[0] is not object and not (isinstance(o[0], type) and issubclass(o[0], closed_types() + (BaseException,))):
                known = False
        for b in self.prog.mro(c):
            for e in b.node.bases:
                if self.prog.resolve_expr(b.mod, e) is None and not (isinstance(e, ast.Name) and hasattr(builtins, e.id)):
                    known = False
        if hasattr(object, name) or name in ('__dict__', '__name__', '__qualname__', '__module__', '__bases__', '__mro__', '__subclasses__', '__annotations__', '__doc__', '__wrapped__', '__func__'):
            return ('ext', 'object', c)
        return None if known else ('attr', None, c)

    def outside(self, name, classes):
        """whether code outside the class gives its instances this attribute"""
        return name in self.foreign or '*' in self.stored

    @property
    def foreign(self):
        if not hasattr(self, '_foreign'):
            self._foreign = set()
            for s in self.scopes:
                me = self.self_name(s)
                if isinstance(s.node, ast.Lambda):
                    continue
                for x in walk_own(s.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == me):
                        self._foreign.add(x.attr)
        return self._foreign

    def attr_missing(self, t, name):
        """a description of the object when it certainly has no such attribute"""
        if t.k == 'ext':
            if absent(t.v) or t.v.split('.')[0] in OPTIONAL:
                return None
            b = ext_object(t.v)
            if b is None:
                return None
            if hasattr(b[0], name):
                return None
            if ext_object(t.v + '.' + name) is not None:
                return None
            if isinstance(b[0], types.ModuleType) or isinstance(b[0], type) or inspect.isroutine(b[0]):
                return '%s' % t.v
            return None
        if t.k == 'module':
            m = self.prog.modules[t.v]
            if self.prog.resolve(m, name) is None and t.v + '.' + name not in self.prog.modules and self.global_name(m, name) in (None, ('builtin', name)) \
                    and name not in MODVARS:
                return 'module ' + t.v
            return None
        if t.k == 'type':
            return None if hasattr(t.v, name) else t.v.__name__
        if t.k == 'extinst':
            o = t.v
            return None if hasattr(o, name) or not issubclass(o, closed_types()) else o.__name__
        if t.k in ('inst', 'self', 'selfcls'):
            fam = self.family(t)
            if any(self.members(c, name) for c in fam) or self.outside(name, fam):
                return None
            return ('class ' if t.k == 'selfcls' else '') + t.v.name
        if t.k == 'class':
            if self.members(t.v, name) is None and not self.outside(name, [t.v]):
                return 'class ' + t.v.name
            return None
        if t.k == 'func':
            return None if hasattr(types.FunctionType, name) or name in self.foreign else 'function ' + getattr(t.v, 'name', '<lambda>')
        return None

    def attr_type(self, t, name, s):
        if t.k == 'ext':
            if absent(t.v):
                return [T('opaque', t.v)]
            return [T('ext', t.v + '.' + name)] if ext_object(t.v + '.' + name) is not None else None
        if t.k == 'module':
            m = self.prog.modules[t.v]
            r = self.prog.resolve(m, name)
            if r is None and t.v + '.' + name in self.prog.modules:
                return [T('module', t.v + '.' + name)]
            return self.resolved(r)
        if t.k in ('inst', 'self'):
            return union([self.member_type(t, c, name) for c in self.family(t) if self.members(c, name)] or [None])
        if t.k in ('class', 'selfcls'):
            out = []
            for c in self.family(t) if t.k == 'selfcls' else [t.v]:
                m = self.members(c, name)
                if m is None:
                    continue
                if m[0] == 'meth':
                    kind = m[2].kinds.get(name)
                    out.append([T('func', m[1], (m[2].mod, m[2], 'bound' if kind == 'class' else 'plain'))])
                else:
                    out.append(None)
            return union(out or [None])
        if t.k == 'opaque':
            return [t]
        return None

    def member_type(self, t, c, name):
        m = self.members(c, name)
        if m[0] == 'meth':
            kind = m[2].kinds.get(name)
            if any(not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod')) for d in m[1].decorator_list):
                return None
            return [T('func', m[1], (m[2].mod, m[2], 'plain' if kind == 'static' else 'bound'))]
        if m[0] == 'prop' and isinstance(m[1], FUNCS) and m[1] in self.of:
            return self.return_type(m[1])
        if m[0] == 'self' and name not in self.foreign:
            k = ('self', id(m[2]), name)
            if k in self._local:
                return self._local[k]
            if k in self._busy:
                return None
            self._busy.add(k)
            r = self._self_type(m)
            self._busy.discard(k)
            self._local[k] = r
            return r
        return None

    def _self_type(self, m):
        out = []
        for v, sc in m[1]:
            if v is None or isinstance(v, ast.Constant) and v.value is None:
                return None
            out.append(self.type_of(sc, v))
        return union(out)

    def return_type(self, fn):
        k = ('ret', id(fn))
        if k in self._local:
            return self._local[k]
        if k in self._busy:
            return None
        self._busy.add(k)
        s = self.of.get(fn)
        out = None
        if s is not None and isinstance(fn, FUNCS) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(fn)) \
                and not any(not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property')) for d in fn.decorator_list):
            rs = [x for x in walk_own(fn) if isinstance(x, ast.Return)]
            if rs and all(x.value is not None for x in rs):
                out = union([self.type_of(s, x.value) for x in rs])
        self._busy.discard(k)
        self._local[k] = out
        return out

    def call_type(self, t, e, s):
        if t.k == 'class':
            if '__new__' in t.v.methods or t.v.node.keywords or t.v.node.decorator_list:
                return None
            return [T('inst', t.v)]
        if t.k == 'func':
            return self.return_type(t.v)
        if t.k == 'opaque':
            return [t]
        if t.k == 'ext':
            if absent(t.v):
                return [T('opaque', t.v)]
            o = ext_object(t.v)
            if o is None:
                return None
            o = o[0]
            if o in (list, dict, str, tuple, set, int, float, complex, bool, sorted, len) and not (o in (int, float, complex)):
                return [T('type', {sorted: list, len: int}.get(o, o))]
            mt, nd = ext_object('numpy.matrix'), ext_object('numpy.ndarray')
            if mt and nd and o in (mt[0], ext_object('numpy.asmatrix')[0], ext_object('numpy.bmat')[0]):
                return [T('type', mt[0])]
            if nd and any(ext_object('numpy.' + n) and o is ext_object('numpy.' + n)[0] for n in ('zeros', 'ones', 'empty', 'array', 'eye', 'arange', 'linspace', 'logspace')):
                return [T('type', nd[0])]
        return None


def walk_own(node):
    """nodes of a function without those of the functions and classes defined in it"""
    todo = [node.body] if isinstance(node, ast.Lambda) else list(node.body)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, FUNCS + (ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(x))


def stored_names(st):
    """names a statement binds by itself"""
    out = set()
    if isinstance(st, ast.Assign):
        for t in st.targets:
            out |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    elif isinstance(st, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
        out |= {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    elif isinstance(st, ast.withitem) and st.optional_vars is not None:
        out |= {x.id for x in ast.walk(st.optional_vars) if isinstance(x, ast.Name)}
    elif isinstance(st, ast.ExceptHandler) and st.name:
        out.add(st.name)
    elif isinstance(st, FUNCS + (ast.ClassDef,)):
        out.add(st.name)
    elif isinstance(st, (ast.Import, ast.ImportFrom)):
        out |= {a.asname or a.name.split('.')[0] for a in st.names}
    elif isinstance(st, (ast.MatchAs, ast.MatchStar)) and st.name:
        out.add(st.name)
    return out


# ---------------------------------------------------------------------------------------------------- calls

def shape(call):
    """(number of positional arguments, keywords) or None when they are spread at run time"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    return len(call.args), [k.arg for k in call.keywords]


def keywords(call):
    return [k.arg for k in call.keywords if k.arg is not None]


def bind(fn, bound, call):
    """why a call does not match the parameters of a function of the library, or None"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    only = len(a.posonlyargs)
    if bound:
        if not pos and a.vararg is None:
            return 'it takes no argument but is called on an object'
        pos, only = pos[1:], max(only - 1, 0)
    kwonly = [x.arg for x in a.kwonlyargs]
    kws = keywords(call)
    bad = [k for k in kws if k not in pos[only:] and k not in kwonly]
    if bad and a.kwarg is None:
        return 'it has no parameter named %s' % bad[0]
    sh = shape(call)
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if npos > len(pos) and a.vararg is None:
        return 'it takes %d positional arguments, %d are given' % (len(pos), npos)
    dup = [k for k in kws if k in pos[:npos]] if not any(isinstance(x, ast.Starred) for x in call.args) else []
    if dup:
        return 'parameter %s is given twice' % dup[0]
    if sh is None:
        return None
    ndef = len(a.defaults)
    need = pos[:len(pos) - ndef] if ndef else pos
    for i, p in enumerate(need):
        if i >= npos and p not in kws:
            return 'parameter %s is not given' % p
    for p, d in zip(kwonly, a.kw_defaults):
        if d is None and p not in kws:
            return 'parameter %s is not given' % p
    return None


_sig = {}


def bind_ext(dotted, call):
    """why a call does not match the signature of a function of an installed library, or None"""
    o = ext_object(dotted)
    if o is None or not callable(o[0]):
        return None
    if dotted not in _sig:
        try:
            _sig[dotted] = inspect.signature(o[0])
        except (ValueError, TypeError):
            _sig[dotted] = None
    sig = _sig[dotted]
    if sig is None:
        return None
    ps = list(sig.parameters.values())
    anykw = any(p.kind is p.VAR_KEYWORD for p in ps)
    anypos = any(p.kind is p.VAR_POSITIONAL for p in ps)
    names = {p.name for p in ps if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)}
    kws = keywords(call)
    if not anykw:
        for k in kws:
            if k not in names:
                return 'it has no parameter named %s' % k
    sh = shape(call)
    if sh is None:
        return None
    npos = sh[0]
    pos = [p for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
    if npos > len(pos) and not anypos:
        return 'it takes %d positional arguments, %d are given' % (len(pos), npos)
    for p in pos[:npos]:
        if p.name in kws and p.kind is p.POSITIONAL_OR_KEYWORD:
            return 'parameter %s is given twice' % p.name
    for p in pos[npos:]:
        if p.default is p.empty and p.name not in kws:
            return 'parameter %s is not given' % p.name
    for p in ps:
        if p.kind is p.KEYWORD_ONLY and p.default is p.empty and p.name not in kws:
            return 'parameter %s is not given' % p.name
    return None


def specifiers(fmt):
    """number of values a %-format takes, or None when it takes a mapping"""
    n = 0
    for m in re.finditer(r'%(?:\((\w+)\))?[-#0 +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', fmt):
        if m.group(1) is not None:
            return None
        n += (m.group(2) == '*') + (m.group(3) == '*') + (m.group(4) != '%')
    return n


def fields(fmt):
    """(number of automatic fields, highest index, names) of a str.format text, or None when malformed"""
    import string
    auto, high, names = 0, -1, set()
    try:
        for _, f, spec, _ in string.Formatter().parse(fmt):
            for g in [f] + ([x[1] for x in string.Formatter().parse(spec or '')] if spec else []):
                if g is None:
                    continue
                b = re.split(r'[.\[]', g, maxsplit=1)[0]
                if b == '':
                    auto += 1
                elif b.isdigit():
                    high = max(high, int(b))
                else:
                    names.add(b)
    except ValueError:
        return None
    return auto, high, names
