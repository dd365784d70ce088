"""C17: names, attributes, parameters and formats exist where they are used"""
import ast
import builtins
from ..names import (COMPS, FUNCS, Flow, World, absent, bind, bind_ext, fields, specifiers, walk_own)
from ..program import OPTIONAL, ext_object

LEVEL = 'other'
EXPLANATION = ('binding analysis of every function: assignments reaching each read along each path, definitions behind each name, members behind each '
               'attribute, parameters behind each call, by a type inference over the source and the signatures of the installed libraries')


def guarded(node, parents, errors=('ImportError', 'ModuleNotFoundError', 'Exception')):
    """inside a try whose handlers are written for this failure"""
    while node in parents:
        p = parents[node]
        if isinstance(p, ast.Try) and node in p.body and p.handlers:
            for h in p.handlers:
                t = ast.dump(h.type) if h.type is not None else 'Exception'
                if any(x in t for x in errors):
                    return True
        node = p
    return False


def check(R):
    R.rule('names', 'every name read is bound, on every path that reaches the read')
    R.rule('imports', 'everything imported exists')
    R.rule('members', 'every attribute taken from an object exists')
    R.rule('calls', 'every call matches the parameters of what it reaches')
    R.rule('formats', 'every format has as many fields as values')
    W = World(R.P)
    calls = 0
    for m in R.P.modules.values():
        parents = {}
        for x in ast.walk(m.tree):
            for c in ast.iter_child_nodes(x):
                parents[c] = x
        m.parents = parents
    for s in W.scopes:
        w = W.where(s)
        R.functions.add((s.mod.name, W.qual(s)))
        calls += names(R, W, s, w)
    R.calls = calls


def names(R, W, s, w):
    mod, P = s.mod, R.P
    parents = mod.parents
    reads = 0
    seen = set()

    def report(e, how):
        k = (e.id, how)
        if k in seen:
            return
        seen.add(k)
        if how == 'weak':
            R.und('names', w, 'variable %s' % e.id, 'bound only when one of a chain of equalities holds (line %d)' % e.lineno)
        else:
            R.viol('names', w, 'variable %s' % e.id, 'read at line %d where it is not assigned %s' % (e.lineno, 'on any path' if how == 'sure' else 'on some path'), e.lineno)
    if s.is_func:
        f = Flow(s, report)
        f.run()
        reads = f.reads
        if not seen:
            R.ok('names', w, 'local variables')
    # names of the module and free names
    bad = False
    hidden = {}
    for x in walk_own(s.node):
        if isinstance(x, COMPS):
            inner = {y.id for g in x.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
            for y in ast.walk(x):
                if isinstance(y, ast.Name):
                    hidden.setdefault(y, set()).update(inner)
        elif isinstance(x, ast.Lambda):
            pass
    s.hidden_of = hidden
    for x in walk_own(s.node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in hidden.get(x, ()) and not inside_lambda(x, parents, s.node):
            if W.lookup(s, x.id) is None and not guarded(x, parents, ('NameError',)):
                bad = True
                R.viol('names', w, 'name %s' % x.id, 'read at line %d and defined nowhere' % x.lineno, x.lineno)
    if not bad:
        R.ok('names', w, 'free names')
    for x in walk_own(s.node):
        if inside_lambda(x, parents, s.node):
            continue
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            imports(R, W, s, w, x, parents)
        elif isinstance(x, ast.Attribute):
            members(R, W, s, w, x, parents, hidden)
        elif isinstance(x, ast.Call):
            call(R, W, s, w, x, parents, hidden)
        elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and isinstance(x.left, ast.Constant) and isinstance(x.left.value, str):
            percent(R, w, x)
        elif isinstance(x, ast.Assign) and isinstance(x.value, ast.Call):
            unpacking(R, W, s, w, x, hidden)
    return reads


def inside_lambda(x, parents, top):
    p = parents.get(x)
    while p is not None and p is not top:
        if isinstance(p, (ast.Lambda,) + FUNCS + (ast.ClassDef,)):
            # decorators and defaults belong to the enclosing function
            if isinstance(p, ast.Lambda):
                return not (x in p.args.defaults)
            return False
        x, p = p, parents.get(p)
    return False


def imports(R, W, s, w, x, parents):
    if guarded(x, parents):
        return
    if isinstance(x, ast.Import):
        for a in x.names:
            if a.name in R.P.modules or absent(a.name) or any(k.startswith(a.name + '.') for k in R.P.modules):
                R.ok('imports', w, a.name)
            elif ext_object(a.name) is None:
                R.viol('imports', w, a.name, 'the library imported at line %d does not exist' % x.lineno, x.lineno)
            else:
                R.ok('imports', w, a.name)
        return
    b = s.mod.absolute(x.module, x.level)
    if absent(b):
        return
    for a in x.names:
        n = b + '.' + a.name
        if absent(n):
            continue
        if b in R.P.modules:
            ok = a.name == '*' or R.P.resolve_import(('from', b, a.name))[0] != 'missing' or a.name in W.of[R.P.modules[b].tree].binds
        elif a.name == '*':
            ok = ext_object(b) is not None
        else:
            ok = ext_object(n) is not None or any(k == n or k.startswith(n + '.') for k in R.P.modules)
        if ok:
            R.ok('imports', w, n)
        else:
            R.viol('imports', w, n, 'imported at line %d, it does not exist' % x.lineno, x.lineno)


def types_of(W, s, e, hidden):
    for y in ast.walk(e):
        if isinstance(y, ast.Name) and y.id in hidden.get(y, ()):
            return None
    return W.type_of(s, e)


def tested(x, parents, name):
    """the attribute is read under a test of its presence, or of the type of the object"""
    base = ast.dump(x.value)
    p, c = parents.get(x), x
    while p is not None:
        if isinstance(p, (ast.If, ast.IfExp, ast.While)) and c is not p.test:
            t = ast.dump(p.test)
            if 'hasattr' in t or 'isinstance' in t and base in t or "id='type'" in t:
                return True
        if isinstance(p, ast.BoolOp):
            i = next((i for i, v in enumerate(p.values) if v is c), 0)
            if any('hasattr' in ast.dump(v) or 'isinstance' in ast.dump(v) for v in p.values[:i]):
                return True
        c, p = p, parents.get(p)
    return False


def members(R, W, s, w, x, parents, hidden):
    if not isinstance(x.ctx, ast.Load) or guarded(x, parents, ('AttributeError',)):
        return
    what = '%s' % ast.unparse(x)
    ts = types_of(W, s, x.value, hidden)
    if ts is None:
        if x.attr in W.universe or '*' in W.stored:
            return
        if dynamic(x.value) or optional_base(W, s, x.value) or tested(x, parents, x.attr):
            return
        R.viol('members', w, what, 'line %d: nothing the library holds has an attribute %s' % (x.lineno, x.attr), x.lineno)
        return
    if any(t.k == 'opaque' for t in ts):
        return
    miss = [W.attr_missing(t, x.attr) for t in ts]
    if all(miss) and not tested(x, parents, x.attr):
        if unused(W, ts, s):
            R.und('members', w, what, 'line %d: %s is never used by the library, what it is mixed with is not known' % (x.lineno, miss[0]))
        else:
            R.viol('members', w, what, 'line %d: %s has no attribute %s' % (x.lineno, miss[0], x.attr), x.lineno)
        return
    R.ok('members', w, what)


def unused(W, ts, s):
    """a base class that no class of the library extends and nothing names"""
    for t in ts:
        if t.k not in ('self', 'selfcls') or len(W.subs.get(t.v, [])) > 1:
            return False
        for m in W.prog.modules.values():
            for y in ast.walk(m.tree):
                if isinstance(y, ast.Name) and y.id == t.v.name or isinstance(y, ast.Attribute) and y.attr == t.v.name:
                    return False
    return True


def dynamic(e):
    """the object is imported by its name at run time"""
    return any(isinstance(y, ast.Call) and ('__import__' in ast.dump(y.func) or 'import_module' in ast.dump(y.func)) for y in ast.walk(e))


def optional_base(W, s, e):
    """the object comes from a library that is not part of the repository"""
    seen = set()

    def go(s, e, depth=0):
        if depth > 8:
            return True
        for y in ast.walk(e):
            if isinstance(y, ast.Name):
                if y.id in s.mod.optional:
                    return True
                r = W.lookup(s, y.id)
                if r is None:
                    continue
                if r[0] == 'global' and r[1] is not None and (r[1][0] == 'ext' and absent(r[1][1]) or r[1][0] == 'missing'):
                    return True
                if r[0] == 'local' and (id(r[1]), y.id) not in seen:
                    seen.add((id(r[1]), y.id))
                    if y.id in r[1].params and y.id != W.self_name(r[1]):
                        return True
                    for st in walk_own(r[1].node):
                        if isinstance(st, (ast.Assign, ast.For)) and any(isinstance(z, ast.Name) and z.id == y.id for t in (st.targets if isinstance(st, ast.Assign) else [st.target]) for z in ast.walk(t)):
                            if go(r[1], st.value if isinstance(st, ast.Assign) else st.iter, depth + 1):
                                return True
                        if isinstance(st, (ast.Import, ast.ImportFrom)):
                            for a in st.names:
                                if (a.asname or a.name.split('.')[0]) == y.id and absent(a.name if isinstance(st, ast.Import) else s.mod.absolute(st.module, st.level)):
                                    return True
        return False
    return go(s, e)


def call(R, W, s, w, x, parents, hidden):
    f = x.func
    what = '%s(…)' % ast.unparse(f)
    if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str):
        formatting(R, w, x)
    ts = types_of(W, s, f, hidden)
    if ts is None:
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            parent_call(R, W, s, w, x)
            return
        by_name(R, W, s, w, x, hidden)
        return
    whys = []
    for t in ts:
        why = None
        if t.k == 'class':
            why = construct(W, t.v, x)
        elif t.k == 'func' and isinstance(t.v, FUNCS):
            if any(not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod')) for d in t.v.decorator_list):
                whys.append(None)
                continue
            why = bind(t.v, t.x[2] == 'bound', x)
        elif t.k == 'ext':
            if not absent(t.v):
                why = bind_ext(t.v, x)
                o = ext_object(t.v)
                if o is not None and not callable(o[0]):
                    why = 'it is not a function'
        elif t.k == 'module':
            why = 'it is a module'
        else:
            whys.append(None)
            continue
        whys.append(why)
    if whys and all(whys):
        R.viol('calls', w, what, 'line %d: %s' % (x.lineno, whys[0]), x.lineno)
        return
    if any(t.k in ('class', 'func', 'ext') for t in ts):
        R.ok('calls', w, what)


def construct(W, c, x):
    if '__new__' in c.methods or c.node.keywords:
        return None
    m = W.prog.lookup_method(c, '__init__')
    if m is None or m[0] != 'meth':
        b = W.prog.ext_bases(c)
        if any(ext_object(d) is None or not isinstance(ext_object(d)[0], type) or ext_object(d)[0] is not object for d in b):
            return None
        for k in W.prog.mro(c):
            if any(W.prog.resolve_expr(k.mod, e) is None and not (isinstance(e, ast.Name) and hasattr(builtins, e.id)) for e in k.node.bases):
                return None
        return 'it takes no argument' if x.args or x.keywords else None
    return bind(m[1], True, x)


def parent_call(R, W, s, w, x):
    """super().method(…)"""
    q = s
    while q is not None and W.func_kind(q)[0] is None:
        q = q.parent
    if q is None:
        return
    c = W.func_kind(q)[0]
    name = x.func.attr
    order = W.prog.mro(c)[1:]
    for b in order:
        if name in b.methods:
            why = bind(b.methods[name], b.kinds.get(name) != 'static', x)
            if why:
                R.viol('calls', w, 'super().%s(…)' % name, 'line %d: %s' % (x.lineno, why), x.lineno)
            else:
                R.ok('calls', w, 'super().%s(…)' % name)
            return
    ext = [ext_object(d) for d in W.prog.ext_bases(c)]
    if any(o is None or hasattr(o[0], name) for o in ext) or hasattr(object, name):
        return
    if all(W.prog.resolve_expr(k.mod, e) is not None or isinstance(e, ast.Name) and hasattr(builtins, e.id) for k in [c] + order for e in k.node.bases):
        # a mix-in: another class after it may have the method
        if not any(name in b.methods for d in W.subs.get(c, []) for b in W.prog.mro(d)):
            R.viol('members', w, 'super().%s' % name, 'line %d: no base class has it' % x.lineno, x.lineno)


def by_name(R, W, s, w, x, hidden):
    """a method known by its name only: one of those of that name must accept the arguments"""
    f = x.func
    if not isinstance(f, ast.Attribute):
        return
    name = f.attr
    if not hasattr(W, '_ext_names'):
        from ..names import universe
        W._ext_names = universe(R.P)
    if name in W._ext_names or name in W.stored or '*' in W.stored:
        return
    cands = []
    for c in W.classes:
        if name in c.methods:
            cands.append((c.methods[name], c.kinds.get(name)))
        elif name in c.props or name in c.attrs or name in c.setters:
            return
    if any(name in m.funcs or name in m.assigns or name in m.classes or name in m.imports for m in R.P.modules.values()):
        return
    if not cands:
        return
    whys = []
    for fn, kind in cands:
        if any(not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod')) for d in fn.decorator_list):
            return
        whys.append(bind(fn, kind != 'static', x))
    what = '%s(…)' % ast.unparse(f)
    if all(whys):
        R.viol('calls', w, what, 'line %d: %s' % (x.lineno, whys[0]), x.lineno)
    else:
        R.ok('calls', w, what)


def percent(R, w, x):
    fmt = x.left.value
    n = specifiers(fmt)
    if n is None:
        return
    what = repr(fmt[:40])
    r = x.right
    if isinstance(r, ast.Tuple):
        if any(isinstance(e, ast.Starred) for e in r.elts):
            return
        got = len(r.elts)
    elif isinstance(r, (ast.Constant, ast.JoinedStr, ast.BinOp, ast.ListComp, ast.List)) or \
            isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id in ('str', 'len', 'repr', 'int', 'float', 'type', 'sum', 'abs', 'round'):
        got = 1
    elif n == 0:
        got = 1
    elif isinstance(r, (ast.Name, ast.Attribute, ast.Call, ast.Subscript, ast.IfExp)):
        R.ok('formats', w, what)
        return
    else:
        return
    if isinstance(r, ast.BinOp) and isinstance(r.op, (ast.Add, ast.Mult)) and (isinstance(r.left, ast.Tuple) or isinstance(r.right, ast.Tuple)):
        return
    if got != n:
        R.viol('formats', w, what, 'line %d: %d values for %d fields' % (x.lineno, got, n), x.lineno)
    else:
        R.ok('formats', w, what)


def formatting(R, w, x):
    fmt = x.func.value.value
    f = fields(fmt)
    what = repr(fmt[:40])
    if f is None:
        R.viol('formats', w, what, 'line %d: malformed format' % x.lineno, x.lineno)
        return
    if any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
        return
    auto, high, named = f
    n = len(x.args)
    kws = {k.arg for k in x.keywords}
    if auto > n or high >= n or named - kws:
        R.viol('formats', w, what, 'line %d: %d positional and %s named values' % (x.lineno, n, sorted(kws)), x.lineno)
    else:
        R.ok('formats', w, what)


def unpacking(R, W, s, w, x, hidden):
    """a, b = f(): as many names as f returns"""
    for t in x.targets:
        if not isinstance(t, (ast.Tuple, ast.List)) or any(isinstance(e, ast.Starred) for e in t.elts):
            continue
        ts = types_of(W, s, x.value.func, hidden)
        if ts is None:
            continue
        for f in ts:
            if f.k != 'func' or not isinstance(f.v, FUNCS) or any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in walk_own(f.v)):
                continue
            rs = [y.value for y in walk_own(f.v) if isinstance(y, ast.Return) and y.value is not None]
            if rs and all(isinstance(v, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in v.elts) for v in rs):
                sizes = {len(v.elts) for v in rs}
                what = '%s = %s(…)' % (ast.unparse(t), ast.unparse(x.value.func))
                if len(t.elts) not in sizes:
                    R.viol('calls', w, what, 'line %d: %d names for %s values' % (x.lineno, len(t.elts), sorted(sizes)), x.lineno)
                else:
                    R.ok('calls', w, what)
