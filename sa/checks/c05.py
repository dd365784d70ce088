"""C05: the registry of structures: options, defaults, acceptance, enumeration"""
import ast
import itertools
from .common import *
from .c04 import filt
from ..values import *

LEVEL = 'other'
EXPLANATION = ('the registering calls are read from the source and evaluated abstractly, with and without the optional library; their options are matched with '
               'the parameters of the factory and of the acceptance test; construction by options and enumeration are interpreted on reference structures')
ST = 'fixif/Structures/Structure.py::'
FI = 'fixif/LTI/Filter.py::'
T, Fa = Const(True), Const(False)
REF = '''
from fixif.Structures.Structure import Structure, iterStructuresAndOptions, makeARealization, iterAllRealizationsRandomFilter
def mk(filt, a=7, b=8, c=9):
    return {'JtoS': (a, b, c), 'surnameVarX': filt}
def other(filt, z=None):
    return {'JtoS': (z,)}
def simple(filt):
    return {'JtoS': ('simple',)}
def yes(filt, **options):
    return True
def some(filt, a, b):
    return not (a == 2 and b == 3)
def never(filt, z):
    return False
def whole(filt):
    return True
def registry():
    r = []
    r.append(Structure('n1', 'first', mk, some, {'b': (3, 4), 'a': (1, 2, 5)}))
    r.append(Structure(shortName='n2', fullName='second', make=simple, accept=whole))
    r.append(Structure('n3', 'third', other, never, options={'z': (None, 'x')}))
    r.append(Structure('n4', 'fourth', make=other, accept=yes, options={'z': ('y', None)}))
    return r
def names(n):
    r = registry()
    s = Structure.getFromName(n)
    i = 0
    for x in r:
        if x is s:
            return i
        i = i + 1
    return -1
def every():
    registry()
    out = []
    for s in Structure.iterAllStructures():
        out.append(s._shortName)
    return out
def make(k, filt, how, **options):
    s = registry()[k]
    if how == 'call':
        return s(filt, **options)
    if how == 'name':
        return makeARealization(filt, s._shortName, **options)
    return s.makeRealization(filt, **options)
def named(filt):
    return registry()[0].makeRealization(filt, structName='sn', shortName='hn', a=5)
def realizations(filt):
    registry()
    out = []
    for x in filt.iterAllRealizations():
        out.append(x)
    return out
def pairs(filt):
    registry()
    out = []
    for s, o in iterStructuresAndOptions(filt):
        out.append((s._shortName, o))
    return out
def unknown(filt, n):
    registry()
    return makeARealization(filt, n)
def nobody(n):
    return Structure.getFromName(n)
'''
TABLE = [('n1', dict(a=a, b=b)) for a in (1, 2, 5) for b in (3, 4) if not (a == 2 and b == 3)] + [('n2', {}), ('n4', dict(z='y')), ('n4', dict(z=None))]
DEFAULTS = {0: dict(a=1, b=3), 1: {}, 2: dict(z=None), 3: dict(z='y')}
SHORT, FULL = ('n1', 'n2', 'n3', 'n4'), ('first', 'second', 'third', 'fourth')


def registrations(P):
    """(module, name bound, call node, guard) of every module-level call of Structure"""
    out = []
    for m in P.modules.values():
        def visit(body, guard):
            for s in body:
                if isinstance(s, (ast.Assign, ast.Expr, ast.AnnAssign)) and isinstance(s.value, ast.Call):
                    r = P.resolve_expr(m, s.value.func)
                    if r is not None and r[0] == 'class' and r[1].name == 'Structure':
                        t = s.targets[0].id if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) else None
                        out.append((m, t, s.value, guard))
                for f in ('body', 'orelse', 'finalbody'):
                    if isinstance(getattr(s, f, None), list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        visit(getattr(s, f), guard + ((id(s), f),))
                for h in getattr(s, 'handlers', []):
                    visit(h.body, guard + ((id(s), 'handler'),))
        visit(m.tree.body, ())
    return out


def check(R):
    R.rule('registered', 'every structure is registered under its own name when the package is imported')
    R.rule('options', 'every option is a parameter of the factory and of the acceptance test, is read by the factory, and has distinct values')
    R.rule('mapping', 'the factories return what the constructor of a realization takes')
    R.rule('accepts', 'the acceptance tests answer what their structure can realize, for all the advertised options')
    R.rule('values', 'the factory takes every combination of the advertised values that is accepted')
    R.rule('makes', 'options given are passed on, those omitted take the value listed first')
    R.rule('refuses', 'an unknown name or option is refused')
    R.rule('enumerates', 'enumerations yield exactly the accepted combinations')
    regs = registrations(R.P)
    if not regs:
        R.und('registered', 'library', 'no registration was found')
    registered(R, regs)
    for i, (m, name, call, guard) in enumerate(regs):
        R.case('options %s %d' % (m.name, i), lambda c: options(R, c, m, call))
        mapping(R, m, call)
    for lib in ('present', 'absent'):
        for n in ('n1', 'n2', 'n3', 'n4'):
            if lib == 'present':
                R.case('name ' + n, lambda c: byname(R, c, n))
    R.case('every', lambda c: every(R, c))
    for k in range(4):
        for how in ('method', 'call', 'name'):
            for given in ({}, dict(a=2), dict(b=4), dict(b=4, a=5), dict(a=11)) if k == 0 else ({}, dict(z='w')) if k != 1 else ({},):
                R.case('make %d %s %s' % (k, how, given), lambda c: makes(R, c, k, how, given))
    R.case('named', lambda c: named(R, c))
    R.case('unknown name', lambda c: unknown(R, c))
    for k in range(4):
        R.case('unknown option %d' % k, lambda c: unknown_option(R, c, k))
    R.case('realizations', lambda c: realizations(R, c))
    R.case('pairs', lambda c: pairs(R, c))
    for i, (m, name, call, guard) in enumerate(regs):
        for kind in ('siso', 'mimo'):
            for stable in (True, False):
                R.case('accept %s %d %s %s' % (m.name, i, kind, stable), lambda c: accepts(R, c, m, call, kind, stable))
        R.case('values %s %d' % (m.name, i), lambda c: values(R, c, m, call), seconds=240)


def where(m):
    return m.name.replace('.', '/') + '.py'


def fns(c):
    f = c.ref(REF, 'mk')
    c.I.eager = True
    return lambda n: FuncV(f.mod.funcs[n], f.mod)


def keyword(call, i, name):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    return call.args[i] if len(call.args) > i else None


def registered(R, regs):
    init = [m for n, m in R.P.modules.items() if n == 'fixif.Structures']
    seen = {}
    for m, name, call, guard in regs:
        k = keyword(call, 0, 'shortName')
        sn = k.value if isinstance(k, ast.Constant) else None
        con = where(m) + '::<module>'
        if sn is None:
            R.und('registered', con, 'the name of a structure is not a constant')
        else:
            clash = [g for g in seen.get(sn, []) if not exclusive(g, guard)]
            if clash:
                R.viol('registered', con, 'name %s' % sn, 'two structures are registered under this name', call.lineno)
            else:
                R.ok('registered', con, 'name %s' % sn)
            seen.setdefault(sn, []).append(guard)
        if init:
            got = set()
            todo = [init[0]]
            while todo:
                x = todo.pop()
                if x.name in got:
                    continue
                got.add(x.name)
                for s in ast.walk(x.tree):
                    names = []
                    if isinstance(s, ast.ImportFrom):
                        b = x.absolute(s.module, s.level)
                        names = [b] + [b + '.' + a.name for a in s.names]
                    elif isinstance(s, ast.Import):
                        names = [a.name for a in s.names]
                    for n in names:
                        while n:
                            if n in R.P.modules:
                                todo.append(R.P.modules[n])
                            n = n.rpartition('.')[0]
            if m.name in got:
                R.ok('registered', con, 'imported with the package')
            else:
                R.viol('registered', con, 'imported with the package', 'importing fixif.Structures does not import %s: its structure is not registered' % m.name, call.lineno)
        else:
            R.und('registered', con, 'package fixif.Structures not found')


def exclusive(g, h):
    """two branches of one statement never both run"""
    a, b = dict(g), dict(h)
    return any(k in b and a[k] != b[k] and {a[k], b[k]} != {'body', 'finalbody'} and {a[k], b[k]} != {'orelse', 'finalbody'} for k in a)


def py(c, v):
    """a concrete value as a Python object; None, with a flag, when it is not concrete"""
    if isinstance(v, Const):
        return ('const', v.v)
    if isinstance(v, Num):
        q = v.s.cval()
        return ('num', int(q)) if q is not None and q == int(q) else None
    if isinstance(v, Tup):
        xs = [py(c, x) for x in v.items]
        return None if None in xs else ('tup',) + tuple(xs)
    if isinstance(v, Ref):
        o = c.I.obj(v)
        if isinstance(o, ListO) and all(s[0] == 'item' for s in o.segs):
            xs = [py(c, s[1]) for s in o.segs]
            return None if None in xs else ('list',) + tuple(xs)
        if isinstance(o, DictO) and not o.open:
            d = as_dict(c, v)
            if d is None:
                return None
            xs = {k: py(c, x) for k, x in d.items()}
            return None if None in xs.values() else ('dict', tuple(xs.items()))
    return None


def want(v):
    """the form py gives to a Python value"""
    if isinstance(v, (int,)) and not isinstance(v, bool):
        return ('num', v)
    if isinstance(v, tuple):
        return ('tup',) + tuple(want(x) for x in v)
    if isinstance(v, dict):
        return ('dict', tuple((k, want(x)) for k, x in v.items()))
    return ('const', v)


def same(a, b):
    """mappings compare without order"""
    if a is None or b is None:
        return None
    if a[0] == b[0] == 'dict':
        x, y = dict(a[1]), dict(b[1])
        return set(x) == set(y) and all(same(x[k], y[k]) for k in x)
    if a[0] in ('tup', 'list') and b[0] in ('tup', 'list'):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a[1:], b[1:]))
    return a == b


def as_dict(c, v):
    """{name: value} of a mapping with text keys"""
    o = c.I.obj(v) if isinstance(v, Ref) else None
    if not isinstance(o, DictO) or o.open:
        return None
    out = {}
    for k, x in o.items.items():
        k = keytext(k)
        if k is None:
            return None
        out[k] = x[1] if isinstance(x, tuple) else x
    return out


def keytext(k):
    if isinstance(k, str):
        return k
    if isinstance(k, Const) and isinstance(k.v, str):
        return k.v
    if isinstance(k, tuple):
        for x in k:
            if isinstance(x, str) and x not in ('const', 'str'):
                return x
    return None


def structure(c, m, call):
    s = c.I.module_value(call, m)
    o = c.I.getattr(s, 'options')
    return Tup([s, o, c.I.getattr(s, '_make'), c.I.getattr(s, '_accept'), c.I.getattr(s, '_shortName')])


def options(R, c, m, call):
    con = where(m) + '::<module>'
    for o in c.exceptions(c.run(lambda: structure(c, m, call)), 'options', con, 'the structure can be made'):
        if not isinstance(o.value, Tup):
            R.und('options', con, 'options', 'the structure is not known')
            continue
        s, opt, make, acc, sn = o.value.items
        if isinstance(opt, Const) and opt.v is None:
            R.ok('options', con, 'no option')
            opts = {}
        else:
            opts = c.at(o, lambda: as_dict(c, opt))
        if opts is None or not isinstance(make, FuncV) or not isinstance(acc, FuncV):
            R.und('options', con, 'options', 'the options, factory or acceptance test are not known')
            continue
        R.functions.add((m.name, make.name))
        R.functions.add((m.name, acc.name))
        for k, v in opts.items():
            vals = c.at(o, lambda: py(c, v))
            if vals is not None:
                ok = vals[0] in ('tup', 'list') and len(vals) > 1 and len(set(vals[1:])) == len(vals) - 1
                c.holds(o, ok, 'options', con, 'option %s has distinct values' % k, 'values %s' % (vals,), call.lineno)
            fm, fa = make.node.args, acc.node.args
            named = [x.arg for x in (fm.posonlyargs + fm.args + fm.kwonlyargs)[1:]]
            c.holds(o, k in named or fm.kwarg is not None, 'options', con, 'option %s is a parameter of %s' % (k, make.name), 'its parameters are %s' % named, make.node.lineno)
            nameda = [x.arg for x in (fa.posonlyargs + fa.args + fa.kwonlyargs)[1:]]
            c.holds(o, k in nameda or fa.kwarg is not None, 'options', con, 'option %s is a parameter of %s' % (k, acc.name), 'its parameters are %s' % nameda, acc.node.lineno)
            if k in named:
                read = any(isinstance(x, ast.Name) and x.id == k and isinstance(x.ctx, ast.Load) for b in make.node.body for x in ast.walk(b))
                c.holds(o, read, 'options', where(m) + '::' + make.name, 'option %s is used' % k, 'the factory takes the option and ignores it', make.node.lineno)
            elif fm.kwarg is not None:
                read = any(isinstance(x, ast.Name) and x.id == fm.kwarg.arg for b in make.node.body for x in ast.walk(b))
                c.holds(o, read, 'options', where(m) + '::' + make.name, 'option %s is used' % k, 'the factory takes any option and ignores it', make.node.lineno)
        # what the acceptance test needs beyond the filter is what the options provide
        fa = acc.node.args
        pos = [x.arg for x in fa.posonlyargs + fa.args]
        need = pos[1:len(pos) - len(fa.defaults)] + [x.arg for x, d in zip(fa.kwonlyargs, fa.kw_defaults) if d is None]
        c.holds(o, all(x in opts for x in need), 'options', where(m) + '::' + acc.name, 'the acceptance test is called with its options', 'it needs %s' % need, acc.node.lineno)
        fm = make.node.args
        pos = [x.arg for x in fm.posonlyargs + fm.args]
        need = pos[1:len(pos) - len(fm.defaults)] + [x.arg for x, d in zip(fm.kwonlyargs, fm.kw_defaults) if d is None]
        c.holds(o, all(x in opts for x in need), 'options', where(m) + '::' + make.name, 'the factory is called with its options', 'it needs %s' % need, make.node.lineno)


def mapping(R, m, call):
    """keys of the mappings the factories return"""
    f = keyword(call, 2, 'make')
    r = R.P.resolve_expr(m, f) if f is not None else None
    real = R.P.find_class('fixif.SIF.Realization', 'Realization')
    init = R.P.lookup_method(real, '__init__')[1].args
    params = {x.arg for x in init.args[2:] + init.kwonlyargs} - {'structureName', 'shortName'}
    pos = [x.arg for x in init.args]
    need = {x for x in pos[2:len(pos) - len(init.defaults)]}
    if r is None or r[0] != 'func':
        R.und('mapping', where(m), 'factory not found')
        return
    con = r[2].name.replace('.', '/') + '.py::' + r[1].name
    todo = [r[1]]
    rets = []
    while todo:
        x = todo.pop()
        for y in ast.iter_child_nodes(x):
            if isinstance(y, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(y, ast.Return):
                rets.append(y)
            todo.append(y)
    if not rets:
        R.viol('mapping', con, 'result', 'the factory returns nothing', r[1].lineno)
    for y in rets:
        v = y.value
        if isinstance(v, ast.Dict) and all(isinstance(k, ast.Constant) for k in v.keys):
            ks = {k.value for k in v.keys}
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict' and not v.args and all(k.arg for k in v.keywords):
            ks = {k.arg for k in v.keywords}
        else:
            R.und('mapping', con, 'result of line %d' % y.lineno, 'not a display of a mapping')
            continue
        if ks - params:
            R.viol('mapping', con, 'result', 'line %d: %s is no parameter of the constructor of a realization' % (y.lineno, sorted(ks - params)), y.lineno)
        elif need - ks:
            R.viol('mapping', con, 'result', 'line %d: %s is missing' % (y.lineno, sorted(need - ks)), y.lineno)
        else:
            R.ok('mapping', con, 'result of a return')


def byname(R, c, n):
    f = fns(c)
    for o in c.exceptions(c.run(lambda: c.call(f('names'), Const(n))), 'registered', ST + 'Structure.getFromName', 'a registered name'):
        v = py(c, o.value)
        c.holds(o, None if v is None else v == want(SHORT.index(n)), 'registered', ST + 'Structure.getFromName', 'the structure registered under the name', 'structure number %s instead of %d' % (v, SHORT.index(n)))


def every(R, c):
    f = fns(c)
    for o in c.exceptions(c.run(lambda: c.call(f('every'))), 'registered', ST + 'Structure.iterAllStructures', 'iteration'):
        v = c.at(o, lambda: py(c, o.value))
        c.holds(o, None if v is None else sorted(v[1:], key=repr) == sorted([want(x) for x in SHORT], key=repr), 'registered', ST + 'Structure.iterAllStructures', 'every structure, once', 'got %s' % (v,))


def recorder(c):
    """a realization is what its constructor is given"""
    names = ['filt', 'JtoS', 'dJtodS', 'structureName', 'shortName', 'surnameVarT', 'surnameVarX']
    dflt = {'dJtodS': NONE, 'structureName': Const(''), 'shortName': Const(''), 'surnameVarT': NONE, 'surnameVarX': NONE}

    def hook(I, args, kw):
        d = dict(dflt)
        d.update(zip(names, args))
        d.update(kw)
        return Tup([d.get(n, NONE) for n in names])
    c.I.hooks[('class', 'Realization')] = hook


def filter_(c, kind, stable=True):
    n = c.dim('n', 1)
    if kind == 'siso':
        num, den = mnamed('num', ONE, n + 1), mhstack([meye(1), mnamed('den', ONE, n)], c.I.B)
        return c.new(c.cls('fixif.LTI.Filter', 'Filter'), num=c.I.arr('matrix', num, 2), den=c.I.arr('matrix', den, 2), stable=Const(stable))
    p, q = c.dim('p', 2), c.dim('q', 1)
    mats = [c.mat(x, *s) for x, s in (('A', (n, n)), ('B', (n, q)), ('C', (p, n)), ('D', (p, q)))]
    return c.new(c.cls('fixif.LTI.Filter', 'Filter'), **dict(zip('ABCD', mats)), stable=Const(stable))


def val(x):
    return Num(sc(x), 'int') if isinstance(x, int) and not isinstance(x, bool) else Const(x)


def jtos(k, opts):
    if k == 0:
        d = dict(a=7, b=8, c=9)
        d.update(opts)
        return want((d['a'], d['b'], d['c']))
    if k == 1:
        return want(('simple',))
    return want((opts['z'],))


def makes(R, c, k, how, given):
    recorder(c)
    f = fns(c)
    con = ST + {'method': 'Structure.makeRealization', 'call': 'Structure.__call__', 'name': 'makeARealization'}[how]
    F = c.I.alloc(ListO([('item', Const('the filter'))]))
    what = 'structure %d with %s' % (k, given)
    opts = dict(DEFAULTS[k])
    opts.update(given)
    kw = {x: val(v) for x, v in given.items()}
    for o in c.exceptions(c.run(lambda: c.call(f('make'), val(k), F, Const(how), **kw)), 'makes', con, what):
        v = o.value
        if not isinstance(v, Tup) or len(v.items) != 7:
            c.holds(o, None, 'makes', con, what, 'not a realization')
            continue
        got = c.at(o, lambda: py(c, v.items[1]))
        c.holds(o, same(got, jtos(k, opts)), 'makes', con, what + ': options of the factory', 'got %s instead of %s' % (got, jtos(k, opts)))
        c.holds(o, v.items[0] == F, 'makes', con, what + ': filter', 'another filter is given to the realization')
        c.holds(o, same(py(c, v.items[4]), want(SHORT[k])), 'makes', con, what + ': short name', 'got %s' % (py(c, v.items[4]),))
        full = v.items[3]
        if isinstance(full, Const) and isinstance(full.v, str):
            c.holds(o, full.v.startswith(FULL[k]), 'makes', con, what + ': name', 'got %s' % full.v)
        if k == 0:
            c.holds(o, v.items[6] == F, 'makes', con, what + ': other results of the factory', 'a result of the factory is not given to the realization')


def named(R, c):
    recorder(c)
    f = fns(c)
    con = ST + 'Structure.makeRealization'
    F = c.I.alloc(ListO([('item', Const('the filter'))]))
    for o in c.exceptions(c.run(lambda: c.call(f('named'), F)), 'makes', con, 'names given'):
        v = o.value
        if not isinstance(v, Tup) or len(v.items) != 7:
            c.holds(o, None, 'makes', con, 'names given', 'not a realization')
            continue
        c.holds(o, same(py(c, v.items[3]), want('sn')), 'makes', con, 'structure name given', 'got %s' % (py(c, v.items[3]),))
        c.holds(o, same(py(c, v.items[4]), want('hn')), 'makes', con, 'short name given', 'got %s' % (py(c, v.items[4]),))


def unknown(R, c):
    f = fns(c)
    F = c.I.alloc(ListO([('item', Const('the filter'))]))
    for n in ('n5', 'first', ''):
        c.refused(c.run(lambda: c.call(f('unknown'), F, Const(n))), 'refuses', ST + 'makeARealization', 'unknown name')
        c.refused(c.run(lambda: c.call(f('nobody'), Const(n))), 'refuses', ST + 'Structure.getFromName', 'unknown name')


def unknown_option(R, c, k):
    recorder(c)
    f = fns(c)
    F = c.I.alloc(ListO([('item', Const('the filter'))]))
    outs = c.run(lambda: c.call(f('make'), val(k), F, Const('method'), nosuch=val(1)))
    for o in outs:
        ok = o.kind == 'raise'
        c.holds(o, ok if ok or o.kind == 'ok' else None, 'refuses', ST + 'Structure.makeRealization', 'unknown option of structure %d' % k, 'a realization is made')


def realizations(R, c):
    recorder(c)
    f = fns(c)
    con = FI + 'Filter.iterAllRealizations'
    F = c.run(lambda: filter_(c, 'siso'))[0].value if False else None

    def go():
        x = filter_(c, 'siso')
        return Tup([x, c.call(f('realizations'), x)])
    for o in c.exceptions(c.run(go), 'enumerates', con, 'iteration'):
        F, l = o.value.items
        lo = c.at(o, lambda: c.I.obj(l))
        if not isinstance(lo, ListO) or any(s[0] != 'item' or not isinstance(s[1], Tup) for s in lo.segs):
            c.holds(o, None, 'enumerates', con, 'iteration', 'the sequence is not known')
            continue
        got = [(c.at(o, lambda: py(c, s[1].items[4])), c.at(o, lambda: py(c, s[1].items[1]))) for s in lo.segs]
        exp = [(want(n), jtos(SHORT.index(n), d)) for n, d in TABLE]
        compare(R, c, o, con, got, exp)
        c.holds(o, all(s[1].items[0] == F for s in lo.segs), 'enumerates', con, 'every realization is made for the filter', 'another filter is realized')


def compare(R, c, o, con, got, exp):
    if any(None in g for g in got):
        c.holds(o, None, 'enumerates', con, 'combinations', 'not known')
        return
    g, e = [repr(x) for x in got], [repr(x) for x in exp]
    c.holds(o, set(e) <= set(g), 'enumerates', con, 'every accepted combination', 'missing: %s' % [x for x in e if x not in g][:2])
    c.holds(o, set(g) <= set(e), 'enumerates', con, 'accepted combinations only', 'not accepted: %s' % [x for x in g if x not in e][:2])
    c.holds(o, len(g) == len(set(g)), 'enumerates', con, 'each combination once', 'repeated')


def pairs(R, c):
    f = fns(c)
    con = ST + 'iterStructuresAndOptions'
    for o in c.exceptions(c.run(lambda: c.call(f('pairs'), filter_(c, 'siso'))), 'enumerates', con, 'iteration'):
        v = c.at(o, lambda: py(c, o.value))
        if v is None or v[0] != 'list':
            c.holds(o, None, 'enumerates', con, 'iteration', 'the sequence is not known')
            continue
        norm = lambda x: ('dict', tuple(sorted(x[1]))) if x[0] == 'dict' else ('dict', ()) if x == ('const', None) else x
        got = [(x[1], norm(x[2])) for x in v[1:]]
        exp = [(want(n), norm(want(d))) for n, d in TABLE]
        compare(R, c, o, con, got, exp)


# what the documentation of each structure says it can realize: single channel only, stable only, odd order only
ACCEPT = {'DFI': ('siso',), 'DFII': ('siso',), 'dSS': (), 'rhoDFII': ('siso', 'stable'), 'LGS': ('siso', 'stable'), 'LCW': ('siso', 'stable'), 'LWDF': ('siso', 'odd')}


def combos(c, o, opts):
    ks = list(opts)
    vs = [c.at(o, lambda: [s for s in (opts[k].items if isinstance(opts[k], Tup) else [x[1] for x in c.I.obj(opts[k]).segs])]) for k in ks]
    return [dict(zip(ks, x)) for x in itertools.product(*vs)]


def setup(R, c, m, call, rule):
    outs = [o for o in c.run(lambda: structure(c, m, call)) if o.kind == 'ok' and isinstance(o.value, Tup)]
    if len(outs) != 1:
        return None
    o = outs[0]
    s, opt, make, acc, sn = o.value.items
    opts = {} if isinstance(opt, Const) else c.at(o, lambda: as_dict(c, opt))
    if opts is None:
        return None
    try:
        return o, combos(c, o, opts), make, acc, sn.v if isinstance(sn, Const) else None
    except AttributeError:
        return None


def accepts(R, c, m, call, kind, stable):
    s = setup(R, c, m, call, 'accepts')
    if s is None:
        R.und('accepts', where(m), 'structure', 'not known')
        return
    o0, cs, make, acc, sn = s
    con = where(m) + '::' + getattr(acc, 'name', '?')
    if sn not in ACCEPT:
        R.und('accepts', con, 'structure %s' % sn, 'no documentation of what it realizes')
        return
    for d in cs:
        txt = {k: py(c, v) for k, v in d.items()}
        what = 'a %s %s filter, options %s' % ('stable' if stable else 'unstable', 'single-channel' if kind == 'siso' else 'multi-channel', {k: v and v[1] for k, v in txt.items()})
        req = ACCEPT[sn]
        if sn == 'dSS':
            f = txt.get('form')
            req = ('siso',) if f in (want('ctrl'), want('obs')) else ('stable',) if f == want('balanced') else ()
        exp = not ('siso' in req and kind != 'siso' or 'stable' in req and not stable)
        if exp and 'odd' in req:
            for k in (1, 2, 3, 4):
                w = 'a single-channel filter of order %d' % k
                for o in c.exceptions(c.run(lambda: c.call(acc, filt(c, sc(k))[0], **d)), 'accepts', con, w):
                    c.truthy(o, o.value, k % 2 == 1, 'accepts', con, w)
            continue
        outs = c.run(lambda: c.call(acc, filter_(c, kind, stable), **d))
        for o in c.exceptions(outs, 'accepts', con, what):
            c.truthy(o, o.value, exp, 'accepts', con, what)


def values(R, c, m, call):
    s = setup(R, c, m, call, 'values')
    if s is None:
        R.und('values', where(m), 'structure', 'not known')
        return
    o0, cs, make, acc, sn = s
    con = where(m) + '::' + getattr(make, 'name', '?')
    if sn in ('LGS', 'LCW', 'LWDF'):
        R.und('values', con, 'numerical factorisations', 'out of reach of the interpretation')
        return
    if sn == 'rhoDFII':
        def mk():
            return filt(c, sc(2))[0]
    else:
        def mk():
            return filter_(c, 'siso')
    for d in cs:
        txt = {k: py(c, v) for k, v in d.items()}
        if txt.get('form') == want('balanced'):
            continue
        what = 'options %s' % {k: v and v[1] for k, v in txt.items()}
        c.exceptions(c.run(lambda: c.call(make, mk(), **d)), 'values', con, what)
