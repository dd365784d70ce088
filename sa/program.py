"""Program model of the analysed package: modules, classes, imports, resolution."""
import ast
import os

OPTIONAL = ('slycot', 'sollya', 'matlab', 'matplotlib2tikz')
REPO = os.environ.get('FIXIF_REPO', '/repo')


class AnalysisBroken(Exception):
    """an anchor of the analysis is missing: neither 'holds' nor 'violated' can be said"""


class Class:
    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.methods, self.props, self.setters, self.attrs, self.kinds = {}, {}, {}, {}, {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                decs = []
                for d in s.decorator_list:
                    if isinstance(d, ast.Name):
                        decs.append(d.id)
                    elif isinstance(d, ast.Attribute):
                        decs.append(d.attr)
                    else:
                        decs.append('?')
                if 'setter' in decs:
                    self.setters[s.name] = s
                elif 'deleter' in decs:
                    pass
                elif 'property' in decs:
                    self.props[s.name] = s
                else:
                    self.methods[s.name] = s
                    self.kinds[s.name] = ('static' if 'staticmethod' in decs else
                                          'class' if 'classmethod' in decs else 'inst')
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.attrs[s.target.id] = s.value
        # name = property(fget, fset) and aliases of methods (x = y)
        for k, v in list(self.attrs.items()):
            if isinstance(v, ast.Name) and v.id in self.methods:
                self.methods[k] = self.methods[v.id]
                self.kinds[k] = self.kinds[v.id]
                del self.attrs[k]
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
                a = [x.id if isinstance(x, ast.Name) else None for x in v.args]
                for kw in v.keywords:
                    if isinstance(kw.value, ast.Name):
                        if kw.arg == 'fget':
                            a[:1] = [kw.value.id]
                        elif kw.arg == 'fset':
                            a = (a + [None])[:1] + [kw.value.id]
                if a and a[0] in self.methods:
                    self.props[k] = self.methods[a[0]]
                    del self.attrs[k]
                if len(a) > 1 and a[1] in self.methods:
                    self.setters[k] = self.methods[a[1]]

    def __repr__(self):
        return '<class %s.%s>' % (self.mod.name, self.name)


class Module:
    def __init__(self, name, path, src):
        self.name, self.path = name, path
        self.src = src
        self.tree = ast.parse(src, path)
        self.funcs, self.classes, self.assigns, self.imports, self.stars = {}, {}, {}, {}, []
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.optional = {}      # name -> (library, how it is bound when present, how when absent)
        self._scan(self.tree.body, False)

    def _scan(self, body, guarded):
        for s in body:
            if isinstance(s, (ast.FunctionDef,)):
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(s.name, s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.assigns[e.id] = None
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.assigns[s.target.id] = s.value
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = ('mod', a.name, guarded)
                    else:
                        self.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0], guarded)
            elif isinstance(s, ast.ImportFrom):
                base = self.absolute(s.module, s.level)
                for a in s.names:
                    if a.name == '*':
                        self.stars.append((base, guarded))
                    else:
                        self.imports[a.asname or a.name] = ('from', base, a.name, guarded)
            elif isinstance(s, ast.Try):
                self._optional(s)
                self._scan(s.body, True)
                for h in s.handlers:
                    self._scan(h.body, True)
                self._scan(s.orelse, True)
                self._scan(s.finalbody, guarded)
            elif isinstance(s, ast.If):
                self._scan(s.body, True)
                self._scan(s.orelse, True)
            elif isinstance(s, (ast.With, ast.For, ast.While)):
                self._scan(s.body, guarded)

    def _optional(self, s):
        """names bound by an import inside a try: bound differently, or not at all, when the library is absent"""
        for b in s.body:
            if isinstance(b, ast.ImportFrom) and not b.level and b.module and b.module.split('.')[0] in OPTIONAL:
                root = b.module.split('.')[0]
                got = {(a.asname or a.name): ('from', b.module, a.name) for a in b.names if a.name != '*'}
            elif isinstance(b, ast.Import) and any(a.name.split('.')[0] in OPTIONAL for a in b.names):
                root = b.names[0].name.split('.')[0]
                got = {(a.asname or a.name.split('.')[0]): ('mod', a.name if a.asname else a.name.split('.')[0]) for a in b.names}
            else:
                continue
            miss = {}
            for h in s.handlers:
                for x in h.body:
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Name):
                                miss[t.id] = ('value', x.value)
                            elif isinstance(t, ast.Tuple) and isinstance(x.value, ast.Tuple) and len(t.elts) == len(x.value.elts):
                                for u, v in zip(t.elts, x.value.elts):
                                    if isinstance(u, ast.Name):
                                        miss[u.id] = ('value', v)
                    elif isinstance(x, ast.FunctionDef):
                        miss[x.name] = ('func', x)
                    elif isinstance(x, ast.ImportFrom):
                        for a in x.names:
                            miss[a.asname or a.name] = ('import', ('from', self.absolute(x.module, x.level), a.name))
            for n, how in got.items():
                self.optional[n] = (root, how, miss.get(n))
            # flags set in either branch (have_x = True / False)
            for x in list(s.body) + list(s.orelse):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            self.optional[t.id] = (root, ('value', x.value), miss.get(t.id))

    def absolute(self, mod, level):
        if not level:
            return mod
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return '.'.join(parts + ([mod] if mod else []))


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.consulted = set()
        base = os.path.join(self.root, 'fixif')
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ('test', 'tests', '__pycache__', 'generated'))
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                with open(p, encoding='utf8') as h:
                    src = h.read()
                self.modules[rel] = Module(rel, p, src)

    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken('module %s not found' % name)
        return self.modules[name]

    def resolve(self, mod, name, seen=()):
        """('func',node,mod) ('class',Class) ('module',name) ('ext',dotted) ('value',expr,mod) or None"""
        if (mod.name, name) in seen:
            return None
        seen = seen + ((mod.name, name),)
        if name in mod.optional and mod.optional[name][1][0] != 'value':
            return self.resolve_import(mod.optional[name][1], seen)
        if name in mod.funcs:
            return ('func', mod.funcs[name], mod)
        if name in mod.classes:
            return ('class', mod.classes[name])
        if name in mod.assigns:
            return ('value', mod.assigns[name], mod)
        if name in mod.imports:
            return self.resolve_import(mod.imports[name], seen)
        for base, _ in reversed(mod.stars):
            if base in self.modules:
                r = self.resolve(self.modules[base], name, seen)
                if r is not None:
                    return r
            else:
                if ext_has(base, name):
                    return ('ext', base + '.' + name)
        if mod.is_pkg and mod.name + '.' + name in self.modules:
            return ('module', mod.name + '.' + name)
        return None

    def resolve_import(self, imp, seen=()):
        if imp[0] == 'mod':
            return ('module', imp[1]) if imp[1] in self.modules else ('ext', imp[1])
        base, name = imp[1], imp[2]
        if base in self.modules:
            r = self.resolve(self.modules[base], name, seen)
            if r is not None:
                return r
            if base + '.' + name in self.modules:
                return ('module', base + '.' + name)
            return ('missing', base + '.' + name)
        return ('ext', base + '.' + name)

    def find_class(self, modname, cname):
        m = self.module(modname)
        r = self.resolve(m, cname)
        if r is None or r[0] != 'class':
            raise AnalysisBroken('class %s.%s not found' % (modname, cname))
        return r[1]

    def find_func(self, modname, fname):
        m = self.module(modname)
        r = self.resolve(m, fname)
        if r is None or r[0] != 'func':
            raise AnalysisBroken('function %s.%s not found' % (modname, fname))
        return r[1], r[2]

    def mro(self, cls):
        out, todo = [], [cls]
        # depth-first with C3-like behaviour for the simple hierarchies used here
        def visit(c):
            if c in out:
                return
            out.append(c)
            for b in c.node.bases:
                r = self.resolve_expr(c.mod, b)
                if r is not None and r[0] == 'class':
                    visit(r[1])
        visit(cls)
        return out

    def ext_bases(self, cls):
        out = []
        for c in self.mro(cls):
            for b in c.node.bases:
                r = self.resolve_expr(c.mod, b)
                if r is None:
                    if isinstance(b, ast.Name):
                        out.append('builtins.' + b.id)
                elif r[0] == 'ext':
                    out.append(r[1])
        return out

    def resolve_expr(self, mod, e):
        if isinstance(e, ast.Name):
            return self.resolve(mod, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(mod, e.value)
            if r is None:
                return None
            if r[0] == 'module':
                m = self.modules[r[1]]
                x = self.resolve(m, e.attr)
                if x is None and r[1] + '.' + e.attr in self.modules:
                    return ('module', r[1] + '.' + e.attr)
                return x
            if r[0] == 'ext':
                return ('ext', r[1] + '.' + e.attr)
        return None

    def lookup_method(self, cls, name):
        """(kind, node, owner class) with kind in prop/meth/attr"""
        for c in self.mro(cls):
            if name in c.props:
                return ('prop', c.props[name], c)
            if name in c.methods:
                return ('meth', c.methods[name], c)
            if name in c.attrs:
                return ('attr', c.attrs[name], c)
        return None

    def lookup_setter(self, cls, name):
        for c in self.mro(cls):
            if name in c.setters:
                return (c.setters[name], c)
            if name in c.props:
                return None
        return None


_ext = {}


def ext_object(dotted):
    """the library object a dotted name denotes in the supported environment, or None"""
    if dotted in _ext:
        return _ext[dotted]
    import importlib
    import warnings
    r = None
    parts = dotted.split('.')
    if parts[0] != 'fixif':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for k in range(len(parts), 0, -1):
                try:
                    r = (importlib.import_module('.'.join(parts[:k])),)
                except Exception:
                    continue
                ok = True
                o = r[0]
                for a in parts[k:]:
                    try:
                        o = getattr(o, a)
                    except Exception:
                        ok = False
                        break
                r = (o,) if ok else None
                break
    _ext[dotted] = r
    return r


def ext_has(base, name):
    b = ext_object(base)
    if b is None:
        return False
    alls = getattr(b[0], '__all__', None)
    if alls is not None:
        return name in alls
    return hasattr(b[0], name) and not name.startswith('_')
