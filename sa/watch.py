"""Effect analysis: what an operation changes in the objects it is given.

The cases of the other checks (all argument forms, all sizes symbolic) are interpreted again; around every operation of the library
they call, the objects reachable from its arguments are compared with what they were on entry, on every path, exceptional ones
included. An attribute that was still empty may be filled (a cache)."""
import ast

from .dom import *
from .values import *
from . import spec
from .spec import Case, short
from .interp import PyRaise, Outcome


class Muted:
    """stands for the report in the cases that are interpreted again: their own obligations are not this check's"""

    def __init__(self, R, prefix, note):
        self.__dict__.update(real=R, prefix=prefix, note=note)

    def __getattr__(self, k):
        return getattr(self.real, k)

    def __setattr__(self, k, v):
        setattr(self.real, k, v)

    def rule(self, *a):
        pass

    ok = viol = und = add = rule

    def case(self, name, fn, seconds=None, **opt):
        def go(c):
            c.start(self)
            try:
                fn(c)
            except (PyRaise, AttributeError, TypeError, KeyError, IndexError, ValueError) as e:
                c.stopped = '%s: %s' % (type(e).__name__, str(e)[:200])
            c.finish()
        self.real.case('%s %s' % (self.prefix, name), go, seconds, **opt)


def kind_of(I, v):
    o = I.obj(v)
    return o.cls.name if isinstance(o, InstO) else 'array' if isinstance(o, Arr) else 'list' if isinstance(o, ListO) else 'dict' if isinstance(o, DictO) else '?'


def reach(I, roots):
    """addresses reachable from values: {address: path}"""
    out, todo = {}, [(v, p) for v, p in roots]
    while todo:
        v, p = todo.pop(0)
        if isinstance(v, Tup):
            todo += [(x, '%s[%d]' % (p, i)) for i, x in enumerate(v.items)]
        elif isinstance(v, BoundV):
            todo.append((v.self_, p))
        elif isinstance(v, PartialV):
            todo += [(x, p) for x in v.args]
        elif isinstance(v, Ref):
            if v.a in out:
                continue
            out[v.a] = p
            o = I.obj(v)
            if isinstance(o, InstO):
                todo += [(x, '%s.%s' % (p, k)) for k, x in o.attrs.items() if isinstance(x, V)]
            elif isinstance(o, ListO):
                todo += [(s[1], '%s[%d]' % (p, i)) for i, s in enumerate(o.segs) if s[0] == 'item']
            elif isinstance(o, DictO):
                todo += [(x, '%s[%s]' % (p, short(k, 20))) for k, x in o.items.items() if isinstance(x, V)]
            elif isinstance(o, Arr) and o.view is not None:
                todo.append((Ref(o.view), p))
    return out


def storage(I, roots, stop):
    """arrays, lists and mappings reachable from values without entering the objects in stop: {address: path}"""
    out, todo, seen = {}, list(roots), set()
    while todo:
        v, p = todo.pop(0)
        if isinstance(v, Tup):
            todo += [(x, '%s[%d]' % (p, i)) for i, x in enumerate(v.items)]
        elif isinstance(v, Ref) and v.a not in seen and v.a not in stop:
            seen.add(v.a)
            o = I.obj(v)
            if isinstance(o, InstO):
                todo += [(x, '%s.%s' % (p, k)) for k, x in o.attrs.items() if isinstance(x, V)]
                continue
            out[v.a] = p
            if isinstance(o, ListO):
                todo += [(s[1], '%s[%d]' % (p, i)) for i, s in enumerate(o.segs) if s[0] == 'item']
            elif isinstance(o, DictO):
                todo += [(x, '%s[%s]' % (p, short(k, 20))) for k, x in o.items.items() if isinstance(x, V)]
            elif isinstance(o, Arr) and o.view is not None:
                todo.append((Ref(o.view), p))
    return out


def deep(I, v, seen=()):
    """the content of a value, addresses left out"""
    if isinstance(v, Ref):
        if v.a in seen:
            return ('cycle', seen.index(v.a))
        seen = seen + (v.a,)
        o = I.obj(v)
        if isinstance(o, Arr):
            return ('arr', o.kind, I.N(I.arr_mat(v)))
        if isinstance(o, InstO):
            return ('inst', o.cls.name, tuple(sorted((k, deep(I, x, seen)) for k, x in o.attrs.items() if isinstance(x, V))))
        if isinstance(o, ListO):
            return ('list',) + tuple((s[0],) + tuple(deep(I, x, seen) if isinstance(x, V) else x for x in s[1:]) for s in o.segs)
        if isinstance(o, DictO):
            return ('dict', tuple((repr(k), deep(I, x, seen) if isinstance(x, V) else x) for k, x in o.items.items()), repr(o.open))
        return ('obj', repr(o))
    if isinstance(v, Tup):
        return ('tup',) + tuple(deep(I, x, seen) for x in v.items)
    if isinstance(v, FrozenArr):
        return ('arr', v.kind, I.N(v.mat))
    if isinstance(v, Num):
        return ('num', I.N(v.s))
    if isinstance(v, Opq) and v.is_top():
        return ('top',)
    return ('val', v)


def same(I, a, b):
    """True, False or None (cannot be told)"""
    if a is b or a == b:
        return True
    if isinstance(a, Mat) and isinstance(b, Mat):
        try:
            x, y = I.N(a), I.N(b)
            if (x.rows - y.rows).t or (x.cols - y.cols).t:
                return False
            return bool(mat_equal(x, y, I.B))
        except (Incomparable, ShapeError):
            return None
    if isinstance(a, Sc) and isinstance(b, Sc):
        return not (I.N(a) - I.N(b)).t
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[:1] == ('top',) or b[:1] == ('top',):
            return None
        if a[:1] == ('inst',) and b[:2] == a[:2]:       # empty attributes may be filled, new ones added
            x, y = dict(a[2]), dict(b[2])
            a = tuple(v for k, v in sorted(x.items()) if v != ('val', NONE))
            b = tuple(y.get(k) for k, v in sorted(x.items()) if v != ('val', NONE))
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            t = same(I, x, y)
            if t is False:
                return False
            r = r if t else None
        return r
    return False


def parts(I, v):
    """the parts of an object whose change is reported, {name: content}"""
    o = I.obj(v)
    if isinstance(o, InstO):
        return {k: (deep(I, x), x) for k, x in o.attrs.items() if isinstance(x, V)}
    return {'': (deep(I, v), v)}


ENTRY = ('call', 'instantiate', 'binop', 'getattr', 'setattr', 'getitem', 'setitem')


class WatchCase(Case):
    def start(self, muted):
        self.R = muted
        self.muted = muted
        self.real = muted.real
        self.level = 0
        self.seen = {}
        self.stopped = None
        I = self.I
        for name in ENTRY:
            self.wrap(I, name)
        h = Case.meth

    def wrap(self, I, name):
        orig = getattr(I, name)

        def f(*a, **k):
            if self.level or I.depth or self.I.st is None:
                return orig(*a, **k)
            return self.watched(name, orig, a, k)
        setattr(I, name, f)

    # ---- one operation of the library
    def watched(self, name, orig, a, k):
        I = self.I
        con, roots, own = self.describe(name, a)
        if con is None:
            return orig(*a, **k)
        before = {}
        names = reach(I, roots)
        for ad, p in names.items():
            before[ad] = (p, parts(I, Ref(ad)))
        free = set()
        if own is not None and isinstance(own, Ref):
            free = set(reach(I, [(own, 'self')]))
            others = set(reach(I, [(v, p) for v, p in roots if not (isinstance(v, Ref) and v == own)]))
            free -= others
        self.level += 1
        start = len(I.st.effects)
        try:
            r = orig(*a, **k)
            if name in ('binop', 'getitem') or con.startswith('fixif/func_aux/') and 'MPFMatrix.matrix' not in con or con.split('.')[-1].startswith(('to_', '__init__')) and 'SoP' not in con:
                self.shared(con, r, roots, name == 'binop')
            if name == 'setattr' and len(roots) == 2:
                self.kept(con, roots)
            return r
        finally:
            self.level -= 1
            self.compare(con, before, free, start)

    def describe(self, name, a):
        """(construct, [(value, name)], the object the operation is meant to change)"""
        I = self.I
        if name == 'call':
            f, args, kw = a[0], list(a[1]), dict(a[2]) if len(a) > 2 else {}
            roots = []
            if isinstance(f, BoundV):
                roots.append((f.self_, 'self'))
                g = f.f
            elif isinstance(f, MethV):
                return None, None, None
            else:
                g = f
            if isinstance(g, ClassV):
                return self.describe('instantiate', (g.c, args, kw))
            if not isinstance(g, FuncV) or g.mod.name == 'spec':
                return None, None, None
            ps = [x.arg for x in g.node.args.args]
            if roots and ps:
                ps = ps[1:]
            va = g.node.args.vararg
            roots += [(v, ps[i] if i < len(ps) else va.arg if va else 'argument %d' % i) for i, v in enumerate(args)]
            roots += [(v, n) for n, v in kw.items() if isinstance(v, V)]
            roots = [(v, n) for v, n in roots if n != 'output_info']
            cls = g.cls.name if g.cls is not None else roots and isinstance(f, BoundV) and self.owner(f.self_, g)
            con = '%s::%s' % (spec.rel(g.mod.path), '%s.%s' % (cls, g.name) if cls else g.name)
            return con, roots, (f.self_ if isinstance(f, BoundV) and (g.name in MUTATORS) else None)
        if name == 'instantiate':
            c, args, kw = a[0], list(a[1]), dict(a[2]) if len(a) > 2 else {}
            if not hasattr(c, 'mod') or c.mod.name == 'spec':
                return None, None, None
            m = self.P.lookup_method(c, '__init__')
            ps = [x.arg for x in m[1].args.args][1:] if m else []
            return ('%s::%s.__init__' % (spec.rel(c.mod.path), c.name),
                    [(v, ps[i] if i < len(ps) else 'argument %d' % i) for i, v in enumerate(args)] + [(v, n) for n, v in kw.items() if isinstance(v, V)], None)
        if name == 'binop':
            op, x, y = a[0], a[1], a[2]
            i = next((v for v in (x, y) if isinstance(v, Ref) and isinstance(I.obj(v), InstO)), None)
            if i is None:
                return None, None, None
            c = I.obj(i).cls
            return '%s::%s %s' % (spec.rel(c.mod.path), c.name, type(op).__name__), [(x, 'left operand'), (y, 'right operand')], None
        if name in ('getattr', 'getitem'):
            v, n = a[0], a[1]
            if not (isinstance(v, Ref) and isinstance(I.obj(v), InstO)):
                return None, None, None
            c = I.obj(v).cls
            if name == 'getattr':
                m = self.P.lookup_method(c, n)
                if m is None or m[0] != 'prop':
                    return None, None, None
                return '%s::%s.%s' % (spec.rel(m[2].mod.path), m[2].name, n), [(v, 'self')], None
            return '%s::%s.__getitem__' % (spec.rel(c.mod.path), c.name), [(v, 'self'), (n, 'index')], None
        if name in ('setattr', 'setitem'):
            v, n, w = a[0], a[1], a[2]
            if not (isinstance(v, Ref) and isinstance(I.obj(v), InstO)):
                return None, None, None
            c = I.obj(v).cls
            return '%s::%s.%s' % (spec.rel(c.mod.path), c.name, n if name == 'setattr' and isinstance(n, str) else '__setitem__'), [(v, 'self'), (w, 'value')], v
        return None, None, None

    def owner(self, v, g):
        o = self.I.obj(v) if isinstance(v, Ref) else None
        if isinstance(o, InstO):
            for c in self.P.mro(o.cls):
                if any(m is g.node for m in c.methods.values()):
                    return c.name
        return None

    def compare(self, con, before, free, start):
        I = self.I
        viewed = {e[1] for e in I.st.effects[start:] if e[0] == 'write' and e[3] == 'through a view'}
        st = self.seen.setdefault(con, dict(n=0, unknown=0))
        st['n'] += 1
        for ad, (p, old) in before.items():
            if ad in free:
                continue
            new = parts(I, Ref(ad))
            for k, (d, v) in old.items():
                if v == NONE or k in CACHES:
                    continue
                w = new.get(k)
                t = same(I, d, w[0]) if w is not None else False
                if t is None and ad in viewed:
                    t = False
                if t is None:
                    st['unknown'] += 1
                if t is False:
                    I.st.effects.append(('mutated', con, p + ('.' + k if k else ''), '%s instead of %s' % (short(w[0] if w else None, 150), short(d, 150)), I.where()))

    def kept(self, con, roots):
        """an assignment copies: no array of the object is an array of the value assigned"""
        I = self.I
        mine = storage(I, roots[:1], stop=set())
        his = reach(I, roots[1:])
        for ad, p in mine.items():
            if ad in his:
                I.st.effects.append(('shared', con, p, his[ad], I.where()))

    def shared(self, con, r, roots, itself=False):
        """the storage of a result is its own: no array of the result is an array of an argument"""
        I = self.I
        if itself and isinstance(r, Ref):
            for v, p in roots:
                if v == r:
                    I.st.effects.append(('shared', con, 'result', p, I.where()))
        mine = storage(I, [(r, 'result')], stop={v.a for v, _ in roots if isinstance(v, Ref) and isinstance(I.obj(v), InstO)})
        his = reach(I, roots)
        for ad, p in mine.items():
            if ad in his:
                I.st.effects.append(('shared', con, p, his[ad], I.where()))

    # ---- the outcomes: only the feasible paths count
    def run(self, thunk, limit=None):
        outs = Case.run(self, thunk, limit)
        for o in outs:
            self.report(o)
        return outs

    def at(self, o, f):
        n = len(o.st.effects)
        try:
            return Case.at(self, o, f)
        finally:
            self.report(o, n)

    def report(self, o, start=0):
        for e in o.st.effects[start:]:
            if e[0] == 'shared':
                self.seen.setdefault(e[1], dict(n=1, unknown=0)).setdefault('bad', set()).add(e[2])
                self.real.viol('storage', e[1], '%s is %s' % (e[2], e[3]), 'path %s' % short(o.lits, 200))
            if e[0] == 'mutated':
                if Case.reach(self, o) is False:
                    continue
                self.seen.setdefault(e[1], dict(n=1, unknown=0)).setdefault('bad', set()).add(e[2])
                self.real.viol('arguments', e[1], '%s changed' % e[2], '%s, path %s' % (e[3], short(o.lits, 200)))

    def finish(self):
        for con, st in sorted(self.seen.items()):
            if 'bad' not in st:
                if st['unknown']:
                    self.real.und('arguments', con, self.name, 'some contents could not be compared')
                else:
                    self.real.ok('arguments', con, self.name)
        if not self.seen:
            self.real.und('arguments', self.name, 'no operation was reached', self.stopped or '')

    # ---- the obligations of the case itself are not this check's
    def equal(self, *a, **k):
        return True

    judge = holds = truthy = verdict = refused = equal

    def exceptions(self, outs, *a, **k):
        return self.home(o for o in outs if o.kind != 'raise')


MUTATORS = {'similarity', 'transform', 'applyDesignMargin'}
CACHES = set()
