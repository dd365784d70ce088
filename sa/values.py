"""Python-level abstract values and heap objects (all immutable; the heap maps addresses to objects)."""
from .dom import Sc, Mat, sc, subst, ZERO, ONE, QI


class V:
    __slots__ = ()

    def key(self):
        raise NotImplementedError

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return type(self) is type(o) and self.key() == o.key()

    def __repr__(self):
        return repr(self.key())

    def akids(self):
        out = []
        for x in self.key():
            if isinstance(x, (Sc, Mat, tuple)) or hasattr(x, 'akids'):
                out.append(x)
        return out

    def asubst(self, m):
        return self


class Num(V):
    __slots__ = ('s', 'k')

    def __init__(self, s, k='num'):
        self.s, self.k = sc(s), k

    def key(self):
        return ('num', self.s)

    def __repr__(self):
        return repr(self.s)

    def asubst(self, m):
        return Num(subst(self.s, m), self.k)


class Const(V):
    """None, True, False, str, bytes, Ellipsis"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def key(self):
        return ('const', type(self.v).__name__, self.v)

    def __repr__(self):
        return repr(self.v)


NONE, TRUE, FALSE = Const(None), Const(True), Const(False)


class StrV(V):
    """symbolic string: concatenation of literals and formatted values"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        self.parts = tuple(out)

    def key(self):
        return ('str',) + self.parts

    def __repr__(self):
        return 'str<%s>' % ' + '.join(repr(p) for p in self.parts)

    def asubst(self, m):
        return StrV([subst(p, m) if not isinstance(p, str) else p for p in self.parts])


def mkstr(parts):
    s = StrV(parts)
    if len(s.parts) == 0:
        return Const('')
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return Const(s.parts[0])
    return s


class Tup(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def key(self):
        return ('tup',) + self.items

    def __repr__(self):
        return '(%s)' % ', '.join(repr(x) for x in self.items)

    def asubst(self, m):
        return Tup([subst(x, m) for x in self.items])


class Ref(V):
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def key(self):
        return ('ref', self.a)

    def akids(self):
        return []


class FrozenArr(V):
    """array value detached from the heap (element of a symbolic sequence)"""
    __slots__ = ('kind', 'nd', 'mat')

    def __init__(self, kind, nd, mat):
        self.kind, self.nd, self.mat = kind, nd, mat

    def key(self):
        return ('farr', self.mat)

    def asubst(self, m):
        return FrozenArr(self.kind, self.nd, subst(self.mat, m))


class SeqV(V):
    """immutable lazily indexed sequence: n elements, template with index atom idx"""
    __slots__ = ('n', 'idx', 'tmpl')

    def __init__(self, n, idx, tmpl):
        self.n, self.idx, self.tmpl = n, idx, tmpl

    def key(self):
        return ('seq', self.n, subst(self.tmpl, {self.idx: QI(self.tmpl)}))

    def asubst(self, m):
        return SeqV(subst(self.n, m), self.idx, subst(self.tmpl, m))

    def at(self, i):
        return subst(self.tmpl, {self.idx: sc(i)})


class RangeV(V):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def key(self):
        return ('range', self.lo, self.hi, self.step)


class FuncV(V):
    __slots__ = ('node', 'mod', 'cls', 'env', 'name')

    def __init__(self, node, mod, cls=None, env=None, name=None):
        self.node, self.mod, self.cls, self.env = node, mod, cls, env
        self.name = name or getattr(node, 'name', '<lambda>')

    def key(self):
        return ('func', self.mod.name, self.name, getattr(self.node, 'lineno', 0))

    def akids(self):
        return []


class BoundV(V):
    __slots__ = ('self_', 'f')

    def __init__(self, self_, f):
        self.self_, self.f = self_, f

    def key(self):
        return ('bound', self.self_, self.f)


class ClassV(V):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def key(self):
        return ('class', self.c.mod.name, self.c.name)


class ModV(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def key(self):
        return ('mod', self.name)


class ExtV(V):
    """an object of an external library or builtin, by dotted name"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def key(self):
        return ('ext', self.name)

    def __repr__(self):
        return '<%s>' % self.name


class MethV(V):
    """method of a modelled object: (receiver value, name)"""
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def key(self):
        return ('meth', self.recv, self.name)


class CondV(V):
    """undecided boolean: literal c (hashable), negated?"""
    __slots__ = ('c', 'neg')

    def __init__(self, c, neg=False):
        self.c, self.neg = c, neg

    def key(self):
        return ('cond', self.c, self.neg)

    def __repr__(self):
        return ('not ' if self.neg else '') + repr(self.c)

    def asubst(self, m):
        c = subst(self.c, m)
        return CondV(c, self.neg)


class ExcV(V):
    __slots__ = ('name', 'args', 'flag', 'where', 'attrs')

    def __init__(self, name, args=(), flag=None, where=None, attrs=None):
        self.name, self.args, self.flag, self.where = name, tuple(args), flag, where
        self.attrs = {} if attrs is None else attrs

    def key(self):
        return ('exc', self.name)

    def __repr__(self):
        return '%s(%s)' % (self.name, ', '.join(repr(a) for a in self.args))


class Opq(V):
    """uninterpreted deterministic value; ('top', n) when nothing is known"""
    __slots__ = ('k',)

    def __init__(self, *k):
        self.k = k

    def key(self):
        return ('opq',) + self.k

    def is_top(self):
        return self.k[0] == 'top'

    def asubst(self, m):
        return Opq(*[subst(x, m) if not isinstance(x, str) else x for x in self.k])


class PartialV(V):
    __slots__ = ('f', 'args', 'kw')

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, tuple(args), tuple(sorted(kw.items()))

    def key(self):
        return ('partial', self.f) + self.args


class SuperV(V):
    __slots__ = ('inst', 'cls')

    def __init__(self, inst, cls):
        self.inst, self.cls = inst, cls

    def key(self):
        return ('super', self.inst)


# ------------------------------------------------------------------ heap objects
class Wr:
    """write of val at rows r, cols c, for all values of the bounds"""
    __slots__ = ('bounds', 'r', 'c', 'val')

    def __init__(self, bounds, r, c, val):
        self.bounds, self.r, self.c, self.val = tuple(bounds), r, c, val

    def key(self):
        return ('wr', self.bounds, self.r, self.c, self.val)

    def __eq__(self, o):
        return isinstance(o, Wr) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'W%r' % (self.key(),)

    def akids(self):
        return [self.bounds, self.r, self.c, self.val]

    def asubst(self, m):
        return Wr(tuple((b, subst(n, m)) for b, n in self.bounds), subst(self.r, m), subst(self.c, m), subst(self.val, m))


class Arr:
    """array: kind in matrix / array / mp ; nd 1 or 2 ; base matrix plus symbolic-index writes"""
    __slots__ = ('kind', 'nd', 'mat', 'writes', 'view', 'owner', 'word')

    def __init__(self, kind, nd, mat, writes=(), view=None, owner=None, word=False):
        self.word = word        # the entries are machine words
        self.kind, self.nd, self.mat, self.writes, self.view, self.owner = kind, nd, mat, tuple(writes), view, owner

    def with_(self, **k):
        d = {x: getattr(self, x) for x in self.__slots__}
        d.update(k)
        return Arr(**d)

    def __eq__(self, o):
        return isinstance(o, Arr) and (self.kind, self.nd, self.writes) == (o.kind, o.nd, o.writes) and self.mat == o.mat

    def __hash__(self):
        return hash((self.mat, self.writes))


class ListO:
    """segs: ('item', v) or ('seg', idx, N, template) or ('any', key)"""
    __slots__ = ('segs', 'owner')

    def __init__(self, segs, owner=None):
        self.segs, self.owner = tuple(segs), owner

    def concrete(self):
        return all(s[0] == 'item' for s in self.segs)

    def items(self):
        return [s[1] for s in self.segs]

    def __eq__(self, o):
        return isinstance(o, ListO) and self.segs == o.segs

    def __hash__(self):
        return hash(self.segs)


class DictO:
    __slots__ = ('items', 'owner', 'open')

    def __init__(self, items, owner=None, open_=None):
        self.items, self.owner, self.open = dict(items), owner, open_

    def __eq__(self, o):
        return isinstance(o, DictO) and self.items == o.items and self.open == o.open

    def __hash__(self):
        return hash(tuple(self.items))


class InstO:
    __slots__ = ('cls', 'attrs', 'owner', 'ext')

    def __init__(self, cls, attrs, owner=None, ext=()):
        self.cls, self.attrs, self.owner, self.ext = cls, dict(attrs), owner, ext

    def __eq__(self, o):
        return isinstance(o, InstO) and self.cls is o.cls and self.attrs == o.attrs

    def __hash__(self):
        return hash(self.cls.name)
