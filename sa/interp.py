"""Abstract interpreter over the analysed sources.

Guards that the domain cannot decide partition the trace (both sides are followed); symbolic loops are never
unrolled: their body is evaluated once on symbolic loop-carried values and closed into sums, entry-wise
definitions or recurrences.  Calls are followed interprocedurally."""
import re
import ast
import os
import builtins
from fractions import Fraction
from .dom import *
from . import dom
from .values import *
from .program import Program, AnalysisBroken, ext_object, Class


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class PathLimit(Exception):
    pass


class Infeasible(Exception):
    pass


class State:
    def __init__(self):
        self.frames = []
        self.heap = {}
        self.facts = {}
        self.sub = {}
        self.B = Bounds()
        self.glob = {}
        self.effects = []
        self.yields = []

    def copy(self):
        s = State()
        s.frames = [dict(f) for f in self.frames]
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.sub = dict(self.sub)
        s.B = self.B.copy()
        s.glob = dict(self.glob)
        s.effects = list(self.effects)
        s.yields = list(self.yields)
        return s


class Path:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.dec = []
        self.lits = []


class Outcome:
    home, size0 = None, 0

    def __init__(self, lits, kind, value, st):
        self.lits, self.kind, self.value, self.st = lits, kind, value, st

    def __repr__(self):
        return '<%s %r if %r>' % (self.kind, self.value, self.lits)


EXC_PARENTS = {'LinAlgError': 'ValueError', 'numpy.linalg.LinAlgError': 'ValueError'}


def exc_isa(name, target):
    name = name.split('.')[-1]
    target = target.split('.')[-1]
    if name == '?limit':
        return False
    if name == target or target in ('BaseException',):
        return True
    if name in EXC_PARENTS:
        return exc_isa(EXC_PARENTS[name], target)
    a, b = getattr(builtins, name, None), getattr(builtins, target, None)
    if isinstance(a, type) and isinstance(b, type):
        return issubclass(a, b)
    if target == 'Exception':
        return True
    return False


class Interp:
    MAXDEPTH = 30
    MAXPATHS = 400

    def __init__(self, prog, rounding=False):
        self.prog = prog
        self.rounding = rounding
        self.st = State()
        self.path = Path([])
        self.nalloc = 0
        self.ntop = 0
        self.depth = 0
        self.stack = []          # (function name, file)
        self.visited = set()     # functions analysed
        self.ncalls = 0
        self.unknown = []        # reasons precision was lost
        self.modcache = {}
        self.curnode = None
        self.unroll = 0          # number of iterations of while loops that are followed on all paths
        self.hooks = {}          # dotted ext name or (class, method) -> handler
        self.tryexc = []         # stack of exception-name tuples handled by enclosing try blocks
        from . import lib
        self.lib = lib
        self.on_shape = None
        self.entered = []
        self.extvals = {}        # values of external names
        self.absent = ()         # optional libraries assumed not to be installed
        self.round_sites = []    # where rounding operations were met (rounding mode)
        self.mround = False      # operations at a given precision keep their rounding (mround)
        self.nonfinite = False   # values may be infinite or NaN
        CurrentBounds.provider = lambda: self.st.B
        CurrentBounds.order = None
        self.nest = 0
        self.views = {}          # lists that show a dictionary: their address -> (address of the dictionary, what they show)
        self.recursion = 3       # a function called again inside itself is followed that many times
        self.eager = False       # generators are read to their end where they are called

    # ---------------------------------------------------------------- utilities
    def top(self, why=''):
        self.ntop += 1
        self.unknown.append((why, getattr(self.curnode, 'lineno', 0), self.stack[-1] if self.stack else ''))
        return Opq('top', str(self.ntop))

    @property
    def B(self):
        return self.st.B

    def N(self, x):
        if self.st.sub:
            return subst(x, self.st.sub)
        return x

    def alloc(self, obj):
        self.nalloc += 1
        self.st.heap[self.nalloc] = obj
        return Ref(self.nalloc)

    def obj(self, ref):
        return self.st.heap[ref.a]

    def mutate(self, ref, obj, what=''):
        old = self.st.heap.get(ref.a)
        self.st.heap[ref.a] = obj
        ow = getattr(old, 'owner', None)
        self.st.effects.append(('write', ref.a, ow, what, self.where()))
        v = getattr(old, 'view', None)
        if v is not None and v in self.st.heap:
            b = self.st.heap[v]
            self.st.effects.append(('write', v, getattr(b, 'owner', None), 'through a view', self.where()))
            if isinstance(b, Arr):
                self.ntop += 1
                new, writes = matom(('top', b.mat.rows, b.mat.cols, self.ntop)), ()
                if isinstance(obj, Arr) and b.writes == old.writes:
                    # a view of the whole: the base takes the same content
                    if old.mat == b.mat:
                        new, writes = obj.mat, obj.writes
                    elif not old.writes and not obj.writes and old.mat == mT(b.mat):
                        new = mT(obj.mat)
                self.mutate(Ref(v), b.with_(mat=new, writes=writes), 'through a view')

    def where(self):
        f = self.stack[-1] if self.stack else ('?', '?')
        return (f[1], f[0], getattr(self.curnode, 'lineno', 0))

    def arr(self, kind, mat, nd=2):
        return self.alloc(Arr(kind, nd, mat))

    def raise_(self, name, *args, flag=None):
        raise PyRaise(ExcV(name, args, flag, self.where()))

    # ---------------------------------------------------------------- decisions
    def known(self, c):
        """value of literal c when already known, else None"""
        c = self.N(c) if self.st.sub else c
        if isinstance(c, bool):
            return c
        if c in self.st.facts:
            return self.st.facts[c]
        if c[0] == 'eq0':
            d = c[1]
            if not d.t:
                return True
            if d.is_const():
                return False
            if self.integral(d) and (self.B.nonneg(d - 1) or self.B.nonneg(-d - 1)):
                return False
            if ('eq0', -d) in self.st.facts:
                return self.st.facts[('eq0', -d)]
        elif c[0] == 'lt0':
            d = c[1]
            if d.is_const():
                return d.cval() < 0
            if self.integral(d):
                if self.B.nonneg(d):
                    return False
                if self.B.nonneg(-d - 1):
                    return True
            r = self.st.facts.get(('lt0', -d))
            if r is True:
                return False
            if self.st.facts.get(('eq0', d)) is True or self.st.facts.get(('eq0', -d)) is True:
                return False
        return None

    def integral(self, d):
        return all(a[0] in ('sym', 'idx', 'bi', 'bj') or a in self.B.low for m in d.t for a, _ in m)

    def decide(self, c):
        k = self.known(c)
        if k is not None:
            return k
        if self.st.sub:
            c = self.N(c)
        p = self.path
        i = len(p.dec)
        v = p.prefix[i] if i < len(p.prefix) else True
        p.dec.append(v)
        p.lits.append((c, v))
        self.assume(c, v)
        return v

    def assume(self, c, v):
        self.st.facts[c] = v
        if c[0] == 'eq0' and v:
            self.unify(c[1])
        elif c[0] == 'lt0' and self.integral(c[1]):
            self.st.B.extra.append(-c[1] - 1 if v else c[1])

    def unify(self, d):
        """d == 0: eliminate one dimension symbol"""
        for m, k, rnd in [(m, k, r) for r in (0, 1) for m, k in sorted(d.t.items(), key=lambda x: rkey(x[0]), reverse=True)]:
            if len(m) == 1 and m[0][1] == 1 and abs(k) == 1:
                a = m[0][0]
                if a[0] != 'sym' and not (rnd and a[0] == 'fn' and a in self.B.low):
                    continue
                rest = Sc.atom(a) - d * (1 / k)
                if mentions(rest, a):
                    continue
                old = {x: subst(y, {a: rest}) for x, y in self.st.sub.items()}
                old[a] = rest
                self.st.sub = old
                return

    def run_paths(self, thunk, limit=None):
        base, saved = self.st, self.path
        stack_d, tryx, dpt = list(self.stack), list(self.tryexc), self.depth
        results, work = [], [[]]
        limit = limit or self.MAXPATHS
        self.nest += 1
        order = CurrentBounds.order
        CurrentBounds.order = self.order_split if self.nest == 1 else None
        try:
            return self._run_paths(thunk, limit, base, saved, stack_d, tryx, dpt, results, work)
        finally:
            self.nest -= 1
            CurrentBounds.order = order

    def order_split(self, x, y):
        d = x - y
        if not all(a[0] == 'sym' and a in self.B.low for m in d.t for a, _ in m):
            return False
        n = sum(1 for c, _ in self.path.lits if c[0] == 'lt0')
        if n > 6 or self.known(('lt0', d)) is not None:
            return False
        self.decide(('lt0', d))
        return True

    def _run_paths(self, thunk, limit, base, saved, stack_d, tryx, dpt, results, work):
        while work:
            prefix = work.pop()
            self.st = base.copy()
            self.path = Path(prefix)
            self.stack, self.tryexc, self.depth = list(stack_d), list(tryx), dpt
            kind, val = 'ok', None
            try:
                val = thunk()
            except PyRaise as e:
                kind, val = 'raise', e.exc
            except ReturnSig as e:
                kind, val = 'return', e.v
            except BreakSig:
                kind = 'break'
            except ContinueSig:
                kind = 'ok'
            except Infeasible:
                kind = None
            except Incomparable as e:
                if self.nest > 1 or isinstance(e, ShapeError):
                    raise
                kind, val = 'raise', ExcV('?limit', (Const(str(e)),), flag='limit')
            if kind:
                results.append(Outcome(list(self.path.lits), kind, val, self.st))
            dec = self.path.dec
            for i in range(len(prefix), len(dec)):
                work.append(dec[:i] + [not dec[i]])
            if len(results) > limit:
                self.st, self.path = base, saved
                self.stack, self.tryexc, self.depth = stack_d, tryx, dpt
                raise PathLimit()
        self.st, self.path = base, saved
        self.stack, self.tryexc, self.depth = stack_d, tryx, dpt
        return results

    # ---------------------------------------------------------------- truth and comparisons
    def truth(self, v):
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Num):
            s = self.N(v.s)
            c = s.cval()
            if c is not None:
                return c != 0
            return not self.decide(('eq0', norm_sign(s)))
        if isinstance(v, CondV):
            r = self.decide(v.c)
            return (not r) if v.neg else r
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, StrV):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            return self.decide(('truthy', v))
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListO):
                if not o.segs:
                    return False
                if any(s[0] == 'item' for s in o.segs):
                    return True
                n = self.length(v)
                return self.truth(Num(n, 'int')) if n is not None else self.decide(('truthy', v))
            if isinstance(o, DictO):
                if o.items:
                    return True
                return False if o.open is None else self.decide(('truthy', Opq('dict', o.open)))
            if isinstance(o, Arr):
                m = self.arr_mat(v)
                if m.rows == ONE and m.cols == ONE:
                    t = self.lib.order_test(self, m, 'all')
                    if t is not None:
                        return self.truth(t)
                    return self.truth(Num(entry(m, 0, 0, self.B)))
                if o.kind == 'mp':
                    # mpmath matrix: no __bool__, __len__ gives the number of rows
                    return self.truth(Num(m.rows, 'int'))
                if self.known(('eq0', norm_sign(m.rows * m.cols - 1))) is False or not (m.rows * m.cols - 1).t == {}:
                    self.raise_('ValueError', Const('truth value of an array is ambiguous'), flag='ambiguous-truth')
                return self.decide(('truthy', self.vkey(v)))
            if isinstance(o, InstO):
                m = self.prog.lookup_method(o.cls, '__bool__') or self.prog.lookup_method(o.cls, '__len__')
                if m:
                    return self.truth(self.call(BoundV(v, FuncV(m[1], m[2].mod, m[2])), [], {}))
                return True
            return True
        if isinstance(v, (FuncV, BoundV, ClassV, ModV, ExtV, MethV, PartialV, ExcV)):
            return True
        if isinstance(v, (RangeV, SeqV)):
            n = self.length(v)
            return self.truth(Num(n, 'int'))
        if isinstance(v, Opq) and v.is_top():
            return self.decide(('truthy', v))
        return self.decide(('truthy', self.vkey(v)))

    def vkey(self, v, depth=0):
        """hashable structural key of a value"""
        if isinstance(v, Ref):
            o = self.obj(v)
            if depth > 5:
                return Opq('deep')
            if isinstance(o, Arr):
                return FrozenArr(o.kind, o.nd, self.arr_mat(v))
            if isinstance(o, ListO):
                return Opq('list', *[(s[0],) + tuple(self.vkey(x, depth + 1) if isinstance(x, V) else x for x in s[1:]) for s in o.segs])
            if isinstance(o, DictO):
                return Opq('dict', *[(k, self.vkey(x, depth + 1)) for k, x in sorted(o.items.items(), key=lambda kv: repr(kv[0]))])
            if isinstance(o, InstO):
                if '__name__' in o.attrs:
                    return Opq('inst', o.cls.name, o.attrs['__name__'])
                return Opq('inst', o.cls.name, *[(k, self.vkey(x, depth + 1)) for k, x in sorted(o.attrs.items())])
        if isinstance(v, Tup):
            return Tup([self.vkey(x, depth + 1) for x in v.items])
        if isinstance(v, BoundV):
            return Opq('bound', self.vkey(v.self_, depth + 1), v.f)
        if isinstance(v, MethV):
            return Opq('meth', self.vkey(v.recv, depth + 1), v.name)
        if isinstance(v, Num):
            return Num(self.N(v.s), v.k)
        return v

    def num(self, v):
        """scalar polynomial of a value (booleans count as 0/1), or None"""
        if isinstance(v, Num):
            return v.s
        if isinstance(v, Const) and isinstance(v.v, bool):
            return Sc.const(int(v.v))
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, Arr):
                m = self.arr_mat(v)
                if m.rows == ONE and m.cols == ONE:
                    return entry(m, 0, 0, self.B)
        if isinstance(v, Opq) and not v.is_top():
            return Sc.atom(('fn', 'val', v))
        if isinstance(v, Opq):
            return Sc.atom(('top', v.k[1]))
        if isinstance(v, CondV):
            return Sc.atom(('fn', 'bool', v))
        return None

    def eq(self, a, b):
        """value of a == b"""
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            for x, y in zip(a.items, b.items):
                if not self.truth(self.eq(x, y)):
                    return FALSE
            return TRUE
        if isinstance(a, Num) and isinstance(b, Num):
            d = self.N(a.s - b.s)
            return lit(('eq0', norm_sign(d)))
        if isinstance(a, Const) and isinstance(b, Const):
            if isinstance(a.v, bool) or isinstance(b.v, bool) or type(a.v) is type(b.v) or a.v is None or b.v is None:
                return Const(a.v == b.v)
            return FALSE
        if isinstance(a, (Num,)) and isinstance(b, Const) and isinstance(b.v, bool):
            return self.eq(a, Num(int(b.v), 'int'))
        if isinstance(b, (Num,)) and isinstance(a, Const) and isinstance(a.v, bool):
            return self.eq(b, a)
        if isinstance(a, Const) and a.v is None and isinstance(b, (Num, Tup, StrV, ClassV, FuncV, RangeV)):
            return FALSE
        if isinstance(b, Const) and b.v is None and isinstance(a, (Num, Tup, StrV, ClassV, FuncV, RangeV)):
            return FALSE
        if isinstance(a, (Num, Tup)) and isinstance(b, Const) or isinstance(b, (Num, Tup)) and isinstance(a, Const):
            return FALSE
        if isinstance(a, Tup) != isinstance(b, Tup) and (isinstance(a, Num) or isinstance(b, Num)):
            return FALSE
        if isinstance(a, StrV) and isinstance(b, (Num, Tup)) or isinstance(b, StrV) and isinstance(a, (Num, Tup)):
            return FALSE
        if isinstance(a, StrV) and differ(a, b) or isinstance(b, StrV) and differ(b, a):
            return FALSE
        ra, rb = a, b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(self.obj(x), InstO):
                m = self.prog.lookup_method(self.obj(x).cls, '__eq__')
                if m:
                    return self.call(BoundV(x, FuncV(m[1], m[2].mod, m[2])), [y], {})
                if isinstance(y, Ref) and x.a == y.a:
                    return TRUE
                if isinstance(y, (Const, Num, Tup)):
                    return FALSE
                if isinstance(y, Ref) and self.plain(x) and self.plain(y):
                    return FALSE        # the identity of objects is their equality
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(self.obj(a), ListO) and isinstance(self.obj(b), ListO):
            la, lb = self.obj(a), self.obj(b)
            if la.concrete() and lb.concrete():
                return self.eq(Tup(la.items()), Tup(lb.items()))
        if isinstance(a, Ref) and isinstance(self.obj(a), Arr) or isinstance(b, Ref) and isinstance(self.obj(b), Arr):
            # element-wise comparison
            r = self.lib.elementwise_cmp(self, '==', a, b)
            if r is not None:
                return r
        if isinstance(a, Ref) and isinstance(b, Const) or isinstance(b, Ref) and isinstance(a, Const):
            return FALSE
        if isinstance(a, (ClassV, ExtV)) and isinstance(b, (ClassV, ExtV)):
            if isinstance(a, ExtV) and isinstance(b, ExtV) and a.name != b.name:
                oa, ob = ext_object(a.name), ext_object(b.name)
                if oa and ob:
                    return Const(oa[0] is ob[0])
            return Const(a == b)
        ka, kb = self.vkey(a), self.vkey(b)
        if ka == kb and not (isinstance(ka, Opq) and ka.is_top()):
            return TRUE
        if isinstance(ka, Num) or isinstance(kb, Num):
            x, y = self.num(a), self.num(b)
            if x is not None and y is not None:
                return lit(('eq0', norm_sign(self.N(x - y))))
        if rkey(ka) > rkey(kb):
            ka, kb = kb, ka
        return CondV(('eqv', ka, kb))

    def plain(self, r):
        """instance whose class does not define its equality"""
        o = self.obj(r)
        return isinstance(o, InstO) and not o.ext and self.prog.ext_bases(o.cls) in ([], ['builtins.object']) and not self.prog.lookup_method(o.cls, '__eq__')

    def ordering(self, a, b, here, there):
        """the comparison methods of the instances"""
        for x, y, name in ((a, b, here), (b, a, there)):
            if isinstance(x, Ref) and isinstance(self.obj(x), InstO):
                m = self.prog.lookup_method(self.obj(x).cls, name)
                if m:
                    return self.call(BoundV(x, FuncV(m[1], m[2].mod, m[2])), [y], {})
        return None

    def lt(self, a, b):
        x, y = self.num(a), self.num(b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            r = self.lib.elementwise_cmp(self, '<', a, b)
            if r is None:
                r = self.ordering(a, b, '__lt__', '__gt__')
            if r is not None:
                return r
        if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, str) and isinstance(b.v, str):
            return Const(a.v < b.v)
        if x is None or y is None:
            if isinstance(a, Const) and a.v is None or isinstance(b, Const) and b.v is None:
                self.raise_('TypeError', Const('comparison with None'))
            return CondV(('ltv', self.vkey(a), self.vkey(b)))
        return lit(('lt0', self.N(x - y)))

    def neg(self, v):
        if isinstance(v, Const):
            return Const(not v.v)
        if isinstance(v, CondV):
            return CondV(v.c, not v.neg)
        return Const(not self.truth(v))

    def is_(self, a, b):
        if isinstance(a, Const) and isinstance(b, Const):
            return Const(a.v is b.v or (type(a.v) is type(b.v) and a.v == b.v))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and (x.v is None or isinstance(x.v, bool)):
                if isinstance(y, Opq):
                    return CondV(('is', self.vkey(y), x))
                if isinstance(y, CondV):
                    if x.v is None:
                        return FALSE
                    return y if x.v else self.neg(y)
                return FALSE
        if isinstance(a, Ref) and isinstance(b, Ref):
            return Const(a.a == b.a)
        return self.eq(a, b) if isinstance(a, (ClassV, ExtV, FuncV)) else CondV(('is', self.vkey(a), self.vkey(b)))

    # ---------------------------------------------------------------- arrays
    def arr_mat(self, ref):
        """current matrix value of an array, symbolic-index writes resolved"""
        o = self.obj(ref)
        m = o.mat
        if o.writes:
            sw = m.single_word()
            carried = sw is not None and len(sw[1]) == 1 and sw[1][0][0][0] == 'car'
            m = resolve_writes(m, o.writes, self.B)
            if not carried:
                self.st.heap[ref.a] = o.with_(mat=m, writes=())
        m2 = self.N(m)
        return m2

    def idx_comp(self, ix, size):
        """index component -> ('at', Sc) / ('rng', lo, hi) / ('rev', n) / None"""
        if isinstance(ix, Num) or (isinstance(ix, Const) and isinstance(ix.v, bool)):
            s = self.N(self.num(ix))
            c = s.cval()
            if c is not None and c < 0:
                s = size + s
            elif not s.is_const() and self.B.nonneg(-s - 1):
                s = size + s
            return ('at', s)
        if isinstance(ix, Ref) and isinstance(self.obj(ix), ListO) and self.obj(ix).concrete() and all(isinstance(x, Num) for x in self.obj(ix).items()):
            # the rows or columns of a list of indices
            out = []
            for x in self.obj(ix).items():
                k = self.N(x.s)
                if not k.is_const() or k.cval() < 0:
                    return None
                if self.B.nonneg(k - size):
                    self.raise_('IndexError', Const('index out of range'), flag='range')
                out.append(k)
            return ('list', out)
        if isinstance(ix, Tup) and ix.items and isinstance(ix.items[0], Const) and ix.items[0].v == '__slice__':
            _, lo, hi, step = ix.items
            if isinstance(step, Num) and step.s == -ONE and isinstance(lo, Const) and isinstance(hi, Const):
                return ('rev', size)
            back = isinstance(step, Num) and step.s == -ONE
            if not back and not (isinstance(step, Const) and step.v is None) and not (isinstance(step, Num) and step.s == ONE):
                return None

            def bound(v, d):
                if isinstance(v, Const) and v.v is None:
                    return d
                s = self.num(v)
                if s is None:
                    return None
                s = self.N(s)
                c = s.cval()
                if c is not None and c < 0:
                    s = size + s
                elif not s.is_const() and self.B.nonneg(-s - 1):
                    s = size + s
                elif c is not None and size.cval() is not None and c > size.cval():
                    s = size
                elif self.B.nonneg(s - size - 1):
                    s = size
                return s
            if back:
                # from lo down to hi, which is left out: the same entries as hi + 1 .. lo, in reverse order
                lo, hi = bound(lo, size - 1), bound(hi, -ONE)
                if lo is None or hi is None:
                    return None
                if self.B.nonneg(lo - size):
                    lo = size - 1
                return ('rrng', hi + 1, lo + 1)
            lo, hi = bound(lo, ZERO), bound(hi, size)
            if lo is None or hi is None:
                return None
            return ('rng', lo, hi)
        if isinstance(ix, Const) and ix.v is Ellipsis:
            return ('rng', ZERO, size)
        n = self.num(ix) if isinstance(ix, Opq) else None
        if n is not None:
            return ('at', n)
        return None

    def arr_get(self, ref, ix):
        o = self.obj(ref)
        rows, cols = self.N(o.mat.rows), self.N(o.mat.cols)
        nk = 'mpf' if o.kind == 'mp' else 'float'
        if isinstance(ix, Tup) and not (ix.items and isinstance(ix.items[0], Const) and ix.items[0].v == '__slice__'):
            comps = list(ix.items)
            if len(comps) == 1 and o.nd == 1:
                return self.arr_get(ref, comps[0])
            if len(comps) != 2 or o.nd == 1:
                if o.nd == 1 and len(comps) == 2:
                    self.raise_('IndexError', Const('too many indices'))
                return self.top('array index')
            r, c = self.idx_comp(comps[0], rows), self.idx_comp(comps[1], cols)
        elif o.nd == 1:
            r, c = ('at', ZERO), self.idx_comp(ix, cols)
        elif o.kind == 'mp' and isinstance(ix, Num):
            # linear indexing of a vector
            if rows == ONE:
                r, c = ('at', ZERO), self.idx_comp(ix, cols)
            else:
                r, c = self.idx_comp(ix, rows), ('at', ZERO)
        else:
            r, c = self.idx_comp(ix, rows), ('rng', ZERO, cols)
        if r is None or c is None or r[0] == c[0] == 'list':
            return self.arr_index_opaque(ref, ix)
        if 'rrng' in (r[0], c[0]):
            if o.kind == 'mp' or 'list' in (r[0], c[0]):
                return self.arr_index_opaque(ref, ix)
            m = self.arr_mat(ref)
            try:
                m = submat_lax(m, *((r[1], r[2]) if r[0] == 'rrng' else (ZERO, rows)), *((c[1], c[2]) if c[0] == 'rrng' else (ZERO, cols)), self.B)
            except Incomparable:
                return self.arr_index_opaque(ref, ix)
            new = self.alloc(Arr(o.kind, o.nd, m))
            none = Const(None)
            full, back = Tup([Const('__slice__'), none, none, none]), Tup([Const('__slice__'), none, none, Num(-ONE, 'int')])
            if o.nd == 1:
                return self.arr_get(new, back)
            return self.arr_get(new, Tup([back if r[0] == 'rrng' else comps[0] if isinstance(ix, Tup) and len(ix.items) == 2 else ix,
                                          back if c[0] == 'rrng' else comps[1] if isinstance(ix, Tup) and len(ix.items) == 2 else full]))
        if r[0] == 'list' or c[0] == 'list':
            if o.kind == 'mp' or r[0] == 'rev' or c[0] == 'rev':
                return self.arr_index_opaque(ref, ix)
            m = self.arr_mat(ref)
            try:
                if r[0] == 'list':
                    m = mvstack([submat_lax(m, i, i + 1, ZERO, cols, self.B) for i in r[1]], self.B) if r[1] else mzero(ZERO, cols)
                else:
                    m = mhstack([submat_lax(m, ZERO, rows, i, i + 1, self.B) for i in c[1]], self.B) if c[1] else mzero(rows, ZERO)
            except Incomparable:
                return self.arr_index_opaque(ref, ix)
            # a copy, of which the other component is then taken
            new = self.alloc(Arr(o.kind, o.nd, m))
            if o.nd == 1:
                return new
            full = Tup([Const('__slice__'), Const(None), Const(None), Const(None)])
            return self.arr_get(new, Tup([full, comps[1]] if r[0] == 'list' and isinstance(ix, Tup) and len(ix.items) == 2 else [full, full] if r[0] == 'list' else [comps[0], full]))
        for comp, size in ((r, rows), (c, cols)):
            if comp[0] == 'at' and (self.B.nonneg(comp[1] - size) or self.B.nonneg(-comp[1] - 1)):
                self.raise_('IndexError', Const('index out of range'), flag='range')
        if r[0] == 'at' and c[0] == 'at':
            e = self.arr_entry(ref, r[1], c[1])
            return Num(e, nk)
        m = self.arr_mat(ref)
        if r[0] == 'rev' or c[0] == 'rev':
            if r[0] == 'rev':
                m = mmul(mexch(rows), m, self.B)
                r = ('rng', ZERO, rows)
            if c[0] == 'rev':
                m = mmul(m, mexch(cols), self.B)
                c = ('rng', ZERO, cols)
        r0, r1 = (r[1], r[1] + 1) if r[0] == 'at' else (r[1], r[2])
        c0, c1 = (c[1], c[1] + 1) if c[0] == 'at' else (c[1], c[2])
        try:
            s = submat_lax(m, r0, r1, c0, c1, self.B)
        except Incomparable:
            s = matom(('top', r1 - r0, c1 - c0, self.fresh_top('slice')))
        view = ref.a if o.kind != 'mp' else None
        if o.kind == 'array' and o.nd == 2 and (r[0] == 'at') != (c[0] == 'at'):
            if c[0] == 'at':
                s = mT(s)
            return self.alloc(Arr('array', 1, s, (), view))
        if o.nd == 1:
            return self.alloc(Arr('array', 1, s, (), view))
        return self.alloc(Arr(o.kind, 2, s, (), view))

    def fresh_top(self, why):
        self.top(why)
        return self.ntop

    def arr_index_opaque(self, ref, ix):
        comps = ix.items if isinstance(ix, Tup) and not (ix.items and isinstance(ix.items[0], Const) and ix.items[0].v == '__slice__') else [ix]
        if any(isinstance(x, Tup) and x.items and isinstance(x.items[0], Const) and x.items[0].v == '__slice__' for x in comps):
            # a part of unknown size
            return self.top('array index')
        m = self.arr_mat(ref)
        k = self.vkey(ix)
        return Opq('getitem', m, k)

    def arr_entry(self, ref, i, j):
        o = self.obj(ref)
        for w in reversed(o.writes):
            if w.bounds:
                m = self.arr_mat(ref)
                return entry(m, i, j, self.B)
            hit = self.pos_in(w, i, j)
            if hit is True:
                if isinstance(w.val, Sc):
                    return w.val
                r0 = w.r[1]
                c0 = w.c[1]
                return entry(w.val, i - r0 if w.r[0] == 'rng' else ZERO, j - c0 if w.c[0] == 'rng' else ZERO, self.B)
            if hit is None:
                m = self.arr_mat(ref)
                return entry(m, i, j, self.B)
        return entry(self.N(o.mat), i, j, self.B)

    def pos_in(self, w, i, j):
        res = True
        for spec, x in ((w.r, i), (w.c, j)):
            if spec[0] == 'at':
                d = x - spec[1]
                if not d.t:
                    continue
                if d.is_const() or self.B.nonneg(d - 1) or self.B.nonneg(-d - 1):
                    return False
                res = None
            else:
                if self.B.nonneg(x - spec[1]) and self.B.nonneg(spec[2] - 1 - x):
                    continue
                if self.B.nonneg(spec[1] - 1 - x) or self.B.nonneg(x - spec[2]):
                    return False
                res = None
        return res

    def arr_set(self, ref, ix, val):
        o = self.obj(ref)
        rows, cols = self.N(o.mat.rows), self.N(o.mat.cols)
        if isinstance(ix, Tup) and len(ix.items) == 2 and not (isinstance(ix.items[0], Const) and ix.items[0].v == '__slice__'):
            r, c = self.idx_comp(ix.items[0], rows), self.idx_comp(ix.items[1], cols)
        elif o.nd == 1:
            r, c = ('at', ZERO), self.idx_comp(ix, cols)
        elif o.kind == 'mp' and isinstance(ix, Num):
            r, c = (('at', ZERO), self.idx_comp(ix, cols)) if rows == ONE else (self.idx_comp(ix, rows), ('at', ZERO))
        else:
            r, c = self.idx_comp(ix, rows), ('rng', ZERO, cols)
        if r is None or c is None or r[0] in ('rev', 'rrng') or c[0] in ('rev', 'rrng'):
            self.mutate(ref, o.with_(mat=matom(('top', rows, cols, self.fresh_top('index write'))), writes=()), 'element write')
            return
        for comp, size in ((r, rows), (c, cols)):
            if comp[0] == 'at' and (self.B.nonneg(comp[1] - size) or self.B.nonneg(-comp[1] - 1)):
                self.raise_('IndexError', Const('index out of range'), flag='range')
        r0, r1 = (r[1], r[1] + 1) if r[0] == 'at' else (r[1], r[2])
        c0, c1 = (c[1], c[1] + 1) if c[0] == 'at' else (c[1], c[2])
        if r[0] == 'at' and c[0] == 'at':
            s = self.num(val)
            if s is None:
                s = Sc.atom(('fn', 'elem', self.vkey(val)))
            if o.word and self.rounding and getattr(val, 'kind', 'mpf') != 'float' and not self.integral(s):
                s = self.rnd(s, 'mpf')      # a number of any length goes into a machine word
            V_ = mscalar(s)
            wv = s
        else:
            V_ = self.as_mat(val)
            if V_ is None:
                s = self.num(val)
                if s is None:
                    s = Sc.atom(('top', self.fresh_top('block value')))
                V_ = mscale(mones(r1 - r0, c1 - c0), s) if (r1 - r0).t and (c1 - c0).t else mzero(r1 - r0, c1 - c0)
            if (V_.rows, V_.cols) != (r1 - r0, c1 - c0):
                V_ = self.broadcast(V_, r1 - r0, c1 - c0, val)
            wv = V_
        symbolic = any(a[0] == 'idx' for x in (r0, c0, r1, c1) for mm in x.t for a, _ in mm)
        sw = o.mat.single_word()
        if sw is not None and len(sw[1]) == 1 and sw[1][0][0][0] == 'car':
            symbolic = True
        if not symbolic and not o.writes:
            try:
                m = setsub(self.N(o.mat), r0, r1, c0, c1, V_, self.B)
                self.mutate(ref, o.with_(mat=m), 'element write')
                return
            except Incomparable:
                pass
        if r[0] == 'at' and c[0] == 'at':
            w = Wr((), r, c, wv)
        else:
            w = Wr((), ('rng', r0, r1) if r[0] == 'rng' else r, ('rng', c0, c1) if c[0] == 'rng' else c, wv)
        ws = [x for x in o.writes if not (not x.bounds and x.r == w.r and x.c == w.c)]
        self.mutate(ref, o.with_(writes=ws + [w]), 'element write')

    def broadcast(self, M, r, c, val=None):
        if M.rows == r and M.cols == c:
            return M
        if M.rows == ONE and M.cols == ONE:
            return mscale(mones(r, c), entry(M, 0, 0, self.B))
        if M.rows == ONE and M.cols == c:
            return mmul(mones(r, 1), M, self.B)
        if M.cols == ONE and M.rows == r:
            return mmul(M, mones(1, c), self.B)
        if isinstance(val, Ref) and isinstance(self.obj(val), Arr) and self.obj(val).nd == 1 and r == M.cols and c == ONE:
            return mT(M)   # mpmath accepts, numpy needs (k,) into (k,1)[...] only for ndarray targets
        self.raise_('ValueError', Const('shape mismatch'), flag=('shape', (M.rows, M.cols), (r, c)))

    def as_mat(self, v):
        """matrix of an array-like value (arrays, nested lists of scalars), or None"""
        if isinstance(v, FrozenArr):
            return v.mat
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, Arr):
                return self.arr_mat(v)
            if isinstance(o, ListO):
                return self.seq_mat(o)
        if isinstance(v, Tup):
            return self.seq_mat(ListO([('item', x) for x in v.items]))
        if isinstance(v, SeqV):
            return self.seq_mat(ListO([('seg', v.idx, v.n, v.tmpl)]))
        return None

    def seq_mat(self, o):
        """list of scalars -> 1 x n ; list of rows -> matrix"""
        rows, flat = [], True
        for s in o.segs:
            if s[0] == 'item':
                x = s[1]
                n = self.num(x) if not isinstance(x, Ref) or not isinstance(self.obj(x), Arr) else None
                if n is not None:
                    rows.append(mscalar(n))
                    continue
                m = self.as_mat(x)
                if m is None:
                    return None
                flat = False
                rows.append(m)
            elif s[0] == 'seg':
                _, idx, N, t = s
                if isinstance(t, Num):
                    rows.append(lift_lam(ONE, N, subst(t.s, {idx: Sc.atom(('bj',))}), self.B))
                else:
                    return None
            else:
                return None
        if not rows:
            return mzero(1, 0)
        try:
            return mhstack(rows, self.B) if flat else mvstack(rows, self.B)
        except ShapeError:
            return None

    # ---------------------------------------------------------------- sequences
    def length(self, v):
        if isinstance(v, Tup):
            return sc(len(v.items))
        if isinstance(v, Const) and isinstance(v.v, str):
            return sc(len(v.v))
        if isinstance(v, SeqV):
            return self.N(v.n)
        if isinstance(v, RangeV):
            if v.step == ONE:
                return self.N(v.hi - v.lo)
            if v.step == -ONE:
                return self.N(v.lo - v.hi)
            return None
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListO):
                n = ZERO
                for s in o.segs:
                    if s[0] == 'item':
                        n = n + 1
                    elif s[0] == 'seg':
                        n = n + s[2]
                    else:
                        return Sc.atom(('fn', 'len', self.vkey(v)))
                return self.N(n)
            if isinstance(o, Arr):
                m = o.mat
                return self.N(m.cols if o.nd == 1 else (m.rows if o.kind != 'mp' or m.cols == ONE else m.rows * (m.cols if m.rows == ONE else ONE)))
            if isinstance(o, DictO) and o.open is None:
                return sc(len(o.items))
        return None

    def elements(self, v):
        """concrete list of elements, or None"""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Const) and isinstance(v.v, str):
            return [Const(c) for c in v.v]
        if isinstance(v, RangeV):
            lo, hi, st = self.N(v.lo).cval(), self.N(v.hi).cval(), v.step.cval()
            if lo is not None and hi is not None and st:
                r = range(int(lo), int(hi), int(st))
                if len(r) <= 64:
                    return [Num(x, 'int') for x in r]
            n = self.length(v)
            if n is not None and n.cval() is not None and st in (1, -1) and 0 <= n.cval() <= 64:
                return [Num(self.N(v.lo) + st * x, 'int') for x in range(int(n.cval()))]
            if n is not None and n.cval() is not None and n.cval() < 0:
                return []
            if n is not None and self.B.nonneg(-n):
                return []
            return None
        if isinstance(v, SeqV):
            n = self.N(v.n).cval()
            if n is not None and n <= 64:
                return [self.thaw(v.at(i)) for i in range(int(max(n, 0)))]
            return None
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListO):
                if o.concrete():
                    return o.items()
                out = []
                for s in o.segs:
                    if s[0] == 'item':
                        out.append(s[1])
                    elif s[0] == 'seg' and self.N(s[2]).cval() is not None and self.N(s[2]).cval() <= 64:
                        for i in range(int(self.N(s[2]).cval())):
                            out.append(self.thaw(subst(s[3], {s[1]: sc(i)})))
                    else:
                        return None
                return out
            if isinstance(o, DictO) and o.open is None:
                return [k for k in o.items]
            if isinstance(o, Arr):
                if o.kind == 'mp':      # element by element, row by row
                    m = self.arr_mat(v)
                    r, c = [self.N(x).cval() for x in (m.rows, m.cols)]
                    if r is None or c is None or r * c > 64:
                        return None
                    return [Num(entry(m, sc(i), sc(j), self.B), 'mpf') for i in range(int(r)) for j in range(int(c))]
                n = self.length(v)
                if n is not None and n.cval() is not None and n.cval() <= 32:
                    return [self.arr_get(v, Num(i, 'int')) for i in range(int(n.cval()))]
        return None

    def thaw(self, v):
        if isinstance(v, FrozenArr):
            return self.alloc(Arr(v.kind, v.nd, v.mat))
        if isinstance(v, Tup):
            return Tup([self.thaw(x) for x in v.items])
        return v

    def freeze(self, v):
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, Arr):
                return FrozenArr(o.kind, o.nd, self.arr_mat(v))
            if isinstance(o, ListO) and o.concrete():
                return Opq('list', *[('item', self.freeze(x)) for x in o.items()])
            return self.vkey(v)
        if isinstance(v, Tup):
            return Tup([self.freeze(x) for x in v.items])
        return v

    def as_seq(self, v):
        """(N, f: index Sc -> value) for a symbolic-length iterable, or None"""
        if isinstance(v, RangeV):
            n = self.length(v)
            if n is None:
                return None
            lo, st = self.N(v.lo), v.step
            return n, (lambda k: Num(lo + st * k, 'int'))
        if isinstance(v, SeqV):
            return self.N(v.n), (lambda k: self.thaw(v.at(k)))
        if isinstance(v, Tup) or (isinstance(v, Const) and isinstance(v.v, str)):
            return None
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListO):
                if len(o.segs) == 1 and o.segs[0][0] == 'seg':
                    _, idx, N, t = o.segs[0]
                    return self.N(N), (lambda k: self.thaw(subst(t, {idx: k})))
                return None
            if isinstance(o, Arr):
                m = self.arr_mat(v)
                if o.nd == 1:
                    return m.cols, (lambda k: Num(entry(m, ZERO, k, self.B), 'float'))
                if o.kind == 'mp':
                    if m.cols == ONE:
                        return m.rows, (lambda k: Num(entry(m, k, ZERO, self.B), 'mpf'))
                    if m.rows == ONE:
                        return m.cols, (lambda k: Num(entry(m, ZERO, k, self.B), 'mpf'))
                    return None
                return m.rows, (lambda k: self.arr_get(v, Num(k, 'int')))
        return None

    # ---------------------------------------------------------------- statements
    def exec_block(self, body):
        for s in body:
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.curnode = s
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.unknown.append(('statement ' + type(s).__name__, s.lineno, ''))
            return
        m(s)

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def x_Pass(self, s):
        pass

    def x_Assert(self, s):
        v = self.ev(s.test)
        if isinstance(v, CondV) or isinstance(v, Num) or isinstance(v, Opq):
            # the failing side raises
            if not self.truth(v):
                self.raise_('AssertionError')
        elif not self.truth(v):
            self.raise_('AssertionError')

    def x_Return(self, s):
        raise ReturnSig(self.ev(s.value) if s.value is not None else NONE)

    def x_Break(self, s):
        raise BreakSig()

    def x_Continue(self, s):
        raise ContinueSig()

    def x_Global(self, s):
        self.frame.setdefault('__globals__', set()).update(s.names)

    def x_Nonlocal(self, s):
        pass

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frame.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                i = self.ev_index(t.slice)
                if isinstance(b, Ref) and isinstance(self.obj(b), DictO):
                    o = self.obj(b)
                    d = dict(o.items)
                    if self.hkey(i) in d:
                        del d[self.hkey(i)]
                    self.mutate(b, DictO(d, o.owner, o.open), 'del')
                elif isinstance(b, Ref) and isinstance(self.obj(b), ListO):
                    o = self.obj(b)
                    if o.concrete() and isinstance(i, Num) and i.s.cval() is not None:
                        it = o.items()
                        del it[int(i.s.cval())]
                        self.mutate(b, ListO([('item', x) for x in it], o.owner), 'del')
                    else:
                        self.havoc_ref(b)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value)
                if isinstance(b, Ref) and isinstance(self.obj(b), InstO):
                    o = self.obj(b)
                    at = dict(o.attrs)
                    at.pop(t.attr, None)
                    self.mutate(b, InstO(o.cls, at, o.owner, o.ext), 'del attribute ' + t.attr)

    @property
    def frame(self):
        return self.st.frames[-1]

    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            nv = self.aug(s.op, cur, self.ev(s.value))
            self.assign(t, nv)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            cur = self.getattr(b, t.attr)
            nv = self.aug(s.op, cur, self.ev(s.value))
            self.setattr(b, t.attr, nv)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            i = self.ev_index(t.slice)
            cur = self.getitem(b, i)
            nv = self.aug(s.op, cur, self.ev(s.value))
            self.setitem(b, i, nv)

    def aug(self, op, cur, val):
        if isinstance(cur, Ref):
            o = self.obj(cur)
            if isinstance(o, ListO) and isinstance(op, ast.Add):
                self.list_extend(cur, val)
                return cur
            if isinstance(o, InstO):
                name = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__'}.get(type(op).__name__)
                m = name and self.prog.lookup_method(o.cls, name)
                if m:
                    return self.call(BoundV(cur, FuncV(m[1], m[2].mod, m[2])), [val], {})
            if isinstance(o, Arr) and o.kind != 'mp':
                r = self.binop(op, cur, val)
                if isinstance(r, Ref) and isinstance(self.obj(r), Arr):
                    ro = self.obj(r)
                    self.mutate(cur, o.with_(mat=self.arr_mat(r), writes=()), 'in-place operation')
                    return cur
                self.mutate(cur, o.with_(mat=matom(('top', o.mat.rows, o.mat.cols, self.fresh_top('inplace'))), writes=()), 'in-place operation')
                return cur
        return self.binop(op, cur, val)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if t.id in self.frame.get('__globals__', ()):
                self.st.glob[(self.frame.get('__mod__'), t.id)] = v
                self.st.effects.append(('global', t.id, None, '', self.where()))
            else:
                self.frame[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.setitem(b, self.ev_index(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack(self, t, v):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        els = self.elements(self.iterable(v))
        if els is not None and not star:
            if len(els) != n:
                self.raise_('ValueError', Const('unpack'), flag='unpack')
            for e, x in zip(t.elts, els):
                self.assign(e, x)
            return
        if els is not None and star and len(els) >= n - 1:
            i = star[0]
            after = n - i - 1
            for e, x in zip(t.elts[:i], els[:i]):
                self.assign(e, x)
            self.assign(t.elts[i].value, self.alloc(ListO([('item', x) for x in els[i:len(els) - after]])))
            for e, x in zip(t.elts[i + 1:], els[len(els) - after:]):
                self.assign(e, x)
            return
        for i, e in enumerate(t.elts):
            if isinstance(v, Opq) and not v.is_top():
                self.assign(e, Opq('item', v, Num(i, 'int')))
            else:
                self.assign(e, self.top('unpack'))

    def x_If(self, s):
        if self.truth(self.ev(s.test)):
            self.exec_block(s.body)
        else:
            self.exec_block(s.orelse)

    def x_FunctionDef(self, s):
        self.frame[s.name] = FuncV(s, self.frame['__mod__'], None, self.frame)

    def x_ClassDef(self, s):
        self.frame[s.name] = ClassV(Class(s.name, s, self.frame['__mod__']))

    def x_Import(self, s):
        for a in s.names:
            nm = a.name
            tgt = a.asname or nm.split('.')[0]
            full = nm if a.asname else nm.split('.')[0]
            if full in self.prog.modules:
                self.frame[tgt] = ModV(full)
            else:
                self.ext_import(full)
                self.frame[tgt] = ExtV(full)

    def ext_import(self, name):
        """an optional library may be absent: both outcomes when the import is inside a try"""
        root = name.split('.')[0]
        if self.handled('ImportError') and root in ('slycot', 'sollya', 'matlab', 'matplotlib2tikz'):
            if self.decide(('absent', root)):
                self.raise_('ImportError', Const(root))

    def x_ImportFrom(self, s):
        mod = self.frame['__mod__']
        base = mod.absolute(s.module, s.level)
        for a in s.names:
            if a.name == '*':
                continue
            r = self.prog.resolve_import(('from', base, a.name))
            if r[0] == 'ext':
                self.ext_import(base)
            if r[0] == 'missing':
                self.raise_('ImportError', Const(r[1]), flag='missing')
            self.frame[a.asname or a.name] = self.resolved(r)

    def x_Raise(self, s):
        if s.exc is None:
            cur = self.frame.get('__exc__')
            raise PyRaise(cur or ExcV('Exception', (), None, self.where()))
        v = self.ev(s.exc)
        self.curnode = s
        if isinstance(v, ExtV):
            v = ExcV(v.name.split('.')[-1], ())
        if isinstance(v, ClassV):
            v = self.call(v, [], {})
        if isinstance(v, ExcV):
            raise PyRaise(ExcV(v.name, v.args, v.flag or 'explicit', self.where(), v.attrs))
        if isinstance(v, Ref) and isinstance(self.obj(v), InstO):
            raise PyRaise(ExcV(self.obj(v).cls.name, (), 'explicit', self.where()))
        if isinstance(v, Opq):
            raise PyRaise(ExcV('Exception', (v,), 'explicit', self.where()))
        self.raise_('TypeError', Const('exceptions must derive from BaseException'), flag='bad-raise')

    def handler_names(self, h):
        if h.type is None:
            return ['BaseException']
        v = self.ev(h.type)
        vs = list(v.items) if isinstance(v, Tup) else [v]
        out = []
        for x in vs:
            if isinstance(x, ExtV):
                out.append(x.name.split('.')[-1])
            elif isinstance(x, ClassV):
                out.append(x.c.name)
            else:
                out.append('?')
        return out

    def handled(self, exc):
        return any(exc_isa(exc, n) for names in self.tryexc for n in names)

    def x_Try(self, s):
        names = []
        for h in s.handlers:
            names += self.handler_names(h)
        depth = (len(self.stack), self.depth, len(self.st.frames))
        pending = None
        sig = None
        self.tryexc.append(tuple(names))
        try:
            try:
                self.exec_block(s.body)
                self.tryexc.pop()
                self.exec_block(s.orelse)
            except PyRaise as e:
                if self.tryexc and self.tryexc[-1] == tuple(names) and len(self.tryexc) >= 1:
                    self.tryexc.pop()
                del self.stack[depth[0]:]
                self.depth = depth[1]
                del self.st.frames[depth[2]:]
                for h in s.handlers:
                    if any(exc_isa(e.exc.name, n) for n in self.handler_names(h)):
                        if h.name:
                            self.frame[h.name] = e.exc
                        old = self.frame.get('__exc__')
                        self.frame['__exc__'] = e.exc
                        self.exec_block(h.body)
                        if old is None:
                            self.frame.pop('__exc__', None)
                        else:
                            self.frame['__exc__'] = old
                        if h.name:
                            self.frame.pop(h.name, None)
                        break
                else:
                    raise
        except (PyRaise, ReturnSig, BreakSig, ContinueSig) as e:
            sig = e
            del self.stack[depth[0]:]
            self.depth = depth[1]
            del self.st.frames[depth[2]:]
        self.exec_block(s.finalbody)
        if sig is not None:
            raise sig

    x_TryStar = x_Try

    def x_With(self, s):
        exits = []
        for it in s.items:
            v = self.ev(it.context_expr)
            r = v
            ex = self.lib.with_enter(self, v)
            if ex is not None:
                r, fin = ex
                exits.append(fin)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r)
        depth = (len(self.stack), self.depth, len(self.st.frames))
        sig = None
        try:
            self.exec_block(s.body)
        except (PyRaise, ReturnSig, BreakSig, ContinueSig) as e:
            sig = e
            del self.stack[depth[0]:]
            self.depth = depth[1]
            del self.st.frames[depth[2]:]
        for f in reversed(exits):
            f()
        if sig is not None:
            raise sig

    # ---------------------------------------------------------------- loops
    def iterable(self, v):
        if isinstance(v, Num) or isinstance(v, Const) and not isinstance(v.v, (str, bytes)):
            self.raise_('TypeError', Const('object is not iterable'), flag='operand')
        return v

    def x_For(self, s):
        it = self.iterable(self.ev(s.iter))
        els = self.elements(it)
        if els is not None:
            if len(els) > 64:
                els = None
        if els is not None:
            broke = False
            for x in self.live(it, els):
                self.assign(s.target, x)
                try:
                    self.exec_block(s.body)
                except BreakSig:
                    broke = True
                    break
                except ContinueSig:
                    continue
            if not broke:
                self.exec_block(s.orelse)
            return
        sq = self.as_seq(it)
        if sq is None and isinstance(it, Ref) and isinstance(self.obj(it), ListO):
            # concatenation of segments: loop over each in turn
            for sg in self.obj(it).segs:
                if sg[0] == 'item':
                    self.assign(s.target, sg[1])
                    try:
                        self.exec_block(s.body)
                    except ContinueSig:
                        pass
                    except BreakSig:
                        return
                elif sg[0] == 'seg':
                    _, idx, N_, t = sg
                    self.summarize(s, self.N(N_), lambda k: self.thaw(subst(t, {idx: k})))
                else:
                    self.havoc_loop(s, it)
            self.exec_block(s.orelse)
            return
        if sq is None:
            self.havoc_loop(s, it)
            self.exec_block(s.orelse)
            return
        N, f = sq
        self.summarize(s, N, f)
        self.exec_block(s.orelse)

    def live(self, it, els):
        """the elements a loop gets: lists and dictionaries may change during the iteration"""
        if not isinstance(it, Ref):
            yield from els
            return
        a, part = self.views.get(it.a, (it.a, 'keys'))
        o = self.st.heap.get(a)
        if isinstance(o, DictO) and o.open is None:
            order, n, done, i = list(o.items), len(o.items), 0, 0
            while True:
                o = self.st.heap.get(a)
                if not isinstance(o, DictO) or o.open is not None:
                    yield from els[i:]
                    return
                if len(o.items) != n:
                    self.raise_('RuntimeError', Const('dictionary changed size during iteration'), flag='iteration')
                order += [k for k in o.items if k not in order]
                while i < len(order) and order[i] not in o.items:
                    i += 1
                if i >= len(order):
                    return
                if done == n:
                    self.raise_('RuntimeError', Const('dictionary keys changed during iteration'), flag='iteration')
                k = order[i]
                i += 1
                done += 1
                yield k if part == 'keys' else o.items[k] if part == 'values' else Tup([k, o.items[k]])
        if isinstance(o, ListO):
            i = 0
            while i < 128:
                cur = self.elements(it)
                if cur is None:
                    yield from els[i:]
                    return
                if i >= len(cur):
                    return
                yield cur[i]
                i += 1
            raise Incomparable('a list that grows during its iteration')
        yield from els

    def counting(self, s):
        """a while loop that steps an integer by one up or down to a bound that does not change: (variable, bound, range, rest of the body)"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        a, op, b = t.left, t.ops[0], t.comparators[0]
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.NotEq: ast.NotEq}
        for x, op, y in ((a, type(op), b), (b, flip.get(type(op)), a)):
            if not isinstance(x, ast.Name) or op not in flip:
                continue
            steps = [(k, st) for k, st in enumerate(s.body) if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == x.id
                     and isinstance(st.op, (ast.Add, ast.Sub)) and isinstance(st.value, ast.Constant) and st.value.value == 1
                     or isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == x.id
                     and isinstance(st.value, ast.BinOp) and isinstance(st.value.op, (ast.Add, ast.Sub)) and isinstance(st.value.left, ast.Name)
                     and st.value.left.id == x.id and isinstance(st.value.right, ast.Constant) and st.value.right.value == 1]
            if len(steps) != 1 or steps[0][0] not in (0, len(s.body) - 1):
                continue
            k, st = steps[0]
            rest = s.body[1:] if k == 0 else s.body[:-1]
            up = isinstance(st.op if isinstance(st, ast.AugAssign) else st.value.op, ast.Add)
            if up != (op in (ast.Lt, ast.LtE)) and op is not ast.NotEq:
                continue
            changed = set(assigned_names(rest))
            if x.id in changed or any(isinstance(z, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom)) for st in rest for z in ast.walk(st)):
                continue
            names = {z.id for z in ast.walk(y) if isinstance(z, ast.Name)}
            attrs = {z.attr for z in ast.walk(y) if isinstance(z, ast.Attribute)}
            if x.id in names or names & changed or any(not isinstance(z, (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop,
                                                                          ast.expr_context)) for z in ast.walk(y)):
                continue
            if attrs and any(isinstance(z, ast.Attribute) and isinstance(z.ctx, ast.Store) and z.attr in attrs for st in rest for z in ast.walk(st)):
                continue
            i0 = self.frame.get(x.id)
            i0, n = (v.s if isinstance(v, Num) and v.k == 'int' else None for v in (i0, self.ev(y)))
            if i0 is None or n is None:
                return None
            i0, n = self.N(i0), self.N(n)
            if (n - i0).is_const():
                return None
            d = ONE if up else -ONE
            end = n + d if op in (ast.LtE, ast.GtE) else n
            if op is ast.NotEq and not self.B.nonneg((end - i0) if up else (i0 - end)):
                return None
            off = d if k == 0 else ZERO
            return x.id, end, RangeV(i0 + off, end + off, d), rest, (end - i0) if up else (i0 - end)
        return None

    def decided(self, v):
        """truth of a value when it is the same on all the paths that come here"""
        k = None
        if isinstance(v, Const):
            k = bool(v.v)
        elif isinstance(v, Num) and self.N(v.s).cval() is not None:
            k = self.N(v.s).cval() != 0
        elif isinstance(v, CondV):
            k = self.known(v.c)
            if k is not None and v.neg:
                k = not k
        elif isinstance(v, Ref) and isinstance(self.obj(v), ListO) and self.obj(v).concrete():
            k = bool(self.obj(v).segs)
        return k

    def x_While(self, s):
        w = self.counting(s)
        if w is not None:
            name, end, rng, rest, count = w
            if not self.B.nonneg(count) and not self.truth(self.ev(s.test)):
                self.exec_block(s.orelse)
                return
            tmp = '__count%d__' % s.lineno
            self.frame[tmp] = rng
            f = getattr(s, 'counted', None)
            if f is None:
                f = ast.For(target=ast.Name(id=name, ctx=ast.Store()), iter=ast.Name(id=tmp, ctx=ast.Load()), body=rest or [ast.Pass()], orelse=[], type_comment=None)
                s.counted = ast.fix_missing_locations(ast.copy_location(f, s))
            self.x_For(f)
            self.frame[name] = Num(end, 'int')
            self.frame.pop(tmp, None)
            self.exec_block(s.orelse)
            return
        if self.unroll:
            # loops are followed on all their paths, up to a number of iterations
            left = self.unroll
            for _ in range(64):
                v = self.ev(s.test)
                if isinstance(s.test, ast.Constant) or self.decided(v) is None:
                    left -= 1
                    if left < 0:
                        break
                if not self.truth(v):
                    self.exec_block(s.orelse)
                    return
                try:
                    self.exec_block(s.body)
                except BreakSig:
                    return
                except ContinueSig:
                    continue
            self.raise_('Unrolled', Const('iterations'), flag='unrolled')
        # concrete countdowns are followed while the test is decidable
        for _ in range(40):
            k = self.decided(self.ev(s.test))
            if k is None or (k is True and isinstance(s.test, ast.Constant)):
                break
            if not k:
                self.exec_block(s.orelse)
                return
            try:
                self.exec_block(s.body)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.havoc_loop(s, None)

    def havoc_loop(self, s, it):
        """loop whose effect is not summarised: forget everything its body may change"""
        elem = self.top('iteration') if isinstance(s, ast.For) else None
        if elem is not None and it is not None and not (isinstance(it, Opq) and it.is_top()):
            elem = Opq('elem', self.vkey(it), str(self.ntop))

        def body():
            if elem is not None:
                self.assign(s.target, elem)
            else:
                self.ev(s.test)
            self.exec_block(s.body)
        changed, addrs = set(assigned_names(s.body)), set()
        effects = []
        exits = []
        for rnd in range(3):
            try:
                outs = self.run_paths(body, 60)
            except PathLimit:
                outs = []
                break
            new = set()
            effects, exits = [], []
            for o in outs:
                for a, ob in o.st.heap.items():
                    if a in self.st.heap and self.st.heap[a] is not ob and not self.st.heap[a] == ob:
                        new.add(a)
                effects += o.st.effects[len(self.st.effects):]
                if o.kind in ('raise', 'return'):
                    exits.append(o)
            for a in new - addrs:
                self.havoc_addr(a)
            for n in changed:
                if n in self.frame or rnd == 0:
                    self.frame[n] = self.top('loop variable ' + n)
            if not (new - addrs):
                break
            addrs |= new
        for e in effects:
            if e not in self.st.effects:
                self.st.effects.append(e)
        for o in exits:
            if o.kind == 'raise':
                if self.decide(('exit', s.lineno, o.value.name, o.value.where)):
                    self.st.glob = dict(o.st.glob)
                    raise PyRaise(o.value)
            else:
                if self.decide(('exit', s.lineno, 'return', str(len(exits)))):
                    self.st.glob = dict(o.st.glob)
                    raise ReturnSig(self.top('return in loop'))
        for o in outs:
            if o.kind == 'ok' or o.kind == 'break':
                for k, g in o.st.glob.items():
                    if self.st.glob.get(k) != g:
                        self.st.glob[k] = self.top('ambient')

    def havoc_addr(self, a):
        o = self.st.heap[a]
        if isinstance(o, Arr):
            self.st.heap[a] = o.with_(mat=matom(('top', o.mat.rows, o.mat.cols, self.fresh_top('array'))), writes=())
        elif isinstance(o, ListO):
            self.st.heap[a] = ListO([('any', str(self.fresh_top('list')))], o.owner)
        elif isinstance(o, DictO):
            self.st.heap[a] = DictO({}, o.owner, str(self.fresh_top('dict')))
        elif isinstance(o, InstO):
            self.st.heap[a] = InstO(o.cls, {k: self.top('attr') for k in o.attrs}, o.owner, o.ext)

    def havoc_ref(self, r):
        self.havoc_addr(r.a)

    def summarize(self, s, N, f):
        N = self.N(N)
        c = N.cval()
        if c is not None and c <= 0 or self.B.nonneg(-N):
            return
        from .loops import summarize_for
        summarize_for(self, s, N, f)

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        self.curnode = e if hasattr(e, 'lineno') else self.curnode
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.top('expression ' + type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return Const(v)
        if isinstance(v, int):
            return Num(v, 'int')
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return Opq('float', repr(v))
            return Num(Sc.const(Fraction(v)), 'float')
        return Opq('complex', repr(v))

    def e_Name(self, e):
        return self.lookup(e.id)

    def lookup(self, name):
        fr = self.frame
        if name in fr.get('__globals__', ()):
            k = (fr['__mod__'], name)
            if k in self.st.glob:
                return self.st.glob[k]
        if name in fr:
            return fr[name]
        env = fr.get('__closure__')
        while env is not None:
            if name in env:
                return env[name]
            env = env.get('__closure__')
        if name in fr.get('__locals__', ()):
            self.raise_('UnboundLocalError', Const(name), flag='unbound')
        mod = fr['__mod__']
        if (mod, name) in self.st.glob:
            return self.st.glob[(mod, name)]
        if name in mod.optional:
            root, there, missing = mod.optional[name]
            if root in self.absent:
                if missing is None:
                    self.raise_('NameError', Const(name), flag='absent')
                if missing[0] == 'func':
                    return FuncV(missing[1], mod)
                return self.resolved(('value', missing[1], mod) if missing[0] == 'value' else self.prog.resolve_import(missing[1]))
            if there[0] == 'value':
                return self.resolved(('value', there[1], mod))
        r = self.prog.resolve(mod, name)
        if r is not None:
            return self.resolved(r)
        if hasattr(builtins, name):
            return ExtV('builtins.' + name)
        if name == '__file__':
            return Const(os.path.abspath(mod.path))
        if name in ('__name__', '__doc__'):
            return Opq('modattr', mod.name, name)
        self.raise_('NameError', Const(name), flag='name')

    def resolved(self, r):
        if r[0] == 'func':
            return FuncV(r[1], r[2])
        if r[0] == 'class':
            return ClassV(r[1])
        if r[0] == 'module':
            return ModV(r[1])
        if r[0] == 'ext':
            return self.lib.ext_value(self, r[1])
        if r[0] == 'missing':
            self.raise_('ImportError', Const(r[1]), flag='missing')
        if r[0] == 'value':
            return self.module_value(r[1], r[2])
        return self.top('resolve')

    def module_value(self, expr, mod):
        key = (mod.name, id(expr))
        if key in self.modcache:
            v = self.modcache[key]
            return v
        if expr is None:
            return self.top('module value')
        if isinstance(expr, (ast.Dict, ast.List, ast.ListComp, ast.Set)) and not all_const(expr):
            return Opq('modval', mod.name, str(getattr(expr, 'lineno', 0)))
        self.st.frames.append({'__mod__': mod})
        self.stack.append(('<module>', mod.path))
        n = len(self.stack)
        try:
            v = self.ev(expr)
        except PyRaise:
            v = self.top('module value')
        finally:
            del self.stack[n - 1:]
            self.st.frames.pop()
        if not isinstance(v, Ref):
            self.modcache[key] = v
        return v

    def e_Tuple(self, e):
        return Tup(self.ev_list(e.elts))

    def ev_list(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                els = self.elements(v)
                if els is None:
                    out.append(('*', v))
                else:
                    out.extend(els)
            else:
                out.append(self.ev(x))
        if any(isinstance(x, tuple) for x in out):
            return [self.top('starred')] if True else out
        return out

    def e_List(self, e):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                els = self.elements(v)
                if els is not None:
                    items += [('item', y) for y in els]
                elif isinstance(v, Ref) and isinstance(self.obj(v), ListO):
                    items += list(self.obj(v).segs)
                else:
                    items.append(('any', self.vkey(v)))
            else:
                items.append(('item', self.ev(x)))
        return self.alloc(ListO(items))

    def e_Set(self, e):
        return Opq('set', *[self.vkey(x) for x in self.ev_list(e.elts)])

    def e_Dict(self, e):
        d = {}
        op = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v)
                if isinstance(x, Ref) and isinstance(self.obj(x), DictO):
                    d.update(self.obj(x).items)
                    op = op or self.obj(x).open
                else:
                    op = str(self.fresh_top('dict'))
                continue
            kv = self.ev(k)
            d[self.hkey(kv)] = self.ev(v)
        return self.alloc(DictO(d, None, op))

    def hkey(self, v):
        return self.vkey(v)

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value)
                parts += self.str_parts(v, ':' + ast.dump(x.format_spec) if x.format_spec else '')
        return mkstr(parts)

    def str_parts(self, v, spec=''):
        if isinstance(v, Const) and isinstance(v.v, str) and spec in ('', '%s'):
            return [v.v]
        if isinstance(v, StrV) and spec in ('', '%s'):
            return list(v.parts)
        if isinstance(v, Opq) and v.k[:1] and v.k[0] == 'fmt' and spec in ('', '%s'):
            return [v]
        if isinstance(v, Const) and spec in ('', '%s'):
            return [str(v.v)]
        if isinstance(v, Num) and v.k == 'int' and v.s.cval() is not None and spec in ('', '%s', '%d'):
            return [str(int(v.s.cval()))]
        if isinstance(v, Num) and v.k == 'int' and v.s.cval() is not None and re.fullmatch(r'%[-+ 0]*\d*[di]', spec):
            return [spec % int(v.s.cval())]
        if isinstance(v, Num) and v.k == 'int' and spec == '%d':
            spec = ''
        return [Opq('fmt', '' if spec == '%s' else spec, self.vkey(v))]

    def e_FormattedValue(self, e):
        return mkstr(self.str_parts(self.ev(e.value)))

    def e_Lambda(self, e):
        return FuncV(e, self.frame['__mod__'], None, self.frame)

    def e_IfExp(self, e):
        return self.ev(e.body) if self.truth(self.ev(e.test)) else self.ev(e.orelse)

    def e_BoolOp(self, e):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, CondV) else FALSE
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, CondV) else TRUE
        return v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return self.neg(v) if isinstance(v, (Const, CondV)) else Const(not self.truth(v))
        if isinstance(e.op, ast.USub):
            return self.uminus(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return Opq('unary', type(e.op).__name__, self.vkey(v))

    def uminus(self, v):
        if isinstance(v, Num):
            return Num(self.rnd(-v.s, v.k) if v.k == 'mpf' else -v.s, v.k)
        if isinstance(v, Const) and isinstance(v.v, bool):
            return Num(-int(v.v), 'int')
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, Arr):
                return self.alloc(Arr(o.kind, o.nd, self.rnd_mat(mneg(self.arr_mat(v)), o.kind) if o.kind == 'mp' else mneg(self.arr_mat(v))))
            if isinstance(o, InstO):
                m = self.prog.lookup_method(o.cls, '__neg__')
                if m:
                    return self.call(BoundV(v, FuncV(m[1], m[2].mod, m[2])), [], {})
                self.raise_('TypeError', Const('bad operand for unary -'))
        if isinstance(v, Opq) and not v.is_top():
            return Num(-self.num(v))
        return self.top('unary minus')

    def rnd(self, s, kind):
        """mark a scalar produced by a rounding operation (at the ambient precision, or at one set by the code)"""
        if self.rounding and kind in ('mpf', 'float') and not s.is_const():
            return Sc.atom(('fn', self.rmark(kind), s))
        return s

    def rmark(self, kind):
        w = self.where()
        if w and w not in self.round_sites:
            self.round_sites.append(w)
        p = self.st.glob.get('mp.prec')
        own = p is not None and not (isinstance(p, Num) and p.s == Sc.sym('prec0'))
        return 'rndp' if kind in ('mpf', 'mp') and own else 'rnd'

    def rnd_mat(self, m, kind):
        if self.rounding and kind in ('mp', 'matrix', 'array') and not m.is_zero():
            return mfn('ew:' + self.rmark(kind), m.rows, m.cols, m)
        return m

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.curnode = e
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        return self.lib.binop(self, op, a, b)

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r)
            res = self.compare(op, left, right)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return FALSE
            left = right
        return res

    def compare(self, op, a, b):
        n = type(op).__name__
        if n == 'Eq':
            return self.eq(a, b)
        if n == 'NotEq':
            if isinstance(a, Ref) and isinstance(self.obj(a), InstO):
                m = self.prog.lookup_method(self.obj(a).cls, '__ne__')
                if m:
                    return self.call(BoundV(a, FuncV(m[1], m[2].mod, m[2])), [b], {})
            r = self.lib.elementwise_cmp(self, '!=', a, b)
            if r is not None:
                return r
            return self.neg(self.eq(a, b))
        if n == 'Lt':
            return self.lt(a, b)
        if n == 'Gt':
            return self.lt(b, a)
        if n == 'LtE':
            r = self.lib.elementwise_cmp(self, '<=', a, b) or self.ordering(a, b, '__le__', '__ge__')
            return r if r is not None else self.neg(self.lt(b, a))
        if n == 'GtE':
            r = self.lib.elementwise_cmp(self, '<=', b, a) or self.ordering(b, a, '__le__', '__ge__')
            return r if r is not None else self.neg(self.lt(a, b))
        if n == 'Is':
            return self.is_(a, b)
        if n == 'IsNot':
            return self.neg(self.is_(a, b))
        if n in ('In', 'NotIn'):
            r = self.contains(b, a)
            return self.neg(r) if n == 'NotIn' else r
        return self.top('compare')

    def contains(self, c, x):
        if isinstance(c, Const) and isinstance(c.v, str) and isinstance(x, Const) and isinstance(x.v, str):
            return Const(x.v in c.v)
        if isinstance(c, Ref) and isinstance(self.obj(c), DictO):
            o = self.obj(c)
            if self.hkey(x) in o.items:
                return TRUE
            if o.open is None and isinstance(x, (Const, Num)):
                return FALSE
            return CondV(('in', self.vkey(x), Opq('dict', str(o.open))))
        els = self.elements(c)
        if isinstance(c, Opq) and c.k[0] == 'set':
            els = list(c.k[1:])
        if els is not None:
            for y in els:
                if self.truth(self.eq(x, y)):
                    return TRUE
            return FALSE
        return CondV(('in', self.vkey(x), self.vkey(c)))

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return Tup([Const('__slice__'), self.ev(s.lower) if s.lower else NONE,
                        self.ev(s.upper) if s.upper else NONE, self.ev(s.step) if s.step else NONE])
        if isinstance(s, ast.Tuple):
            return Tup([self.ev_index(x) for x in s.elts])
        return self.ev(s)

    def e_Slice(self, e):
        return self.ev_index(e)

    def e_Subscript(self, e):
        b = self.ev(e.value)
        i = self.ev_index(e.slice)
        self.curnode = e
        return self.getitem(b, i)

    def getitem(self, b, i):
        if isinstance(b, Ref):
            o = self.obj(b)
            if isinstance(o, Arr):
                return self.arr_get(b, i)
            if isinstance(o, ListO):
                return self.list_get(b, o, i)
            if isinstance(o, DictO):
                k = self.hkey(i)
                if k in o.items:
                    return o.items[k]
                if o.open is None and isinstance(i, (Const,)):
                    self.raise_('KeyError', i, flag='key')
                return Opq('getitem', str(o.open), k)
            if isinstance(o, InstO):
                m = self.prog.lookup_method(o.cls, '__getitem__')
                if m:
                    return self.call(BoundV(b, FuncV(m[1], m[2].mod, m[2])), [i], {})
                self.raise_('TypeError', Const('not subscriptable'))
        if isinstance(b, Tup):
            return self.tup_get(b, i)
        if isinstance(b, Const) and isinstance(b.v, str):
            if isinstance(i, Num) and i.s.cval() is not None:
                try:
                    return Const(b.v[int(i.s.cval())])
                except IndexError:
                    self.raise_('IndexError')
            sl = self.const_slice(i)
            if sl is not None:
                return Const(b.v[sl])
            return Opq('getitem', b, self.vkey(i))
        if isinstance(b, SeqV):
            s = self.num(i)
            if s is not None:
                c = s.cval()
                return self.thaw(b.at(b.n + s if c is not None and c < 0 else s))
        if isinstance(b, Const) and b.v is None:
            self.raise_('TypeError', Const('None is not subscriptable'), flag='none')
        if isinstance(b, Num):
            self.raise_('TypeError', Const('number is not subscriptable'))
        if isinstance(b, ExtV) and b.name in ('numpy.c_', 'numpy.r_'):
            return self.lib.concat_rc(self, b.name, i)
        if isinstance(b, Opq) and b.is_top():
            return self.top('getitem')
        return Opq('getitem', self.vkey(b), self.vkey(i))

    def const_slice(self, i):
        if isinstance(i, Tup) and len(i.items) == 4 and isinstance(i.items[0], Const) and i.items[0].v == '__slice__':
            out = []
            for x in i.items[1:]:
                if isinstance(x, Const) and x.v is None:
                    out.append(None)
                elif isinstance(x, Num) and self.N(x.s).cval() is not None:
                    out.append(int(self.N(x.s).cval()))
                else:
                    return None
            return slice(*out)
        return None

    def tup_get(self, b, i):
        if isinstance(i, Num) and self.N(i.s).cval() is not None:
            try:
                return b.items[int(self.N(i.s).cval())]
            except IndexError:
                self.raise_('IndexError', Const('tuple index'), flag='range')
        sl = self.const_slice(i)
        if sl is not None:
            return Tup(b.items[sl])
        return Opq('getitem', self.vkey(b), self.vkey(i))

    def list_get(self, b, o, i):
        if o.concrete():
            if isinstance(i, Num) and self.N(i.s).cval() is not None:
                it = o.items()
                try:
                    return it[int(self.N(i.s).cval())]
                except IndexError:
                    self.raise_('IndexError', Const('list index'), flag='range')
            sl = self.const_slice(i)
            if sl is not None:
                return self.alloc(ListO([('item', x) for x in o.items()[sl]]))
        s = self.num(i) if isinstance(i, (Num, Opq)) else None
        if s is not None:
            s = self.N(s)
            if len(o.segs) == 1 and o.segs[0][0] == 'seg':
                _, idx, N, t = o.segs[0]
                if s.cval() is not None and s.cval() < 0:
                    s = N + s
                return self.thaw(subst(t, {idx: s}))
            pos = ZERO
            if s.cval() is None or s.cval() >= 0:
                for sg in o.segs:
                    if sg[0] == 'item':
                        if s == pos:
                            return sg[1]
                        pos = pos + 1
                    elif sg[0] == 'seg':
                        if self.B.nonneg(s - pos) and self.B.nonneg(pos + sg[2] - 1 - s):
                            return self.thaw(subst(sg[3], {sg[1]: s - pos}))
                        if not self.B.nonneg(s - pos - sg[2]):
                            break
                        pos = pos + sg[2]
                    else:
                        break
            else:
                k = int(-s.cval())
                tail = o.segs[-k:]
                if len(tail) == k and all(t[0] == 'item' for t in tail):
                    return tail[0][1]
                if k == 1 and o.segs and o.segs[-1][0] == 'seg':
                    _, idx, N, t = o.segs[-1]
                    return self.thaw(subst(t, {idx: N - 1}))
        return Opq('getitem', self.vkey(b), self.vkey(i))

    def setitem(self, b, i, v):
        if isinstance(b, Ref):
            o = self.obj(b)
            if isinstance(o, Arr):
                return self.arr_set(b, i, v)
            if isinstance(o, DictO):
                d = dict(o.items)
                d[self.hkey(i)] = v
                self.mutate(b, DictO(d, o.owner, o.open), 'item write')
                return
            if isinstance(o, ListO):
                if o.concrete() and isinstance(i, Num) and self.N(i.s).cval() is not None:
                    it = o.items()
                    try:
                        it[int(self.N(i.s).cval())] = v
                    except IndexError:
                        self.raise_('IndexError', flag='range')
                    self.mutate(b, ListO([('item', x) for x in it], o.owner), 'item write')
                elif isinstance(i, Num) and self.N(i.s).cval() is not None and self.N(i.s).cval() < 0 and \
                        len(o.segs) >= -self.N(i.s).cval() and all(x[0] == 'item' for x in o.segs[int(self.N(i.s).cval()):]):
                    sg = list(o.segs)
                    sg[int(self.N(i.s).cval())] = ('item', v)
                    self.mutate(b, ListO(sg, o.owner), 'item write')
                else:
                    self.mutate(b, ListO([('any', str(self.fresh_top('list write')))], o.owner), 'item write')
                return
            if isinstance(o, InstO):
                m = self.prog.lookup_method(o.cls, '__setitem__')
                if m:
                    self.call(BoundV(b, FuncV(m[1], m[2].mod, m[2])), [i, v], {})
                    return
                self.raise_('TypeError', Const('no item assignment'))
        if isinstance(b, (Tup, Const, Num)):
            self.raise_('TypeError', Const('no item assignment'))
        self.st.effects.append(('write', None, self.vkey(b), 'item of opaque', self.where()))

    # comprehensions
    def e_ListComp(self, e):
        segs = self.comp(e.generators, e.elt)
        return self.alloc(ListO(segs))

    def e_GeneratorExp(self, e):
        return self.e_ListComp(e)

    def e_SetComp(self, e):
        segs = self.comp(e.generators, e.elt)
        if all(s[0] == 'item' for s in segs):
            return Opq('set', *[self.vkey(s[1]) for s in segs])
        return Opq('set', *[(s[0],) + tuple(self.vkey(x) if isinstance(x, V) else x for x in s[1:]) for s in segs])

    def e_DictComp(self, e):
        segs = self.comp(e.generators, ast.Tuple([e.key, e.value], ast.Load()))
        if all(s[0] == 'item' for s in segs):
            return self.alloc(DictO({self.hkey(s[1].items[0]): s[1].items[1] for s in segs}))
        return self.alloc(DictO({}, None, str(self.fresh_top('dict comprehension'))))

    def comp(self, gens, elt):
        """segments of a comprehension"""
        self.st.frames.append({'__mod__': self.frame['__mod__'], '__closure__': self.frame})
        try:
            return self.comp_rec(gens, 0, elt)
        finally:
            self.st.frames.pop()

    def comp_rec(self, gens, gi, elt):
        if gi == len(gens):
            return [('item', self.ev(elt))]
        g = gens[gi]
        it = self.iterable(self.ev(g.iter))
        els = self.elements(it)
        if els is not None:
            out = []
            for x in els:
                self.assign(g.target, x)
                if all(self.truth(self.ev(c)) for c in g.ifs):
                    out += self.comp_rec(gens, gi + 1, elt)
            return out
        sq = self.as_seq(it)
        if sq is None:
            if isinstance(it, Ref) and isinstance(self.obj(it), ListO) and all(s[0] in ('item', 'seg') for s in self.obj(it).segs):
                out = []
                for sg in self.obj(it).segs:
                    if sg[0] == 'item':
                        self.assign(g.target, sg[1])
                        if all(self.truth(self.ev(c)) for c in g.ifs):
                            out += self.comp_rec(gens, gi + 1, elt)
                    else:
                        _, idx, N_, t = sg
                        out += self.comp_seq(gens, gi, elt, self.N(N_), lambda k: self.thaw(subst(t, {idx: k})))
                return out
            v = self.top('comprehension')
            self.assign(g.target, Opq('elem', self.vkey(it)) if not (isinstance(it, Opq) and it.is_top()) else v)
            # still evaluate the element for its effects
            try:
                outs = self.run_paths(lambda: [self.ev(c) for c in g.ifs] and None or self.comp_rec(gens, gi + 1, elt), 40)
                raises = [o for o in outs if o.kind == 'raise']
                for o in raises:
                    if self.decide(('exit', getattr(g.iter, 'lineno', 0), o.value.name, o.value.where)):
                        raise PyRaise(o.value)
                vals = [o.value for o in outs if o.kind == 'ok']
                if len(vals) == 1 and len(vals[0]) == 1 and vals[0][0][0] == 'item':
                    return [('any', ('map', self.vkey(it), self.vkey_in(vals[0][0][1], outs)))]
            except PathLimit:
                pass
            return [('any', str(self.ntop))]
        N, f = sq
        return self.comp_seq(gens, gi, elt, N, f)

    def vkey_in(self, v, outs):
        st = self.st
        for o in outs:
            if o.kind == 'ok':
                self.st = o.st
                try:
                    return self.vkey(v)
                finally:
                    self.st = st
        return v

    def comp_seq(self, gens, gi, elt, N, f):
        g = gens[gi]
        k = fresh('c')
        low = dict(self.st.B.low)
        ext = list(self.st.B.extra)

        def body():
            self.st.B.low[k] = 0
            self.st.B.extra.append(N - 1 - Sc.atom(k))
            self.assign(g.target, f(Sc.atom(k)))
            for c in g.ifs:
                if not self.truth(self.ev(c)):
                    return None
            segs = self.comp_rec(gens, gi + 1, elt)
            return [(s[0], self.freeze(s[1])) if s[0] == 'item' else s for s in segs]
        outs = self.run_paths(body, 60)
        exits = [o for o in outs if o.kind == 'raise']
        for o in exits:
            if self.decide(exists_lit(k, N, o.lits)):
                self.st.B.low, self.st.B.extra = low, ext
                raise PyRaise(o.value)
        oks = [o for o in outs if o.kind == 'ok']
        vals = [o.value for o in oks]
        # anything the body wrote is forgotten
        for o in oks:
            for a, ob in o.st.heap.items():
                if a in self.st.heap and not self.st.heap[a] == ob:
                    self.havoc_addr(a)
            for x in o.st.effects[len(self.st.effects):]:
                self.st.effects.append(x)
        if vals and all(v == vals[0] for v in vals) and vals[0] is not None and len(vals[0]) == 1 and vals[0][0][0] == 'item':
            return [('seg', k, N, vals[0][0][1])]
        if vals and all(v == vals[0] for v in vals) and vals[0] is not None:
            r = flat_seg(k, N, vals[0])
            if r is not None:
                return [r]
        # conditional element with a value on every path
        if vals and all(v is not None and len(v) == 1 and v[0][0] == 'item' for v in vals):
            j = join_values([(o.lits, v[0][1]) for o, v in zip(oks, vals)])
            if j is not None:
                return [('seg', k, N, j)]
        key = []
        for o, v in zip(oks, vals):
            key.append((tuple(o.lits), tuple(v) if v is not None else None))
        m = {k: QI(*key)}
        return [('any', ('filter', N, tuple(sorted((subst_in_key(x, m) for x in key), key=rkey))))]

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        g = self.frame.get('__gen__')
        if g is not None:
            self.list_append(g, v)
            return NONE
        self.st.yields.append(self.vkey(v))
        self.st.effects.append(('yield', None, None, dict(self.st.glob), self.where()))
        return self.top('yield')

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        g = self.frame.get('__gen__')
        if g is not None:
            self.list_extend(g, v)
            return NONE
        self.st.yields.append(('from', self.vkey(v)))
        self.st.effects.append(('yield', None, None, dict(self.st.glob), self.where()))
        return self.top('yield')

    def e_Await(self, e):
        return self.top('await')

    # ---------------------------------------------------------------- attributes
    def e_Attribute(self, e):
        b = self.ev(e.value)
        self.curnode = e
        return self.getattr(b, e.attr)

    def getattr(self, b, name):
        if isinstance(b, Ref):
            o = self.obj(b)
            if isinstance(o, InstO):
                m = self.prog.lookup_method(o.cls, name)
                if m and m[0] == 'prop':
                    return self.call(BoundV(b, FuncV(m[1], m[2].mod, m[2])), [], {})
                if name in o.attrs:
                    return o.attrs[name]
                if m:
                    if m[0] == 'meth':
                        k = m[2].kinds.get(name, 'inst')
                        f = FuncV(m[1], m[2].mod, m[2], None, name)
                        if k == 'static':
                            return f
                        if k == 'class':
                            return BoundV(ClassV(o.cls), f)
                        return BoundV(b, f)
                    return self.class_attr(m[2], name, m[1])
                if name == '__class__':
                    return ClassV(o.cls)
                if name == '__dict__':
                    return Opq('dict', self.vkey(b))
                g = self.prog.lookup_method(o.cls, '__getattr__')
                if g:
                    return self.call(BoundV(b, FuncV(g[1], g[2].mod, g[2])), [Const(name)], {})
                eb = [x for x in self.prog.ext_bases(o.cls) if x not in ('builtins.object',)]
                if eb or o.ext:
                    return Opq('attr', self.vkey(b), name)
                if '__open__' in o.attrs:
                    return Opq('attr', self.vkey(b), name)
                self.raise_('AttributeError', Const('%s.%s' % (o.cls.name, name)), flag='attr')
            return self.lib.obj_attr(self, b, o, name)
        if isinstance(b, ClassV):
            m = self.prog.lookup_method(b.c, name)
            if m:
                if m[0] == 'meth':
                    f = FuncV(m[1], m[2].mod, m[2], None, name)
                    return BoundV(b, f) if m[2].kinds.get(name) == 'class' else f
                if m[0] == 'attr':
                    return self.class_attr(m[2], name, m[1])
                return Opq('property', b.c.name, name)
            if name == '__name__':
                return Const(b.c.name)
            if self.prog.ext_bases(b.c):
                return Opq('attr', b, name)
            self.raise_('AttributeError', Const('%s.%s' % (b.c.name, name)), flag='attr')
        if isinstance(b, SuperV):
            o = self.obj(b.inst)
            mro = self.prog.mro(o.cls)
            i = mro.index(b.cls) if b.cls in mro else -1
            for c in mro[i + 1:]:
                if name in c.methods:
                    return BoundV(b.inst, FuncV(c.methods[name], c.mod, c, None, name))
                if name in c.props:
                    return self.call(BoundV(b.inst, FuncV(c.props[name], c.mod, c)), [], {})
            return ExtV('builtins.object.' + name)
        if isinstance(b, ModV):
            m = self.prog.modules[b.name]
            r = self.prog.resolve(m, name)
            if r is None and b.name + '.' + name in self.prog.modules:
                return ModV(b.name + '.' + name)
            if r is None:
                self.raise_('AttributeError', Const('%s.%s' % (b.name, name)), flag='attr')
            return self.resolved(r)
        if isinstance(b, ExtV):
            return self.lib.ext_value(self, b.name + '.' + name)
        if isinstance(b, ExcV):
            if name == 'args':
                return Tup(b.args)
            if name in b.attrs:
                return b.attrs[name]
            k = self.lib.exc_class(b.name)
            if k is not None and not hasattr(k, name):
                self.raise_('AttributeError', Const('%s has no attribute %s' % (b.name, name)), flag='attr')
            return Opq('excattr', b.name, name)
        if isinstance(b, Const) and b.v is None:
            self.raise_('AttributeError', Const('None.' + name), flag='none')
        if isinstance(b, FuncV):
            if name in ('__name__', '__doc__'):
                return Const(b.name)
            return Opq('attr', b, name)
        return self.lib.obj_attr(self, b, None, name)

    def class_attr(self, cls, name, expr):
        k = ('class', cls.mod.name, cls.name, name)
        if k in self.st.glob:
            return self.st.glob[k]
        if isinstance(expr, (ast.Dict, ast.List)):
            if all_const(expr):
                self.st.frames.append({'__mod__': cls.mod})
                v = self.ev(expr)
                self.st.frames.pop()
                self.obj(v).owner = 'classattr:%s.%s' % (cls.name, name)
                self.st.glob[k] = v
                return v
            return Opq('classattr', cls.name, name)
        return self.module_value(expr, cls.mod)

    def setattr(self, b, name, v):
        if isinstance(b, Ref):
            o = self.obj(b)
            if isinstance(o, InstO):
                st = self.prog.lookup_setter(o.cls, name)
                if st is not None:
                    self.call(BoundV(b, FuncV(st[0], st[1].mod, st[1])), [v], {})
                    return
                m = self.prog.lookup_method(o.cls, name)
                if m and m[0] == 'prop':
                    self.raise_('AttributeError', Const("can't set " + name), flag='attr')
                at = dict(o.attrs)
                at[name] = v
                self.st.effects.append(('attr', b.a, o.owner, name, self.where()))
                self.st.heap[b.a] = InstO(o.cls, at, o.owner, o.ext)
                return
            self.lib.obj_setattr(self, b, o, name, v)
            return
        if isinstance(b, ExtV):
            self.lib.ext_setattr(self, b.name, name, v)
            return
        if isinstance(b, ClassV):
            self.st.glob[('class', b.c.mod.name, b.c.name, name)] = v
            self.st.effects.append(('global', b.c.name + '.' + name, None, '', self.where()))
            return
        if isinstance(b, ModV):
            self.st.glob[(self.prog.modules[b.name], name)] = v
            self.st.effects.append(('global', b.name + '.' + name, None, '', self.where()))
            return
        if isinstance(b, (ExcV,)):
            b.attrs[name] = v
            return
        if isinstance(b, Const) and b.v is None:
            self.raise_('AttributeError', Const('None.' + name), flag='none')
        self.st.effects.append(('write', None, self.vkey(b), 'attribute of opaque', self.where()))

    # ---------------------------------------------------------------- calls
    def e_Call(self, e):
        f = self.ev(e.func)
        args = []
        star = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                els = self.elements(v)
                if els is None:
                    star = True
                    args.append(Opq('star', self.vkey(v)))
                else:
                    args += els
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(self.obj(v), DictO):
                    o = self.obj(v)
                    for kk, vv in o.items.items():
                        if isinstance(kk, Const):
                            kw[kk.v] = vv
                    if o.open is not None:
                        kw['**'] = Opq('openkw', o.open)
                else:
                    kw['**'] = self.vkey(v) if isinstance(v, V) else v
            else:
                kw[k.arg] = v
        self.curnode = e
        if star:
            kw['*'] = TRUE
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        self.ncalls += 1
        if isinstance(f, BoundV):
            key = (f.f.cls.name if f.f.cls else None, f.f.name)
            if key in self.hooks:
                r = self.hooks[key](self, [f.self_] + args, kw)
                if r is not None:
                    return r
            return self.call_func(f.f, [f.self_] + args, kw)
        if isinstance(f, FuncV):
            key = (f.cls.name if f.cls else f.mod.name, f.name)
            if key in self.hooks:
                r = self.hooks[key](self, args, kw)
                if r is not None:
                    return r
            return self.call_func(f, args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f.c, args, kw)
        if isinstance(f, PartialV):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.f, list(f.args) + args, k2)
        if isinstance(f, ExtV):
            return self.lib.call_ext(self, f.name, args, kw)
        if isinstance(f, MethV):
            return self.lib.call_method(self, f.recv, f.name, args, kw)
        if isinstance(f, Ref) and isinstance(self.obj(f), InstO):
            m = self.prog.lookup_method(self.obj(f).cls, '__call__')
            if m:
                return self.call(BoundV(f, FuncV(m[1], m[2].mod, m[2])), args, kw)
        if isinstance(f, (Const, Num, Tup)) or (isinstance(f, Ref) and isinstance(self.obj(f), (Arr, ListO, DictO))):
            self.raise_('TypeError', Const('not callable'), flag='call')
        if isinstance(f, Opq) and f.is_top():
            return self.top('call of unknown')
        return Opq('call', self.vkey(f), *([self.vkey(a) for a in args] + [(k, self.vkey(v)) for k, v in sorted(kw.items())]))

    def instantiate(self, c, args, kw):
        for b in self.prog.ext_bases(c):
            nm = b.split('.')[-1]
            if isinstance(getattr(builtins, nm, None), type) and issubclass(getattr(builtins, nm), BaseException):
                return ExcV(c.name, args)
        key = ('class', c.name)
        if key in self.hooks:
            r = self.hooks[key](self, args, kw)
            if r is not None:
                return r
        ref = self.alloc(InstO(c, {}))
        m = self.prog.lookup_method(c, '__init__')
        if m and m[0] == 'meth':
            self.call_func(FuncV(m[1], m[2].mod, m[2], None, '__init__'), [ref] + args, kw)
        elif args or kw:
            if not self.prog.ext_bases(c):
                self.raise_('TypeError', Const('%s() takes no arguments' % c.name), flag='arity')
        return ref

    def is_generator(self, node):
        if isinstance(node, ast.Lambda):
            return False
        g = getattr(node, '_isgen', None)
        if g is None:
            g = False
            todo = list(node.body)
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    g = True
                    break
                todo.extend(ast.iter_child_nodes(x))
            node._isgen = g
        return g

    def call_func(self, f, args, kw, run_gen=False):
        node = f.node
        if self.depth > self.MAXDEPTH or sum(1 for s in self.stack if s[2:] == (id(node),)) > self.recursion:
            return self.top('recursion')
        fr = {'__mod__': f.mod}
        if f.env is not None:
            fr['__closure__'] = f.env
        if f.cls is not None:
            fr['__cls__'] = f.cls
        self.bind(f, node.args, args, kw, fr)
        gen = None
        if self.is_generator(node) and not run_gen and self.eager:
            # a generator that is read to its end: the list of what it yields
            gen = fr['__gen__'] = self.alloc(ListO([]))
        elif self.is_generator(node) and not run_gen:
            return Opq('gen', f.mod.name, f.name, *[self.vkey(a) for a in args])
        if isinstance(node, ast.Lambda):
            fr['__locals__'] = ()
            self.st.frames.append(fr)
            self.stack.append((f.name, f.mod.path, id(node)))
            self.depth += 1
            v = self.ev(node.body)
            self.depth -= 1
            self.stack.pop()
            self.st.frames.pop()
            return v
        fr['__locals__'] = local_names(node)
        self.visited.add((f.mod.name, (f.cls.name + '.' if f.cls else '') + f.name))
        cn = self.curnode
        d = (len(self.stack), self.depth, len(self.st.frames))
        self.st.frames.append(fr)
        self.stack.append((f.name, f.mod.path, id(node)))
        self.depth += 1
        tr = self.tryexc
        try:
            self.exec_block(node.body)
            v = NONE
        except ReturnSig as r:
            v = r.v
        if gen is not None:
            v = gen
        self.tryexc = tr
        del self.stack[d[0]:]
        self.depth = d[1]
        del self.st.frames[d[2]:]
        self.curnode = cn
        return v

    def bind(self, f, a, args, kw, fr):
        kw = dict(kw)
        starred = kw.pop('*', None)
        openkw = kw.pop('**', None)
        pos = [x.arg for x in a.posonlyargs + a.args]
        defaults = a.defaults
        nd = len(defaults)
        vals = list(args)
        for i, name in enumerate(pos):
            if vals:
                if name in kw and not openkw:
                    self.raise_('TypeError', Const('%s() got multiple values for %s' % (f.name, name)), flag='arity')
                fr[name] = vals.pop(0)
            elif name in kw:
                fr[name] = kw.pop(name)
            elif i >= len(pos) - nd:
                if openkw is not None:
                    fr[name] = Opq('kwarg', name, openkw)
                else:
                    fr[name] = self.default(f, defaults[i - (len(pos) - nd)])
            elif starred or openkw is not None:
                fr[name] = Opq('kwarg', name, openkw if openkw is not None else TRUE)
            else:
                self.raise_('TypeError', Const('%s() missing argument %s' % (f.name, name)), flag='arity')
        if a.vararg:
            fr[a.vararg.arg] = Tup(vals)
        elif vals and not starred:
            self.raise_('TypeError', Const('%s() takes %d positional arguments' % (f.name, len(pos))), flag='arity')
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                fr[x.arg] = kw.pop(x.arg)
            elif d is not None:
                fr[x.arg] = self.default(f, d)
            else:
                self.raise_('TypeError', Const('%s() missing keyword argument %s' % (f.name, x.arg)), flag='arity')
        if a.kwarg:
            fr[a.kwarg.arg] = self.alloc(DictO({Const(k): v for k, v in kw.items()}, None,
                                               str(openkw) if openkw is not None else None))
        elif kw:
            self.raise_('TypeError', Const('%s() got an unexpected keyword argument %s' % (f.name, sorted(kw)[0])), flag='arity')

    def default(self, f, d):
        self.st.frames.append({'__mod__': f.mod, '__closure__': f.env} if f.env is not None else {'__mod__': f.mod})
        try:
            v = self.ev(d)
        finally:
            self.st.frames.pop()
        if isinstance(v, Ref):
            self.obj(v).owner = 'default:%s' % f.name
        return v

    # ---------------------------------------------------------------- list helpers
    def list_append(self, ref, v):
        o = self.obj(ref)
        self.mutate(ref, ListO(o.segs + (('item', v),), o.owner), 'append')

    def list_extend(self, ref, v):
        o = self.obj(ref)
        els = self.elements(v)
        if els is not None:
            add = tuple(('item', x) for x in els)
        elif isinstance(v, Ref) and isinstance(self.obj(v), ListO):
            add = self.obj(v).segs
        else:
            sq = self.as_seq(v)
            if sq:
                k = fresh('x')
                add = (('seg', k, sq[0], self.freeze(sq[1](Sc.atom(k)))),)
            else:
                add = (('any', self.vkey(v)),)
        self.mutate(ref, ListO(o.segs + add, o.owner), 'extend')


# ------------------------------------------------------------------------------------------
def lit(c):
    if c[0] == 'eq0':
        d = c[1]
        if d.is_const():
            return Const(not d.t)
    if c[0] == 'lt0':
        k = c[1].cval()
        if k is not None:
            return Const(k < 0)
    return CondV(c)


def norm_sign(d):
    n = -d
    return d if rkey(d) <= rkey(n) else n


def flat_seg(k, N, segs):
    """N repetitions of a run of n2 elements, as one run of N*n2 elements"""
    if len(segs) != 1 or segs[0][0] != 'seg' or mentions(segs[0][2], k):
        return None
    _, i2, n2, t = segs[0]
    k2 = fresh('k')
    a = Sc.atom(k2)
    return ('seg', k2, N * n2, subst(t, {k: Sc.atom(('fn', 'floordiv', a, n2)), i2: Sc.atom(('fn', 'mod', a, n2))}))


def differ(a, b):
    """literal pieces that keep two strings from being equal"""
    p = a.parts
    if isinstance(b, StrV):
        q = b.parts
        for x, y, f in ((p[0], q[0], str.startswith), (p[-1], q[-1], str.endswith)):
            if isinstance(x, str) and isinstance(y, str) and not f(x, y) and not f(y, x):
                return True
        return False
    if not (isinstance(b, Const) and isinstance(b.v, str)):
        return False
    rest = b.v
    for i, x in enumerate(p):
        if not isinstance(x, str):
            if isinstance(x, Opq) and x.k[0] in ('fmt', 'hex') and not rest:
                return True
            continue
        if i == 0:
            if not rest.startswith(x):
                return True
            rest = rest[len(x):]
        elif i == len(p) - 1:
            if not rest.endswith(x):
                return True
        else:
            k = rest.find(x)
            if k < 0:
                return True
            rest = rest[k + len(x):]
    return False


def exists_lit(k, N, lits):
    m = {k: QI(*[c for c, _ in lits])}
    return ('exists', N, tuple((subst_in_key(c, m), v) for c, v in lits))


def subst_in_key(x, m):
    if isinstance(x, (Sc, Mat)) or hasattr(x, 'asubst'):
        return subst(x, m)
    if isinstance(x, tuple):
        return tuple(subst_in_key(y, m) for y in x)
    return x


def join_values(cases):
    """cases: [(lits, value)] -> one gated value, or None"""
    if all(v == cases[0][1] for _, v in cases):
        return cases[0][1]
    if all(isinstance(v, Num) for _, v in cases):
        s = join_sc([(l, v.s) for l, v in cases])
        return None if s is None else Num(s, cases[0][1].k)
    if all(isinstance(v, Tup) for _, v in cases) and len({len(v.items) for _, v in cases}) == 1:
        out = []
        for i in range(len(cases[0][1].items)):
            j = join_values([(l, v.items[i]) for l, v in cases])
            if j is None:
                return None
            out.append(j)
        return Tup(out)
    if all(isinstance(v, (StrV, Const)) for _, v in cases):
        return StrV([Opq('choice', *sorted([(tuple(l), v) for l, v in cases], key=rkey))])
    return None


def join_sc(cases):
    """gated scalar from [(lits, Sc)]"""
    if all(v == cases[0][1] for _, v in cases):
        return cases[0][1]
    if len(cases) == 1:
        return cases[0][1]
    # split on the first literal
    firsts = {l[0][0] for l, _ in cases if l}
    if len(firsts) != 1 or any(not l for l, _ in cases):
        return None
    c = firsts.pop()
    t = join_sc([(l[1:], v) for l, v in cases if l[0][1]]) if any(l[0][1] for l, _ in cases) else None
    f = join_sc([(l[1:], v) for l, v in cases if not l[0][1]]) if any(not l[0][1] for l, _ in cases) else None
    if t is None or f is None:
        return t if f is None else f
    if t == f:
        return t
    return Sc.atom(('ite', c, t, f))


def all_const(e):
    return all(isinstance(x, (ast.Dict, ast.List, ast.Tuple, ast.Constant, ast.Load, ast.UnaryOp, ast.USub, ast.Set))
               for x in ast.walk(e))


def assigned_names(body):
    out = set()
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
            continue
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for y in ast.walk(x):
                if isinstance(y, ast.NamedExpr):
                    out.add(y.target.id)
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        todo.extend(ast.iter_child_nodes(x))
    return out


def local_names(node):
    n = getattr(node, '_locals', None)
    if n is None:
        n = assigned_names(node.body)
        gl = set()
        for x in ast.walk(node):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                gl.update(x.names)
        n = frozenset(n - gl)
        node._locals = n
    return n


def resolve_writes(m, writes, B):
    """apply symbolic-index writes to a base matrix"""
    for n, w in enumerate(writes):
        r = apply_write(m, w, B)
        if r is None:
            return matom(('fn', m.rows, m.cols, 'arr', m, canon_writes(writes[n:])))
        m = r
    return m


def canon_writes(ws):
    out = []
    for w in ws:
        m = {b: Sc.atom(('wb', i)) for i, (b, _) in enumerate(w.bounds)}
        out.append(('w', tuple(subst(n, m) for _, n in w.bounds), subst_in_key(w.r, m), subst_in_key(w.c, m),
                    subst(w.val, m)))
    return tuple(out)


def diagonal_write(m, w, B):
    """the entries (b + r0, b + c0) for b from 0: a square block plus a diagonal"""
    if len(w.bounds) != 1 or w.r[0] != 'at' or w.c[0] != 'at' or not isinstance(w.val, Sc):
        return None
    (b, n), = w.bounds
    r0, c0 = w.r[1] - Sc.atom(b), w.c[1] - Sc.atom(b)
    if any(mentions(x, b) for x in (r0, c0, n)):
        return None
    I, J = Sc.atom(('bi',)), Sc.atom(('bj',))
    try:
        S = submat(m, r0, r0 + n, c0, c0 + n, B)
        B2 = B.copy()
        for v in (('bi',), ('bj',)):
            B2.low[v] = 0
            B2.extra.append(n - 1 - Sc.atom(v))
        d = subst(w.val, {b: I}) - entry(S, I, I, B2)
        if mentions(d, ('bi',)) and not mentions(subst(w.val, {b: I}), ('bi',)) or mentions(d, ('bj',)):
            return None
        D = mscale(meye(n), d) if not mentions(d, ('bi',)) else matom(('lam', n, n, Sc.atom(('delta', I - J if rkey(I - J) < rkey(J - I) else J - I)) * d))
        return setsub(m, r0, r0 + n, c0, c0 + n, madd(S, D, B), B)
    except (Incomparable, ShapeError):
        return None


def apply_write(m, w, B):
    bounds = dict(w.bounds)
    used = set()
    B = B.copy()
    for b, n in w.bounds:
        B.low[b] = 0
        B.extra.append(n - 1 - Sc.atom(b))
    sub = {}

    def spec(s, ax):
        """(lo, hi) of the written strip; records how the bound index maps to the strip position"""
        if s[0] == 'rng':
            if any(mentions(x, b) for x in s[1:] for b in bounds):
                return None
            return s[1], s[2]
        x = s[1]
        bs = [b for b in bounds if mentions(x, b)]
        if not bs:
            return x, x + 1
        if len(bs) != 1 or bs[0] in used:
            return None
        b = bs[0]
        k = x.t.get(((b, 1),))
        if k not in (1, -1):
            return None
        off = x - Sc.atom(b) * k
        if mentions(off, b):
            return None
        n = bounds[b]
        if any(mentions(n, o) for o in bounds):
            return None
        used.add(b)
        pos = Sc.atom(ax)
        if k == 1:
            sub[b] = pos
            return off, off + n
        sub[b] = n - 1 - pos
        return off - n + 1, off + 1
    rr = spec(w.r, ('bi',))
    if rr is None:
        return None
    cc = spec(w.c, ('bj',))
    if cc is None:
        return diagonal_write(m, w, B)
    if any(b not in used for b in bounds):
        # a bound that does not move the position: only harmless when the value ignores it
        if any(mentions(w.val, b) for b in bounds if b not in used):
            return None
    R, C = rr[1] - rr[0], cc[1] - cc[0]
    try:
        if isinstance(w.val, Sc):
            V_ = lift_lam(R, C, subst(w.val, sub), B)
        elif not used:
            V_ = w.val
        else:
            I = Sc.atom(('bi',)) if w.r[0] == 'rng' else ZERO
            J = Sc.atom(('bj',)) if w.c[0] == 'rng' else ZERO
            e = entry(w.val, I, J, B)
            V_ = lift_lam(R, C, subst(e, sub), B)
        return setsub(m, rr[0], rr[1], cc[0], cc[1], V_, B)
    except Incomparable:
        return None
    except ShapeError:
        return None
