"""Obligations, reports and the comparison of extracted formulas with specified ones."""
import json
import os
import pickle
import re
import shutil
import sys
import tempfile
import signal
import time
import traceback
import warnings

from .dom import *
from .values import *
from .program import Program, AnalysisBroken, Module
from .interp import Interp, Infeasible, Path, PathLimit, PyRaise, exc_isa, ExcV, Outcome
from . import evalf
from .evalf import Unresolved, Skip

warnings.simplefilter('ignore')
JOBS = int(os.environ.get('VERIF_JOBS') or os.cpu_count() or 1)
ONLY = os.environ.get('VERIF_ONLY')       # development: a pattern of case names
FORCED = os.environ.get('VERIF_SIZES')     # development: only the sizes written out
SIZES = [(2,), (1, 2, 3), (3, 2, 1), (0, 1, 2), (4, 5)]   # sizes given in turn to the dimensions of a case
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise Timeout()


class Report:
    def __init__(self, pid, tier='quick', seed=1, prog=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.P = prog or Program()
        self.obl = []            # dict(rule, construct, what, status, detail)
        self.functions, self.paths, self.calls, self.cases = set(), 0, 0, 0
        self.rules = {}
        self.assumptions = []
        self.extra = {}
        self.t0 = time.time()
        self.skipped = []
        self.floor = {}
        self.kids, self.results, self.ncase, self.tmp = {}, {}, 0, None
        self.case_class = None

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def add(self, status, rule, construct, what, detail='', line=None):
        if status == 'violation':
            for o in self.obl:
                if isinstance(o, dict) and o['status'] == 'violation' and (o['rule'], o['construct'], o['what']) == (rule, construct, what):
                    return
        self.obl.append(dict(status=status, rule=rule, construct=construct, what=what, detail=str(detail)[:1500], line=line))

    def ok(self, rule, construct, what, detail=''):
        self.add('ok', rule, construct, what, detail)

    def viol(self, rule, construct, what, detail='', line=None):
        self.add('violation', rule, construct, what, detail, line)

    def und(self, rule, construct, what, detail=''):
        self.add('undecided', rule, construct, what, detail)

    def rule(self, name, text):
        self.rules[name] = text

    def case(self, name, fn, seconds=None, **opt):
        """run one analysis case (in a process of its own when several are allowed)"""
        if ONLY and not re.search(ONLY, name):
            return
        if JOBS <= 1:
            return self.case_here(name, fn, seconds, **opt)
        while len(self.kids) >= JOBS:
            self.reap()
        self.ncase += 1
        sys.stdout.flush()
        sys.stderr.flush()
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix='sa')
        k, path = self.ncase, os.path.join(self.tmp, str(self.ncase))
        pid = os.fork()
        if pid:
            self.kids[pid] = (k, name, path)
            self.obl.append(('slot', k))
            return
        try:
            n0 = len(self.obl)
            self.functions, self.paths, self.calls, self.cases = set(), 0, 0, 0
            self.obl = []
            self.case_here(name, fn, seconds, **opt)
            with open(path + '.tmp', 'wb') as f:
                pickle.dump((self.obl, self.functions, self.paths, self.calls, self.cases, self.rules, self.assumptions, self.extra), f)
            os.rename(path + '.tmp', path)
        finally:
            os._exit(0)

    def reap(self):
        pid, _ = os.wait()
        if pid in self.kids:
            k, name, path = self.kids.pop(pid)
            self.results[k] = (name, path)

    def join(self):
        """collect the results of the cases, in their order"""
        if not self.ncase:
            return
        while self.kids:
            self.reap()
        out = []
        for o in self.obl:
            if not (isinstance(o, tuple) and o[0] == 'slot'):
                out.append(o)
                continue
            name, path = self.results[o[1]]
            try:
                with open(path, 'rb') as f:
                    obl, fn, pa, ca, cs, ru, asm, ex = pickle.load(f)
            except Exception:
                self.cases += 1
                out.append(dict(status='undecided', rule='case', construct=name, what='the analysis of the case was ended', detail='', line=None))
                continue
            out += obl
            self.functions |= fn
            self.paths += pa
            self.calls += ca
            self.cases += cs
            self.rules.update(ru)
            self.extra.update(ex)
            for a in asm:
                if a not in self.assumptions:
                    self.assumptions.append(a)
        seen, self.obl = set(), []
        for o in out:
            if o['status'] == 'violation':
                k = (o['rule'], o['construct'], o['what'])
                if k in seen:
                    continue
                seen.add(k)
            self.obl.append(o)
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None
        self.ncase = 0

    def case_here(self, name, fn, seconds=None, **opt):
        """one case: with symbolic sizes, then, where something stays undecided, with the sizes written out (violations only)"""
        self.cases += 1
        n, first = len(self.obl), SIZES[int(FORCED)] if FORCED else None
        c = self.attempt(name, fn, seconds or (240 if self.thorough else 60), first, opt)
        if FORCED or not c.dims or all(o['status'] != 'undecided' for o in self.obl[n:]):
            return
        kept = self.obl[n:]
        for k in range(len(SIZES)):
            if time.time() - self.t0 > (3000 if self.thorough else 420) or any(o['status'] == 'violation' for o in kept):
                break
            del self.obl[n:]
            d = self.attempt(name, fn, 60 if self.thorough else 20, SIZES[k], opt)
            kept += [o for o in self.obl[n:] if o['status'] == 'violation']
            self.extra['written out'] = self.extra.get('written out', 0) + 1
            if not d.dims:
                break
        self.obl[n:] = kept

    def attempt(self, name, fn, seconds, sizes, opt):
        c = (self.case_class or Case)(self, name, **opt)
        c.sizes = sizes
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(seconds)
        n = len(self.obl)
        try:
            fn(c)
            if len(self.obl) == n:
                self.und('case', name, 'the case produced no obligation')
        except Timeout:
            self.und('case', name, 'time limit of the case', '%d s' % seconds)
        except (PathLimit, AnalysisBroken) as e:
            self.und('case', name, 'analysis limit', '%s %s' % (type(e).__name__, e))
        except PyRaise as e:
            o = c.cur
            r = c.reach(o) if o is not None and e.exc.flag not in ('ext-attr',) else None
            if r not in (False, None):
                self.viol('result', name, 'the result can be read', '%s when reading the result of the call (path %s)' % (short(e.exc), short(o.lits, 200)))
            else:
                self.und('case', name, 'abstract exception outside a path', repr(e.exc))
        except (RecursionError, Exception) as e:
            self.und('case', name, 'internal limit of the analyser',
                     '%s: %s @ %s' % (type(e).__name__, str(e)[:300], ' < '.join(
                         '%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-5:]))))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            self.functions |= c.I.visited
            self.calls += c.I.ncalls
        if sizes and not c.consistent():
            del self.obl[n:]
        return c


def rel(path):
    i = path.find('fixif/')
    return path[i:] if i >= 0 else path


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def show_val(v):
    from fractions import Fraction
    if isinstance(v, tuple) and len(v) == 3 and isinstance(v[2], (list, tuple)):
        return '[' + '; '.join(' '.join(show_val(x) for x in r) for r in v[2]) + ']'
    if isinstance(v, Fraction):
        return str(v) if v.denominator < 10 ** 6 else '%.9g' % float(v)
    return str(v)[:300]


UNINTERPRETED_OK = {'ulow', 'float', 'mpf', 'conv', 'kron', 'mpow', 'abs', 'sqrt', 'log', 'floor', 'ceil', 'pow', 'max',
                    'min', 'int', 'round', 'recfin', 'recat', 'arr', 'choice', 'exp', 'sin', 'cos', 'sign', 'prod',
                    'mod', 'floordiv', 'absolute', 'real', 'imag', 'conj'}


EVALUABLE = UNINTERPRETED_OK | {'ew:' + x for x in evalf.EW_CMP} | {'!car', '!blk', 'ind', 'ulow', 'tril', 'triu', 'cnz', 'bool', 'mpc', 'complex', 'float64', 'trunc', 'rint', 'tan', 'poly', 'polyroots', 'lyap', 'lyapc',
                                'mpf.sign', 'mpf.man', 'mpf.exp', 'mpf.bc', 'mpf.sman'}


def heads(*xs):
    out = set()
    for x in xs:
        try:
            hs = fn_heads(x)
        except Exception:
            hs = ()
        out |= set(str(h) for h in hs)
    return out


def solved(lits):
    """atoms that the path makes equal to an expression"""
    steps = []
    low = [x[1] for x, v in lits if v is False and x[0] == 'lt0' and isinstance(x[1], Sc)]
    both = [(('eq0', a), True) for i, a in enumerate(low) if any(not (a + b).t for b in low[:i])]
    for x, v in list(lits) + both:
        if v is not True or x[0] != 'eq0' or not isinstance(x[1], Sc):
            continue
        d = resolved(x[1], steps)
        for mono, k in sorted(d.t.items(), key=lambda y: rkey(y[0])):
            if len(mono) == 1 and mono[0][1] == 1:
                a = mono[0][0]
                rest = Sc.atom(a) - d * Sc.const(1 / k)
                if a[0] in ('sym', 'ent') and not mentions(rest, a):
                    steps.append({a: rest})
                    if a[0] == 'ent' and a[1][0] == 'mat' and sc(a[1][1]) == ONE and sc(a[1][2]) == ONE:
                        steps[-1][a[1]] = mscalar(rest)
                    break
    return steps


def resolved(x, steps):
    for m in steps:
        x = subst(x, m)
    return x


class Dims(dict):
    """sizes a case quantifies over (least values), and those that are written out"""

    def __init__(self):
        dict.__init__(self)
        self.pins = {}


class Case:
    def __init__(self, R, name, rounding=False, **opt):
        self.R, self.name = R, name
        self.P = R.P
        self.I = Interp(R.P, rounding=rounding)
        self.dims = Dims()
        self.lits0 = []
        self.cur = None
        self.nested = 0
        self.opaque = set()     # functions compared through their operands
        self.makers = {}
        self.extra = []
        self.sizes = None
        self.failures = False   # failures of external operations are part of the obligations
        for k, v in opt.items():
            setattr(self.I, k, v)

    # ---- building symbolic inputs
    def dim(self, name, lo=1):
        self.I.st.B.low[('sym', name)] = lo
        new = name not in self.dims
        self.dims[name] = lo
        if self.sizes:
            pins = self.dims.pins
            if new:
                pins[name] = v = max(lo, self.sizes[(len(self.dims) - 1) % len(self.sizes)])
                self.extra.append(lambda d: d[name] == v and v >= self.dims[name])
            return sc(pins[name])
        return Sc.sym(name)

    def consistent(self):
        """the sizes written out satisfy what the case assumes of its sizes"""
        d = self.dims.pins
        try:
            if any(v < self.dims[k] for k, v in d.items()) or not all(f(d) for f in self.extra):
                return False
            return not any(x.cval() is not None and x.cval() < 0 for x in self.I.st.B.extra)
        except KeyError:
            return True

    def dims_(self, names, lo=1):
        return [self.dim(n, lo) for n in names.split()]

    def mat(self, name, r, c, kind='matrix'):
        return self.I.arr(kind, mnamed(name, sc(r), sc(c)), 2)

    def vec(self, name, n):
        return self.I.arr('array', mnamed(name, ONE, sc(n)), 1)

    def scalar(self, name):
        return Num(Sc.sym(name))

    def lst(self, *items):
        return self.I.alloc(ListO([('item', i) for i in items]))

    def func(self, mod, name):
        r = self.P.find_func(mod, name)
        if not r:
            raise AnalysisBroken('%s.%s' % (mod, name))
        return FuncV(r[0], r[1])

    def ref(self, src, name):
        """a specification written as a Python function, read by the same interpreter"""
        import textwrap
        m = Module('spec', '<spec>/spec.py', textwrap.dedent(src))
        return ClassV(m.classes[name]) if name in m.classes else FuncV(m.funcs[name], m)

    def cls(self, mod, name):
        r = self.P.find_class(mod, name)
        if not r:
            raise AnalysisBroken('%s.%s' % (mod, name))
        return r

    def call(self, f, *args, **kw):
        return self.I.call(f, list(args), kw)

    def new(self, c, *args, **kw):
        return self.I.instantiate(c, list(args), kw)

    def get(self, ref, name):
        return self.I.getattr(ref, name)

    def meth(self, ref, name, *args, **kw):
        return self.I.call(self.I.getattr(ref, name), list(args), kw)

    def run(self, thunk, limit=None):
        outs = self.I.run_paths(thunk, limit)
        self.R.paths += len(outs)
        return self.home(outs)

    def home(self, outs):
        """the list of outcomes a check goes through: it grows when reading a result splits on a new test"""
        outs = list(outs)
        for o in outs:
            o.home, o.size0 = outs, len(outs)
        return outs

    def done(self, outs):
        return self.home(o for o in outs if o.kind in ('ok', 'return'))

    def assume_unequal(self, a, b):
        self.lits0.append((('eq0', _ns(sc(a) - sc(b))), False))
        self.I.assume(('eq0', _ns(sc(a) - sc(b))), False)
        self.I.assume(('eq0', -_ns(sc(a) - sc(b))), False)

    # ---- reading results
    MAXSPLIT = 24

    def at(self, o, f):
        """evaluate f in the state of an outcome; when the code evaluated tests something not known
        there, the outcome goes on with the test true, and a copy with the test false joins the list
        of outcomes"""
        if self.nested or o.home is None:
            return self._at(o, f)
        I = self.I
        before, path = o.st.copy(), I.path
        I.path = p = Path([])
        self.nested += 1
        try:
            return self._at(o, f)
        finally:
            self.nested -= 1
            I.path = path
            self.split(o, before, p.lits)

    def split(self, o, before, lits):
        sv = self.I.st
        for i, (c, v) in enumerate(lits):
            if len(o.home) >= self.MAXSPLIT + o.home[0].size0:
                break
            st = before.copy()
            self.I.st = st
            ls = list(lits[:i]) + [(c, not v)]
            try:
                for d, w in ls:
                    if self.I.known(d) is (not w):
                        raise Infeasible()
                    self.I.assume(d, w)
            except Infeasible:
                continue
            finally:
                self.I.st = sv
            n = Outcome(list(o.lits) + ls, o.kind, o.value, st)
            n.home, n.size0 = o.home, o.home[0].size0
            o.home.append(n)
        o.lits = list(o.lits) + list(lits)

    def _at(self, o, f):
        sv = self.I.st
        self.I.st = o.st
        self.cur = o
        try:
            r = f()
            self.cur = None
            return r
        finally:
            self.I.st = sv

    def matof(self, o, v):
        """Mat of an array-like value in outcome o (None when it is not one)"""
        def f():
            if isinstance(v, Mat):
                return self.I.N(v)
            if isinstance(v, FrozenArr):
                return self.I.N(v.mat)
            if isinstance(v, Sc):
                return mscalar(self.I.N(v))
            if isinstance(v, Num):
                return mscalar(self.I.N(v.s))
            if isinstance(v, Ref):
                ob = self.I.obj(v)
                if isinstance(ob, Arr):
                    return self.I.N(self.I.arr_mat(v))
                if isinstance(ob, InstO):
                    m = ob.attrs.get('_matrix') or ob.attrs.get('_data')
                    if m is not None:
                        return self.matof(o, m)
                if isinstance(ob, ListO):
                    s = self.I.seq_mat(ob)
                    return self.I.N(s) if s is not None else None
            if isinstance(v, Tup):
                try:
                    return mhstack([mscalar(self.I.N(x.s)) for x in v.items], self.I.B)
                except AttributeError:
                    return None
            return None
        return self._at(o, f)

    # ---- obligations
    def lits(self, o):
        return self.lits0 + list(o.lits)

    def equal(self, o, got, want, rule, construct, what, strip=None, line=None):
        """the value got (Mat / Sc / Num / array reference) equals the specified formula on outcome o"""
        R = self.R
        if isinstance(want, Num):
            want = want.s
        elif isinstance(want, (Ref, FrozenArr)):
            want = self.matof(o, want)
        if isinstance(got, (Ref, FrozenArr, Tup, Num)) or isinstance(want, Mat):
            g = self.matof(o, got) if not isinstance(got, Mat) else self._at(o, lambda: self.I.N(got))
        else:
            g = self._at(o, lambda: self.I.N(got))
        if g is None:
            if isinstance(got, (Const, StrV)) and self.reach(o) not in (False, None):
                R.viol(rule, construct, what, 'gives %s where %s is specified (path %s)' % (short(got), short(want), short(o.lits, 200)), line)
                return False
            if isinstance(got, Opq) and got.is_top() or got is None:
                R.und(rule, construct, what, 'value not resolved: %s' % short(got))
            else:
                R.und(rule, construct, what, 'not a numeric value: %s' % short(got))
            return None
        w = self._at(o, lambda: self.I.N(want))
        if isinstance(g, Mat) and isinstance(w, Sc):
            w = mscalar(w)
        if strip:
            g, w = strip(g), strip(w)

        def cmp():
            B = self.I.B
            if isinstance(g, Mat):
                if (g.rows - w.rows).t or (g.cols - w.cols).t:
                    return 'shape'
                if g.rows == ONE and g.cols == ONE and not (entry(g, ZERO, ZERO, B) - entry(w, ZERO, ZERO, B)).t:
                    return True
                try:
                    return mat_equal(g, w, B)
                except (Incomparable, ShapeError):
                    return False
            return not (g - w).t
        r = self._at(o, cmp)
        if r in (False, 'shape') and solved(self.lits(o)):
            g0, w0 = g, w
            try:
                e = solved(self.lits(o))
                g, w = self._at(o, lambda: (resolved(self.I.N(g0), e), resolved(self.I.N(w0), e)))
                if self._at(o, cmp) is True:
                    r = True
            except (Incomparable, ShapeError):
                pass
            g, w = g0, w0
        if r is False:
            g0, w0 = g, w
            try:
                g, w = self._at(o, lambda: (self.I.N(indicators(g0)), self.I.N(indicators(w0))))
                if self._at(o, cmp) is True:
                    r = True
            except Exception:
                pass
            g, w = g0, w0
        if r is True:
            R.ok(rule, construct, what)
            return True
        # normal forms differ: separate them by a witness
        B = o.st.B
        if r == 'shape':
            def val(env):
                return (evalf.evi(env, g.rows), evalf.evi(env, g.cols)), (evalf.evi(env, w.rows), evalf.evi(env, w.cols))
            try:
                for env in evalf.envs(B, self.dims, self.lits(o), self.extra, self.makers):
                    a, b = val(env)
                    if a != b:
                        R.viol(rule, construct, what, 'shape %r x %r instead of %r x %r; e.g. %s: %s instead of %s'
                               % (g.rows, g.cols, w.rows, w.cols, env.dims, a, b), line)
                        return False
            except (Unresolved, Skip) as e:
                R.und(rule, construct, what, 'unresolved shape: %s' % e)
                return None
        hg, hw = heads(g), heads(w)
        odd = (hg ^ hw) - UNINTERPRETED_OK - self.opaque - {'!car', '!blk', 'ind'}
        if odd:
            R.und(rule, construct, what, 'uninterpreted operations differ: %s; %s vs %s' % (sorted(odd), short(g), short(w)))
            return None
        try:
            d = self._at(o, lambda: evalf.differ(B, self.dims, self.lits(o), g, w, self.extra, self.makers))
        except Unresolved as e:
            R.und(rule, construct, what, 'unresolved: %s; %s vs %s' % (e, short(g), short(w)))
            return None
        except Exception as e:
            R.und(rule, construct, what, 'comparison failed: %s %s' % (type(e).__name__, e))
            return None
        if d is None:
            R.und(rule, construct, what, 'normal forms differ, no separating instance found: %s vs %s' % (short(g), short(w)))
            return None
        env, x, y = d
        R.viol(rule, construct, what, 'computes %s where %s is specified (path: %s); separating instance %s: %s instead of %s'
               % (short(g), short(w), short(o.lits, 200), env.dims, show_val(x), show_val(y)), line)
        return False

    def judge(self, o, gots, rel, rule, construct, what, proof=None, line=None, show=None, top=3):
        """a relation between extracted formulas: proved by normal forms (proof), refuted by an instance on which it fails"""
        R = self.R
        gs = []
        for g in gots:
            v = g if isinstance(g, (Mat, Sc)) else g.s if isinstance(g, Num) else self.matof(o, g)
            if v is None:
                return self.holds(o, False if isinstance(g, (Const, StrV)) else None, rule, construct, what,
                                  'gives %s' % short(g) if isinstance(g, (Const, StrV)) else 'value not resolved: %s' % short(g))
            gs.append(self._at(o, lambda: self.I.N(v)))
        try:
            if proof is not None and self._at(o, lambda: proof(*gs)) is True:
                R.ok(rule, construct, what)
                return True
            e = solved(self.lits(o))
            if proof is not None and e and self._at(o, lambda: proof(*[resolved(x, e) for x in gs])) is True:
                R.ok(rule, construct, what)
                return True
        except (Incomparable, ShapeError, AttributeError, KeyError, TypeError):
            pass
        odd = heads(*gs) - EVALUABLE - self.opaque
        if odd:
            R.und(rule, construct, what, 'uninterpreted operations: %s in %s' % (sorted(odd), short(gs, 300)))
            return None
        n = 0

        def find():
            nonlocal n
            for env in evalf.envs(o.st.B, self.dims, self.lits(o), self.extra, self.makers, top=top):
                try:
                    vs = [evalf.recval(env, g) for g in gs]
                    r = rel(env, *vs)
                except (Skip, ZeroDivisionError, OverflowError):
                    continue
                if r is None:
                    continue
                n += 1
                if r is not True:
                    return env, r
                if n > 60:
                    break
            return None
        try:
            d = self._at(o, find)
        except Unresolved as e:
            R.und(rule, construct, what, 'unresolved: %s; %s' % (e, short(gs)))
            return None
        if d is None:
            R.und(rule, construct, what, 'not proved, no separating instance found (%d tried): %s' % (n, short(gs)))
            return None
        env, r = d
        R.viol(rule, construct, what, 'fails for %s: %s; formulas %s (path: %s)'
               % (env.dims, short(r, 300), short(gs, 700), short(o.lits, 200)), line)
        return False

    def holds(self, o, ok, rule, construct, what, detail='', line=None):
        """a fact about the outcome o: True (holds), False (violated when the path is feasible) or None (not known)"""
        if ok is True:
            self.R.ok(rule, construct, what)
            return True
        st = self.reach(o)
        if st is False:
            self.R.ok(rule, construct, what)
            return True
        if ok is None or st is None:
            self.R.und(rule, construct, what, '%s (path %s)' % (detail, short(o.lits, 200)))
            return None
        self.R.viol(rule, construct, what, '%s (path %s%s)' % (detail, short(o.lits, 200), '; e.g. %s' % st.dims if isinstance(st, evalf.Env) else ''), line)
        return False

    def truthy(self, o, v, want, rule, construct, what):
        """the truth value of v on outcome o (every way it can be decided)"""
        sub = self._at(o, lambda: self.I.run_paths(lambda: Const(bool(self.I.truth(v)))))
        for s in sub:
            if s.kind == 'raise':
                self.holds(s, None, rule, construct, what, 'truth value: %s' % short(s.value))
            else:
                s.lits = list(o.lits) + list(s.lits)
                self.holds(s, s.value.v is want, rule, construct, what, 'is %s' % s.value.v)

    def verdict(self, outs, want, rule, construct, what, ref=None, top=3):
        """a yes/no answer: on every instance it is want(env); proved when the reference answers the same on the same conditions"""
        R = self.R
        subs, n = [], 0
        for o in outs:
            for s in self._at(o, lambda: self.I.run_paths(lambda: Const(bool(self.I.truth(o.value))))):
                s.lits = list(o.lits) + list(s.lits)
                if s.kind == 'raise':
                    self.holds(s, None, rule, construct, what, 'truth value: %s' % short(s.value))
                    return
                subs.append(s)
        form = lambda ss: sorted((repr(sorted(map(repr, s.lits))), s.value.v) for s in ss)
        if ref is not None:
            rs = []
            for o in ref:
                for s in self._at(o, lambda: self.I.run_paths(lambda: Const(bool(self.I.truth(o.value))))):
                    s.lits = list(o.lits) + list(s.lits)
                    rs.append(s)
            if form(subs) == form(rs):
                return R.ok(rule, construct, what)
        for s in subs:
            def find():
                nonlocal n
                for env in evalf.envs(s.st.B, self.dims, self.lits(s), self.extra, self.makers, top=top):
                    try:
                        w = want(env)
                    except (Skip, ZeroDivisionError, OverflowError):
                        continue
                    if w is None:
                        continue
                    n += 1
                    if w is not s.value.v:
                        return env
            try:
                odd = heads(*[x for x, _ in s.lits]) - EVALUABLE - self.opaque
                bad = self._at(s, find) if not odd else None
            except Unresolved:
                continue
            if bad is not None:
                return R.viol(rule, construct, what, 'answers %s instead of %s for %s, path %s' % (s.value.v, not s.value.v, bad.dims, short(s.lits, 300)))
        R.und(rule, construct, what, 'not proved, no counterexample found (%d instances)' % n)

    def exceptions(self, outs, rule, construct, what, allowed=(), extra=()):
        """no path may raise, except the allowed exception names; returns the non-raising outcomes"""
        R = self.R
        good = []
        bad = False
        for o in outs:
            if o.kind != 'raise':
                good.append(o)
                continue
            e = o.value
            if any(exc_isa(e.name, n) for n in allowed):
                continue
            if e.flag == 'limit':
                if self.reach(o, extra) is not False:
                    bad = True
                    R.und(rule, construct, what, 'limit of the analysis on path %s: %s' % (short(o.lits, 300), e))
                continue
            st = self.reach(o, extra)
            wh = e.where or ('?', '?', 0)
            desc = '%s raised in %s' % (e.name, wh[1])
            if st is True or isinstance(st, evalf.Env):
                bad = True
                R.viol(rule, construct, what + ': ' + desc,
                       '%s at %s:%s on valid operands, path %s%s' % (short(e, 200), rel(wh[0]), wh[2], short(o.lits, 300),
                                                                    '; e.g. sizes %s' % st.dims if isinstance(st, evalf.Env) else ''), wh[2])
            elif st is None:
                bad = True
                R.und(rule, construct, what, 'possible %s, path not decided: %s' % (e.name, short(o.lits, 300)))
        if not bad:
            R.ok(rule, construct, what)
        return self.home(good)

    def reach(self, o, extra=()):
        """True/Env when the path is feasible, False when it is not, None when undecided"""
        lits = self.lits(o)
        if not self.failures and any(c[0] in evalf.ENVIRONMENT and v for c, v in lits):
            return False        # failure of an external operation: outside this obligation
        lits = [(c, v) for c, v in lits if c[0] not in evalf.ENVIRONMENT]
        if not lits:
            return True
        hs = set()
        for c, v in lits:
            for x in c:
                if isinstance(x, (Sc, Mat)):
                    hs |= heads(x)
            if c[0] in ('truthy', 'isinst', 'opq'):
                return None
            for a in walk_atoms(c):
                if a[0] in ('top', 'opq', 'car', 'undef'):
                    return None
        if hs - EVALUABLE:
            return None
        try:
            e = self._at(o, lambda: evalf.feasible(o.st.B, self.dims, lits, list(extra) + self.extra, self.makers))
        except Exception:
            return None
        return e if e is not None else False

    def refused(self, outs, rule, construct, what, exc='ValueError'):
        """every path must raise exc"""
        R = self.R
        bad = False
        for o in outs:
            if o.kind == 'raise' and exc_isa(o.value.name, exc):
                continue
            st = self.reach(o)
            if st is False:
                continue
            if st is None or o.kind == 'raise' and o.value.flag == 'limit':
                bad = True
                R.und(rule, construct, what, 'path not decided: %s' % short(o.lits, 300))
                continue
            bad = True
            if o.kind == 'raise':
                e = o.value
                wh = e.where or ('?', '?', 0)
                R.viol(rule, construct, what + ': %s instead of %s' % (e.name, exc),
                       '%s at %s:%s, path %s' % (short(e, 200), rel(wh[0]), wh[2], short(o.lits, 300)), wh[2])
            else:
                R.viol(rule, construct, what + ': accepted',
                       'no error on path %s%s' % (short(o.lits, 300), '; e.g. %s' % st.dims if isinstance(st, evalf.Env) else ''))
        if not outs:
            bad = True
            R.und(rule, construct, what, 'no path')
        if not bad:
            R.ok(rule, construct, what)
        return not bad


def indicators(x):
    """conditional scalars as b + (a - b)*[c]"""
    for _ in range(4):
        m = {}
        for a in walk_atoms(x):
            if a[0] == 'ite' and len(a) == 4 and isinstance(a[2], Sc) and isinstance(a[3], Sc):
                c, u, v = a[1:]
                m[a] = v + (u - v) * Sc.atom(('fn', 'ind', c))
        if not m:
            return x
        x = subst(x, m)
    return x


def _ns(d):
    from .interp import norm_sign
    return norm_sign(d)


# ------------------------------------------------------------------------------------------- output
def known_findings(path=None):
    out = {}
    p = path or os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    for l in open(p):
        l = l.strip()
        if not l or l.startswith('#') or l.startswith('fixed:'):
            continue
        if l.startswith('finding:'):
            # finding: property=C06 key=<rule>|<construct>|<what> :: description
            body = l[len('finding:'):].strip()
            pid = body.split()[0].split('=', 1)[1]
            rest = body[len(body.split()[0]):].strip()
            key, _, desc = rest.partition(' :: ')
            key = key[len('key='):].strip()
            out.setdefault(pid, {})[key] = desc.strip()
    return out


def okey(o):
    return '%s|%s|%s' % (o['rule'], o['construct'], o['what'])


def finish(R, level, explanation, out=print):
    R.join()
    kf = known_findings().get(R.pid, {})
    viols, known = [], []
    for o in R.obl:
        if o['status'] == 'violation':
            k = okey(o)
            if k in kf:
                o['status'] = 'known'
                known.append((k, kf[k]))
            else:
                viols.append(o)
    ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    vp = os.path.join(ev, '%s.violations.txt' % R.pid)
    for k, d in dict(known).items():
        out('KNOWN-FINDING: property=%s %s -- %s' % (R.pid, k, d))
    if viols:
        with open(vp, 'w') as f:
            for o in viols:
                f.write('rule: %(rule)s\nconstruct: %(construct)s\nobligation: %(what)s\nline: %(line)s\n%(detail)s\n\n' % o)
    elif os.path.exists(vp):
        os.remove(vp)
    n = {s: sum(1 for o in R.obl if o['status'] == s) for s in ('ok', 'violation', 'undecided', 'known')}
    for o in viols:
        out('  %s | %s | %s (line %s)\n      %s' % (o['rule'], o['construct'], o['what'], o['line'], o['detail'][:600]))
    cov = dict(explanation=explanation, obligations=len(R.obl), discharged=n['ok'], undecided=n['undecided'],
               known_findings=n['known'], cases=R.cases, paths=R.paths, abstract_calls=R.calls,
               functions=sorted('%s.%s' % f for f in R.functions), rules=R.rules,
               rule_instances={r: sum(1 for o in R.obl if o['rule'] == r) for r in sorted(set(o['rule'] for o in R.obl))},
               samples=[okey(o) for o in R.obl if o['status'] == 'ok'][:12],
               not_decided=['%s (%s)' % (okey(o), o['detail'][:200]) for o in R.obl if o['status'] == 'undecided'][:80])
    cov.update(R.extra)
    doc = dict(property=R.pid, tier=R.tier, seed=R.seed, level=level, coverage=cov, assumptions=R.assumptions,
               wall_s=round(time.time() - R.t0, 2), violations=len(viols))
    json.dump(doc, open(os.path.join(ev, R.pid + '.json'), 'w'), indent=1, default=str)
    out('%s: %d obligations, %d discharged, %d undecided, %d known findings, %d violations; %d functions, %d paths, %.1f s'
        % (R.pid, len(R.obl), n['ok'], n['undecided'], n['known'], len(viols), len(R.functions), R.paths, time.time() - R.t0))
    if viols:
        out('VIOLATION property=%s replay=%s' % (R.pid, vp))
        return 1
    return 0
