"""Evaluation of abstract values on small concrete instances.

Used only to separate two *extracted formulas* whose normal forms differ: a difference is reported only with a
witness (sizes and coefficient values) on which the two formulas take different values, and a path only with
sizes on which its conditions can hold.  The analysed program itself is never run."""
import cmath
import math
import operator
import random
from fractions import Fraction
from .dom import *
from .values import *


class Unresolved(Exception):
    pass


class Skip(Exception):
    """the instance is outside the domain of the formula (singular matrix, ...)"""


def h(*x):
    return random.Random(repr(x))


MODES = ('rat', 'small', 'sparse', 'pos')


class Env:
    scale = None        # instances of a size that a threshold of the path asks for

    def __init__(self, dims, seed=0, mode='rat', makers=None, vals=None):
        self.dims, self.seed, self.mode = dims, seed, mode
        self.makers = makers or {}
        self.vals = dict(vals or {})    # scalar atoms
        self.idx = {}
        self.car = {}
        self.memo = {}
        self.free = {}

    def value(self, *key):
        if self.scale is not None:
            k, self.scale = self.scale, None
            try:
                return self.value(*key) * k
            finally:
                self.scale = k
        r = h(self.seed, self.mode, key)
        if self.mode == 'small':
            return Fraction(r.choice((-1, 0, 1, 1, 2)))
        if self.mode == 'units':
            return Fraction(r.choice((0, 1, -1)))
        if self.mode == 'sparse':
            return Fraction(r.choice((0, 0, 0, 1, -1, 3)))
        if self.mode in ('lead', 'last'):
            # entries of one corner only
            if len(key) >= 4 and (key[-1] or key[-2]) and self.mode == 'lead':
                return Fraction(0)
            if len(key) >= 4 and not key[-1] and self.mode == 'last':
                return Fraction(0)
            return Fraction(r.choice((1, -1, 2, 3, 5)), r.choice((1, 2, 4)))
        if self.mode == 'pos':
            return Fraction(r.randint(1, 40), r.choice((4, 8, 16)))
        return Fraction(r.choice((-1, 1)) * r.randint(1, 40), r.choice((1, 2, 4, 8)))


def is_free_idx(a):
    return a[0] in ('idx', 'bi', 'bj', 'bv', 'qi', 'wb', 'tv', 'car')


def free_of(env, x):
    r = env.free.get(x)
    if r is None:
        r = frozenset(a for a in walk_atoms(x) if is_free_idx(a))
        env.free[x] = r
    return r


def memo(env, x, fn):
    fr = free_of(env, x)
    if any(a[0] == 'car' for a in fr):
        return fn()
    k = (x, tuple(sorted(((repr(a), env.idx[a]) for a in fr if a in env.idx))))
    if k not in env.memo:
        env.memo[k] = fn()
    return env.memo[k]


def ev(env, s):
    """scalar"""
    if isinstance(s, (int, Fraction, float, complex)):
        return s
    out = Fraction(0)
    for m, c in s.t.items():
        p = c
        for a, e in m:
            v = ev_atom(env, a)
            if e != 1:
                if v == 0 and e < 0:
                    raise Skip('division by zero')
                v = v ** e
            p = p * v
        out = out + p
    return out


def evi(env, s):
    v = ev(env, s)
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    raise Unresolved('non-integer index')


def ev_atom(env, a):
    if a in env.idx:
        return Fraction(env.idx[a])
    if a in env.car:
        return env.car[a]
    if a in env.vals:
        return env.vals[a]
    hd = a[0]
    if hd == 'sym':
        if a[1] in env.dims:
            return Fraction(env.dims[a[1]])
        return env.value('sym', a[1])
    if hd == 'ent':
        i, j = evi(env, a[2]), evi(env, a[3])
        if a[1][0] == 'mat':
            return named_entry(env, a[1], i, j)
        M = evm(env, matom(a[1]) if a[1][0] != 'blk' else a[1][3])
        if 0 <= i < M[0] and 0 <= j < M[1]:
            return M[2][i][j]
        raise Skip('index outside the array')
    if hd == 'delta':
        return Fraction(1 if ev(env, a[1]) == 0 else 0)
    if hd == 'msum':
        return memo(env, a, lambda: ev_msum(env, list(a[1]), a[2]))
    if hd == 'poly':
        return ev(env, a[1])
    if hd == 'ite':
        return ev(env, a[2]) if cond(env, a[1]) else ev(env, a[3])
    if hd == 'fn':
        return memo(env, a, lambda: ev_fn(env, a))
    if hd in ('top', 'car', 'undef', 'qi', 'bi', 'bj', 'bv', 'idx', 'wb'):
        raise Unresolved(repr(a)[:80])
    return hashed(env, a)


def ev_msum(env, bounds, body):
    def go(bs):
        if not bs:
            return ev(env, body)
        # a bound may depend on another one: take any whose own bound is evaluable
        for n, (v, N) in enumerate(bs):
            if not any(mentions(N, w) for w, _ in bs):
                break
        else:
            raise Unresolved('sum bounds')
        rest = bs[:n] + bs[n + 1:]
        out = Fraction(0)
        sv = env.idx.get(v)
        for i in range(max(0, evi(env, N))):
            env.idx[v] = i
            out = out + go(rest)
        if sv is None:
            env.idx.pop(v, None)
        else:
            env.idx[v] = sv
        return out
    return go(bounds)


def key(env, x):
    """evaluated structural key of any abstract value"""
    if isinstance(x, Sc):
        return ev(env, x)
    if isinstance(x, Mat):
        return ('M',) + freeze(evm(env, x))
    if isinstance(x, FrozenArr):
        return ('M',) + freeze(evm(env, x.mat))
    if isinstance(x, Num):
        return ev(env, x.s)
    if isinstance(x, Const):
        return ('c', x.v)
    if isinstance(x, CondV):
        return ('b', cond(env, x.c) != x.neg)
    if isinstance(x, Tup):
        return ('t',) + tuple(key(env, y) for y in x.items)
    if isinstance(x, Opq):
        if x.k and x.k[0] in ('top', 'car'):
            if x.k in env.car:
                return env.car[x.k]
            raise Unresolved(repr(x.k)[:80])
        return ('o',) + tuple(key(env, y) for y in x.k)
    if isinstance(x, StrV):
        return ('s',) + tuple(key(env, y) for y in x.parts)
    if isinstance(x, SeqV):
        n = evi(env, x.n)
        out = []
        for i in range(n):
            out.append(with_idx(env, x.idx, i, lambda: key(env, x.tmpl)))
        return ('t',) + tuple(out)
    if isinstance(x, tuple):
        if x and isinstance(x[0], str):
            if x[0] in ('eq0', 'lt0', 'eqv', 'ltv', 'exists', 'mateq', 'all', 'any'):
                return ('b', cond(env, x))
            if x[0] == 'sym' or is_free_idx(x) and x in env.idx:
                return ev_atom(env, x)
            if x[0] in ('mat', 'sub', 'inv', 'lam', 'fn') and len(x) > 3 and isinstance(x[1], Sc) and isinstance(x[2], Sc):
                return ('M',) + freeze(evm(env, matom(x)))
        return tuple(key(env, y) for y in x)
    if isinstance(x, V):
        return ('v',) + tuple(key(env, y) for y in x.key())
    return x


def freeze(m):
    return (m[0], m[1], tuple(tuple(r) for r in m[2]))


def with_idx(env, k, i, f):
    sv = env.idx.get(k)
    env.idx[k] = i
    try:
        return f()
    finally:
        if sv is None:
            env.idx.pop(k, None)
        else:
            env.idx[k] = sv


def hashed(env, *a):
    return env_value(env, tuple(key(env, x) for x in a))


def env_value(env, k):
    r = h(env.seed, 'fn', rnd(k))
    return Fraction(r.randint(-60, 60), r.choice((1, 2, 4, 8)))


def rnd(k):
    """floats inside a hashed key are rounded so that equal reals agree"""
    if isinstance(k, tuple):
        return tuple(rnd(x) for x in k)
    if isinstance(k, (float, complex)):
        return '%.9g' % abs(k) + ('-' if (k.real if isinstance(k, complex) else k) < 0 else '')
    return k


def mpf_part(p, v):
    """the components of the binary floating-point number v"""
    if not isinstance(v, Fraction) or v.denominator & (v.denominator - 1):
        raise Skip('not a binary number')
    man, exp = abs(v.numerator), -(v.denominator.bit_length() - 1)
    while man and man % 2 == 0:
        man, exp = man // 2, exp + 1
    return Fraction({'sign': int(v < 0), 'man': man, 'exp': exp if man else 0, 'bc': man.bit_length(), 'sman': man if v >= 0 else -man}[p])


def real(v):
    if isinstance(v, complex):
        if abs(v.imag) < 1e-12:
            return v.real
        raise Skip('complex')
    return v


def ev_fn(env, a):
    if not isinstance(a[1], str):
        return evm(env, matom(a))[2][0][0]
    f, args = a[1], a[2:]
    if f in ('recfin', 'recat'):
        return recurrence(env, *args)
    if f == 'cnz' and len(args) == 1 and isinstance(args[0], Mat):
        return Fraction(sum(not near(x, 0) for r in evm(env, args[0])[2] for x in r))
    if f == 'prod':
        q = max_qi(env, args[1])
        out = Fraction(1)
        for i in range(max(0, evi(env, args[0]))):
            out = out * with_idx(env, q, i, lambda: ev(env, args[1]))
        return out
    if f in ('float', 'mpf', 'float64', 'mpc', 'complex', 'real', 'conj') and len(args) == 1 and isinstance(args[0], (Sc, Num)):
        return ev(env, args[0] if isinstance(args[0], Sc) else args[0].s)
    if f == 'imag' and len(args) == 1:
        return Fraction(0)
    if f in ('sround', 'mround') and len(args) == 3:
        # a stand-in for rounding: to a step that depends on the precision and the mode, to the nearest
        v = real(ev(env, args[0]))
        k = 2 + h(0, 'rounding', repr(args[1:])).randint(0, 5)
        return Fraction(round(v * k * 4), k * 4)
    if f in ('mpf.sign', 'mpf.man', 'mpf.exp', 'mpf.bc', 'mpf.sman') and len(args) == 1:
        return mpf_part(f[4:], ev(env, args[0] if isinstance(args[0], Sc) else args[0].s))
    if args and isinstance(args[0], Sc):
        if f in ('abs', 'absolute', 'fabs') and len(args) == 1:
            return abs(ev(env, args[0]))
        if f in ('floor', 'ceil', 'int', 'trunc', 'sign', 'round', 'rint') and len(args) == 1:
            v = real(ev(env, args[0]))
            if f == 'floor':
                return Fraction(math.floor(v))
            if f == 'ceil':
                return Fraction(math.ceil(v))
            if f in ('int', 'trunc'):
                return Fraction(int(v))
            if f == 'sign':
                return Fraction((v > 0) - (v < 0))
            return Fraction(round(v))
        if f == 'log':
            v = ev(env, args[0])
            if v == 0:
                raise Skip('log of zero')
            base = None
            for x in args[1:]:
                if isinstance(x, tuple) and x[0] == 'base':
                    base = x[1]
                elif isinstance(x, Num):
                    base = ev(env, x.s)
                elif isinstance(x, Sc):
                    base = ev(env, x)
            try:
                if isinstance(v, complex) or v < 0:
                    r = cmath.log(v)
                    return r / math.log(base) if base else r
                if base == 2:
                    return math.log2(v)
                if base == 10:
                    return math.log10(v)
                return math.log(v) / math.log(base) if base else math.log(v)
            except (ValueError, ZeroDivisionError, OverflowError):
                raise Skip('log')
        if f in ('sqrt', 'exp', 'sin', 'cos', 'tan') and len(args) == 1:
            try:
                return getattr(cmath, f)(complex(ev(env, args[0])))
            except (ValueError, OverflowError):
                raise Skip(f)
        if f == 'pow' and len(args) == 2 and isinstance(args[1], Sc):
            x, y = ev(env, args[0]), ev(env, args[1])
            try:
                if isinstance(y, Fraction) and y.denominator == 1 and abs(y) < 200:
                    if x == 0 and y < 0:
                        raise Skip('0**-n')
                    return x ** int(y)
                return complex(x) ** complex(y)
            except (ZeroDivisionError, OverflowError):
                raise Skip('pow')
        if f in ('max', 'min') and all(isinstance(x, Sc) for x in args):
            vs = [real(ev(env, x)) for x in args]
            return (max if f == 'max' else min)(vs)
        if f in ('floordiv', 'mod') and len(args) == 2 and isinstance(args[1], Sc):
            x, y = real(ev(env, args[0])), real(ev(env, args[1]))
            if y == 0:
                raise Skip('modulo 0')
            return Fraction(math.floor(x / y)) if f == 'floordiv' else x - y * math.floor(x / y)
        if f == 'int' and len(args) == 1:
            return Fraction(int(real(ev(env, args[0]))))
    if f in ('int', 'bool', 'float') and len(args) == 1:
        k = key(env, args[0])
        if isinstance(k, tuple) and k and k[0] == 'b':
            return Fraction(int(k[1]))
        if isinstance(k, tuple) and len(k) == 2 and k[0] == 'o':
            k = k[1]
        return env_value(env, (f, k))
    return hashed(env, f, *args)


def max_qi(env, x):
    """the index bound by the binder around x: the highest one no enclosing binder has bound"""
    best = None
    for a in walk_atoms(x):
        if a[0] == 'qi' and len(a) > 1 and a not in env.idx and (best is None or a[1] > best[1]):
            best = a
    return best or ('qi', 99)


def max_qi_list(env, xs):
    return max_qi(env, tuple(xs))


def recurrence(env, n, which, system):
    q = max_qi_list(env, [u for _, u in system])
    N = evi(env, n)
    if N > 40:
        raise Skip('long')
    names, cur = [], []
    for i, (init, upd) in enumerate(system):
        names.append(None)
        cur.append(recval(env, init))
    lv = system_level(system)
    shapes = []
    for init, _ in system:
        shapes.append((init.rows, init.cols) if isinstance(init, Mat) else None)
    atoms = []
    found = {}
    for _, u in system:
        for a in walk_atoms(u if isinstance(u, (tuple, Sc, Mat)) or hasattr(u, 'akids') else ()):
            if a[0] == 'car' and str(a[-1]).startswith('#%d.' % lv):
                found[int(str(a[-1]).split('.')[1])] = a
    sv_car, sv_idx = dict(env.car), dict(env.idx)
    try:
        for it in range(max(0, N)):
            for i, c in enumerate(cur):
                if i in found:
                    env.car[found[i]] = c
            env.idx[q] = it
            new = []
            for i, (init, u) in enumerate(system):
                if isinstance(u, tuple) and u and u[0] == 'writes':
                    new.append(apply_writes(env, cur[i], u[1]))
                else:
                    new.append(recval(env, u))
            cur = new
    finally:
        env.car, env.idx = sv_car, sv_idx
    return cur[which]


def system_level(system):
    best = 0
    for _, u in system:
        for a in walk_atoms(u if isinstance(u, (tuple, Sc, Mat)) or hasattr(u, 'akids') else ()):
            if a[0] == 'car' and str(a[-1]).startswith('#'):
                best = max(best, int(str(a[-1])[1:].split('.')[0]))
    return best


def recval(env, x):
    if isinstance(x, Sc):
        return ev(env, x)
    if isinstance(x, Mat):
        return evm(env, x)
    if isinstance(x, Num):
        return ev(env, x.s)
    if isinstance(x, FrozenArr):
        return evm(env, x.mat)
    return key(env, x)


def apply_writes(env, base, writes):
    rows, cols, data = base[0], base[1], [list(r) for r in base[2]]
    for (_, bnds, r, c, val) in writes:
        def go(i):
            if i < len(bnds):
                n = evi(env, bnds[i])
                for t in range(max(0, n)):
                    with_idx(env, ('wb', i), t, lambda: go(i + 1))
                return
            rr = (evi(env, r[1]), evi(env, r[1]) + 1) if r[0] == 'at' else (evi(env, r[1]), evi(env, r[2]))
            cc = (evi(env, c[1]), evi(env, c[1]) + 1) if c[0] == 'at' else (evi(env, c[1]), evi(env, c[2]))
            if isinstance(val, Sc):
                v = ev(env, val)
                get = lambda p, q: v
            else:
                vm = evm(env, val)
                get = lambda p, q: vm[2][p][q]
            for p in range(rr[0], rr[1]):
                for q in range(cc[0], cc[1]):
                    if not (0 <= p < rows and 0 <= q < cols):
                        raise Skip('write outside')
                    data[p][q] = get(p - rr[0], q - cc[0])
        go(0)
    return rows, cols, data


# ------------------------------------------------------------------------------------------- matrices
def named_entry(env, a, i, j):
    name = a[3]
    if name in env.makers:
        return Fraction(env.makers[name](env, i, j))
    if len(a) > 4 and i > j:
        i, j = j, i
    return env.value('mat', str(name), i, j)


def evm(env, M):
    if isinstance(M, Mat):
        return memo(env, M, lambda: evm_(env, M))
    raise Unresolved('matrix')


def evm_(env, M):
    rp = [evi(env, d) for d in M.rp]
    cp = [evi(env, d) for d in M.cp]
    if any(d < 0 for d in rp + cp):
        raise Skip('negative size')
    R, C = sum(rp), sum(cp)
    out = [[Fraction(0)] * C for _ in range(R)]
    r0 = 0
    for i, r in enumerate(M.cells):
        c0 = 0
        for j, cell in enumerate(r):
            if rp[i] and cp[j]:
                for w, k in cell.d.items():
                    kv = ev(env, k)
                    X = word(env, w, rp[i], cp[j])
                    for p in range(rp[i]):
                        for q in range(cp[j]):
                            out[r0 + p][c0 + q] = out[r0 + p][c0 + q] + kv * X[2][p][q]
            c0 += cp[j]
        r0 += rp[i]
    return R, C, out


def word(env, w, R, C):
    if not w:
        return R, C, [[Fraction(1 if p == q else 0) for q in range(C)] for p in range(R)]
    X = None
    for a, t in w:
        Y = evatom(env, a)
        if t:
            Y = (Y[1], Y[0], [[Y[2][p][q] for p in range(Y[0])] for q in range(Y[1])])
        X = Y if X is None else mat_mul(X, Y)
    if (X[0], X[1]) != (R, C):
        raise Skip('sizes')
    return X


def mat_mul(X, Y):
    if X[1] != Y[0]:
        raise Skip('sizes')
    return X[0], Y[1], [[sum((X[2][i][k] * Y[2][k][j] for k in range(X[1])), Fraction(0)) for j in range(Y[1])] for i in range(X[0])]


def evatom(env, a):
    if a in env.car:
        return env.car[a]
    return memo(env, a, lambda: evatom_(env, a))


def evatom_(env, a):
    hd = a[0]
    R, C = evi(env, a[1]), evi(env, a[2])
    if R < 0 or C < 0:
        raise Skip('negative size')

    def build(f):
        return R, C, [[f(i, j) for j in range(C)] for i in range(R)]
    if hd == 'mat':
        return build(lambda i, j: named_entry(env, a, i, j))
    if hd == 'sub':
        B = evm(env, a[3][3]) if a[3][0] == 'blk' else evatom(env, a[3])
        r0, c0 = evi(env, a[4]), evi(env, a[6])
        if r0 < 0 or c0 < 0 or r0 + R > B[0] or c0 + C > B[1]:
            raise Skip('slice')
        return build(lambda i, j: B[2][r0 + i][c0 + j])
    if hd == 'ones':
        return build(lambda i, j: Fraction(1))
    if hd == 'exch':
        return build(lambda i, j: Fraction(1 if i + j == R - 1 else 0))
    if hd == 'shift':
        k = int(a[3])
        return build(lambda i, j: Fraction(1 if i + k == j else 0))
    if hd == 'diag':
        v = evm(env, a[3])
        return build(lambda i, j: v[2][0][i] if i == j else Fraction(0))
    if hd == 'lam':
        out = []
        for i in range(R):
            row = []
            for j in range(C):
                row.append(with_idx(env, ('bi',), i, lambda: with_idx(env, ('bj',), j, lambda: ev(env, a[3]))))
            out.append(row)
        return R, C, out
    if hd == 'blk':
        return evm(env, a[3])
    if hd == 'inv':
        return inverse(evm(env, a[3]))
    if hd == 'fn':
        f = a[3]
        if f in ('tril', 'triu') and len(a) in (5, 6) and isinstance(a[4], Mat):
            m = evm(env, a[4])
            k = evi(env, a[5].s if isinstance(a[5], Num) else a[5]) if len(a) == 6 else 0
            return build(lambda i, j: m[2][i][j] if (j - i <= k if f == 'tril' else j - i >= k) else Fraction(0))
        if f == 'ulow':
            m = evm(env, a[4])
            return build(lambda i, j: m[2][i][j] if i > j else Fraction(int(i == j)))
        if f in ('recfin', 'recat'):
            return recurrence(env, *a[4:])
        if f == 'arr':
            return apply_writes(env, evm(env, a[4]), a[5])
        if f == 'choice':
            for lits, m in a[4:]:
                if all(cond(env, c) == v for c, v in lits):
                    return evm(env, m)
            raise Skip('choice')
        if f == 'conv':
            x, y = evm(env, a[4]), evm(env, a[5])
            xs = [v for r in x[2] for v in r]
            ys = [v for r in y[2] for v in r]
            o = [Fraction(0)] * (len(xs) + len(ys) - 1)
            for i, u in enumerate(xs):
                for j, v in enumerate(ys):
                    o[i + j] = o[i + j] + u * v
            return build(lambda i, j: o[i * C + j])
        if f == 'poly' and len(a) == 5 and isinstance(a[4], Mat):
            o = charpoly(evm(env, a[4]))
            return build(lambda i, j: o[j + 1])
        if f == 'polyroots' and len(a) == 5 and isinstance(a[4], Mat):
            o = [Fraction(1)]
            for r in evm(env, a[4])[2][0]:
                o = [x - y * r for x, y in zip(o + [Fraction(0)], [Fraction(0)] + o)]
            return build(lambda i, j: o[j + 1])
        if f in ('lyap', 'lyapc') and len(a) == 6:
            x, q = evm(env, a[4]), evm(env, a[5])
            k = x[0]
            if k > 4:
                raise Skip('size')
            # X = A X A' + Q
            def co(i, j, u, v):
                if f == 'lyapc':        # A X + X A' + Q = 0
                    return -(x[2][i][u] if j == v else 0) - (x[2][j][v] if i == u else 0) + Fraction(0)
                return Fraction(int((i, j) == (u, v))) - x[2][i][u] * x[2][j][v]
            M = [[co(i, j, u, v) for u in range(k) for v in range(k)] for i in range(k) for j in range(k)]
            o = mat_mul(inverse((k * k, k * k, M)), (k * k, 1, [[q[2][i][j]] for i in range(k) for j in range(k)]))
            return build(lambda i, j: o[2][i * k + j][0])
        if f == 'kron':
            x, y = evm(env, a[4]), evm(env, a[5])
            return build(lambda i, j: x[2][i // y[0]][j // y[1]] * y[2][i % y[0]][j % y[1]])
        if f == 'mpow' and len(a) == 6:
            x = evm(env, a[4])
            n = evi(env, a[5]) if isinstance(a[5], Sc) else int(ev(env, a[5].s))
            if n < 0:
                x, n = inverse(x), -n
            o = word(env, (), R, C)
            for _ in range(n):
                o = mat_mul(o, x)
            return o
        if f[3:] in EW_CMP and f.startswith('ew:') and len(a) == 6 and isinstance(a[4], Mat) and isinstance(a[5], Mat):
            x, y = evm(env, a[4]), evm(env, a[5])
            return build(lambda i, j: Fraction(int(EW_CMP[f[3:]](x[2][i][j], y[2][i][j]))))
        if f.startswith('ew:') and len(a) >= 5 and isinstance(a[4], Mat):
            m = evm(env, a[4])
            rest = a[5:]
            return build(lambda i, j: ev_fn2(env, f[3:], m[2][i][j], rest))
        k = tuple(key(env, x) for x in a[3:])
        return build(lambda i, j: env_value(env, (k, i, j)))
    raise Unresolved(hd)


EW_CMP = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def ev_fn2(env, f, v, rest):
    return ev_fn(env, ('fn', f, Sc.const(v) if isinstance(v, Fraction) else sc(Fraction(v).limit_denominator(10 ** 12))) + tuple(rest))


def charpoly(M):
    """coefficients of det(xI - M), highest power first"""
    n = M[0]
    if n != M[1]:
        raise Skip('characteristic polynomial')
    c = [Fraction(1)]
    X = (n, n, [[Fraction(0)] * n for _ in range(n)])
    for k in range(1, n + 1):
        X = mat_mul(M, X)
        X = (n, n, [[X[2][i][j] + (c[-1] if i == j else 0) for j in range(n)] for i in range(n)])
        Y = mat_mul(M, X)
        c.append(-sum((Y[2][i][i] for i in range(n)), Fraction(0)) / k)
    return c


def inverse(M):
    n = M[0]
    if n != M[1]:
        raise Skip('inverse')
    A = [list(M[2][i]) + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c] != 0), None)
        if p is None:
            raise Skip('singular')
        A[c], A[p] = A[p], A[c]
        iv = 1 / A[c][c]
        A[c] = [x * iv for x in A[c]]
        for r in range(n):
            if r != c and A[r][c] != 0:
                k = A[r][c]
                A[r] = [x - k * y for x, y in zip(A[r], A[c])]
    return n, n, [r[n:] for r in A]


# ------------------------------------------------------------------------------------------- conditions
def cond(env, c):
    if isinstance(c, bool):
        return c
    if isinstance(c, CondV):
        return cond(env, c.c) != c.neg
    hd = c[0]
    if hd == 'eq0':
        return near(ev(env, c[1]), 0)
    if hd == 'lt0':
        return real(ev(env, c[1])) < 0
    if hd == 'eqv':
        return same(key(env, c[1]), key(env, c[2]))
    if hd == 'exists':
        q = max_qi(env, tuple(x for x, _ in c[2]))
        for i in range(max(0, evi(env, c[1]))):
            if with_idx(env, q, i, lambda: all(cond(env, x) == v for x, v in c[2])):
                return True
        return False
    if hd == 'mateq':
        a, b = key(env, c[1]), key(env, c[2])
        return same(a, b)
    if hd in ('all', 'any') and isinstance(c[1], Mat):
        m = evm(env, c[1])
        vs = [x != 0 for r in m[2] for x in r]
        return all(vs) if hd == 'all' else any(vs)
    if hd == 'almosteq':
        a, b = ev(env, c[1]), ev(env, c[2])
        eps = {k[0]: ev(env, k[1].s if isinstance(k[1], Num) else k[1]) for k in c[3:] if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], (Sc, Num))}
        return near(a, b) or 'abs_eps' in eps and abs(a - b) <= eps['abs_eps'] or 'rel_eps' in eps and abs(a - b) <= eps['rel_eps'] * max(abs(a), abs(b))
    if hd == 'isint':
        v = ev(env, c[1])
        return isinstance(v, Fraction) and v.denominator == 1
    if hd == 'ltv':
        a, b = key(env, c[1]), key(env, c[2])
        if isinstance(a, (Fraction, float)) and isinstance(b, (Fraction, float)):
            return a < b
    if hd in ('and', 'or'):
        vs = [cond(env, x) for x in c[1:]]
        return all(vs) if hd == 'and' else any(vs)
    if hd == 'not':
        return not cond(env, c[1])
    raise Unresolved('condition %s' % (hd,))


def near(a, b):
    if isinstance(a, Fraction) and isinstance(b, (Fraction, int)):
        return a == b
    return abs(a - b) <= 1e-8 * max(1, abs(a), abs(b))


def same(a, b):
    if isinstance(a, (int, float, complex, Fraction)) and isinstance(b, (int, float, complex, Fraction)) \
            and not isinstance(a, bool) and not isinstance(b, bool):
        return near(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


# ------------------------------------------------------------------------------------------- witnesses
def sizes(B, names, top=3, cap=400):
    """small size assignments, generic (pairwise different) ones first"""
    import itertools
    rng = []
    for n in names:
        lo = B.low.get(('sym', n), 0)
        rng.append(range(int(lo), int(lo) + top + 1))
    allv = list(itertools.islice(itertools.product(*rng), 200000))
    allv.sort(key=lambda v: (-len(set(v)), sum(v), v))
    # spread: generic first, then evenly through the rest
    if len(allv) > cap:
        head = allv[:cap // 2]
        step = max(1, len(allv) // (cap // 2))
        allv = head + allv[cap // 2::step]
    return [dict(zip(names, v)) for v in allv]


def syms_of(*xs):
    out = set()
    for x in xs:
        for a in walk_atoms(x):
            if a[0] == 'sym':
                out.add(a[1])
    return out


ENVIRONMENT = ('fails', 'absent', 'notfloat')   # outcomes of the outside world: free on every instance


def path_holds(env, lits):
    """True when every condition is evaluable and holds"""
    for c, v in lits:
        if c[0] in ENVIRONMENT:
            continue
        try:
            if cond(env, c) != v:
                return False
        except (Unresolved, Skip, ZeroDivisionError, OverflowError):
            return False
    return True


def solve_syms(dims, lits):
    """values imposed on free scalars by the path conditions x + constant == 0"""
    out = {}
    for c, v in lits:
        if v is not True or c[0] != 'eq0' or not isinstance(c[1], Sc):
            continue
        k, one = Fraction(0), []
        for m, q in c[1].t.items():
            if not m:
                k += q
            else:
                one.append((m, q))
        if len(one) == 1 and len(one[0][0]) == 1 and one[0][0][0][1] == 1:
            a = one[0][0][0][0]
            if a[0] == 'sym' and a[1] not in dims:
                out[a] = -k / one[0][1]
    return out


def envs(B, dims, lits, extra=(), makers=None, want=None, top=3, fixed=None):
    """instances satisfying the path conditions and the extra conditions"""
    dl = [(c, v) for c, v in lits if all(a[0] in ('sym',) for a in walk_atoms(c) if a[0] in ('sym', 'ent', 'mat', 'fn', 'msum', 'opq', 'top', 'ite', 'car'))]
    dl = [(c, v) for c, v in dl if all(x in dims for x in syms_of(c))]
    solved = solve_syms(dims, lits)
    n = got = 0
    pins = getattr(dims, 'pins', None) or {}
    names = sorted(x for x in dims if x not in pins)
    if pins:
        fixed = dict(fixed or {}, **pins)
    data = len(dl) < len(lits)
    for rnd, d in [(0, d) for d in sizes(B, names, top)] + ([(1, d) for d in sizes(B, names, min(top, 2))] if data else []):
        if fixed:
            d = dict(d, **fixed)
        if rnd and got >= 8:
            break
        e0 = Env(d, 0, 'rat', makers)
        try:
            if not all(cond(e0, c) == v for c, v in dl):
                continue
        except (Unresolved, Skip):
            pass
        if extra and not all(f(d) for f in extra):
            continue
        for mode in MODES if not rnd else ('lead', 'last', 'lead', 'last', 'sparse', 'sparse', 'sparse', 'sparse', 'small', 'small'):
            env = Env(d, n, mode, makers)
            env.vals.update(solved)
            if path_holds(env, lits):
                got += 1
                yield env
            n += 1
        if n > (want or 240) * (2 if data else 1):
            break
    for d in sizes(B, names, min(top, 3)) if data else ():
        # many entries equal, opposite or null
        d = dict(d, **fixed) if fixed else d
        if extra and not all(f(d) for f in extra) or max(d.values(), default=0) > 8:
            continue
        for _ in range(12):
            env = Env(d, n, 'units', makers)
            env.vals.update(solved)
            n += 1
            if path_holds(env, lits):
                yield env
        if n > 2 * (want or 240):
            break
    for k in scales(lits):
        for d in sizes(B, names, min(top, 2))[:4]:
            d = dict(d, **fixed) if fixed else d
            if extra and not all(f(d) for f in extra):
                continue
            for mode in ('rat', 'sparse'):
                env = Env(d, n, mode, makers)
                env.scale = k
                env.vals.update(solved)
                n += 1
                if path_holds(env, lits):
                    yield env


def scales(lits):
    """magnitudes around the very small or large thresholds that appear in path conditions"""
    out = []

    def walk(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] in ('lt0', 'eq0') and isinstance(x[1], Sc):
            k = abs(Fraction(x[1].t.get((), 0)))
            if k and (k < Fraction(1, 1000) or k > 1000):
                k = k / 64 if k < 1 else k * 8
                if k not in out:
                    out.append(k)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
    walk([x for x, v in lits])
    return out[:4]


def differ(B, dims, lits, a, b, extra=(), makers=None):
    """a witness on which formulas a and b differ: (env, value of a, value of b); None when there is none;
    raises Unresolved when a formula contains something the analysis did not resolve"""
    got = 0
    for env in envs(B, dims, lits, extra, makers):
        try:
            x, y = recval(env, a), recval(env, b)
        except Skip:
            continue
        except (ZeroDivisionError, OverflowError):
            continue
        got += 1
        if not same(freeze(x) if isinstance(x, tuple) and len(x) == 3 and isinstance(x[2], list) else x,
                    freeze(y) if isinstance(y, tuple) and len(y) == 3 and isinstance(y[2], list) else y):
            return env, x, y
        if got > 60:
            break
    return None


def feasible(B, dims, lits, extra=(), makers=None):
    """an instance on which the path conditions hold"""
    for env in envs(B, dims, lits, extra, makers):
        return env
    return None
