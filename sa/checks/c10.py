"""C10: multiprecision matrix operations compute the right entries for any shape"""
import ast
from fractions import Fraction
from .mpops import *

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of each multiprecision operation on operands of any (rectangular) sizes: entry loops are summarised in '
               'closed form and compared with the defining matrix formula; a different formula is refuted by an instance')
SOURCES = ('MPFMatrix', 'mpf_matrix', 'mpf_')
MPC = 'fixif/func_aux/MPFMatrix.py::MPFMatrix.'
SPEC = '''
import numpy

def doubles(A, m, n):
	M = numpy.matrix(numpy.zeros([m, n]))
	for i in range(m):
		for j in range(n):
			M[i, j] = float(A[i, j])
	return M

def parts(A, m, n):
	Y = numpy.zeros([m, n], dtype=object)
	N = numpy.zeros([m, n], dtype=object)
	for i in range(m):
		for j in range(n):
			t = A[i, j]._mpf_
			Y[i, j] = -t[1] if t[0] else t[1]
			N[i, j] = t[2]
	return Y, N

def rows(A, m, n):
	S = []
	Y, N = parts(A, m, n)
	for i in range(m):
		for j in range(n):
			S.append(Y[i, j] * 2**N[i, j])
	return S

def unrow(S, m, n, mode, round):
	M = numpy.matrix(numpy.zeros([m, n]))
	for i in range(m):
		for j in range(n):
			M[i, j] = float(round(S[i * n + j], 53, mode))
	return M

def same(A, B, m, n):
	for i in range(m):
		for j in range(n):
			if not A[i, j] == B[i, j]:
				return False
	return True

def close(A, B, m, n, eps):
	import mpmath
	for i in range(m):
		for j in range(n):
			if not mpmath.almosteq(A[i, j], B[i, j], abs_eps=eps):
				return False
	return True

def conv(p, q):
	import mpmath
	r = p.rows + q.rows - 1
	c = mpmath.zeros(r, 1)
	pp = mpmath.zeros(r, 1)
	qq = mpmath.zeros(r, 1)
	for i in range(p.rows):
		pp[i, 0] = p[i, 0]
	for i in range(q.rows):
		qq[i, 0] = q[i, 0]
	for i in range(r):
		c[i, 0] = mpmath.nsum(lambda j: pp[j, 0] * qq[i - j, 0], [0, i])
	return c
'''


def check(R):
    R.rule('value', 'the result is the defining formula, entry by entry, with the right shape')
    R.rule('accepts', 'conforming operands of any sizes are accepted')
    R.rule('truth', 'a comparison is true exactly when every entry compares')
    R.rule('size', 'the reported sizes and entries are those of the matrix')
    for name, con, f, exact, strip in operations():
        R.case(name, lambda c: op(R, c, name, con, f, strip))
    for k in ('mpf_to_numpy', 'to_numpy'):
        R.case(k, lambda c: doubles(R, c, k))
    R.case('mpf_to_numpy scalar', lambda c: scalar_double(R, c))
    R.case('mpc_get_real', lambda c: real_part(R, c))
    for k in ('mpf_matrix_get_representation', 'get_int_representation'):
        R.case(k, lambda c: parts(R, c, k))
    R.case('mpf_get_representation', lambda c: part(R, c))
    for k in ('mpf_matrix_to_sollya', 'to_sollya'):
        R.case(k, lambda c: rows(R, c, k))
    R.case('sollya_matrix_to_numpy', lambda c: unrow(R, c))
    for kb in ('MPF', 'mp', 'matrix'):
        R.case('equal %s' % kb, lambda c: compare(R, c, 'equal', kb))
        R.case('almost_close %s' % kb, lambda c: compare(R, c, 'almost_close', kb))
        R.case('almost_close %s eps' % kb, lambda c: compare(R, c, 'almost_close', kb, True))
    R.case('mpf_poly_mult', lambda c: polymult(R, c))
    for k in range(1, 5):
        for j in [None, -1] + list(range(k)):
            R.case('mp_poly_product %d %s' % (k, j), lambda c: polyprod(R, c, k, j))
    R.case('sizes', lambda c: shape(R, c))


def op(R, c, name, con, f, strip):
    th, want = f(c)
    for o in c.exceptions(c.run(th), 'accepts', con, name):
        c.equal(o, o.value, c.at(o, lambda: want(c.I.B)), 'value', con, name, strip=strip)


def reference(c, o, fn, *a):
    """the value of a specification function in the state of an outcome (the outcomes when there are several)"""
    outs = c.at(o, lambda: c.I.run_paths(lambda: c.call(c.ref(SPEC, fn), *a)))
    return outs


def mn(c, name='A'):
    m, n = c.dims_('m n')
    return m, n, mnamed(name, m, n)


def doubles(R, c, k):
    m, n, A = mn(c)
    con = fn_of(k) if k.startswith('mpf') else MPC + k
    for o in c.exceptions(c.run(lambda: c.call(fa(c, k), wrap(c, A, 'mp')) if k.startswith('mpf') else c.meth(wrap(c, A, 'MPF'), k)), 'accepts', con, k):
        w, = reference(c, o, 'doubles', c.at(o, lambda: wrap(c, A, 'mp')), Num(m), Num(n))
        c.equal(o, o.value, c.matof(w, w.value), 'value', con, k)


def scalar_double(R, c):
    con = fn_of('mpf_to_numpy')
    x = Num(Sc.sym('x'), 'mpf')
    for o in c.exceptions(c.run(lambda: c.call(fa(c, 'mpf_to_numpy'), x)), 'accepts', con, 'scalar'):
        c.equal(o, o.value, Sc.atom(('fn', 'float', x.s)), 'value', con, 'scalar')


def real_part(R, c):
    m, n, A = mn(c)
    con = fn_of('mpc_get_real')
    for o in c.exceptions(c.run(lambda: c.call(fa(c, 'mpc_get_real'), wrap(c, A, 'mp'))), 'accepts', con, 'real matrix'):
        c.equal(o, o.value, A, 'value', con, 'real matrix')


def is_rep(env, Y, N, A):
    Y, N, A = [x if isinstance(x, tuple) else (1, 1, [[x]]) for x in (Y, N, A)]
    if Y[:2] != A[:2] or N[:2] != A[:2]:
        return 'sizes %s and %s for a matrix %s' % (Y[:2], N[:2], A[:2])
    for y, e, a in zip(row_(Y), row_(N), row_(A)):
        if not isinstance(a, Fraction) or a.denominator & (a.denominator - 1):
            return None
        if not isinstance(y, Fraction) or y.denominator != 1 or not isinstance(e, Fraction) or e.denominator != 1 or y * Fraction(2) ** int(e) != a:
            return '(%s, %s) for %s' % (show_val(y), show_val(e), show_val(a))
    return True


def parts(R, c, k):
    m, n, A = mn(c)
    con = fn_of(k) if k.startswith('mpf') else MPC + k
    for o in c.exceptions(c.run(lambda: c.call(fa(c, k), wrap(c, A, 'mp')) if k.startswith('mpf') else c.meth(wrap(c, A, 'MPF'), k)), 'accepts', con, k):
        w, = reference(c, o, 'parts', c.at(o, lambda: wrap(c, A, 'mp')), Num(m), Num(n))
        y, e = [c.matof(w, x) for x in w.value.items]
        if not isinstance(o.value, Tup) or len(o.value.items) != 2:
            c.holds(o, False if isinstance(o.value, (Tup, Const, Num)) else None, 'value', con, k, 'returns %s' % short(o.value))
            continue
        c.judge(o, list(o.value.items) + [A], is_rep, 'value', con, k,
                proof=lambda Y, N, A_: mat_equal(Y, y, c.I.B) and mat_equal(N, e, c.I.B))


def part(R, c):
    con = fn_of('mpf_get_representation')
    x = Sc.sym('x')
    at = lambda p: Sc.atom(('fn', 'mpf.' + p, x))
    for o in c.exceptions(c.run(lambda: c.call(fa(c, 'mpf_get_representation'), Num(x, 'mpf'))), 'accepts', con, 'a number'):
        if not isinstance(o.value, Tup) or len(o.value.items) != 2:
            c.holds(o, False if isinstance(o.value, (Tup, Const, Num)) else None, 'value', con, 'a number', 'returns %s' % short(o.value))
            continue
        pos = ((('eq0', -at('sign')), True) in o.lits) or ((('eq0', at('sign')), True) in o.lits)
        neg = ((('eq0', -at('sign')), False) in o.lits) or ((('eq0', at('sign')), False) in o.lits)

        def proof(Y, N, X):
            return N == at('exp') and (pos and Y == at('man') or neg and Y == -at('man'))
        c.judge(o, list(o.value.items) + [x], is_rep, 'value', con, 'a number', proof=proof)


def rows(R, c, k):
    m, n, A = mn(c)
    con = fn_of(k) if k.startswith('mpf') else MPC + k
    for o in c.exceptions(c.run(lambda: c.call(fa(c, k), wrap(c, A, 'mp')) if k.startswith('mpf') else c.meth(wrap(c, A, 'MPF'), k)), 'accepts', con, k):
        if not isinstance(o.value, Tup) or len(o.value.items) != 3:
            c.holds(o, False if isinstance(o.value, (Tup, Const, Num)) else None, 'value', con, k, 'returns %s' % short(o.value))
            continue
        S, m2, n2 = o.value.items
        c.equal(o, m2, m, 'value', con, k + ': number of rows')
        c.equal(o, n2, n, 'value', con, k + ': number of columns')
        w, = reference(c, o, 'rows', c.at(o, lambda: wrap(c, A, 'mp')), Num(m), Num(n))
        y = c.matof(w, w.value)

        def rel(env, s, a):
            if any(not isinstance(x, Fraction) or x.denominator & (x.denominator - 1) for x in row_(a)):
                return None
            return True if row_(s) == row_(a) else 'the list %s for the rows %s' % (show_val(s), show_val(a))
        c.judge(o, [S, A], rel, 'value', con, k + ': elements by rows', proof=lambda s, a: mat_equal(s, y, c.I.B))


def unrow(R, c):
    m, n = c.dims_('m n')
    con = fn_of('sollya_matrix_to_numpy')
    S = mnamed('S', m * n, ONE)
    for o in c.exceptions(c.run(lambda: c.call(fa(c, 'sollya_matrix_to_numpy'), c.I.arr('mp', S, 2), Num(m), Num(n))), 'accepts', con, 'list by rows'):
        w, = reference(c, o, 'unrow', c.at(o, lambda: c.I.arr('mp', S, 2)), Num(m), Num(n), ExtV('sollya.RN'), ExtV('sollya.round'))
        c.opaque = c.opaque | {'sround'}
        c.equal(o, o.value, c.matof(w, w.value), 'value', con, 'list by rows')


def almost_same(env, i, j):
    """entries of B: those of A, except at one place for two instances of three"""
    from fractions import Fraction
    a = env.value('mat', 'A', i, j)
    s = env.seed % 6
    if s < 2:
        return a
    place = ((i, j) == (0, 0), (i, j) == (env.dims['m'] - 1, env.dims['n'] - 1), (i, j) == (env.dims['m'] - 1, 0), (i, j) == (0, env.dims['n'] - 1))[s - 2]
    return a + (Fraction(1, 8) if env.seed % 2 else 3) if place else a


def compare(R, c, meth, kb, eps=False):
    m, n, A = mn(c)
    Bm = mnamed('B', m, n)
    e = Num(Sc.sym('eps')) if eps else Num(0)
    c.makers['B'] = almost_same
    con = MPC + meth
    what = '%s %s%s' % (meth, kb, ' with a bound' if eps else '')
    outs = c.run(lambda: c.meth(wrap(c, A, 'MPF'), meth, wrap(c, Bm, kb), *([e] if eps else [])))
    good = c.exceptions(outs, 'accepts', con, what)
    mp = lambda x: c.I.arr('mp', x, 2)
    sp = c.run(lambda: c.call(c.ref(SPEC, 'same' if meth == 'equal' else 'close'), mp(A), mp(Bm), Num(m), Num(n), *([e] if meth != 'equal' else [])))
    known = {(frozenset(o.lits), repr(o.value)) for o in sp}
    for o in good:
        v = o.value
        if (frozenset(o.lits), repr(v)) in known:
            R.ok('truth', con, what)
            continue
        if isinstance(v, CondV):
            for s in c.at(o, lambda: c.I.run_paths(lambda: Const(bool(c.I.truth(v))))):
                if s.kind != 'raise':
                    s.lits = list(o.lits) + list(s.lits)
                    truth(c, s, s.value.v, A, Bm, e, eps, con, what)
        elif isinstance(v, Const):
            truth(c, o, bool(v.v), A, Bm, e, eps, con, what)
        else:
            c.holds(o, None, 'truth', con, what, 'value not resolved: %s' % short(v))


def truth(c, o, v, A, Bm, e, eps, con, what):
    def rel(env, a, b, x):
        d = [abs(p - q) for p, q in zip(row_(a), row_(b))]
        t = row_(x)[0]
        if eps and any(0 < abs(y - t) <= Fraction(1, 100) for y in d):
            return None
        want = all(y == 0 or y <= t for y in d)
        return True if want is v else 'is %s for %s and %s%s' % (v, show_val(a), show_val(b), ' with the bound %s' % t if eps else '')
    c.judge(o, [A, Bm, mscalar(e.s)], rel, 'truth', con, what)


def polymult(R, c):
    m, n = c.dims_('m n')
    con = fn_of('mpf_poly_mult')
    P_, Q_ = mnamed('p', m, ONE), mnamed('q', n, ONE)
    for o in c.exceptions(c.run(lambda: c.call(fa(c, 'mpf_poly_mult'), c.I.arr('mp', P_, 2), c.I.arr('mp', Q_, 2))), 'accepts', con, 'any degrees'):
        w, = reference(c, o, 'conv', c.at(o, lambda: c.I.arr('mp', P_, 2)), c.at(o, lambda: c.I.arr('mp', Q_, 2)))
        y = c.matof(w, w.value)

        def rel(env, r, p, q):
            want = pmul_(row_(p), row_(q))
            return True if r[1] == 1 and len(row_(r)) == len(want) and all(close_(a, b) for a, b in zip(row_(r), want)) else \
                'gives %s where the product is %s' % (show_val(r), [show_val(x) for x in want])
        c.judge(o, [o.value, P_, Q_], rel, 'value', con, 'any degrees', proof=lambda r, p, q: mat_equal(r, y, c.I.B))


def polyprod(R, c, k, j):
    con = fn_of('mp_poly_product')
    what = '%d factors%s' % (k, '' if j is None else ', j=%d' % j)
    ps = [Sc.sym('p%d' % i) for i in range(k)]
    want = [ONE]
    for i, p in enumerate(ps):
        if i != j:
            want = [x + y for x, y in zip(want + [ZERO], [ZERO] + [p * z for z in want])]
    W = lambda B: mvstack([mscalar(x) for x in want], B)
    args = [c.lst(*[Num(p, 'mpf') for p in ps])] + ([] if j is None else [Num(j, 'int')])
    for o in c.exceptions(c.run(lambda: c.call(fa(c, 'mp_poly_product'), *args)), 'accepts', con, what):
        c.equal(o, o.value, c.at(o, lambda: W(c.I.B)), 'value', con, what)


def shape(R, c):
    m, n, A = mn(c)
    got = {}

    def th():
        x = wrap(c, A, 'MPF')
        return Tup([c.get(x, 'rows'), c.get(x, 'cols'), c.get(x, 'shape'), c.get(x, 'matrix'), c.I.getitem(x, Tup([Num(0, 'int'), Num(n - 1, 'int')]))])
    con = MPC
    for o in c.exceptions(c.run(th), 'accepts', con + 'shape', 'sizes'):
        r, k, s, M, e = o.value.items
        c.equal(o, r, m, 'size', con + 'rows', 'rows')
        c.equal(o, k, n, 'size', con + 'cols', 'cols')
        c.equal(o, s, mhstack([mscalar(m), mscalar(n)], c.I.B), 'size', con + 'shape', 'shape')
        c.equal(o, M, A, 'size', con + 'matrix', 'matrix')
        c.equal(o, e, c.at(o, lambda: entry(A, ZERO, n - 1, c.I.B)), 'size', con + '__getitem__', 'entry')
