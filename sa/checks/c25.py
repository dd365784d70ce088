"""C25: operation counts and predicates of the coefficients"""
from fractions import Fraction
from .common import *

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of the counts and predicates over symbolic coefficient blocks, compared with a direct enumeration of the '
               'coefficients (refuted by an instance of the extracted formula)')
SOURCES = ('SIF',)
F = 'fixif/SIF/SIF.py::'
REF = '''
from math import log
import numpy as np
from numpy import count_nonzero, tril, all

def isTrivial(x, epsilon):
	if x == 0:
		return True
	p = round(log(abs(x), 2))
	alpha = log(abs(x), 2) - p
	return abs(alpha) < epsilon*(1-epsilon/2)

def counts(Z, l, n, p, epsilon):
	return count_nonzero(np.vectorize(lambda x: int(not isTrivial(x, epsilon)))(Z)), count_nonzero(Z) - l - (l+n+p)

def lower(P):
	if all(tril(P, -1) == 0):
		return False
	return True
'''
POOL = [Fraction(x) for x in ('0', '0', '0', '1', '-1', '2', '-4', '1/2', '-1/8', '1024', '3', '-3', '3/4', '5/7', '-7/5', '181/128', '6', '1/3', '-1/1000', '1/1024')]


def trivial(x):
    x = abs(x)
    if x == 0:
        return True
    while x >= 2:
        x /= 2
    while x < 1:
        x *= 2
    return x == 1


def check(R):
    R.rule('trivial', 'trivial: zero, or a power of two within the tolerance, of either sign')
    R.rule('count', 'multiplications: non-trivial coefficients; additions: non-zero coefficients minus one per row, unit diagonal excluded')
    R.rule('predicate', 'true exactly when the state matrix has a non-zero entry below its diagonal')
    R.rule('accepts', 'the counts and predicates are available for every realization')
    R.case('isTrivial', lambda c: is_trivial(R, c))
    for l0 in (False, True):
        for after in (None, 'P', 'J'):
            if after == 'J' and l0:
                continue
            R.case('nbOp %s %s' % (l0, after), lambda c: count(R, c, l0, after))
            R.case('isPnut %s %s' % (l0, after), lambda c: lower(R, c, l0, after))


def is_trivial(R, c):
    con = F + 'isTrivial'
    PAIRS = []
    for eps in (Fraction(1, 100), Fraction(1, 1000)):
        for p in (0, 1, -1, 5, -7, 10):
            for s in (1, -1):
                b = Fraction(2) ** p * s
                PAIRS += [(b, eps, True), (b * (1 + eps * 3 / 5), eps, True), (b * (1 - eps * 3 / 5), eps, True), (b * (1 + eps * 6 / 5), eps, False),
                          (b * (1 - eps * 6 / 5), eps, False), (b * (1 + 2 * eps), eps, False), (b * Fraction(3, 2), eps, False), (b * Fraction(5, 4), eps, False), (b * Fraction(29, 16), eps, False)]
        PAIRS.append((Fraction(0), eps, True))
    pick = lambda env: PAIRS[(env.seed * 7 + 3) % len(PAIRS)]
    c.makers['X'] = lambda env, i, j: pick(env)[0]
    c.makers['E'] = lambda env, i, j: pick(env)[1]
    n = c.dim('u', 1)       # only to have many instances
    x = entry(mnamed('X', n, 1), ZERO, ZERO, c.I.B)
    e = entry(mnamed('E', n, 1), ZERO, ZERO, c.I.B)
    f = c.func('fixif.SIF.SIF', 'isTrivial')
    for k in ('float64', 'int'):
        what = 'value %s' % k
        outs = c.exceptions(c.run(lambda: c.call(f, Num(x, k), Num(e, 'float'))), 'accepts', con, what)
        ref = c.run(lambda: c.call(c.ref(REF, 'isTrivial'), Num(x, k), Num(e, 'float')))
        c.verdict(outs, lambda env: pick(env)[2], 'trivial', con, what, ref=ref)


def prepare(R, c, l0, after, got):
    d = sif_dims(c, l0)
    for k in list('KLMNPQRS'):
        c.makers[k] = (lambda k: lambda env, i, j: pool(env, k, i, j))(k)
    c.makers['J'] = lambda env, i, j: Fraction(int(i == j)) if i <= j else pool(env, 'J', i, j)
    got['d'] = d
    s, _, m = new_sif(c, d)
    m = dict(m)
    if after:
        # a change of coefficients after everything was read once
        c.meth(s, 'nbOp')
        r, k = m[after].rows, m[after].cols
        if after == 'J':
            c.makers['J2'] = lambda env, i, j: Fraction(int(i == j)) if i <= j else pool(env, 'J2', i, j)
        else:
            c.makers[after + '2'] = lambda env, i, j: pool(env, after + '2', i, j)
        m[after] = mnamed(after + '2', r, k)
        c.I.setattr(s, after, c.I.arr('matrix', m[after], 2))
    got['m'], got['s'] = m, s
    return s


def pool(env, *key):
    v = env.value('mat', *key)
    if env.mode == 'units':
        return v
    return POOL[(v.numerator * 31 + v.denominator) % len(POOL)]


def blocks(m, B, neg):
    J = mneg(m['J']) if neg else m['J']
    return mvstack([mhstack([J, m['M'], m['N']], B), mhstack([m['K'], m['P'], m['Q']], B), mhstack([m['L'], m['R'], m['S']], B)], B)


def count(R, c, l0, after):
    con = F + 'SIF.nbOp'
    got = {}
    what = 'any coefficients%s%s' % (', no intermediate variable' if l0 else '', ', after %s changed' % after if after else '')

    def th():
        return c.meth(prepare(R, c, l0, after, got), 'nbOp')
    for o in c.exceptions(c.run(th), 'accepts', con, what):
        if not isinstance(o.value, Tup) or len(o.value.items) != 2:
            c.holds(o, None, 'count', con, what, 'gives %s' % short(o.value))
            continue
        d = got['d']
        Z = c.at(o, lambda: blocks(got['m'], c.I.B, True))
        eps = c.at(o, lambda: c.I.getattr(got['s'], 'epsilondZ'))
        w, = c.at(o, lambda: c.I.run_paths(lambda: c.call(c.ref(REF, 'counts'), c.I.arr('matrix', Z, 2), Num(sc(d['l']), 'int'), Num(sc(d['n']), 'int'), Num(sc(d['p']), 'int'), eps)))
        for i, (name, f) in enumerate((('multiplications', mults), ('additions', adds))):
            if name == 'multiplications' and after == 'J':
                continue        # the flags describe the coefficients given at construction

            def proof(v, Z, l, i=i):
                return not (v - w.value.items[i].s).t
            c.judge(o, [o.value.items[i], Z, sc(d['l'])], f, 'count', con, name + ', ' + what, proof=proof)


def mults(env, v, Z, l):
    w = sum(not trivial(x) for r in Z[2] for x in r)
    return True if v == w else '%s multiplications instead of %d' % (show_val(v), w)


def adds(env, v, Z, l):
    w = sum(x != 0 for r in Z[2] for x in r) - Z[0] - int(l)
    return True if v == w else '%s additions instead of %d' % (show_val(v), w)


def lower(R, c, l0, after):
    con = F + 'SIF.isPnut'
    got = {}
    what = 'any coefficients%s%s' % (', no intermediate variable' if l0 else '', ', after %s changed' % after if after else '')
    outs = c.exceptions(c.run(lambda: c.meth(prepare(R, c, l0, after, got), 'isPnut')), 'accepts', con, what)
    P = c.I.arr('matrix', got['m']['P'], 2)
    ref = c.run(lambda: c.call(c.ref(REF, 'lower'), c.I.arr('matrix', got['m']['P'], 2)))

    def want(env):
        v = evalf.evm(env, got['m']['P'])
        return any(v[2][i][j] != 0 for i in range(v[0]) for j in range(i))
    c.verdict(outs, want, 'predicate', con, what, ref=ref)
