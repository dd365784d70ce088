"""C09: exact multiprecision operations never round"""
import ast
from .mpops import *

LEVEL = 'other'
EXPLANATION = ('abstract interpretation in which every arithmetic step performed at the ambient working precision (mpmath operators, mpf(), '
               'sums and products of doubles, float()) marks its result: the results of the exact operations must carry no such mark')
SOURCES = ('MPFMatrix', 'mpf_matrix', 'dSSmp')
MARKS = ('rnd', 'ew:rnd', 'float', 'ew:float')


def check(R):
    R.rule('exact', 'no step that contributes to the result rounds at the ambient working precision')
    for name, con, f, exact, strip in operations():
        if exact:
            R.case(name, lambda c: op(R, c, name, con, f), rounding=True)
    for k in ('mpf_matrix_get_representation', 'get_int_representation', 'mpf_get_representation'):
        R.case(k, lambda c: parts(R, c, k), rounding=True)
    for l0 in (False, True):
        R.case('to_dSSexact%s' % (' l=0' if l0 else ''), lambda c: elimination(R, c, l0), rounding=True)
    for meth in ('__add__', '__sub__'):
        for kb in ('dSSmp', 'dSS'):
            R.case('dSSmp %s %s' % (meth, kb), lambda c: system(R, c, meth, kb), rounding=True)
    for kind in KINDS:
        R.case('dSSmp of %s' % kind, lambda c: build(R, c, kind), rounding=True)
    R.case('dSS.to_dSSmp', lambda c: build(R, c, None), rounding=True)
    for kind in KINDS:
        for order in (1, 2, 3):
            R.case('dTFmp.to_dSSmp %s %d' % (kind, order), lambda c: tf(R, c, kind, order), rounding=True)
        R.case('dTFmp.to_dSSmp %s' % kind, lambda c: tf(R, c, kind, None), rounding=True)
    for ku in KINDS:
        for kx in (None,) + KINDS:
            R.case('simulate %s %s' % (ku, kx), lambda c: simulate(R, c, ku, kx), rounding=True)


def marks(x):
    return {h for h in heads(x) if h in MARKS}


def exact(R, c, o, got, con, what):
    """got carries no rounding mark on outcome o"""
    m = got if isinstance(got, (Mat, Sc)) else c.matof(o, got)
    if m is None:
        c.holds(o, None, 'exact', con, what, 'value not resolved: %s' % short(got))
        return
    bad = marks(m)
    sites = ', '.join('%s:%s' % (rel(w[0]), w[2]) for w in c.I.round_sites[:6])
    if bad:
        c.holds(o, False, 'exact', con, what, 'rounds at the working precision (operations at %s): %s' % (sites, short(m)))
        return
    tops = any(a[0] in ('top', 'undef') for a in walk_atoms(m)) or 'recfin' in heads(m) and c.I.round_sites
    c.holds(o, None if tops else True, 'exact', con, what, 'not resolved: %s' % short(m))


def done(c, outs):
    return [o for o in outs if o.kind != 'raise' and c.reach(o) is not False]


def op(R, c, name, con, f):
    th, want = f(c)
    for o in done(c, c.run(th)):
        exact(R, c, o, o.value, con, name)


def parts(R, c, k):
    m, n = c.dims_('m n')
    A = mnamed('A', m, n)
    con = fn_of(k) if k.startswith('mpf') else 'fixif/func_aux/MPFMatrix.py::MPFMatrix.' + k
    if k == 'mpf_get_representation':
        th = lambda: c.call(fa(c, k), Num(Sc.sym('x'), 'mpf'))
    else:
        th = lambda: c.call(fa(c, k), wrap(c, A, 'mp')) if k.startswith('mpf') else c.meth(wrap(c, A, 'MPF'), k)
    for o in done(c, c.run(th)):
        if isinstance(o.value, Tup):
            for i, x in enumerate(o.value.items):
                exact(R, c, o, x, con, '%s: part %d' % (k, i))


def abcd(R, c, o, ref, con, what):
    for k, v in dss_of(c, o, ref).items():
        exact(R, c, o, v, con, '%s: %s' % (what, k))


def elimination(R, c, l0):
    con = 'fixif/SIF/SIF.py::SIF.to_dSSexact'

    def th():
        s, d, m = new_sif(c, sif_dims(c, l0))
        return c.meth(s, 'to_dSSexact')
    for o in done(c, c.run(th)):
        abcd(R, c, o, o.value, con, 'elimination of J' if not l0 else 'without intermediate variables')


MPM = 'fixif.LTI.dSSmp'


def mpsys(c, n='n', suffix='', kind='mp'):
    return new_dss(c, n, 'p', 'q', suffix, kind, mod=MPM, clsname='dSSmp')


def system(R, c, meth, kb):
    con = 'fixif/LTI/dSSmp.py::dSSmp.' + meth

    def th():
        a, _ = mpsys(c)
        b, _ = mpsys(c, 'n2', '2') if kb == 'dSSmp' else new_dss(c, 'n2', 'p', 'q', '2')
        return c.meth(a, meth, b)
    for o in done(c, c.run(th)):
        abcd(R, c, o, o.value, con, kb)


def build(R, c, kind):
    con = 'fixif/LTI/dSSmp.py::dSSmp.__init__' if kind else 'fixif/LTI/dSS.py::dSS.to_dSSmp'
    for o in done(c, c.run(lambda: mpsys(c, kind=kind)[0] if kind else c.meth(new_dss(c)[0], 'to_dSSmp'))):
        abcd(R, c, o, o.value, con, 'from %s' % (kind or 'dSS'))


def tf(R, c, kind, order):
    con = 'fixif/LTI/dTFmp.py::dTFmp.to_dSSmp'
    n = c.dim('n', 1) if order is None else sc(order)
    c.makers['a'] = lambda env, i, j: Fraction(1) if i == 0 else env.value('mat', 'a', i, j)

    def th():
        b, a = mnamed('b', n + 1, ONE), mvstack([mones(1, 1), mnamed('a', n, ONE)], c.I.B)
        return c.meth(c.new(c.cls('fixif.LTI.dTFmp', 'dTFmp'), c.I.arr(kind, b, 2), c.I.arr(kind, a, 2)), 'to_dSSmp')
    for o in done(c, c.run(th)):
        abcd(R, c, o, o.value, con, '%s order %s' % (kind, order or 'n'))


def simulate(R, c, ku, kx):
    con = 'fixif/LTI/dSSmp.py::dSSmp.simulate'
    T = c.dim('T', 1)

    def th():
        s, m = mpsys(c)
        u = c.I.arr(ku, mnamed('u', Sc.sym('q'), T), 2)
        kw = {} if kx is None else {'x0': c.I.arr(kx, mnamed('x0', Sc.sym('n'), ONE), 2)}
        return c.meth(s, 'simulate', u, **kw)
    for o in done(c, c.run(th)):
        exact(R, c, o, o.value, con, 'inputs %s, initial state %s' % (ku, kx))
