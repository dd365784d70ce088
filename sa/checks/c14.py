"""C14: sums, differences and conversions of multiprecision systems"""
from fractions import Fraction
from .mpsys import *
from .c07 import canonical, response, ratio, nd, close_

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of the multiprecision systems over symbolic matrices of any size; the extracted matrices are compared with '
               'the standard formulas, the conversions between representations with the canonical form (refuted by the impulse responses of the '
               'extracted formulas); state-space to transfer function for orders 1 to 3 on the eigendecomposition')
SOURCES = ('dSSmp', 'dTFmp', 'mpf_matrix', 'poly')


def check(R):
    R.rule('sum', 'parallel connection: block diagonal dynamics, stacked inputs, concatenated outputs, added direct terms')
    R.rule('accepts', 'suitable operands are accepted')
    R.rule('precision', 'a conversion between multiprecision objects does not round below the precision asked')
    R.rule('convert', 'a conversion keeps every coefficient, or the response of the system')
    R.rule('normal', 'numerator and denominator are divided by the leading coefficient and have the same length')
    for op in ('__add__', '__sub__'):
        for kb in ('dSSmp', 'dSS', 'itself'):
            R.case('%s %s' % (op, kb), lambda c: binary(R, c, op, kb))
    R.case('to_dSS', lambda c: to_dss(R, c))
    R.case('to_dSSmp', lambda c: from_dss(R, c))
    for kind in KINDS:
        R.case('dSSmp %s' % kind, lambda c: build(R, c, kind))
        for lens in ('nn', 'short', 'long'):
            for flip in (False, True):
                R.case('dTFmp %s %s %s' % (kind, lens, flip), lambda c: tf(R, c, kind, lens, flip))
                R.case('dTFmp unit %s %s %s' % (kind, lens, flip), lambda c: tf(R, c, kind, lens, flip, True))
            R.case('dTFmp.to_dSSmp %s %s' % (kind, lens), lambda c: tf_to_dss(R, c, kind, lens))
            R.case('dTFmp.to_dTF %s %s' % (kind, lens), lambda c: tf_to_tf(R, c, kind, lens))
    for lens in ('nn', 'short'):
        R.case('dTF.to_dTFmp %s' % lens, lambda c: tf_to_mp(R, c, lens))
    for n in (1, 2, 3) if R.tier == 'quick' else (1, 2, 3, 4):
        R.case('dSSmp.to_dTFmp %d' % n, lambda c: to_tf(R, c, n), seconds=200)
        if n < 3:
            R.case('dSSmp.to_dTFmp precision %d' % n, lambda c: to_tf(R, c, n, True), seconds=200)


def same(R, c, o, ref, want, con, what, strip=None):
    m = dss_of(c, o, ref)
    for k in 'ABCD':
        c.equal(o, m[k], want[k], 'sum' if '__' in con and '__init' not in con else 'convert', con + '/' + k, what, strip=strip)


def binary(R, c, op, kb):
    con = DSSMP + op
    got = {}

    def th():
        a, got['a'] = mpsys(c)
        b, got['b'] = (a, got['a']) if kb == 'itself' else mpsys(c, 'n2', 'p', 'q', '2') if kb == 'dSSmp' else new_dss(c, 'n2', 'p', 'q', '2')
        return c.meth(a, op, b)
    for o in c.exceptions(c.run(th), 'accepts', con, kb):
        a, b = got['a'], got['b']
        s = ONE if op == '__add__' else -ONE

        def want():
            B = c.I.B
            return dict(A=mvstack([mhstack([a['A'], mzero(a['A'].rows, b['A'].cols)], B), mhstack([mzero(b['A'].rows, a['A'].cols), b['A']], B)], B),
                        B=mvstack([a['B'], b['B']], B), C=mhstack([a['C'], mscale(b['C'], s)], B), D=madd(a['D'], b['D'], B, s))
        same(R, c, o, o.value, c.at(o, want), con, kb)


def to_dss(R, c):
    got = {}

    def th():
        a, got['m'] = mpsys(c)
        return c.meth(a, 'to_dSS')
    for o in c.exceptions(c.run(th), 'accepts', DSSMP + 'to_dSS', 'any system'):
        same(R, c, o, o.value, got['m'], DSSMP + 'to_dSS', 'double precision copy', as_real)


def from_dss(R, c):
    got = {}

    def th():
        a, got['m'] = new_dss(c)
        return c.meth(a, 'to_dSSmp')
    con = 'fixif/LTI/dSS.py::dSS.to_dSSmp'
    for o in c.exceptions(c.run(th), 'accepts', con, 'any system'):
        same(R, c, o, o.value, got['m'], con, 'multiprecision copy')
        sizes(R, c, o, o.value, con, 'multiprecision copy')


def build(R, c, kind):
    got = {}

    def th():
        a, got['m'] = mpsys(c, kind=kind)
        return a
    con = DSSMP + '__init__'
    for o in c.exceptions(c.run(th), 'accepts', con, kind):
        same(R, c, o, o.value, got['m'], con, kind)
        sizes(R, c, o, o.value, con, kind)


def sizes(R, c, o, ref, con, what):
    for k in 'npq':
        c.equal(o, c.at(o, lambda: c.get(ref, k)), Sc.sym(k), 'convert', con + '/' + k, what)


def coefs(c, lens, unit=False):
    n = c.dim('n', 1)
    ln = ld = n + 1
    if lens != 'nn':
        m = c.dim('m', 1)
        c.I.st.B.extra.append(n - m)
        c.extra.append(lambda d: d['m'] <= d['n'])
        if lens == 'short':
            ln = n + 1 - m
        else:
            ld = n + 1 - m
    B = c.I.B
    num = mnamed('num', ln, ONE)
    den = mvstack([meye(1), mnamed('den', ld - 1, ONE)], B) if unit else mnamed('den', ld, ONE)
    if not unit:
        def f(env, i, j):
            v = env.value('mat', 'den', i, j)
            return v if i or v else Fraction(3)
        c.makers['den'] = f
    pad = lambda x: mvstack([x, mzero(n + 1 - x.rows, 1)], B) if (n + 1 - x.rows).t else x
    return n, num, den, pad(num), pad(den)


def new_tf(c, kind, num, den, flip=False):
    f = mT if flip else (lambda x: x)
    return c.new(c.cls('fixif.LTI.dTFmp', 'dTFmp'), c.I.arr(kind, f(num), 2), c.I.arr(kind, f(den), 2))


def tf(R, c, kind, lens, flip, unit=False):
    n, num, den, pn, pd = coefs(c, lens, unit)
    con = DTFMP + '__init__'
    what = '%s, %s, %s%s' % (kind, lens, 'rows' if flip else 'columns', ', unit leading coefficient' if unit else '')
    if not unit:
        c.assume_nonzero('den') if hasattr(c, 'assume_nonzero') else None
    for o in c.exceptions(c.run(lambda: new_tf(c, kind, num, den, flip)), 'accepts', con, what):
        gn, gd = nd(c, o, o.value)
        k = ONE if unit else c.at(o, lambda: entry(den, ZERO, ZERO, c.I.B).inv())
        c.equal(o, gn, mscale(pn, k), 'normal', con + '/num', what)
        c.equal(o, gd, mscale(pd, k), 'normal', con + '/den', what)
        c.equal(o, c.at(o, lambda: c.get(o.value, 'order')), n, 'normal', con + '/order', what)


def tf_to_dss(R, c, kind, lens):
    n, num, den, pn, pd = coefs(c, lens, True)
    con = DTFMP + 'to_dSSmp'
    for o in c.exceptions(c.run(lambda: c.meth(new_tf(c, kind, num, den), 'to_dSSmp')), 'accepts', con, 'order 1 or more'):
        m = dss_of(c, o, o.value)
        c.judge(o, [m[x] for x in 'ABCD'] + [mT(pn), mT(pd)], response, 'convert', con, '%s, %s' % (kind, lens), proof=is_form(c, n))


def is_form(c, n):
    def p(A, B_, C, D, num, den):
        B = c.I.B
        for w in canonical(c, c.I.N(num), c.I.N(den), n):
            try:
                if all(mat_equal(x, c.I.N(y), B) for x, y in zip((A, B_, C, D), w)):
                    return True
            except (Incomparable, ShapeError):
                continue
        return False
    return p


def as_real(x):
    """the numbers, whatever their type (which one is rounded when is decided by C09)"""
    while True:
        m = {}
        for a in walk_atoms(x):
            if a[0] == 'fn' and a[1] in ('float', 'mpf', 'float64') and len(a) == 3 and isinstance(a[2], Sc) and not fn_heads(a[2]) & {'float', 'mpf', 'float64'}:
                m[a] = a[2]
        if not m:
            return x
        x = subst(x, m)


def tf_to_tf(R, c, kind, lens):
    n, num, den, pn, pd = coefs(c, lens, True)
    con = DTFMP + 'to_dTF'
    for o in c.exceptions(c.run(lambda: c.meth(new_tf(c, kind, num, den), 'to_dTF')), 'accepts', con, 'order 1 or more'):
        gn, gd = nd(c, o, o.value)
        c.equal(o, gn, mT(pn), 'convert', con + '/num', '%s, %s' % (kind, lens), strip=as_real)
        c.equal(o, gd, mT(pd), 'convert', con + '/den', '%s, %s' % (kind, lens), strip=as_real)


def tf_to_mp(R, c, lens):
    n, num, den, pn, pd = coefs(c, lens, True)
    con = 'fixif/LTI/dTF.py::dTF.to_dTFmp'

    def th():
        t = c.new(c.cls('fixif.LTI.dTF', 'dTF'), c.I.arr('matrix', mT(num), 2), c.I.arr('matrix', mT(den), 2))
        return c.meth(t, 'to_dTFmp')
    for o in c.exceptions(c.run(th), 'accepts', con, lens):
        gn, gd = nd(c, o, o.value)
        c.equal(o, gn, pn, 'convert', con + '/num', lens)
        c.equal(o, gd, pd, 'convert', con + '/den', lens)


def rounded(c, m):
    """roundings of a multiprecision result that are not at the precision asked (prec)"""
    bad = []
    for a in walk_atoms(m):
        if a[0] == 'fn' and a[1] in ('float', 'ew:float', 'float64', 'mround', 'sround', 'round', 'ew:round', 'floor', 'int', 'rndp'):
            if a[1] in ('mround', 'rndp') and any(walk_atoms(a[3])):
                continue        # a precision that follows the operands or the one asked
            bad.append(a[1] if a[1] not in ('mround', 'rndp') else '%s at %s' % (a[1], short(a[3])))
    return sorted(set(bad))


def to_tf(R, c, n, asking=False):
    con = DSSMP + 'to_dTFmp'
    E, V = [Sc.sym('e%d' % i) for i in range(n)], mnamed('V', n, n)
    asked = []

    def eig(I, args, kw):
        m = I.arr_mat(args[0])
        if m is None or len(args) != 1 or kw:
            return None
        asked.append(m)
        return Tup([I.alloc(ListO([('item', Num(e, 'mpf')) for e in E])), I.arr('mp', V, 2)])
    for q in ('mpmath.eig', 'mpmath.mp.eig'):
        c.I.hooks[('ext', q)] = eig

    def mat_a(env, i, j):
        v = (n, n, [[env.value('mat', 'V', a, b) for b in range(n)] for a in range(n)])
        e = [env.value('sym', 'e%d' % a) for a in range(n)]
        d = (n, n, [[e[a] if a == b else Fraction(0) for b in range(n)] for a in range(n)])
        return evalf.mat_mul(evalf.mat_mul(v, d), evalf.inverse(v))[2][i][j]
    c.makers['A'] = mat_a
    c.makers['D'] = lambda env, i, j: Fraction(0) if env.seed % 2 else env.value('mat', 'D', i, j)
    got = {}

    def th():
        a, got['m'] = mpsys(c, sc(n), sc(1), sc(1))
        return c.meth(a, 'to_dTFmp', *([Num(Sc.sym('prec'), 'int')] if asking else []))
    if asking:
        c.I.mround = True
    for o in c.exceptions(c.run(th), 'accepts', con, 'order %d' % n):
        gn, gd = nd(c, o, o.value)
        m = got['m']
        if asking:
            for x, w in ((gn, 'numerator'), (gd, 'denominator')):
                bad = rounded(c, c.matof(o, x))
                c.holds(o, not bad, 'precision', con, 'the %s is not rounded below the precision asked, order %d' % (w, n), 'rounded: %s' % bad)
            continue
        c.judge(o, [gn, gd] + [m[x] for x in 'ABCD'], lambda env, b, a, A, B, C, D: response(env, A, B, C, D, b, a), 'convert', con,
                'order %d' % n, proof=expanded(c, n, E, V))


def expanded(c, n, E, V):
    """the coefficients of det(z-A) and of the numerator, on the eigendecomposition"""
    def p(gn, gd, A, B_, C, D):
        B = c.I.B
        Cv, Bv = mmul(C, V, B), mmul(minv(V), B_, B)

        def poly(es):
            q = [ONE]
            for e in es:
                q = [x - y * e for x, y in zip(q + [ZERO], [ZERO] + q)]
            return q
        den = poly(E)
        num = [entry(D, ZERO, ZERO, B) * x for x in den]      # (the values given: D is zero on some paths)
        for i in range(n):
            r = entry(Cv, ZERO, sc(i), B) * entry(Bv, sc(i), ZERO, B)
            for j, x in enumerate(poly(E[:i] + E[i + 1:])):
                num[j + 1] = num[j + 1] + r * x
        for g, w in ((gn, num), (gd, den)):
            if (g.rows - sc(n + 1)).t:
                return False
            for i, x in enumerate(w):
                if (c.I.N(entry(g, sc(i), ZERO, B)) - c.I.N(x)).t:
                    return False
        return True
    return p
