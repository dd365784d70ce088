"""C04: direct, state-space and delta structures keep the filter they are built from"""
from fractions import Fraction
from .common import *
from .c07 import response

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of the structure factories on a filter of symbolic order; the eliminated state-space of the nine matrices '
               'is matched with state-space forms known to denote the filter (for every order at once), and refuted when the impulse response '
               'of the extracted formulas differs from that of the filter on an instance')
SOURCES = ('DFI', 'DFII', 'State_Space', 'rhoDFIIt', 'SIF', 'dTF', 'dSS', 'Filter')
PATHS = {'DFI': ('fixif.Structures.DirectForms.DFI', 'makeDFI', 'fixif/Structures/DirectForms/DFI.py::makeDFI'),
         'DFII': ('fixif.Structures.DirectForms.DFII', 'makeDFII', 'fixif/Structures/DirectForms/DFII.py::makeDFII'),
         'SS': ('fixif.Structures.State_Space.State_Space', 'makeSS', 'fixif/Structures/State_Space/State_Space.py::makeSS'),
         'rho': ('fixif.Structures.rhoDFIIt.rhoDFIIt', 'makerhoDFII', 'fixif/Structures/rhoDFIIt/rhoDFIIt.py::makerhoDFII')}
T, Fa = Const(True), Const(False)


def check(R):
    R.rule('builds', 'the factory accepts the filter and its options, and the matrices make an implicit form')
    R.rule('filter', 'the implicit form denotes the source filter')
    R.rule('triangular', 'J is lower triangular with a unit diagonal')
    R.rule('refuses', 'an unknown option value raises ValueError')
    for nb in (1, 2):
        for tr in (Fa, T):
            R.case('DFI nbSum=%d transposed=%s' % (nb, tr.v), lambda c: tf_struct(R, c, 'DFI', dfi_forms, nbSum=Num(sc(nb), 'int'), transposed=tr))
    for tr in (Fa, T):
        R.case('DFII transposed=%s' % tr.v, lambda c: tf_struct(R, c, 'DFII', canon, transposed=tr))
    for form in ('ctrl', 'obs'):
        R.case('SS ' + form, lambda c: tf_struct(R, c, 'SS', canon, form=Const(form)))
    R.case('SS none tf', lambda c: tf_struct(R, c, 'SS', canon, form=NONE))
    R.case('SS none ss', lambda c: ss_struct(R, c))
    R.case('SS bad', lambda c: bad(R, c, 'SS', form=Const('modal')))
    R.case('DFI bad', lambda c: bad(R, c, 'DFI', nbSum=Num(sc(3), 'int')))
    R.case('rho bad', lambda c: bad(R, c, 'rho', scaling=Const('l3')))
    for k in (1, 2, 3):
        for tr in (T, Fa):
            for eq in (Fa, T):
                for what in ('default', 'gamma', 'gammaDelta', 'gamma l2', 'gamma l2-relaxed') if k < 3 or R.thorough else ('gamma', 'gammaDelta', 'gamma l2'):
                    R.case('rho n=%d %s transposed=%s equiv=%s' % (k, what, tr.v, eq.v), lambda c: rho(R, c, what, tr, eq, k), seconds=120)


def filt(c, n):
    num, den = mnamed('num', ONE, n + 1), mhstack([meye(1), mnamed('den', ONE, n)], c.I.B)
    k = c.cls('fixif.LTI.Filter', 'Filter')
    return c.new(k, num=c.I.arr('matrix', num, 2), den=c.I.arr('matrix', den, 2), stable=T), num, den


def build(c, which, n, opts):
    f, num, den = filt(c, n)
    mod, name, _ = PATHS[which]
    d = c.call(c.func(mod, name), f, **opts)
    J = c.I.getitem(d, Const('JtoS'))
    return J, num, den


def sif_of(c, J):
    return c.new(c.cls('fixif.SIF.SIF', 'SIF'), J)


def verify(R, c, o, where, what, num, den, forms, n):
    s = c.at(o, lambda: sif_of_outcome(c, o))
    if s is None:
        return
    J, ref = s
    m = c.at(o, lambda: {k: c.get(ref, x) for k, x in zip('ABCD', ('AZ', 'BZ', 'CZ', 'DZ'))})

    def proof(A, B_, C, D, num, den):
        B = c.I.B
        if forms is None:
            return series_equal(c, A, B_, C, D, num, den)
        for w in forms(c, num, den, n):
            try:
                if all(mat_equal(x, c.I.N(y), B) for x, y in zip((A, B_, C, D), w)):
                    return True
            except (Incomparable, ShapeError):
                continue
        return False
    e = known_ones(c, o)
    m = {x: c.matof(o, v) for x, v in m.items()}
    if e:
        m = {x: v and c.at(o, lambda: subst(v, e)) for x, v in m.items()}
    c.judge(o, [m[x] for x in 'ABCD'] + [num, den], response, 'filter', where, what, proof=proof)
    Jm = c.at(o, lambda: c.get(ref, 'J'))
    triangular(R, c, o, Jm, where, what)


def known_ones(c, o):
    """atoms equal to one on this path (the path has compared a matrix of a known size with ones)"""
    e = {}
    for l, v in o.lits:
        if l[0] == 'mateq' and v and any(mat_equal(x, mones(x.rows, x.cols), c.I.B) for x in l[1:]):
            for x in l[1:]:
                if x.cols.cval() is None or x.rows != ONE:
                    continue
                w = x.single_word()
                if w is not None and w[0] == ONE and len(w[1]) == 1:
                    e[w[1][0][0]] = mones(*atom_dims(w[1][0][0]))
                for k in range(int(x.cols.cval())):
                    t = entry(x, ZERO, sc(k), c.I.B).t
                    if len(t) == 1 and list(t.values()) == [1] and [p for _, p in list(t)[0]] == [1]:
                        e[list(t)[0][0][0]] = ONE
    return e


def series_equal(c, A, B_, C, D, num, den):
    """a filter of a known order: den is the characteristic polynomial of A, and den(z) * (D + C B z^-1 + C A B z^-2 + ...) = num(z)
    up to the order"""
    B = c.I.B
    k, n = A.rows.cval(), den.cols.cval()
    if k is None or n is None or k != n - 1:
        return False
    n = int(k)
    e = lambda M: [[c.I.N(entry(M, sc(i), sc(j), B)) for j in range(int(M.cols.cval()))] for i in range(int(M.rows.cval()))]
    a, b, cc, d, nu, de = [e(M) for M in (A, B_, C, D, num, den)]
    X = b
    h = [d[0][0]]
    for _ in range(n):
        h.append(dot(cc[0], [r[0] for r in X]))
        X = [[dot(r, [x[0] for x in X])] for r in a]
    for i in range(n + 1):
        t = -nu[0][i]
        for j in range(i + 1):
            t = t + de[0][j] * h[i - j]
        if c.I.N(t).t:
            return False
    # characteristic polynomial (Faddeev-LeVerrier)
    M = [[ZERO] * n for _ in range(n)]
    co = ONE
    for k in range(1, n + 1):
        M = [[dot(a[i], [M[x][j] for x in range(n)]) + (co if i == j else ZERO) for j in range(n)] for i in range(n)]
        t = ZERO
        for i in range(n):
            t = t + dot(a[i], [M[x][i] for x in range(n)])
        co = c.I.N(t * Fraction(-1, k))
        if c.I.N(co - de[0][k]).t:
            return False
    return not (de[0][0] - ONE).t


def dot(u, v):
    t = ZERO
    for x, y in zip(u, v):
        t = t + x * y
    return t


def triangular(R, c, o, J, where, what):
    def rel(env, m):
        for i in range(m[0]):
            for j in range(i, m[1]):
                if not close_(m[2][i][j], 1 if i == j else 0):
                    return 'J[%d,%d] = %s' % (i, j, show_val(m[2][i][j]))
        return True if m[0] == m[1] else 'J is %d x %d' % m[:2]

    def proof(m):
        B = c.I.B
        r, k = m.rows.cval(), m.cols.cval()
        if mat_equal(m, meye(m.rows), B):
            return True
        if r is None or r != k:
            return False
        return all(not (entry(m, sc(i), sc(j), B) - (ONE if i == j else ZERO)).t for i in range(int(r)) for j in range(i, int(r)))
    g = c.matof(o, J)
    if g is not None and not g.rows.t:
        R.ok('triangular', where, what)
        return
    c.judge(o, [J], rel, 'triangular', where, what, proof=proof)


def sif_of_outcome(c, o):
    return o.value.items if isinstance(o.value, Tup) else None


def tf_struct(R, c, which, forms, **opts):
    n = c.dim('n', 1)
    g = {}
    where = PATHS[which][2]
    what = ', '.join('%s=%s' % (k, v.v if isinstance(v, Const) else v) for k, v in opts.items())

    def th():
        J, g['num'], g['den'] = build(c, which, n, opts)
        return Tup([J, sif_of(c, J)])
    for o in c.exceptions(c.run(th), 'builds', where, 'order one or more accepted (%s)' % what):
        verify(R, c, o, where, what, g['num'], g['den'], forms, n)


def canon(c, num, den, n):
    from .c07 import canonical
    return canonical(c, num, den, n)


def dfi_forms(c, num, den, n):
    """states: the n last outputs and the n last inputs (either order, either direction), or the transposed system"""
    B = c.I.B
    a, b = submat(den, ZERO, ONE, ONE, n + 1, B), submat(num, ZERO, ONE, ONE, n + 1, B)
    b0 = entry(num, ZERO, ZERO, B)
    S = mshift_down(c, n)
    e1 = mvstack([meye(1), mzero(n - 1, 1)], B)
    z = mzero
    out = []
    # (past inputs, past outputs)
    C = mhstack([b, mneg(a)], B)
    D = mscalar(b0)
    A = mvstack([mhstack([S, z(n, n)], B), madd(mhstack([z(n, n), S], B), mul(B, e1, C), B)], B)
    Bm = mvstack([e1, mscale(e1, b0)], B)
    out.append((A, Bm, C, D))
    E = mexch(2 * n)
    out.append((mul(B, E, A, E), mul(B, E, Bm), mul(B, C, E), D))
    for A, Bm, C, D in list(out):
        out.append((mT(A), mT(C), mT(Bm), D))
    return out


def mshift_down(c, n):
    return mvstack([mzero(1, n), mhstack([meye(n - 1), mzero(n - 1, 1)], c.I.B)], c.I.B)


def ss_struct(R, c):
    n, p, q = c.dims_('n p q')
    g = {}
    where = PATHS['SS'][2]

    def th():
        s, g['m'] = new_dss(c, n, p, q)
        f = c.new(c.cls('fixif.LTI.Filter', 'Filter'), ss=s)
        mod, name, _ = PATHS['SS']
        d = c.call(c.func(mod, name), f, form=NONE)
        J = c.I.getitem(d, Const('JtoS'))
        return Tup([J, sif_of(c, J)])
    for o in c.exceptions(c.run(th), 'builds', where, 'a state-space of any size accepted'):
        ref = o.value.items[1]
        got = c.at(o, lambda: [c.get(ref, x) for x in ('AZ', 'BZ', 'CZ', 'DZ')])
        want = [g['m'][x] for x in 'ABCD']
        c.judge(o, got + want, lambda env, *v: same_markov_of(v), 'filter', where, 'the state-space of the filter',
                proof=lambda *v: all(mat_equal(x, y, c.I.B) for x, y in zip(v[:4], v[4:])))


def same_markov_of(v):
    k = v[0][0] + v[4][0] + 2
    a, b = markov(*v[:4], k), markov(*v[4:], k)
    return same_markov(a, b) if a != 'sizes' else a


def bad(R, c, which, **opts):
    n = c.dim('n', 1)
    where = PATHS[which][2]
    c.refused(c.run(lambda: build(c, which, n, opts)[0]), 'refuses', where, 'unknown value of ' + ', '.join(opts))


def rho(R, c, what, tr, eq, k):
    n = sc(k)
    g = {}
    where = PATHS['rho'][2]
    opts = {'transposed': tr, 'equiv_dSS': eq}
    c.makers['Delta'] = lambda env, i, j: abs(env.value('mat', 'Delta', i, j)) + Fraction(1, 2)
    if 'gamma' in what:
        opts['gamma'] = c.mat('gamma', 1, n)
    if 'Delta' in what:
        opts['Delta'] = c.mat('Delta', 1, n)
    if 'l2' in what:
        opts['scaling'] = Const(what.split()[1])
    name = 'n=%d, %s, transposed=%s, equiv_dSS=%s' % (k, what, tr.v, eq.v)

    def th():
        J, g['num'], g['den'] = build(c, 'rho', n, opts)
        return Tup([J, sif_of(c, J)])
    for o in c.exceptions(c.run(th), 'builds', where, 'order one or more accepted (%s)' % name):
        verify(R, c, o, where, name, g['num'], g['den'], None, n)
