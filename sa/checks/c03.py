"""C03: error, variable and sensitivity filters match the implicit form"""
from .common import *

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of the derived filters of an implicit form over symbolic matrices of symbolic sizes, '
               'compared with the block formulas of their definitions')
F = 'fixif/SIF/SIF.py'
TE = 'fixif/SIF/SIF_tilde_error.py'
SE = 'fixif/SIF/SIF_sensibility.py'


def check(R):
    R.rule('filter', 'the state-space of the derived filter equals its definition')
    R.rule('accepts', 'the derived filter can be computed for every consistent form')
    R.rule('conversion', 'the forms with approximated coefficients hold the exact and approximated matrices in their blocks')
    R.rule('sensitivity', 'each sensitivity entry is the norm of the product of the error filter column and the derivative filter row')
    for l0 in (False, True):
        tag = ', l=0' if l0 else ''
        R.case('filters' + tag, lambda c: filters(R, c, l0, tag))
        R.case('delta' + tag, lambda c: delta(R, c, l0, tag))
        R.case('tilde' + tag, lambda c: tilde(R, c, l0, tag))
        R.case('txy' + tag, lambda c: txy(R, c, l0, tag))
        R.case('sens' + tag, lambda c: sens(R, c, l0, tag))
        R.case('pole' + tag, lambda c: pole(R, c, l0, tag))


def cmp4(R, c, o, ref, want, construct, what, rule='filter'):
    for k, w in zip('ABCD', want):
        c.equal(o, c.at(o, lambda: c.get(ref, k)), w, rule, construct, '%s.%s' % (what, k), strip=strip_ulow)


def blocks(c, d, m):
    B = c.I.B
    E = Eliminated(m, B)
    n, p, q, l = d['n'], d['p'], d['q'], d['l']
    M1 = mhstack([mul(B, m['K'], E.iJ), meye(n), mzero(n, p)], B)
    M2 = mhstack([mul(B, m['L'], E.iJ), mzero(p, n), meye(p)], B)
    N1 = mvstack([mul(B, E.iJ, m['M']), E.A, E.C], B)
    N2 = mvstack([mul(B, E.iJ, m['N']), E.B, E.D], B)
    return E, M1, M2, N1, N2


def filters(R, c, l0, tag):
    d = sif_dims(c, l0)
    m = sif_mats(c, d)

    def th():
        s, _, _ = new_sif(c, d, m)
        return Tup([c.get(s, 'Hepsilon'), c.get(s, 'Hu'), c.get(s, 'Hzeta')])
    outs = c.run(th)
    for o in c.exceptions(outs, 'accepts', F + '::SIF', 'error, variable and observation filters' + tag):
        E, M1, M2, N1, N2 = c.at(o, lambda: blocks(c, d, m))
        he, hu, hz = o.value.items
        cmp4(R, c, o, he, (E.A, M1, E.C, M2), F + '::SIF.Hepsilon', 'Hepsilon' + tag)
        cmp4(R, c, o, hu, (E.A, E.B, N1, N2), F + '::SIF.Hu', 'Hu' + tag)

        def want():
            B = c.I.B
            n, p, q, l = d['n'], d['p'], d['q'], d['l']
            C = mvstack([mul(B, E.iJ, m['M']), meye(n), E.C], B)
            D = mvstack([mul(B, E.iJ, m['N']), mzero(n, q), E.D], B)
            return E.A, E.B, C, D
        cmp4(R, c, o, hz, c.at(o, want), F + '::SIF.Hzeta', 'Hzeta' + tag)


def delta(R, c, l0, tag):
    d = sif_dims(c, l0)
    m = sif_mats(c, d)
    outs = c.run(lambda: c.meth(new_sif(c, d, m)[0], 'computeDeltaSIF'))
    for o in c.exceptions(outs, 'accepts', F + '::SIF.computeDeltaSIF', 'error-injection form' + tag):
        def want():
            B = c.I.B
            n, p, q, l = d['n'], d['p'], d['q'], d['l']
            z = dict(m)
            z['N'] = mhstack([meye(l), mzero(l, n), mzero(l, p)], B)
            z['Q'] = mhstack([mzero(n, l), meye(n), mzero(n, p)], B)
            z['S'] = mhstack([mzero(p, l), mzero(p, n), meye(p)], B)
            return z
        w = c.at(o, want)
        for x in NAMES:
            c.equal(o, c.at(o, lambda: c.get(o.value, x)), w[x], 'filter', F + '::SIF.computeDeltaSIF', 'delta form.%s%s' % (x, tag))


def approx_hook(I, args, kw):
    M = args[0]
    o = I.obj(M) if isinstance(M, Ref) else None
    if not isinstance(o, Arr):
        return None
    m = I.N(I.arr_mat(M))
    sw = m.single_word()
    name = None
    if sw and len(sw[1]) == 1 and sw[1][0][0][0] == 'mat':
        name = sw[1][0][0][3]
    if m.rows.is_zero() or m.cols.is_zero():
        return I.arr('matrix', mzero(m.rows, m.cols), 2)
    if name is None:
        return I.arr('matrix', mfn('approx', m.rows, m.cols, m), 2)
    return I.arr('matrix', mnamed(name + '~', m.rows, m.cols), 2)


def tilde(R, c, l0, tag):
    d = sif_dims(c, l0)
    m = sif_mats(c, d)
    f = c.func('fixif.SIF.SIF_tilde_error', 'SIFH_to_SIFHstar')
    c.I.hooks[(f.mod.name, 'convertToFix')] = approx_hook
    c.opaque |= {'approx'}
    c.makers['J~'] = unit_lower('J~')

    def th():
        s, _, _ = new_sif(c, d, m)
        return c.call(f, s, c.scalar('w'))
    outs = c.run(th)
    for o in c.exceptions(outs, 'accepts', TE + '::SIFH_to_SIFHstar', 'approximated forms' + tag):
        if not isinstance(o.value, Tup) or len(o.value.items) != 2:
            R.und('conversion', TE + '::SIFH_to_SIFHstar', 'result', repr(o.value))
            continue
        st, se = o.value.items

        def want():
            B = c.I.B
            n, p, q, l = d['n'], d['p'], d['q'], d['l']
            t = {x: mnamed(x + '~', *m[x].shape) for x in NAMES}
            if l0:
                for x in 'JKLMN':
                    t[x] = mzero(*m[x].shape)
            df = {x: madd(t[x], m[x], B, -ONE) for x in NAMES}
            z = lambda r, k: mzero(r, k)
            blk = lambda rows: mvstack([mhstack(r, B) for r in rows], B)
            e = l + n + p
            w = {'J': blk([[m['J'], z(l, l)], [df['J'], t['J']]]), 'K': blk([[m['K'], z(n, l)], [df['K'], t['K']]]),
                 'L': blk([[df['L'], t['L']]]), 'M': blk([[m['M'], z(l, n)], [df['M'], t['M']]]),
                 'N': blk([[m['N'], z(l, e)], [df['N'], meye(l), z(l, n + p)]]),
                 'P': blk([[m['P'], z(n, n)], [df['P'], t['P']]]),
                 'Q': blk([[m['Q'], z(n, e)], [df['Q'], z(n, l), meye(n), z(n, p)]]),
                 'R': blk([[df['R'], t['R']]]), 'S': blk([[df['S'], z(p, l + n), meye(p)]])}
            return t, w
        t, w = c.at(o, want)
        for x in NAMES:
            c.equal(o, c.at(o, lambda: c.get(st, x)), t[x], 'conversion', TE + '::SIFH_to_SIFHstar', 'approximated form.%s%s' % (x, tag))
            c.equal(o, c.at(o, lambda: c.get(se, x)), w[x], 'conversion', TE + '::SIFH_to_SIFHstar', 'error form.%s%s' % (x, tag))


def capture(store, key):
    def h(I, args, kw):
        o = I.obj(args[0])
        store[key] = {k: I.getattr(args[0], k) for k in 'ABCD'}
        return I.arr('matrix', mfn('WCPG', I.as_mat(I.getattr(args[0], 'D')).rows, I.as_mat(I.getattr(args[0], 'D')).cols,
                                   *[I.as_mat(store[key][k]) for k in 'ABCD']), 2)
    return h


def txy(R, c, l0, tag):
    d = sif_dims(c, l0)
    m = sif_mats(c, d)
    f = c.func('fixif.SIF.SIF_tilde_error', 'WCPG_txy')
    c.I.hooks[('dSS', 'WCPG')] = capture({}, 'x')
    c.opaque |= {'WCPG'}

    def th():
        return c.call(f, new_sif(c, d, m)[0])
    outs = c.run(th)
    for o in c.exceptions(outs, 'accepts', TE + '::WCPG_txy', 'gains of the variables' + tag):
        def want():
            E, M1, M2, N1, N2 = blocks(c, d, m)
            return mfn('WCPG', N2.rows, N2.cols, E.A, E.B, N1, N2)
        c.equal(o, o.value, c.at(o, want), 'filter', TE + '::WCPG_txy', 'gain of Hu' + tag, strip=strip_ulow)


def h2_hook(I, args, kw):
    return Num(Sc.atom(('fn', 'h2', *[I.as_mat(I.getattr(args[0], k)) for k in 'ABCD'])))


def sens(R, c, l0, tag):
    d = sif_dims(c, l0)
    m = sif_mats(c, d)
    c.I.hooks[('dSS', 'H2norm')] = h2_hook
    c.opaque |= {'h2'}

    def th():
        s, _, _ = new_sif(c, d, m)
        c.I.setattr(s, 'dZ', c.mat('W', d['l'] + d['n'] + d['p'], d['l'] + d['n'] + d['q']))
        return c.meth(s, 'dTFsensitivity')
    outs = c.run(th)
    for o in c.exceptions(outs, 'accepts', SE + '::SIF_sensibility.dTFsensitivity', 'transfer function sensitivity computed' + tag):
        if not isinstance(o.value, Tup) or len(o.value.items) != 2:
            R.und('sensitivity', SE + '::SIF_sensibility.dTFsensitivity', 'result' + tag, repr(o.value))
            continue

        w = want_outs(c, o, d, m)
        if w is None:
            R.und('sensitivity', SE + '::SIF_sensibility.dTFsensitivity', 'reference' + tag)
            continue
        c.equal(o, o.value.items[0], w[0], 'sensitivity', SE + '::SIF_sensibility.dTFsensitivity', 'sensitivity measure' + tag, strip=strip_ulow)
        c.equal(o, o.value.items[1], w[1], 'sensitivity', SE + '::SIF_sensibility.dTFsensitivity', 'sensitivity matrix' + tag, strip=strip_ulow)


REF = """
from fixif.LTI.dSS import dSS
from numpy import zeros, multiply
from numpy.linalg import norm

def ref(A, B, C, M1, M2, N1, N2, W):
    X = zeros(W.shape)
    for i in range(W.shape[0]):
        for j in range(W.shape[1]):
            if W[i, j] != 0:
                X[i, j] = W[i, j] * (dSS(A, M1[:, i], C, M2[:, i]) * dSS(A, B, N1[j, :], N2[j, :])).H2norm()
    return norm(X, 'fro') * norm(X, 'fro'), X


def measure(D, W):
    m = norm(multiply(D, W), 'fro')
    return m * m
"""


def want_outs(c, o, d, m):
    f = c.ref(REF, 'ref')
    I = c.I
    sv = I.st

    def th():
        B = I.B
        E, M1, M2, _, _ = blocks(c, d, m)
        n, p, q, l = d['n'], d['p'], d['q'], d['l']
        N1 = mvstack([mul(B, E.iJ, m['M']), meye(n), mzero(q, n)], B)
        N2 = mvstack([mul(B, E.iJ, m['N']), mzero(n, q), meye(q)], B)
        W = c.mat('W', l + n + p, l + n + q)
        r = c.call(f, *[I.arr('matrix', x, 2) for x in (E.A, E.B, E.C, M1, M2, N1, N2)], W)
        return I.N(I.num(r.items[0])), I.N(I.arr_mat(r.items[1]))
    outs = [x for x in I.run_paths(th) if x.kind in ('ok', 'return')]
    I.st = sv
    return outs[0].value if len(outs) == 1 else None


def pole(R, c, l0, tag):
    d = sif_dims(c, l0)
    m = sif_mats(c, d)
    f = c.func('fixif.SIF.SIF_sensibility', 'deigdZ')
    W = c.mat('W', d['l'] + d['n'] + d['p'], d['l'] + d['n'] + d['q'])
    got = {}

    def hook(I, args, kw):
        got['args'] = (list(args), dict(kw))
        A, M1, N1 = [I.N(I.as_mat(x)) for x in args[:3]]
        sh = args[3]
        r, k = (I.num(sh.items[0]), I.num(sh.items[1]))
        return Tup([I.arr('array', mfn('deig', r, k, A, M1, N1), 2), Opq('dlk')])
    c.I.hooks[(f.mod.name, 'deigdZ')] = hook
    c.opaque |= {'deig'}

    def th():
        s, _, _ = new_sif(c, d, m)
        c.I.setattr(s, 'dZ', W)
        return c.meth(s, 'poleSensitivity')
    outs = c.run(th)
    for o in c.exceptions(outs, 'accepts', SE + '::SIF_sensibility.poleSensitivity', 'pole sensitivity computed' + tag):
        def want():
            B = c.I.B
            E, M1, M2, _, _ = blocks(c, d, m)
            n, p, q, l = d['n'], d['p'], d['q'], d['l']
            N1 = mvstack([mul(B, E.iJ, m['M']), meye(n), mzero(q, n)], B)
            return mfn('deig', l + n + p, l + n + q, E.A, M1, N1)
        if isinstance(o.value, Tup) and len(o.value.items) == 3:
            c.equal(o, o.value.items[0], c.at(o, lambda: c.call(c.ref(REF, 'measure'), o.value.items[1], W)), 'sensitivity',
                    SE + '::SIF_sensibility.poleSensitivity', 'pole sensitivity measure' + tag, strip=strip_ulow)
            c.equal(o, o.value.items[1], c.at(o, want), 'sensitivity', SE + '::SIF_sensibility.poleSensitivity', 'pole derivative operands' + tag, strip=strip_ulow)
        else:
            R.und('sensitivity', SE + '::SIF_sensibility.poleSensitivity', 'result' + tag, repr(o.value))
