"""C08: Gramians, norms and gains satisfy one set of equations"""
import ast
from .common import *

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of the Gramian and norm computations for every solver selection, with the optional solver present or '
               'absent and with every solver call succeeding or failing; solvers are operators that denote the solution of their documented '
               'equation, results are compared as formulas over these solutions or refuted by instances on which the equation is solved exactly')
F = 'fixif/LTI/dSS.py'
SOURCES = ('dSS',)
GRAMIANS = {'Wo': ('calc_Wo', lambda B, m: (mT(m['A']), mul(B, mT(m['C']), m['C']))),
            'Wc': ('calc_Wc', lambda B, m: (m['A'], mul(B, m['B'], mT(m['B']))))}
METHODS = (None, 'linalg', 'slycot')


def check(R):
    R.rule('equation', 'the Gramian read is the solution of its Lyapunov equation, whatever solver is selected or installed')
    R.rule('norm', 'the H2 norm is the one of the controllability formula, through either Gramian')
    R.rule('accepts', 'no error on a system of any dimensions when the solver succeeds')
    R.rule('refuses', 'an unknown solver is refused')
    R.rule('failure', 'a failing solver surfaces as ValueError (or a subclass), never as an unrelated error or a value')
    for w in GRAMIANS:
        for absent in ((), ('slycot',)):
            for default in METHODS:
                for m in METHODS:
                    if default and m:
                        continue
                    nm = '%s %s default=%s%s' % (w, m, default, ' without slycot' if absent else '')
                    R.case(nm, lambda c: gramian(R, c, w, m, default, absent, nm, False))
                    R.case(nm + ' failing', lambda c: gramian(R, c, w, m, default, absent, nm, True))
        R.case(w + ' unknown', lambda c: unknown(R, c, w, 'other'))
        R.case(w + ' unknown default', lambda c: unknown(R, c, w, None))
    for absent in ((), ('slycot',)):
        nm = 'H2norm%s' % (' without slycot' if absent else '')
        R.case(nm, lambda c: h2(R, c, absent, nm))
    R.rule('gain', 'the DC gain is C(I-A)^-1B+D; the worst-case gain is asked for the matrices of the system')
    R.case('wcpg', lambda c: wcpg(R, c, False))
    R.case('wcpg info', lambda c: wcpg(R, c, True))
    R.case('dc', lambda c: dc(R, c))


def system(c, absent, default, failing):
    c.I.absent = absent
    c.failures = failing
    n, p, q = c.dims_('n p q')
    s, m = new_dss(c, n, p, q)
    if default:
        c.I.setattr(ClassV(c.cls('fixif.LTI.dSS', 'dSS')), '_W_method', Const(default))
    return s, m


def gramian(R, c, w, method, default, absent, nm, failing):
    meth, spec = GRAMIANS[w]
    con = F + '::dSS.' + meth
    got = {}

    def th():
        s, got['m'] = system(c, absent, default, failing)
        if method or failing:
            c.meth(s, meth, *([Const(method)] if method else []))
        return Tup([c.get(s, w), c.get(s, w)])
    outs = c.run(th)
    if failing:
        outs = [o for o in outs if any(x[0] == 'fails' and v for x, v in o.lits)]
        c.refused(outs, 'failure', con, nm)
        return
    for o in c.exceptions(outs, 'accepts', con, nm):
        want = c.at(o, lambda: lyap_(c.I.B, *spec(c.I.B, got['m'])))
        for i, k in ((0, 'read'), (1, 'read again')):
            solves(c, o, o.value.items[i], want, 'equation', con, '%s: %s' % (nm, k))
        g = o.value.items[0]
        sq = c.at(o, lambda: c.I.run_paths(lambda: c.I.binop(ast.Mult(), g, g)))
        for s in sq:
            if s.kind != 'raise':
                s.lits = list(o.lits) + list(s.lits)
                c.equal(s, s.value, c.at(s, lambda: mul(c.I.B, c.matof(s, g), c.matof(s, g))), 'equation', con, nm + ': product of Gramians')


def lyap_(B, A, Q):
    return mfn('lyap', A.rows, A.rows, A, Q)


def solves(c, o, got, want, rule, con, what):
    c.judge(o, [got, want], lambda env, g, w: True if same_mat(g, w) else 'gives %s where the solution is %s' % (show_val(g), show_val(w)),
            rule, con, what, proof=lambda g, w: (mat_equal(g, w, c.I.B)))


def same_mat(g, w):
    return g[:2] == w[:2] and all(close_(x, y) for r, s in zip(g[2], w[2]) for x, y in zip(r, s))


def unknown(R, c, w, method):
    meth, _ = GRAMIANS[w]

    def th():
        s, _ = system(c, (), 'other' if method is None else None, False)
        if method:
            return c.meth(s, meth, Const(method))
        return c.get(s, w)
    c.refused(c.run(th), 'refuses', F + '::dSS.' + meth, 'unknown solver' + (' as argument' if method else ' as default'))


def h2(R, c, absent, nm):
    got = {}
    con = F + '::dSS.H2norm'

    def th():
        s, got['m'] = system(c, absent, None, True)
        return Tup([c.meth(s, 'H2norm'), c.meth(s, 'H2norm')])
    outs = c.run(th)

    def failed(o, eq):
        """the solver of that equation failed on this path (every call of it)"""
        return [v for x, v in o.lits if x[0] == 'fails' and eq(x)]
    one = []
    for o in outs:
        fl = [x for x, v in o.lits if x[0] == 'fails' and v]
        both = len(set(kind(x, got['m']) for x in fl)) > 1
        if both:
            c.refused([o], 'failure', con, nm + ': both solvers fail')
        else:
            one.append((o, 'W' + kind(fl[0], got['m']) + ' not available' if fl else 'solvers succeed'))
    for o, how in one:
        for o in c.exceptions([o], 'accepts', con, nm + ': ' + how):
            m = got['m']

            def want():
                B = c.I.B
                W = lyap_(B, *GRAMIANS['Wc'][1](B, m))
                return madd(mul(B, m['C'], W, mT(m['C'])), mul(B, m['D'], mT(m['D'])), B)
            wm = c.at(o, want)

            def rel(env, g, M):
                t = sum((M[2][i][i] for i in range(M[0])), Fraction(0))
                x = row_(g)[0]
                return True if close_(x * x, t) else 'squared norm %s instead of %s' % (show_val(x * x), show_val(t))
            for i, k in ((0, 'first'), (1, 'again')):
                c.judge(o, [o.value.items[i], wm], rel, 'norm', con, '%s: %s, %s' % (nm, how, k), proof=lambda g, M: proof(c, g, M, m))


def kind(lit, m):
    """which Gramian the failing call computes: the one whose constant term holds B or C"""
    names = {a[3] for a in walk_atoms(lit) if a[0] == 'mat'}
    return 'c' if 'B' in names else 'o'


def proof(c, g, M, m):
    B = c.I.B
    W = lyap_(B, *GRAMIANS['Wo'][1](B, m))
    M2 = madd(mul(B, mT(m['B']), W, m['B']), mul(B, mT(m['D']), m['D']), B)
    x = entry(g, ZERO, ZERO, B) if isinstance(g, Mat) else g
    f = c.ref('from numpy import sqrt\ndef f(M):\n\treturn sqrt(M.trace())[0, 0]\n', 'f')
    for k in (M, M2):
        r = c.call(f, c.I.arr('matrix', k, 2))
        if not (x - c.I.N(r.s)).t:
            return True
    return False


def wcpg(R, c, info):
    """the worst-case gain is the one of the system's own matrices, in the order of the library"""
    n, p, q = c.dims_('n p q')
    got = {}
    con = F + '::dSS.WCPG'

    def lib_(I, args, kw):
        ms = [I.N(I.as_mat(a)) for a in args[:4]]
        x = args[4] if len(args) > 4 else kw.get('output_info')
        if isinstance(x, Ref):
            got['info'] = True
        return I.arr('matrix', mfn('WCPG', ms[3].rows, ms[3].cols, *ms), 2)
    for nm in ('fixif.WCPG.WCPG_ABCD',):
        c.I.hooks[('ext', nm)] = lib_
    c.opaque |= {'WCPG'}

    def th():
        s, got['m'] = new_dss(c, n, p, q)
        if info:
            c.meth(s, 'WCPG')
            return Tup([c.meth(s, 'WCPG', c.I.alloc(DictO({})))])
        return Tup([c.meth(s, 'WCPG'), c.meth(s, 'WCPG')])
    for o in c.exceptions(c.run(th), 'accepts', con, 'worst-case gain' + (' with information' if info else '')):
        m = got['m']
        if info:
            c.holds(o, got.get('info', False), 'gain', con, 'the information mapping is handed to the library', 'the mapping is not filled')
        for x in o.value.items:
            c.equal(o, x, c.at(o, lambda: mfn('WCPG', p, q, *[m[k] for k in 'ABCD'])), 'gain', con, 'operands of the worst-case gain')


def dc(R, c):
    n, p, q = c.dims_('n p q')
    c.failures = True
    got = {}
    con = F + '::dSS.calc_DC_gain'

    def th():
        a, got['m'] = new_dss(c, n, p, q)
        return Tup([c.meth(a, 'calc_DC_gain'), c.meth(a, 'calc_DC_gain')])
    outs = c.run(th)
    m = got['m']
    bad = [o for o in outs if any(x[0] == 'fails' and v for x, v in o.lits)]
    if bad:
        c.refused(bad, 'failure', con, 'singular system')
    for o in c.exceptions([o for o in outs if o not in bad], 'accepts', con, 'DC gain'):
        w = c.at(o, lambda: madd(mul(c.I.B, m['C'], minv(madd(meye(n), m['A'], c.I.B, -ONE)), m['B']), m['D'], c.I.B))
        for x in o.value.items:
            c.equal(o, x, w, 'gain', con, 'DC gain')
