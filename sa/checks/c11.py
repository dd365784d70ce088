"""C11: unsuitable operands are refused, with ValueError; suitable ones are not"""
import ast
from fractions import Fraction
from .mpops import *

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of every operation that checks its operands, on operands of any sizes that are unsuitable in exactly one '
               'respect (every path must raise ValueError) and on suitable ones (no feasible path may raise)')
SOURCES = ('MPFMatrix', 'mpf_matrix', 'mpf_', 'dSS', 'dTF', 'Filter')

MPF = 'fixif/func_aux/MPFMatrix.py::MPFMatrix.'
DSS = 'fixif/LTI/dSS.py::dSS.'
DTF = 'fixif/LTI/dTF.py::dTF.'
DSSMP = 'fixif/LTI/dSSmp.py::dSSmp.'
DTFMP = 'fixif/LTI/dTFmp.py::dTFmp.'
SIFC = 'fixif/SIF/SIF.py::SIF.'

WRONG = {'list': lambda c: c.lst(Num(sc(1)), Num(sc(2))), 'int': lambda c: Num(sc(3), 'int'), 'float': lambda c: Num(Sc.sym('w'), 'float'),
         'string': lambda c: Const('abc'), 'None': lambda c: NONE}


def check(R):
    R.rule('refuses', 'an operand unsuitable in one respect is refused with ValueError on every path')
    R.rule('accepts', 'suitable operands are accepted')
    R.rule('exact-check', 'a refusal that depends on the values of the operand happens exactly when the value is unsuitable')
    for name, con, f in table():
        R.case(name, lambda c: refuse(c, name, con, f))
    for name, con, f in good():
        R.case(name, lambda c: accept(c, name, con, f))
    for kind in KINDS + ('MPF',):
        R.case('diagonal %s' % kind, lambda c: diagonal(R, c, kind))
        R.case('triangle %s' % kind, lambda c: triangle(R, c, kind))
    for what in ('inf', 'nan'):
        for f in ('mpf_get_representation', 'mpf_matrix_get_representation', 'get_int_representation'):
            R.case('%s %s' % (f, what), lambda c: abnormal(R, c, f, what))


def refuse(c, name, con, f):
    c.refused(c.run(f(c)), 'refuses', con, name)


def accept(c, name, con, f):
    c.exceptions(c.run(f(c)), 'accepts', con, name)


def bad_dim(c, *ref):
    """a size different from the given ones"""
    e = c.dim('e', 1)
    for r in ref:
        c.assume_unequal(e, r)
    return e


def matrices(c, kind, name, r, k):
    return wrap(c, mnamed(name, r, k), kind)


def table():
    out = []

    def add(name, con, f):
        out.append((name, con, f))
    # ------------------------------------------------------------- multiprecision matrices
    for fn, k in (('mpf_matrix_fadd', 1), ('mpf_matrix_fsub', -1), ('mpf_matrix_fmul', 0)):
        for w in list(WRONG) + ['array', 'MPF']:
            for pos in (0, 1):
                def f(c, fn=fn, k=k, w=w, pos=pos):
                    A, Bm = operands(c, k)

                    def th():
                        x = [wrap(c, A, 'mp'), wrap(c, Bm, 'mp')]
                        x[pos] = WRONG[w](c) if w in WRONG else wrap(c, (A, Bm)[pos], w)
                        return c.call(fa(c, fn), *x)
                    return th
                add('%s: %s as operand %d' % (fn, w, pos + 1), fn_of(fn), f)
        for ka in KINDS:
            for kb in KINDS:
                for ax in (('inner',) if k == 0 else ('rows', 'columns')):
                    def f(c, fn=fn, ka=ka, kb=kb, ax=ax):
                        m, n, p = c.dims_('m n p')
                        if ax == 'inner':
                            r, s = bad_dim(c, n), p
                        elif ax == 'rows':
                            r, s = bad_dim(c, m), n
                        else:
                            r, s = m, bad_dim(c, n)
                        return lambda: c.call(fa(c, fn), matrices(c, ka, 'A', m, n), matrices(c, kb, 'B', r, s))
                    add('%s %s %s: different %s' % (fn, ka, kb, ax), fn_of(fn), f)
    for fn, k in (('add_exact', 1), ('sub_exact', -1), ('mul_exact', 0), ('__add__', 1), ('__sub__', -1), ('__mul__', 0), ('equal', 1), ('almost_close', 1)):
        exact = fn.endswith('exact')
        for w in list(WRONG) + (['matrix', 'array', 'mp'] if exact else []):
            def f(c, fn=fn, k=k, w=w):
                A, Bm = operands(c, k)
                return lambda: c.meth(wrap(c, A, 'MPF'), fn, WRONG[w](c) if w in WRONG else wrap(c, Bm, w))
            add('MPFMatrix.%s: %s operand' % (fn, w), MPF + fn, f)
        for kb in ('MPF',) if exact else ('MPF', 'mp', 'matrix', 'array'):
            for ax in (('inner',) if k == 0 else ('rows', 'columns')):
                def f(c, fn=fn, kb=kb, ax=ax):
                    m, n, p = c.dims_('m n p')
                    if ax == 'inner':
                        r, s = bad_dim(c, n), p
                    elif ax == 'rows':
                        r, s = bad_dim(c, m), n
                    else:
                        r, s = m, bad_dim(c, n)
                    return lambda: c.meth(matrices(c, 'MPF', 'A', m, n), fn, matrices(c, kb, 'B', r, s))
                add('MPFMatrix.%s: %s with different %s' % (fn, kb, ax), MPF + fn, f)
    for w in WRONG:
        add('MPFMatrix of %s' % w, MPF + '__init__', lambda c, w=w: lambda: c.new(c.cls(FA + 'MPFMatrix', 'MPFMatrix'), WRONG[w](c)))
        for fn in ('mpf_matrix_lt_inverse', 'python2mpf_matrix', 'mpf_to_numpy', 'mpf_get_representation', 'mpf_matrix_to_sollya'):
            add('%s: %s' % (fn, w), fn_of(fn), lambda c, w=w, fn=fn: lambda: c.call(fa(c, fn), WRONG[w](c)))
        for pos in (0, 1):
            def f(c, w=w, pos=pos):
                def th():
                    x = [matrices(c, 'mp', 'a', c.dim('m', 1), ONE), matrices(c, 'mp', 'b', c.dim('n', 1), ONE)]
                    x[pos] = WRONG[w](c)
                    return c.call(fa(c, 'mpf_poly_mult'), *x)
                return th
            add('mpf_poly_mult: %s as operand %d' % (w, pos + 1), fn_of('mpf_poly_mult'), f)
    for fn, kinds in (('python2mpf_matrix', ('array', 'mp', 'MPF')), ('mpf_to_numpy', ('matrix', 'array', 'MPF')), ('mpf_matrix_to_sollya', ('matrix', 'array', 'MPF')),
                      ('mpf_matrix_lt_inverse', ('array', 'MPF')), ('mpf_get_representation', ('matrix', 'mp', 'MPF'))):
        for kind in kinds:
            def f(c, fn=fn, kind=kind):
                n = c.dim('n', 1)
                c.makers['L'] = unit_lower('L')
                return lambda: c.call(fa(c, fn), matrices(c, kind, 'L', n, n))
            add('%s: %s' % (fn, kind), fn_of(fn), f)
    for kind in KINDS + ('MPF',):
        def f(c, kind=kind):
            n = c.dim('n', 1)
            e = bad_dim(c, n)

            def th():
                L = matrices(c, kind, 'A', n, e)
                return c.meth(L, 'inv_lowtr') if kind == 'MPF' else c.call(fa(c, 'mpf_matrix_lt_inverse'), L)
            return th
        add('lower triangular inverse of a rectangular %s' % kind, MPF + 'inv_lowtr' if kind == 'MPF' else fn_of('mpf_matrix_lt_inverse'), f)
    add('mp_poly_product: no coefficient', fn_of('mp_poly_product'), lambda c: lambda: c.call(fa(c, 'mp_poly_product'), c.lst()))
    add('mp_poly_product: no coefficient, but one', fn_of('mp_poly_product'), lambda c: lambda: c.call(fa(c, 'mp_poly_product'), c.lst(), Num(sc(0), 'int')))
    # ------------------------------------------------------------- state-spaces
    for mod, cn, con, kinds in (('fixif.LTI.dSS', 'dSS', DSS, ('matrix', 'array')), ('fixif.LTI.dSSmp', 'dSSmp', DSSMP, ('matrix', 'mp'))):
        for kind in kinds:
            for what, shp in (('A', 'ne nq pn pq'), ('B', 'nn eq pn pq'), ('C', 'nn nq pe pq'), ('D rows', 'nn nq pn eq'), ('D columns', 'nn nq pn pe')):
                def f(c, mod=mod, cn=cn, kind=kind, what=what, shp=shp):
                    d = dict(zip('npq', c.dims_('n p q')))
                    d['e'] = bad_dim(c, d['p'] if what == 'D rows' else d['q'] if what == 'D columns' else d['n'])
                    return lambda: c.new(c.cls(mod, cn), *[c.I.arr(kind, mnamed(x, d[s[0]], d[s[1]]), 2) for x, s in zip('ABCD', shp.split())])
                add('%s of %s: size of %s' % (cn, kind, what), con + '__init__', f)
        for op, nm in ((ast.Add, '__add__'), (ast.Sub, '__sub__')) + (((ast.Mult, '__mul__'),) if cn == 'dSS' else ()):
            for ax in ('inputs', 'outputs') if nm != '__mul__' else ('inner',):
                def f(c, mod=mod, cn=cn, op=op, nm=nm, ax=ax):
                    n1, n2, p, q = c.dims_('n1 n2 p q')
                    e = bad_dim(c, p if ax == 'outputs' else q)
                    kw = dict(kind='mp' if cn == 'dSSmp' else 'matrix', mod=mod, clsname=cn)

                    def th():
                        a, _ = new_dss(c, n1, p, q, '1', **kw)
                        b, _ = new_dss(c, n2, e if ax != 'inputs' else p, e if ax == 'inputs' else q, '2', **kw)
                        return c.I.binop(op(), a, b)
                    return th
                add('%s.%s: different %s' % (cn, nm, 'outputs (second) and inputs (first)' if ax == 'inner' else ax), con + nm, f)
        for ax in ('inputs', 'outputs'):
            def f(c, mod=mod, cn=cn, ax=ax):
                n = c.dim('n', 1)
                e = bad_dim(c, ONE)

                def th():
                    a, _ = new_dss(c, n, e if ax == 'outputs' else ONE, e if ax == 'inputs' else ONE, kind='mp' if cn == 'dSSmp' else 'matrix', mod=mod, clsname=cn)
                    return c.meth(a, 'to_dTF' if cn == 'dSS' else 'to_dTFmp')
                return th
            add('%s to transfer function: several %s' % (cn, ax), con + ('to_dTF' if cn == 'dSS' else 'to_dTFmp'), f)
    for w in list(WRONG) + ['array', 'MPF']:
        for pos in range(4):
            def f(c, w=w, pos=pos):
                n, p, q = c.dims_('n p q')

                def th():
                    m = [('A', n, n), ('B', n, q), ('C', p, n), ('D', p, q)]
                    a = [c.I.arr('mp', mnamed(*x), 2) for x in m]
                    a[pos] = WRONG[w](c) if w in WRONG else wrap(c, mnamed(*m[pos]), w)
                    return c.new(c.cls('fixif.LTI.dSSmp', 'dSSmp'), *a)
                return th
            add('dSSmp: %s as matrix %d' % (w, pos + 1), DSSMP + '__init__', f)
        for nm in ('__add__', '__sub__'):
            def f(c, w=w, nm=nm):
                n, p, q = c.dims_('n p q')

                def th():
                    a, _ = new_dss(c, n, p, q, kind='mp', mod='fixif.LTI.dSSmp', clsname='dSSmp')
                    return c.meth(a, nm, WRONG[w](c) if w in WRONG else wrap(c, mnamed('X', n, n), w))
                return th
            add('dSSmp.%s: %s' % (nm, w), DSSMP + nm, f)
        for arg in ('u', 'x0'):
            if (w, arg) == ('None', 'x0'):
                continue

            def f(c, w=w, arg=arg):
                n, p, q = c.dims_('n p q')
                T = c.dim('T', 1)

                def th():
                    a, _ = new_dss(c, n, p, q, kind='mp', mod='fixif.LTI.dSSmp', clsname='dSSmp')
                    v = WRONG[w](c) if w in WRONG else wrap(c, mnamed('X', q if arg == 'u' else n, T if arg == 'u' else ONE), w)
                    return c.meth(a, 'simulate', v) if arg == 'u' else c.meth(a, 'simulate', c.I.arr('mp', mnamed('u', q, T), 2), x0=v)
                return th
            add('dSSmp.simulate: %s as %s' % (w, arg), DSSMP + 'simulate', f)
    for kind in KINDS:
        for arg in ('u', 'x0'):
            for exact in (True, False):
                def f(c, kind=kind, arg=arg, exact=exact):
                    n, p, q = c.dims_('n p q')
                    T = c.dim('T', 1)
                    e = bad_dim(c, q if arg == 'u' else n)

                    def th():
                        a, _ = new_dss(c, n, p, q, kind='mp', mod='fixif.LTI.dSSmp', clsname='dSSmp')
                        kw = {'exact': Const(exact)}
                        if arg == 'x0':
                            kw['x0'] = c.I.arr(kind, mnamed('x0', e, ONE), 2)
                        return c.meth(a, 'simulate', c.I.arr(kind, mnamed('u', e if arg == 'u' else q, T), 2), **kw)
                    return th
                add('dSSmp.simulate: rows of %s (%s, %s)' % (arg, kind, 'exact' if exact else 'rounded'), DSSMP + 'simulate', f)
    # ------------------------------------------------------------- transfer functions
    for pos in (0, 1):
        def f(c, pos=pos):
            n, m, e = c.dim('n', 1), c.dim('m', 1), c.dim('e', 2)

            def th():
                a = [c.I.arr('matrix', mnamed(x, e if i == pos else ONE, k), 2) for i, (x, k) in enumerate((('num', m), ('den', n)))]
                return c.new(c.cls('fixif.LTI.dTF', 'dTF'), *a)
            return th
        add('dTF: %s with several rows' % ('numerator', 'denominator')[pos], DTF + '__init__', f)

        def f(c, pos=pos):
            n, m, e, k = c.dim('n', 2), c.dim('m', 1), c.dim('e', 2), c.dim('k', 2)

            def th():
                a = [c.I.arr('mp', mnamed('x%d' % i, e if i == pos else m, k if i == pos else ONE), 2) for i in (0, 1)]
                return c.new(c.cls('fixif.LTI.dTFmp', 'dTFmp'), *a)
            return th
        add('dTFmp: argument %d with several rows and columns' % (pos + 1), DTFMP + '__init__', f)
        for w in list(WRONG) + ['array', 'MPF', 'matrix']:
            def f(c, pos=pos, w=w):
                n = c.dim('n', 1)

                def th():
                    a = [c.I.arr('mp', mnamed('x%d' % i, n, ONE), 2) for i in (0, 1)]
                    a[pos] = WRONG[w](c) if w in WRONG else wrap(c, mnamed('x', n, ONE), w)
                    return c.new(c.cls('fixif.LTI.dTFmp', 'dTFmp'), *a)
                return th
            add('dTFmp: %s as argument %d' % (w, pos + 1), DTFMP + '__init__', f)

    def f(c):
        n, m = c.dim('n', 1), c.dim('m', 1)
        zero_first = lambda B: mhstack([mzero(1, 1), mnamed('den', n, ONE)] and [mzero(1, 1), mnamed('den', ONE, n)], B)
        return lambda: c.new(c.cls('fixif.LTI.dTF', 'dTF'), c.I.arr('matrix', mnamed('num', ONE, m), 2), c.I.arr('matrix', zero_first(c.I.B), 2))
    add('dTF: null first coefficient of the denominator', DTF + '__init__', f)
    for op, nm in ((ast.Add, '__add__'), (ast.Sub, '__sub__'), (ast.Mult, '__mul__')):
        for w in ('list', 'string', 'None', 'matrix', 'array', 'mp'):
            for left in (False, True):
                if left and w in ('matrix', 'array', 'mp', 'list', 'string'):
                    continue        # the operator of the other operand comes first

                def f(c, op=op, w=w, left=left):
                    n, m = c.dim('n', 1), c.dim('m', 1)

                    def th():
                        t = new_tf(c, n, m)
                        x = WRONG[w](c) if w in WRONG else wrap(c, mnamed('X', n, n), w)
                        return c.I.binop(op(), x, t) if left else c.I.binop(op(), t, x)
                    return th
                add('dTF %s %s%s' % (nm, w, ' on the left' if left else ''), DTF + (nm if not left else '__r' + nm[2:]), f)

    def f(c):
        n, m = c.dim('n', 1), c.dim('m', 1)
        return lambda: c.meth(new_tf(c, n, m), 'to_dSS', Const('other'))
    add('dTF.to_dSS: unknown form', DTF + 'to_dSS', f)
    # ------------------------------------------------------------- implicit forms
    for x in NAMES:
        for ax in (0, 1):
            if x == 'P' and ax == 1 or x == 'J' and ax == 0:
                pass

            def f(c, x=x, ax=ax):
                d = sif_dims(c)
                r = SHAPES[x]
                e = bad_dim(c, d[r[ax]])
                over = {x: (e, d[r[1]]) if ax == 0 else (d[r[0]], e)}
                return lambda: c.new(c.cls(SIFM, 'SIF'), Tup([c.I.arr('matrix', y, 2) for y in sif_mats(c, d, over).values()]))
            add('SIF: number of %s of %s' % (('rows', 'columns')[ax], x), 'fixif/SIF/SIF.py::_check_dimensions', f)

    def f(c):
        d = sif_dims(c)
        e = bad_dim(c, d['q'])
        N = c.dim('N', 1)
        return lambda: c.meth(new_sif(c, d)[0], 'simulate', c.I.arr('matrix', mnamed('u', e, N), 2))
    add('SIF.simulate: number of inputs', SIFC + 'simulate', f)
    # ------------------------------------------------------------- names and lists
    for k in (1, 2, 3):
        for nb in (1, 2, 3):
            if k != nb:
                add('generateNames: %d surnames for %d variables' % (k, nb), 'fixif/SoP/VarName.py::generateNames',
                    lambda c, k=k, nb=nb: lambda: c.call(c.func('fixif.SoP.VarName', 'generateNames'), Const('u'), Num(sc(nb), 'int'),
                                                         c.lst(*[Const('s%d' % i) for i in range(k)])))
    for a, b in ((1, 2), (2, 1), (0, 1), (3, 2)):
        add('SoP: %d constants for %d variables' % (a, b), 'fixif/SoP/SoP.py::SoP.__init__',
            lambda c, a=a, b=b: lambda: c.new(c.cls('fixif.SoP.SoP', 'SoP'), c.lst(*[Num(Sc.sym('c%d' % i)) for i in range(a)]),
                                              c.lst(*[Const('v%d' % i) for i in range(b)]), Const('y')))
        add('Gabarit: %d bands, %d amplitudes' % (a, b), 'fixif/LTI/Gabarit.py::Gabarit.__init__',
            lambda c, a=a, b=b: lambda: c.new(c.cls('fixif.LTI.Gabarit', 'Gabarit'), Num(sc(1000)), c.lst(*[Tup([Num(sc(10 * i)), Num(sc(10 * i + 5))]) for i in range(a)]),
                                              c.lst(*[Num(sc(-20 * i - 20)) for i in range(b)])))
    for arg in range(3):
        for v in (0, -1, Fraction(3, 2)):
            def f(c, arg=arg, v=v):
                a = [Num(sc(2), 'int'), Num(sc(2), 'int'), Num(sc(2), 'int')]
                a[arg] = Num(sc(v), 'int' if v == int(v) else 'float')
                return lambda: c.call(c.func('fixif.LTI.dSS', 'random_dSS'), *a)
            add('random_dSS: argument %d is %s' % (arg + 1, v), 'fixif/LTI/dSS.py::random_dSS', f)
    # ------------------------------------------------------------- options
    add('unknown structure', 'fixif/Structures/Structure.py::Structure.getFromName',
        lambda c: lambda: c.call(c.I.getattr(ClassV(c.cls('fixif.Structures.Structure', 'Structure')), 'getFromName'), Const('no such structure')))

    def f(c):
        n, p, q = c.dims_('n p q')

        def th():
            s, _ = new_dss(c, n, p, q)
            fl = c.new(c.cls('fixif.LTI.Filter', 'Filter'), ss=s)
            return c.call(c.func('fixif.Structures.State_Space.State_Space', 'makeSS'), fl, Const('other'))
        return th
    add('State-Space: unknown form', 'fixif/Structures/State_Space/State_Space.py::makeSS', f)
    for v in (0, 3, -1):
        def f(c, v=v):
            n = c.dim('n', 1)

            def th():
                fl = c.new(c.cls('fixif.LTI.Filter', 'Filter'), tf=new_tf(c, n, n))
                return c.call(c.func('fixif.Structures.DirectForms.DFI', 'makeDFI'), fl, nbSum=Num(sc(v), 'int'))
            return th
        add('DFI: nbSum=%d' % v, 'fixif/Structures/DirectForms/DFI.py::makeDFI', f)

    def f(c):
        def th():
            fl = c.new(c.cls('fixif.LTI.Filter', 'Filter'), tf=new_tf(c, sc(2), sc(2)))
            return c.call(c.func('fixif.Structures.rhoDFIIt.rhoDFIIt', 'makerhoDFII'), fl, c.lst(Num(Sc.sym('g0')), Num(Sc.sym('g1'))), scaling=Const('other'))
        return th
    add('rhoDFII: unknown scaling', 'fixif/Structures/rhoDFIIt/rhoDFIIt.py::makerhoDFII', f)
    for w, lab in ((Num(sc(0), 'int'), '0'), (Num(sc(-2), 'int'), '-2'), (Num(sc(Fraction(5, 2)), 'float'), '2.5'), (Const('8'), "'8'"), (NONE, 'None')):
        def f(c, w=w):
            def th():
                d = sif_dims(c)
                s, _, _ = new_sif(c, d, None, c.cls('fixif.SIF.Realization', 'Realization'))
                return c.meth(s, 'quantize', w)
            return th
        def g(c, w=w):
            d = sif_dims(c)
            m = sif_mats(c, d)

            def th():
                fl = c.new(c.cls('fixif.LTI.Filter', 'Filter'), tf=new_tf(c, c.dim('n', 1), c.dim('n', 1)))
                s = c.new(c.cls('fixif.SIF.Realization', 'Realization'), fl, Tup([c.I.arr('matrix', m[x], 2) for x in NAMES]))
                return c.meth(s, 'quantize', w)
            return th
        add('Realization.quantize: word-length %s' % lab, 'fixif/SIF/Realization.py::Realization.quantize', g)
    return out


def new_tf(c, n, m):
    c.makers['den'] = lambda env, i, j: Fraction(1) if j == 0 else env.value('mat', 'den', i, j)
    den = mhstack([mones(1, 1), mnamed('den', ONE, sc(n))], c.I.B)
    return c.new(c.cls('fixif.LTI.dTF', 'dTF'), c.I.arr('matrix', mnamed('num', ONE, sc(m)), 2), c.I.arr('matrix', den, 2))


def good():
    """suitable operands: accepted on every path"""
    out = []

    def add(name, con, f):
        out.append((name, con, f))
    for name, con, f, exact, strip in operations():
        add('accepted: %s' % name, con, lambda c, f=f: f(c)[0])
    for meth in ('equal', 'almost_close'):
        for kb in ('MPF', 'mp', 'matrix', 'array'):
            def f(c, meth=meth, kb=kb):
                A, Bm = operands(c, 1)
                return lambda: c.meth(wrap(c, A, 'MPF'), meth, wrap(c, Bm, kb))
            add('accepted: %s %s' % (meth, kb), MPF + meth, f)
    for fn in ('mpf_to_numpy', 'mpf_matrix_to_sollya', 'mpf_matrix_get_representation'):
        add('accepted: %s' % fn, fn_of(fn), lambda c, fn=fn: lambda: c.call(fa(c, fn), matrices(c, 'mp', 'A', *c.dims_('m n'))))
    add('accepted: mpf_to_numpy of a number', fn_of('mpf_to_numpy'), lambda c: lambda: c.call(fa(c, 'mpf_to_numpy'), Num(Sc.sym('x'), 'mpf')))
    for k in (1, 2, 3):
        for j in [None] + list(range(k)):
            add('accepted: mp_poly_product of %d without %s' % (k, j), fn_of('mp_poly_product'),
                lambda c, k=k, j=j: lambda: c.call(fa(c, 'mp_poly_product'), c.lst(*[Num(Sc.sym('p%d' % i), 'mpf') for i in range(k)]), *([] if j is None else [Num(sc(j), 'int')])))
    for mod, cn, con, kinds in (('fixif.LTI.dSS', 'dSS', DSS, ('matrix', 'array')), ('fixif.LTI.dSSmp', 'dSSmp', DSSMP, ('matrix', 'mp'))):
        for kind in kinds:
            add('accepted: %s of %s' % (cn, kind), con + '__init__', lambda c, mod=mod, cn=cn, kind=kind: lambda: new_dss(c, kind=kind, mod=mod, clsname=cn)[0])
        for op, nm in ((ast.Add, '__add__'), (ast.Sub, '__sub__')) + (((ast.Mult, '__mul__'),) if cn == 'dSS' else ()):
            def f(c, mod=mod, cn=cn, op=op, nm=nm):
                n1, n2, p, q, r = c.dims_('n1 n2 p q r')
                kw = dict(kind='mp' if cn == 'dSSmp' else 'matrix', mod=mod, clsname=cn)
                return lambda: c.I.binop(op(), new_dss(c, n1, p, q, '1', **kw)[0], new_dss(c, n2, *((q, r) if nm == '__mul__' else (p, q)), '2', **kw)[0])
            add('accepted: %s.%s' % (cn, nm), con + nm, f)
    add('accepted: dSS.to_dTF', DSS + 'to_dTF', lambda c: lambda: c.meth(new_dss(c, c.dim('n', 1), ONE, ONE)[0], 'to_dTF'))
    for kind in KINDS:
        for kx in (None,) + KINDS:
            for exact in (True, False):
                def f(c, kind=kind, kx=kx, exact=exact):
                    n, p, q = c.dims_('n p q')
                    T = c.dim('T', 1)

                    def th():
                        a, _ = new_dss(c, n, p, q, kind='mp', mod='fixif.LTI.dSSmp', clsname='dSSmp')
                        kw = {'exact': Const(exact)}
                        if kx:
                            kw['x0'] = c.I.arr(kx, mnamed('x0', n, ONE), 2)
                        return c.meth(a, 'simulate', c.I.arr(kind, mnamed('u', q, T), 2), **kw)
                    return th
                add('accepted: dSSmp.simulate of %s from %s %s' % (kind, kx, 'exact' if exact else 'rounded'), DSSMP + 'simulate', f)
    for kind in KINDS:
        for flip in (False, True):
            def f(c, kind=kind, flip=flip):
                n, m = c.dim('n', 1), c.dim('m', 1)
                c.makers['den'] = lambda env, i, j: Fraction(3) if i == j == 0 else env.value('mat', 'den', i, j)
                return lambda: c.new(c.cls('fixif.LTI.dTFmp', 'dTFmp'), *[c.I.arr(kind, mnamed(x, *((ONE, k) if flip else (k, ONE))), 2) for x, k in (('num', m), ('den', n))])
            add('accepted: dTFmp of %s %s' % (kind, 'rows' if flip else 'columns'), DTFMP + '__init__', f)
    for op, nm in ((ast.Add, '__add__'), (ast.Sub, '__sub__'), (ast.Mult, '__mul__')):
        for w in ('int', 'float', 'dTF'):
            for left in (False, True):
                def f(c, op=op, w=w, left=left):
                    n, m = c.dim('n', 1), c.dim('m', 1)

                    def th():
                        t = new_tf(c, n, m)
                        x = new_tf(c, n, m) if w == 'dTF' else WRONG[w](c)
                        return c.I.binop(op(), x, t) if left else c.I.binop(op(), t, x)
                    return th
                add('accepted: dTF %s %s%s' % (nm, w, ' on the left' if left else ''), DTF + (nm if not left or w == 'dTF' else '__r' + nm[2:]), f)
    for l0 in (False, True):
        add('accepted: SIF%s' % (' without intermediate variables' if l0 else ''), 'fixif/SIF/SIF.py::_check_dimensions', lambda c, l0=l0: lambda: new_sif(c, sif_dims(c, l0))[0])

    def f(c):
        d = sif_dims(c)
        return lambda: c.meth(new_sif(c, d)[0], 'simulate', c.I.arr('matrix', mnamed('u', d['q'], c.dim('N', 1)), 2))
    add('accepted: SIF.simulate', SIFC + 'simulate', f)
    for nb in (1, 2, 3):
        for k in (None, 'str', 'tuple'):
            def f(c, nb=nb, k=k):
                s = None if k is None else c.lst(*[Const('s%d' % i) if k == 'str' else Tup([Const('s'), Num(sc(i), 'int'), Num(sc(0), 'int')]) for i in range(nb)])
                return lambda: c.call(c.func('fixif.SoP.VarName', 'generateNames'), Const('u'), Num(sc(nb), 'int'), *([] if s is None else [s]))
            add('accepted: generateNames %d %s' % (nb, k), 'fixif/SoP/VarName.py::generateNames', f)
    for n in (0, 1, 2, 3):
        add('accepted: SoP of %d' % n, 'fixif/SoP/SoP.py::SoP.__init__',
            lambda c, n=n: lambda: c.new(c.cls('fixif.SoP.SoP', 'SoP'), c.lst(*[Num(Sc.sym('c%d' % i)) for i in range(n)]),
                                         c.lst(*[Const('v%d' % i) for i in range(n)]), Const('y')))
        if n:
            add('accepted: Gabarit of %d bands' % n, 'fixif/LTI/Gabarit.py::Gabarit.__init__',
                lambda c, n=n: lambda: c.new(c.cls('fixif.LTI.Gabarit', 'Gabarit'), Num(sc(1000)), c.lst(*[Tup([Num(sc(10 * i)), Num(sc(10 * i + 5))]) for i in range(n)]),
                                             c.lst(*[Num(sc(-20 * i - 20)) for i in range(n)])))
    for v in (1, 2):
        def f(c, v=v):
            n = c.dim('n', 1)

            def th():
                fl = c.new(c.cls('fixif.LTI.Filter', 'Filter'), tf=new_tf(c, n, n))
                return c.call(c.func('fixif.Structures.DirectForms.DFI', 'makeDFI'), fl, nbSum=Num(sc(v), 'int'))
            return th
        add('accepted: DFI with nbSum=%d' % v, 'fixif/Structures/DirectForms/DFI.py::makeDFI', f)
    return out


# ---- refusals that depend on the values of the operand
def inverse(c, kind):
    n = c.dim('n', 1)

    def th():
        L = matrices(c, kind, 'X', n, n)
        return c.meth(L, 'inv_lowtr') if kind == 'MPF' else c.call(fa(c, 'mpf_matrix_lt_inverse'), L)
    return th, MPF + 'inv_lowtr' if kind == 'MPF' else fn_of('mpf_matrix_lt_inverse')


def nearly(bad):
    """a unit lower triangular operand except, for some seeds, at one place (on the diagonal or above it)"""
    def f(env, i, j):
        n = env.dims.get('n', 1)
        s = env.seed
        if i == j:
            return Fraction(2) if bad == 'diagonal' and s % 4 and i == (s // 2) % n else Fraction(1)
        if i < j:
            return Fraction(3) if bad == 'triangle' and s % 4 and (i + 2 * j) % (n + 1) == s % (n + 1) else Fraction(0)
        return env.value('mat', 'X', i, j)
    return f


def diagonal(R, c, kind):
    exactly(R, c, kind, 'diagonal')


def triangle(R, c, kind):
    exactly(R, c, kind, 'triangle')


UNIT = '''
def unit(L):
	n = L.rows
	for i in range(0, n):
		if L[i, i] != 1:
			raise ValueError('diagonal')
		for j in range(i + 1, n):
			if L[i, j] != 0:
				raise ValueError('triangle')
'''


def exactly(R, c, kind, bad):
    th, con = inverse(c, kind)
    c.makers['X'] = nearly(bad)
    outs = c.run(th)
    cond = lambda os: sorted(repr(o.lits) for o in os if o.kind != 'raise')
    same = cond(outs) == cond(c.run(lambda: c.call(c.ref(UNIT, 'unit'), matrices(c, 'mp' if kind == 'matrix' else kind, 'X', c.dim('n', 1), c.dim('n', 1)))))
    what = 'operand with a wrong %s (%s)' % (bad, kind)
    for o in outs:
        if o.kind == 'raise' and not exc_isa(o.value.name, 'ValueError'):
            c.exceptions([o], 'exact-check', con, what)
            continue
        raised = o.kind == 'raise'
        Mx = mnamed('X', Sc.sym('n'), Sc.sym('n'))

        def rl(env, x):
            r, k, rows = x
            good = all((v == 1 if i == j else v == 0) for i, row in enumerate(rows) for j, v in enumerate(row) if j >= i)
            if raised and good:
                return 'refused: %s' % show_val(x)
            if not raised and not good:
                return 'accepted: %s' % show_val(x)
            return True
        c.judge(o, [Mx], rl, 'exact-check', con, what + (': refusal' if raised else ': acceptance'), proof=lambda x: same)


def abnormal(R, c, f, what):
    c.I.nonfinite = True
    con = fn_of(f) if f.startswith('mpf') else MPF + f

    def th():
        if f == 'mpf_get_representation':
            return c.call(fa(c, f), Num(Sc.sym('x'), 'mpf'))
        m, n = c.dims_('m n')
        return c.call(fa(c, f), matrices(c, 'mp', 'A', m, n)) if f.startswith('mpf') else c.meth(matrices(c, 'MPF', 'A', m, n), f)
    for o in c.run(th):
        lits = [(k[0], v) for k, v in o.lits if k[0] in ('isnan', 'isinf')]
        hit = any(k == 'is' + what and v for k, v in lits)
        seen = any(k == 'is' + what for k, v in lits)
        if o.kind == 'raise':
            ok = exc_isa(o.value.name, 'ValueError')
            c.R.ok('exact-check', con, '%s: refusal of %s' % (f, what)) if ok else c.R.viol('exact-check', con, '%s: refusal of %s' % (f, what), 'raises %s' % short(o.value), None)
        elif hit:
            c.R.viol('exact-check', con, '%s: %s accepted' % (f, what), 'no error on path %s' % short(o.lits), None)
        elif seen:
            c.R.ok('exact-check', con, '%s: %s excluded when accepted' % (f, what))
