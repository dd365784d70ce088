"""C06: state-space composition and conversion are block-exact"""
from .common import *

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of the state-space operations over symbolic matrices of symbolic sizes; the resulting '
               'normal forms are compared with the block formulas of the definitions, for all sizes at once')
F = 'fixif/LTI/dSS.py'
SOURCES = ('dSS', 'dSSmp')


def sizes(c, names, empty=''):
    """the sizes of a case; those named in empty are zero (systems without states)"""
    empty = empty.split()
    d = dict(zip([x for x in names.split() if x not in empty], c.dims_(' '.join(x for x in names.split() if x not in empty))))
    return [d.get(x, ZERO) for x in names.split()]


def check(R):
    R.rule('formula', 'the reported matrices equal the block formula of the definition')
    R.rule('accepts', 'fitting operands are accepted')
    R.rule('refuses', 'operands whose dimensions do not fit raise ValueError')
    for kind in ('matrix', 'array'):
        R.case('construct ' + kind, lambda c: construct(R, c, kind))
        R.case('mul ' + kind, lambda c: mul_(R, c, kind))
    R.case('mul refuse', lambda c: mul_refuse(R, c))
    R.case('mul refuse 2', lambda c: mul_refuse(R, c, True))
    for op, name, sg in ((ast.Add, '__add__', 1), (ast.Sub, '__sub__', -1)):
        R.case(name, lambda c: addsub(R, c, op, name, sg))
        for ax in 'pq':
            R.case('%s refuse %s' % (name, ax), lambda c: addsub_refuse(R, c, op, name, ax))
    for what in ('int', 'slice', 'full'):
        R.case('getitem ' + what, lambda c: getitem(R, c, what))
    for kind in ('matrix', 'array'):
        R.case('similarity ' + kind, lambda c: similarity(R, c, kind))
        R.case('dc ' + kind, lambda c: dcgain(R, c, kind))
    for n, p, q in ((1, 1, 1), (2, 1, 1), (2, 2, 1), (2, 1, 2)):
        R.case('simplify %d %d %d' % (n, p, q), lambda c: simplify(R, c, n, p, q))
    R.case('to_dSSmp', lambda c: conv(R, c))
    # a system with itself
    R.case('mul itself', lambda c: mul_(R, c, 'matrix', itself=True))
    for op, name, sg in ((ast.Add, '__add__', 1), (ast.Sub, '__sub__', -1)):
        R.case('%s itself' % name, lambda c: addsub(R, c, op, name, sg, itself=True))
    # systems without states (static gains) are systems too
    R.case('construct, no states', lambda c: construct(R, c, 'matrix', 'n'))
    for z in ('n1', 'n2', 'n1 n2'):
        R.case('mul, %s empty' % z, lambda c: mul_(R, c, 'matrix', z))
        R.case('mul refuse, %s empty' % z, lambda c: mul_refuse(R, c, empty=z))
        for op, name, sg in ((ast.Add, '__add__', 1), (ast.Sub, '__sub__', -1)):
            R.case('%s, %s empty' % (name, z), lambda c: addsub(R, c, op, name, sg, z))
            for ax in 'pq':
                R.case('%s refuse %s, %s empty' % (name, ax, z), lambda c: addsub_refuse(R, c, op, name, ax, z))
    for what in ('int', 'slice', 'full'):
        R.case('getitem %s, no states' % what, lambda c: getitem(R, c, what, 'n'))
    R.case('to_dSSmp, no states', lambda c: conv(R, c, 'n'))
    for x in 'ABCD':
        for ax in (0, 1):
            R.case('refuse %s%d' % (x, ax), lambda c: refuse(R, c, x, ax))


import ast


def compare(R, c, o, ref, want, construct, what, rule='formula'):
    for k in 'ABCD':
        c.equal(o, c.at(o, lambda: c.get(ref, k)), want[k], rule, construct, '%s.%s' % (what, k))


def construct(R, c, kind, empty=''):
    n, p, q = sizes(c, 'n p q', empty)
    outs = c.run(lambda: new_dss(c, n, p, q, kind=kind)[0])
    for o in c.exceptions(outs, 'accepts', F + '::dSS.__init__', 'consistent matrices accepted'):
        m = {'A': mnamed('A', n, n), 'B': mnamed('B', n, q), 'C': mnamed('C', p, n), 'D': mnamed('D', p, q)}
        compare(R, c, o, o.value, m, F + '::dSS.__init__', 'construct')
        for x, v in (('n', n), ('p', p), ('q', q)):
            c.equal(o, c.at(o, lambda: c.get(o.value, x)), v, 'formula', F + '::dSS.' + x, x)
        sz = c.at(o, lambda: c.get(o.value, 'size'))
        if isinstance(sz, Tup) and len(sz.items) == 3:
            for x, v, g in (('n', n, sz.items[0]), ('p', p, sz.items[1]), ('q', q, sz.items[2])):
                c.equal(o, g, v, 'formula', F + '::dSS.size', 'size.' + x)


def refuse(R, c, x, ax):
    n, p, q, e = c.dims_('n p q e')
    sh = {'A': [n, n], 'B': [n, q], 'C': [p, n], 'D': [p, q]}
    c.assume_unequal(e, sh[x][ax])
    if x == 'A':
        pass
    sh[x][ax] = e
    if x == 'B' and ax == 1 or x == 'C' and ax == 0:
        pass
    k = c.cls('fixif.LTI.dSS', 'dSS')
    outs = c.run(lambda: c.new(k, *[c.mat(y, *sh[y]) for y in 'ABCD']))
    c.refused(outs, 'refuses', F + '::dSS.__init__', '%s with a wrong number of %s' % (x, ('rows', 'columns')[ax]))


def mul_(R, c, kind, empty='', itself=False):
    n1, p, q, n2, r = sizes(c, 'n1 p q n2 r', empty) if not itself else [c.dims_('n p')[i] for i in (0, 1, 1, 0, 1)]
    got = {}

    def th():
        a, got['a'] = new_dss(c, n1, p, q, '1', kind)
        b, got['b'] = new_dss(c, n2, q, r, '2', kind) if not itself else (a, got['a'])
        return c.I.binop(ast.Mult(), a, b)
    outs = c.run(th)
    a, b = got['a'], got['b']
    for o in c.exceptions(outs, 'accepts', F + '::dSS.__mul__', 'product of fitting systems accepted'):
        def want():
            B = c.I.B
            return {'A': mvstack([mhstack([a['A'], mul(B, a['B'], b['C'])], B), mhstack([mzero(n2, n1), b['A']], B)], B),
                    'B': mvstack([mul(B, a['B'], b['D']), b['B']], B),
                    'C': mhstack([a['C'], mul(B, a['D'], b['C'])], B),
                    'D': mul(B, a['D'], b['D'])}
        w = c.at(o, want)
        # the state order of a series connection is free: either block order is accepted
        ref = o.value
        A = c.at(o, lambda: c.I.N(c.matof(o, c.get(ref, 'A'))))

        def want2():
            B = c.I.B
            return {'A': mvstack([mhstack([b['A'], mzero(n2, n1)], B), mhstack([mul(B, a['B'], b['C']), a['A']], B)], B),
                    'B': mvstack([b['B'], mul(B, a['B'], b['D'])], B),
                    'C': mhstack([mul(B, a['D'], b['C']), a['C']], B),
                    'D': mul(B, a['D'], b['D'])}
        w2 = c.at(o, want2)
        try:
            if c.at(o, lambda: mat_equal(A, w2['A'], c.I.B)):
                w = w2
        except Exception:
            pass
        compare(R, c, o, ref, w, F + '::dSS.__mul__', 'series (%s operands)' % kind)


def mul_refuse(R, c, second=False, empty=''):
    n1, p, q, n2, q2, r = sizes(c, 'n1 p q n2 q2 r', empty)
    c.assume_unequal(q, q2)
    if second:
        c.extra.append(lambda d: d['p'] == d['r'])

    def th():
        a, _ = new_dss(c, n1, p, q, '1')
        b, _ = new_dss(c, n2, q2, p if second else r, '2')
        return c.I.binop(ast.Mult(), a, b)
    c.refused(c.run(th), 'refuses', F + '::dSS.__mul__',
              'product with inputs of the first system different from outputs of the second%s' % (' (same outer dimension)' if second else ''))


def addsub(R, c, op, name, sg, empty='', itself=False):
    n1, p, q, n2 = sizes(c, 'n1 p q n2', empty) if not itself else [c.dims_('n p q')[i] for i in (0, 1, 2, 0)]
    got = {}

    def th():
        a, got['a'] = new_dss(c, n1, p, q, '1')
        b, got['b'] = new_dss(c, n2, p, q, '2') if not itself else (a, got['a'])
        return c.I.binop(op(), a, b)
    outs = c.run(th)
    a, b = got['a'], got['b']
    for o in c.exceptions(outs, 'accepts', F + '::dSS.' + name, 'fitting systems accepted'):
        def want(neg_in_b=False):
            B = c.I.B
            n_ = (lambda x: mscale(x, sc(sg)))
            return {'A': mvstack([mhstack([a['A'], mzero(n1, n2)], B), mhstack([mzero(n2, n1), b['A']], B)], B),
                    'B': mvstack([a['B'], n_(b['B']) if neg_in_b else b['B']], B),
                    'C': mhstack([a['C'], b['C'] if neg_in_b else n_(b['C'])], B),
                    'D': madd(a['D'], b['D'], B, sc(sg))}
        w = c.at(o, want)
        if sg < 0:
            g = c.matof(o, c.at(o, lambda: c.get(o.value, 'B')))
            w2 = c.at(o, lambda: want(True))
            try:
                if c.at(o, lambda: mat_equal(g, w2['B'], c.I.B)):
                    w = w2
            except Exception:
                pass
        compare(R, c, o, o.value, w, F + '::dSS.' + name, 'parallel')


def addsub_refuse(R, c, op, name, ax, empty=''):
    n1, p, q, n2, e = sizes(c, 'n1 p q n2 e', empty)
    c.assume_unequal(e, p if ax == 'p' else q)

    def th():
        a, _ = new_dss(c, n1, p, q, '1')
        b, _ = new_dss(c, n2, e if ax == 'p' else p, e if ax == 'q' else q, '2')
        return c.I.binop(op(), a, b)
    c.refused(c.run(th), 'refuses', F + '::dSS.' + name, 'different numbers of ' + {'p': 'outputs', 'q': 'inputs'}[ax])


def getitem(R, c, what, empty=''):
    n, p, q = sizes(c, 'n p q', empty)
    got = {}
    if what == 'int':
        i, j = c.dim('i', 0), c.dim('j', 0)
        c.I.st.B.extra += [p - i - 1, q - j - 1]
        c.extra.append(lambda d: d['i'] < d['p'] and d['j'] < d['q'])
        ix = Tup([Num(i, 'int'), Num(j, 'int')])
        r0, r1, c0, c1 = i, i + 1, j, j + 1
    elif what == 'slice':
        a, b, e, f = c.dim('a', 0), c.dim('b', 0), c.dim('e', 0), c.dim('f', 0)
        c.I.st.B.extra += [p - a - b, q - e - f]
        c.extra.append(lambda d: d['a'] + d['b'] <= d['p'] and d['e'] + d['f'] <= d['q'])
        ix = Tup([slice_(a, a + b), slice_(e, e + f)])
        r0, r1, c0, c1 = a, a + b, e, e + f
    else:
        ix = Tup([slice_(None, None), slice_(None, None)])
        r0, r1, c0, c1 = sc(0), p, sc(0), q

    def th():
        a, got['m'] = new_dss(c, n, p, q)
        return c.I.getitem(a, ix)
    outs = c.run(th)
    m = got['m']
    for o in c.exceptions(outs, 'accepts', F + '::dSS.__getitem__', 'selection accepted (%s)' % what):
        w = c.at(o, lambda: {'A': m['A'], 'B': submat(m['B'], ZERO, n, c0, c1, c.I.B), 'C': submat(m['C'], r0, r1, ZERO, n, c.I.B),
                             'D': submat(m['D'], r0, r1, c0, c1, c.I.B)})
        compare(R, c, o, o.value, w, F + '::dSS.__getitem__', 'subsystem (%s)' % what)


def slice_(a, b):
    return Tup([Const('__slice__'), NONE if a is None else Num(a, 'int'), NONE if b is None else Num(b, 'int'), NONE])


def similarity(R, c, kind, empty=''):
    n, p, q = sizes(c, 'n p q', empty)
    T = mnamed('T', n, n)
    got = {}

    def th():
        a, got['m'] = new_dss(c, n, p, q, kind=kind)
        c.meth(a, 'similarity', c.I.arr('matrix', T, 2))
        return a
    outs = c.run(th)
    m = got['m']
    for o in c.exceptions(outs, 'accepts', F + '::dSS.similarity', 'invertible T accepted'):
        w = c.at(o, lambda: {'A': mul(c.I.B, minv(T), m['A'], T), 'B': mul(c.I.B, minv(T), m['B']), 'C': mul(c.I.B, m['C'], T), 'D': m['D']})
        compare(R, c, o, o.value, w, F + '::dSS.similarity', 'similarity (%s operands)' % kind)


def dcgain(R, c, kind, empty=''):
    n, p, q = sizes(c, 'n p q', empty)
    got = {}

    def th():
        a, got['m'] = new_dss(c, n, p, q, kind=kind)
        return c.meth(a, 'calc_DC_gain')
    outs = c.run(th)
    m = got['m']
    for o in c.exceptions(outs, 'accepts', F + '::dSS.calc_DC_gain', 'DC gain computed', allowed=()):
        w = c.at(o, lambda: madd(mul(c.I.B, m['C'], minv(madd(meye(n), m['A'], c.I.B, -ONE)), m['B']), m['D'], c.I.B))
        c.equal(o, o.value, w, 'formula', F + '::dSS.calc_DC_gain', 'DC gain (%s operands)' % kind)


def conv(R, c, empty=''):
    n, p, q = sizes(c, 'n p q', empty)
    got = {}

    def th():
        a, got['m'] = new_dss(c, n, p, q)
        return c.meth(a, 'to_dSSmp')
    outs = c.run(th)
    for o in c.exceptions(outs, 'accepts', F + '::dSS.to_dSSmp', 'conversion accepted'):
        compare(R, c, o, o.value, got['m'], F + '::dSS.to_dSSmp', 'to_dSSmp')


def simplify(R, c, n, p, q):
    """the removal of states: the impulse response is kept, whatever rows are zero, and it ends"""
    from itertools import product
    con = F + '::dSS.simplify'
    c.I.unroll = 6
    for za in product((0, 1), repeat=n):
        for zb in product((0, 1), repeat=n):
            def th():
                def rows(name, zs, k):
                    return mvstack([mhstack([mscalar(ZERO if z else Sc.sym('%s%d%d' % (name, i, j))) for j in range(k)], c.I.B) for i, z in enumerate(zs)], c.I.B)
                k = c.cls('fixif.LTI.dSS', 'dSS')
                S = c.new(k, *[c.I.arr('matrix', m, 2) for m in (rows('a', za, n), rows('b', zb, q), rows('c', (0,) * p, n), rows('d', (0,) * p, q))])
                return Tup([S, c.meth(S, 'simplify')])
            outs = c.run(th)
            for o in outs:
                if o.kind == 'raise' and isinstance(o.value, ExcV) and o.value.name == 'Unrolled' and c.reach(o) not in (False, None):
                    R.viol('accepts', con, 'ends', 'more iterations than states (rows of A that are zero: %s, of B: %s)' % (za, zb))
            outs = [o for o in outs if not (o.kind == 'raise' and isinstance(o.value, ExcV) and o.value.name == 'Unrolled')]
            for o in c.exceptions(outs, 'accepts', con, 'any system accepted') if outs else []:
                def markov(f):
                    A, B, C, D = [c.I.N(c.I.as_mat(c.get(f, x))) for x in 'ABCD']
                    out, X = [D], B
                    for _ in range(n + 1):
                        out.append(c.I.N(mmul(C, X, c.I.B)) if not A.rows == ZERO else mzero(D.rows, D.cols))
                        X = c.I.N(mmul(A, X, c.I.B)) if not A.rows == ZERO else X
                    return out
                g, w = [c.at(o, lambda: markov(x)) for x in reversed(o.value.items)]
                for i, (x, y) in enumerate(zip(g, w)):
                    c.equal(o, x, y, 'formula', con, 'response after %d steps is kept' % i)
