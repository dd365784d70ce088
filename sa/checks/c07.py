"""C07: transfer-function algebra and conversions act on powers of the delay"""
import ast
from .common import *

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of the transfer-function operations over coefficient rows of symbolic lengths; the extracted '
               'numerators and denominators are compared with the rational function specified (refuted by an instance of the extracted '
               'formulas over a common denominator), conversions with the canonical forms (refuted by impulse responses of the extracted formulas)')
F = 'fixif/LTI/dTF.py'
SOURCES = ('dTF', 'dSS')
OPS = {'add': (ast.Add, '__add__'), 'sub': (ast.Sub, '__sub__'), 'mul': (ast.Mult, '__mul__')}


def check(R):
    R.rule('algebra', 'the result is the specified rational function of the delay')
    R.rule('accepts', 'suitable operands are accepted')
    R.rule('refuses', 'unsuitable operands raise ValueError')
    R.rule('normal', 'the denominator has a unit leading coefficient; numerator and denominator keep their ratio')
    R.rule('convert', 'the state-space obtained denotes the transfer function')
    for lens in ('nd', 'nn', 'short', 'long'):
        R.case('construct ' + lens, lambda c: construct(R, c, lens))
    for kind in ('matrix', 'array1', 'list'):
        R.case('construct from ' + kind, lambda c: construct(R, c, 'nd', kind))
    R.case('leading zero', lambda c: leading(R, c))
    for w in ('num', 'den'):
        R.case('rows ' + w, lambda c: rows(R, c, w))
    R.case('neg', lambda c: neg(R, c))
    for op in OPS:
        for la, lb in (('a', 'a'), ('a', 'b'), ('a', 'itself')):
            R.case('%s dTF %s%s' % (op, la, lb), lambda c: binary(R, c, op, la, lb))
        if op == 'sub':
            R.case('rsub direct', lambda c: binary(R, c, op, 'a', 'b', True))
        for k in ('int', 'float'):
            for side in ('left', 'right'):
                R.case('%s %s %s' % (op, k, side), lambda c: number(R, c, op, k, side))
        for side in ('left', 'right'):
            R.case('%s other %s' % (op, side), lambda c: other(R, c, op, side))
    for form in ('ctrl', 'obs', None):
        for lens in ('nn', 'short', 'long'):
            R.case('to_dSS %s %s' % (form, lens), lambda c: to_dss(R, c, form, lens))
        for num, den in SMALL:
            R.case('to_dSS %s %s/%s' % (form, num, den), lambda c: to_dss_small(R, c, form, num, den))
    for num, den in SMALL:
        for op in OPS:
            R.case('%s %s/%s' % (op, num, den), lambda c: binary_small(R, c, op, num, den))
    R.case('to_dSS bad', lambda c: bad_form(R, c))
    R.case('to_dTF', lambda c: to_tf(R, c))
    R.case('to_dTF refuse p', lambda c: to_tf_refuse(R, c, 'p'))
    R.case('to_dTF refuse q', lambda c: to_tf_refuse(R, c, 'q'))
    R.case('to_dTFmp', lambda c: to_mp(R, c))


def operand(c, L, s='', kind='matrix', Ld=None):
    num, den = mnamed('num' + s, ONE, L), mnamed('den' + s, ONE, Ld if Ld is not None else L)
    unit(c, s)
    if kind == 'matrix':
        a, b = c.I.arr('matrix', num, 2), c.I.arr('matrix', den, 2)
    elif kind == 'array1':
        a, b = c.I.arr('array', num, 1), c.I.arr('array', den, 1)
    k = c.cls('fixif.LTI.dTF', 'dTF')
    return c.new(k, a, b), num, den


def unit(c, s=''):
    """the instances have a denominator whose leading coefficient is not zero"""
    from fractions import Fraction

    def f(env, i, j):
        v = env.value('mat', 'den' + s, i, j)
        return v if j or v else Fraction(3)
    c.makers['den' + s] = f


def nd(c, o, ref):
    return c.at(o, lambda: c.get(ref, 'num')), c.at(o, lambda: c.get(ref, 'den'))


def lengths(c, lens):
    if lens == 'nn':
        a = c.dim('ln', 1)
        return a, a
    a, b = c.dim('ln', 1), c.dim('ld', 1)
    if lens == 'short':
        c.I.st.B.extra.append(b - a - 1)
        c.extra.append(lambda d: d['ln'] < d['ld'])
    elif lens == 'long':
        c.I.st.B.extra.append(a - b - 1)
        c.extra.append(lambda d: d['ln'] > d['ld'])
    return a, b


def good(R, c, outs, construct, what):
    """outcomes that do not raise; the refusal of a null leading coefficient is excluded by the instances"""
    return c.exceptions(outs, 'accepts', construct, what)


def construct(R, c, lens, kind='matrix'):
    a, b = lengths(c, lens)
    if kind == 'list':
        unit(c)
        num, den = mnamed('num', ONE, a), mnamed('den', ONE, b)
        k = c.cls('fixif.LTI.dTF', 'dTF')

        def mk(name, n):
            ix = fresh('k')
            return c.I.meth_tolist(name, n) if hasattr(c.I, 'meth_tolist') else c.I.call(c.I.getattr(c.I.arr('array', mnamed(name, ONE, n), 1), 'tolist'), [], {})

        def th():
            return c.new(k, mk('num', a), mk('den', b))
    else:
        num, den = mnamed('num', ONE, a), mnamed('den', ONE, b)

        def th():
            return operand(c, a, '', kind, b)[0]
    outs = c.run(th)
    f = F + '::dTF.__init__'
    for o in good(R, c, outs, f, 'a non-null leading denominator coefficient is accepted (%s, %s)' % (lens, kind)):
        gn, gd = nd(c, o, o.value)
        od = c.at(o, lambda: c.get(o.value, 'order'))
        c.judge(o, [gn, gd, num, den], ratio, 'normal', f, 'ratio kept (%s, %s)' % (lens, kind),
                proof=lambda n, d, wn, wd: same_padded(c, n, d, wn, wd))
        e = c.at(o, lambda: entry(c.matof(o, gd), ZERO, ZERO, c.I.B))
        c.judge(o, [e], lambda env, x: True if close_(x, 1) else 'leading coefficient %s' % show_val(x), 'normal', f,
                'unit leading coefficient (%s, %s)' % (lens, kind), proof=lambda x: not (x - ONE).t)
        if lens == 'nd':
            continue
        c.judge(o, [od, gn, gd, num, den],
                order_ok, 'normal', f + '/order', 'the order is the highest power of the delay (%s, %s)' % (lens, kind),
                proof=lambda od, n, d, wn, wd: not (od - (b if lens == 'short' else a) + ONE).t)


def same_padded(c, n, d, wn, wd):
    B = c.I.B
    k = entry(wd, ZERO, ZERO, B).inv()
    for g, w in ((n, wn), (d, wd)):
        w = mscale(w, k)
        if (g.cols - w.cols).t:
            w = mhstack([w, mzero(1, g.cols - w.cols)], B)
        if not mat_equal(g, c.I.N(w), B):
            return False
    return True


def order_ok(env, od, n, d, wn, wd):
    m = max(wn[1], wd[1]) - 1
    if not close_(od, m):
        return 'order %s instead of %d' % (show_val(od), m)
    if n[1] < m + 1 and d[1] < m + 1:
        return 'lengths %d and %d for order %d' % (n[1], d[1], m)
    return True


def ratio(env, gn, gd, wn, wd):
    return same_rational(row_(gn), row_(gd), row_(wn), row_(wd))


def leading(R, c):
    a, b = c.dims_('ln ld')
    den = mhstack([mzero(1, 1), mnamed('den', ONE, b)], c.I.B)
    k = c.cls('fixif.LTI.dTF', 'dTF')
    outs = c.run(lambda: c.new(k, c.mat('num', 1, a), c.I.arr('matrix', den, 2)))
    c.refused(outs, 'refuses', F + '::dTF.__init__', 'null leading coefficient of the denominator')


def rows(R, c, w):
    a, b, e = c.dims_('ln ld e')
    c.I.st.B.low[('sym', 'e')] = 2
    c.dims['e'] = 2
    unit(c)
    k = c.cls('fixif.LTI.dTF', 'dTF')
    outs = c.run(lambda: c.new(k, c.mat('num', e if w == 'num' else 1, a), c.mat('den', e if w == 'den' else 1, b)))
    c.refused(outs, 'refuses', F + '::dTF.__init__', 'more than one row in ' + w)


def neg(R, c):
    a = c.dim('a', 1)
    g = {}

    def th():
        x, g['n'], g['d'] = operand(c, a)
        return c.meth(x, '__neg__')
    f = F + '::dTF.__neg__'
    outs = c.run(th)
    for o in good(R, c, outs, f, 'accepted'):
        gn, gd = nd(c, o, o.value)
        c.judge(o, [gn, gd, g['n'], g['d']], lambda env, n, d, wn, wd: same_rational(row_(n), row_(d), [-x for x in row_(wn)], row_(wd)),
                'algebra', f, 'opposite', proof=pair(c, lambda n, d: (mneg(n), d)))


def pair(c, w):
    """proof: numerator and denominator are those specified, both divided by the leading coefficient of the denominator"""
    def p(n, d, *ops):
        B = c.I.B
        wn, wd = w(*ops)
        k = entry(wd, ZERO, ZERO, B).inv()
        return mat_equal(n, c.I.N(mscale(wn, k)), B) and mat_equal(d, c.I.N(mscale(wd, k)), B)
    return p


def want(op):
    def w(env, n, d, n1, d1, n2, d2):
        n1, d1, n2, d2 = [row_(x) for x in (n1, d1, n2, d2)]
        if op == 'mul':
            wn = pmul_(n1, n2)
        else:
            wn = padd_(pmul_(n1, d2), pmul_(n2, d1), -1 if op == 'sub' else 1)
        return same_rational(row_(n), row_(d), wn, pmul_(d1, d2))
    return w


def binary(R, c, op, la, lb, reflected=False):
    g = {}
    a = c.dim('a', 1)
    b = a if lb != 'b' else c.dim('b', 1)
    A, name = OPS[op]

    def th():
        x, g['n1'], g['d1'] = operand(c, a, '1')
        y, g['n2'], g['d2'] = operand(c, b, '2') if lb != 'itself' else (x, g['n1'], g['d1'])
        return c.meth(y, '__rsub__', x) if reflected else c.I.binop(A(), x, y)
    f = '%s::dTF.%s' % (F, '__rsub__' if reflected else name)
    outs = c.run(th)
    what = 'of two transfer functions (%s)' % ('equal lengths' if la == lb else 'any lengths' if lb == 'b' else 'one with itself')
    for o in good(R, c, outs, f, 'accepted: ' + what):
        gn, gd = nd(c, o, o.value)

        def spec(n1, d1, n2, d2):
            from ..lib import conv
            B = c.I.B
            s = lambda m, k: mscale(m, entry(k, ZERO, ZERO, B).inv())
            n1, n2, d1, d2 = s(n1, d1), s(n2, d2), s(d1, d1), s(d2, d2)
            if op == 'mul':
                return conv(n1, n2), conv(d1, d2)
            return madd(conv(n1, d2), conv(d1, n2), B, ONE if op == 'add' else -ONE), conv(d1, d2)
        c.judge(o, [gn, gd, g['n1'], g['d1'], g['n2'], g['d2']], want(op), 'algebra', f, what, proof=pair(c, spec))


def number(R, c, op, kind, side):
    g = {}
    a = c.dim('a', 1)
    x = Sc.sym('x')
    A, name = OPS[op]
    num = Num(x, kind)

    def th():
        t, g['n'], g['d'] = operand(c, a)
        return c.I.binop(A(), num, t) if side == 'left' else c.I.binop(A(), t, num)
    nm = name if side == 'right' else name[:2] + 'r' + name[2:]
    f = '%s::dTF.%s' % (F, nm)
    outs = c.run(th)
    what = 'with %s on the %s' % ({'int': 'an integer', 'float': 'a real'}[kind], side)
    sx, sy = (1, 1)
    if op == 'sub':
        sx, sy = (1, -1) if side == 'right' else (-1, 1)

    def rel(env, n, d, n1, d1, v):
        n1, d1 = row_(n1), row_(d1)
        wn = [v * q for q in n1] if op == 'mul' else padd_([sx * q for q in n1], [sy * v * q for q in d1])
        return same_rational(row_(n), row_(d), wn, d1)

    def spec(n1, d1, v):
        B = c.I.B
        s = lambda m, k: mscale(m, entry(k, ZERO, ZERO, B).inv())
        n1, d1 = s(n1, d1), s(d1, d1)
        if op == 'mul':
            return mscale(n1, v), d1
        return madd(mscale(n1, sc(sx)), mscale(d1, v), B, sc(sy)), d1
    for o in good(R, c, outs, f, 'accepted: ' + what):
        gn, gd = nd(c, o, o.value)
        c.judge(o, [gn, gd, g['n'], g['d'], x], rel, 'algebra', f, what, proof=pair(c, spec))


def other(R, c, op, side):
    a = c.dim('a', 1)
    A, name = OPS[op]

    def th():
        t, _, _ = operand(c, a)
        s = c.I.const('text') if hasattr(c.I, 'const') else Const('text')
        return c.I.binop(A(), s, t) if side == 'left' else c.I.binop(A(), t, s)
    nm = name if side == 'right' else name[:2] + 'r' + name[2:]
    c.refused(c.run(th), 'refuses', '%s::dTF.%s' % (F, nm), 'an operand that is neither a number nor a transfer function (%s)' % side)


def canonical(c, num, den, n):
    """accepted canonical forms of a normalised transfer function of order n"""
    B = c.I.B
    a = submat(den, ZERO, ONE, ONE, n + 1, B)
    b = submat(num, ZERO, ONE, ONE, n + 1, B)
    b0 = entry(num, ZERO, ZERO, B)
    Cc = madd(b, mscale(a, b0), B, -ONE)
    A1 = mvstack([mneg(a), mhstack([meye(n - 1), mzero(n - 1, 1)], B)], B)
    B1 = mvstack([meye(1), mzero(n - 1, 1)], B)
    E = mexch(n)
    D = mscalar(b0)
    A2, B2, C2 = mul(B, E, A1, E), mul(B, E, B1), mul(B, Cc, E)
    return [(A1, B1, Cc, D), (A2, B2, C2, D), (mT(A1), mT(Cc), mT(B1), D), (mT(A2), mT(C2), mT(B2), D)]


def is_canonical(c, n):
    def p(A, B_, C, D, num, den):
        B = c.I.B
        k = entry(den, ZERO, ZERO, B).inv()
        num, den = c.I.N(mscale(num, k)), c.I.N(mscale(den, k))
        for w in canonical(c, num, den, n):
            try:
                if all(mat_equal(x, c.I.N(y), B) for x, y in zip((A, B_, C, D), w)):
                    return True
            except (Incomparable, ShapeError):
                continue
        return False
    return p


def response(env, A, B, C, D, num, den):
    num, den = row_(num), row_(den)
    k = 2 * max(len(num), len(den)) + A[0]
    w = series(num, den, k)
    if w is None:
        return None
    h = markov(A, B, C, D, k)
    if h == 'sizes' or any(len(x) != 1 or len(x[0]) != 1 for x in h):
        return 'sizes of the matrices'
    return same_markov(h, [[[x]] for x in w])


def to_dss(R, c, form, lens):
    """numerator of length n+1 and denominator of length n+1, or one of them shorter (m more coefficients missing)"""
    n = c.dim('n', 1)
    ln = ld = n + 1
    if lens != 'nn':
        m = c.dim('m', 1)
        c.I.st.B.extra.append(n - m)
        c.extra.append(lambda d: d['m'] <= d['n'])
        if lens == 'short':
            ln = n + 1 - m
        else:
            ld = n + 1 - m
    B = c.I.B
    den = mhstack([meye(1), mnamed('den', ONE, ld - 1)], B)
    num = mnamed('num', ONE, ln)
    pad = lambda x: mhstack([x, mzero(1, n + 1 - x.cols)], B) if (n + 1 - x.cols).t else x
    g = {'n': pad(num), 'd': pad(den)}

    def th():
        k = c.cls('fixif.LTI.dTF', 'dTF')
        t = c.new(k, c.I.arr('matrix', num, 2), c.I.arr('matrix', den, 2))
        return c.meth(t, 'to_dSS', *([Const(form)] if form else []))
    f = F + '::dTF.to_dSS'
    outs = c.run(th)
    for o in c.exceptions(outs, 'accepts', f, 'order one or more accepted (%s, %s)' % (form, lens)):
        m = dss_of(c, o, o.value)
        c.judge(o, [m[x] for x in 'ABCD'] + [g['n'], g['d']], response, 'convert', f, 'state-space (%s, %s)' % (form, lens), proof=is_canonical(c, n))


SMALL = [(n, d) for d in ('1aa', '1a0', '10a', '1a', '1') for n in ('bbb', 'bb0', 'b00', '0bb', '00b', '0b0', 'bb', '0b', 'b')
         if max(len(n), len(d)) > 1]


def small(c, pattern, s=''):
    """a row written out: a letter is an unknown coefficient"""
    return mhstack([mscalar(sc(int(x)) if x.isdigit() else c.scalar('%s%d%s' % (x, i, s)).s) for i, x in enumerate(pattern)], c.I.B)


def to_dss_small(R, c, form, num, den):
    """every distribution of the null coefficients, of the highest powers in particular"""
    B, n = c.I.B, sc(max(len(num), len(den)) - 1)
    a, b = small(c, num), small(c, den)
    pad = lambda x: mhstack([x, mzero(1, n + 1 - x.cols)], B) if (n + 1 - x.cols).t else x

    def th():
        k = c.cls('fixif.LTI.dTF', 'dTF')
        t = c.new(k, c.I.arr('matrix', a, 2), c.I.arr('matrix', b, 2))
        return c.meth(t, 'to_dSS', *([Const(form)] if form else []))
    f = F + '::dTF.to_dSS'
    what = '(%s, %s over %s)' % (form, num, den)
    for o in c.exceptions(c.run(th), 'accepts', f, 'order one or more accepted ' + what):
        m = dss_of(c, o, o.value)
        c.judge(o, [m[x] for x in 'ABCD'] + [pad(a), pad(b)], response, 'convert', f, 'state-space ' + what, proof=is_canonical(c, n))


def binary_small(R, c, op, num, den):
    """operands whose lengths differ and whose coefficients vanish"""
    B = c.I.B
    g = {}

    def th():
        k = c.cls('fixif.LTI.dTF', 'dTF')
        g['n1'], g['d1'], g['n2'], g['d2'] = small(c, num, 'x'), small(c, den, 'x'), small(c, 'bb', 'y'), small(c, '1aa', 'y')
        x, y = [c.new(k, c.I.arr('matrix', g['n' + i], 2), c.I.arr('matrix', g['d' + i], 2)) for i in '12']
        return c.I.binop(OPS[op][0](), x, y)
    f = '%s::dTF.%s' % (F, OPS[op][1])
    what = '(%s over %s and a second order)' % (num, den)
    for o in c.exceptions(c.run(th), 'accepts', f, 'accepted: ' + what):
        gn, gd = nd(c, o, o.value)

        def spec(n1, d1, n2, d2):
            from ..lib import conv
            pad = lambda x, n: mhstack([x, mzero(1, n - x.cols)], B) if (n - x.cols).t else x
            n1, d1, n2 = pad(n1, m), pad(d1, m), pad(n2, sc(3))
            if op == 'mul':
                return conv(n1, n2), conv(d1, d2)
            return madd(conv(n1, d2), conv(d1, n2), B, ONE if op == 'add' else -ONE), conv(d1, d2)
        m = sc(max(len(num), len(den)))
        c.judge(o, [gn, gd, g['n1'], g['d1'], g['n2'], g['d2']], want(op), 'algebra', f, what, proof=pair(c, spec))


def bad_form(R, c):
    a = c.dim('a', 2)

    def th():
        t, _, _ = operand(c, a)
        return c.meth(t, 'to_dSS', Const('diagonal'))
    c.refused(c.run(th), 'refuses', F + '::dTF.to_dSS', 'unknown canonical form')


def to_mp(R, c):
    n = c.dim('n', 1)
    g = {}

    def th():
        t, g['n'], g['d'] = operand(c, n + 1)
        return c.meth(t, 'to_dTFmp')
    f = F + '::dTF.to_dTFmp'
    outs = c.run(th)
    for o in c.exceptions(outs, 'accepts', f, 'accepted'):
        gn, gd = nd(c, o, o.value)
        c.judge(o, [gn, gd, g['n'], g['d']], ratio, 'convert', f, 'multiple-precision copy',
                proof=lambda n, d, wn, wd: pair(c, lambda a, b: (a, b))(mT(n), mT(d), wn, wd))


def to_tf(R, c):
    n = c.dim('n', 1)
    g = {}

    def th():
        s, g['m'] = new_dss(c, n, sc(1), sc(1))
        return c.meth(s, 'to_dTF')
    f = 'fixif/LTI/dSS.py::dSS.to_dTF'
    for o in c.exceptions(c.run(th), 'accepts', f, 'single-input single-output accepted'):
        gn, gd = nd(c, o, o.value)
        A, B, C, D = [g['m'][x] for x in 'ABCD']

        def known(n_, d, A, B, C, D):
            from ..lib import poly_of
            den = poly_of(c.I, A)
            num = madd(poly_of(c.I, madd(A, mmul(B, C, c.I.B), c.I.B, -ONE)), mscale(den, entry(D, ZERO, ZERO, c.I.B) - ONE), c.I.B)
            return pair(c, lambda: (num, den))(n_, d)
        c.judge(o, [gn, gd, A, B, C, D], lambda env, n, d, A, B, C, D: response(env, A, B, C, D, n, d), 'convert', f,
                'transfer function of a state-space', proof=known)


def to_tf_refuse(R, c, x):
    n, p, q = c.dims_('n p q')
    c.dims[x] = 2
    c.I.st.B.low[('sym', x)] = 2
    c.refused(c.run(lambda: c.meth(new_dss(c, n, p, q)[0], 'to_dTF')), 'refuses', 'fixif/LTI/dSS.py::dSS.to_dTF',
              'more than one ' + {'p': 'output', 'q': 'input'}[x])
