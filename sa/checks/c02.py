"""C02: everything derived from coefficients follows every coefficient change"""
from .common import *
import ast

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of every coefficient setter on an object whose caches are empty, or all filled by earlier reads; '
               'everything read afterwards is compared with a freshly built object holding the current coefficients')
F = 'fixif/SIF/SIF.py'
D = 'fixif/LTI/dSS.py'
PLAIN = ['Z', 'Zcomp', 'invJ', 'AZ', 'BZ', 'CZ', 'DZ'] + list(NAMES)
SYS = ['Hu', 'Hepsilon', 'Hzeta', 'dSS']
GRAM = ['Wo', 'Wc']


def check(R):
    R.rule('current', 'what is read after a change is what a freshly built object with the current coefficients reports')
    R.rule('accepts', 'a change of coefficients of the right size is accepted')
    R.rule('flags', 'the exactness flags read block by block are the ones stored')
    for l0 in (False, True):
        tag = ', l=0' if l0 else ''
        for x in NAMES + ('Z',):
            if l0 and x in 'JKLMN':
                continue
            for warm in (False, True):
                R.case('set %s%s%s' % (x, ' after reads' if warm else '', tag), lambda c: setter(R, c, x, warm, l0, tag))
        R.case('set Z array' + tag, lambda c: setter(R, c, 'Z', True, l0, tag, 'array'))
    for x in ('J', 'P'):
        R.case('set %s twice' % x, lambda c: setter(R, c, x, True, False, ' (second change)', 'matrix', 'Q'))
    R.case('sensitivity operands', lambda c: mats1(R, c))
    R.case('flags', lambda c: flags(R, c))
    R.case('flags set', lambda c: flags_set(R, c))
    for warm in ('', 'Wo', 'Wc', 'Wo Wc'):
        R.case('similarity' + (' after reads of ' + warm if warm else ''), lambda c: similarity(R, c, warm))
    R.case('compiled', lambda c: compiled(R, c))


def read_all(c, s, names=PLAIN, exact=False):
    out = {}
    for a in names:
        out[a] = c.get(s, a)
    for a in SYS:
        h = c.get(s, a)
        for k in 'ABCD':
            out[a + '.' + k] = c.get(h, k)
    for a in GRAM:
        out[a] = c.get(s, a)
    if exact:
        e = c.meth(s, 'to_dSSexact')
        for k in 'ABCD':
            out['to_dSSexact.' + k] = c.get(e, k)
    c.opaque |= {'solve_discrete_lyapunov', 'lyap', 'sb03md'}
    return out


def setter(R, c, x, warm, l0, tag, kind='matrix', second=None):
    d = sif_dims(c, l0)
    m = sif_mats(c, d)
    no_failure(c)
    con = F + '::SIF.%s (setter)' % x
    what = ('after earlier reads' if warm else 'at once') + (' (array)' if kind == 'array' else '') + tag
    new = dict(m)
    exact = x in 'ZJPQRS' and warm and not second
    if x == 'Z':
        for y in NAMES:
            new[y] = mnamed(y + "'", *m[y].shape)
        c.makers["J'"] = unit_lower("J'")
    else:
        new[x] = mnamed(x + "'", *m[x].shape)
        if x == 'J':
            c.makers["J'"] = unit_lower("J'")
    if second:
        new[second] = mnamed(second + "'", *m[second].shape)

    def th():
        I = c.I
        s, _, _ = new_sif(c, d, m)
        if warm:
            read_all(c, s, exact=exact)
        if x == 'Z':
            v = Eliminated(new, I.B).Z
        else:
            v = new[x]
        I.setattr(s, x, I.arr(kind, v, 2))
        if second:
            read_all(c, s)
            I.setattr(s, second, I.arr(kind, new[second], 2))
        got = read_all(c, s, exact=exact)
        f, _, _ = new_sif(c, d, new)
        want = read_all(c, f, exact=exact)
        names = sorted(got)
        return Tup([Tup([Const(a), got[a], want[a]]) for a in names])
    outs = c.run(th)
    for o in c.exceptions(outs, 'accepts', con, 'change of %s %s' % (x, what)):
        for t in o.value.items:
            a, g, w = t.items
            w = c.matof(o, w)
            if w is None:
                R.und('current', con, '%s %s' % (a.v, what), 'reference not resolved')
                continue
            c.equal(o, g, w, 'current', con, '%s %s' % (a.v, what), strip=strip_ulow)


def no_failure(c):
    """the Lyapunov solvers as total functions (their failures are the matter of C08)"""
    def sb(I, args, kw):
        A, C = I.N(I.as_mat(args[2])), I.N(I.as_mat(args[1]))
        tr = kw.get('trana', args[5] if len(args) > 5 else Const('N'))
        return Tup([I.arr('array', mfn('lyap', A.rows, A.rows, A if tr == Const('T') else mT(A), mneg(C)), 2)] + [Opq('info', str(i)) for i in range(4)])

    def ly(I, args, kw):
        A, Q = I.N(I.as_mat(args[0])), I.N(I.as_mat(args[1]))
        return I.arr('array', mfn('lyap', A.rows, A.rows, A, Q), 2)
    c.I.hooks[('ext', 'slycot.sb03md')] = sb
    c.I.hooks[('ext', 'scipy.linalg.solve_discrete_lyapunov')] = ly


def mats1(R, c):
    """operands of the sensitivity computations after a change"""
    for x in NAMES:
        d = sif_dims(c)
        m = sif_mats(c, d)
        new = dict(m)
        new[x] = mnamed(x + "'", *m[x].shape)
        c.makers["J'"] = unit_lower("J'")
        f = c.func('fixif.SIF.SIF_tilde_error', 'WCPG_txy')

        def grab(I, args, kw):
            D = I.as_mat(I.getattr(args[0], 'D'))
            return I.arr('matrix', mfn('WCPG', D.rows, D.cols, *[I.as_mat(I.getattr(args[0], k)) for k in 'ABCD']), 2)
        c.I.hooks[('dSS', 'WCPG')] = grab
        c.opaque |= {'WCPG'}

        def th():
            s, _, _ = new_sif(c, d, m)
            read_all(c, s)
            c.I.setattr(s, x, c.I.arr('matrix', new[x], 2))
            fr, _, _ = new_sif(c, d, new)
            return Tup([c.call(f, s), c.call(f, fr)])
        for o in c.exceptions(c.run(th), 'accepts', F + '::SIF.%s (setter)' % x, 'gains after a change of %s' % x):
            c.equal(o, o.value.items[0], c.matof(o, o.value.items[1]), 'current', F + '::SIF.%s (setter)' % x, 'gains after a change', strip=strip_ulow)


def flags(R, c):
    """dJ..dS given at construction read back"""
    d = sif_dims(c)
    m = sif_mats(c, d)
    dm = {x: mnamed('d' + x, *m[x].shape) for x in NAMES}

    def th():
        k = c.cls(SIFM, 'SIF')
        s = c.new(k, Tup([c.I.arr('matrix', m[x], 2) for x in NAMES]), Tup([c.I.arr('matrix', dm[x], 2) for x in NAMES]))
        return s
    for o in c.exceptions(c.run(th), 'accepts', F + '::SIF.__init__', 'exactness flags given'):
        for x in NAMES:
            c.equal(o, c.at(o, lambda: c.get(o.value, 'd' + x)), dm[x], 'flags', F + '::SIF.d' + x, 'flags given at construction')

        def z():
            B = c.I.B
            return mvstack([mhstack([dm[x] for x in r], B) for r in ('JMN', 'KPQ', 'LRS')], B)
        c.equal(o, c.at(o, lambda: c.get(o.value, 'dZ')), c.at(o, z), 'flags', F + '::SIF.dZ', 'flags given at construction')


def flags_set(R, c):
    d = sif_dims(c)
    m = sif_mats(c, d)
    dm = {x: mnamed('d' + x, *m[x].shape) for x in NAMES}
    for x in NAMES + ('Z',):
        n = {y: (mnamed('d' + y + "'", *m[y].shape) if x in (y, 'Z') else dm[y]) for y in NAMES}

        def z(t):
            B = c.I.B
            return mvstack([mhstack([t[y] for y in r], B) for r in ('JMN', 'KPQ', 'LRS')], B)

        def th():
            k = c.cls(SIFM, 'SIF')
            s = c.new(k, Tup([c.I.arr('matrix', m[y], 2) for y in NAMES]), Tup([c.I.arr('matrix', dm[y], 2) for y in NAMES]))
            for y in NAMES:
                c.get(s, 'd' + y)
            c.I.setattr(s, 'd' + x, c.I.arr('matrix', n[x] if x != 'Z' else z(n), 2))
            return s
        for o in c.exceptions(c.run(th), 'accepts', F + '::SIF.d%s (setter)' % x, 'change of the flags'):
            for y in NAMES:
                c.equal(o, c.at(o, lambda: c.get(o.value, 'd' + y)), n[y], 'flags', F + '::SIF.d%s (setter)' % x, 'd%s read back' % y)
            c.equal(o, c.at(o, lambda: c.get(o.value, 'dZ')), c.at(o, lambda: z(n)), 'flags', F + '::SIF.d%s (setter)' % x, 'dZ read back')


def similarity(R, c, warm):
    n, p, q = c.dims_('n p q')
    T = mnamed('T', n, n)
    con = D + '::dSS.similarity'
    what = 'after earlier reads of ' + warm if warm else 'at once'

    def grams(s):
        for a in warm.split():
            c.get(s, a)

    def th():
        a, m = new_dss(c, n, p, q)
        if warm:
            grams(a)
            if warm == 'Wo Wc':
                c.meth(a, 'H2norm')
                c.meth(a, 'calc_DC_gain')
        c.meth(a, 'similarity', c.I.arr('matrix', T, 2))
        k = c.cls('fixif.LTI.dSS', 'dSS')
        f = c.new(k, *[c.get(a, x) for x in 'ABCD'])
        out = []
        for x in ('A', 'B', 'C', 'D', 'Wo', 'Wc'):
            out.append(Tup([Const(x), c.get(a, x), c.get(f, x)]))
        return Tup(out)
    outs = c.run(th)
    for o in c.exceptions(outs, 'accepts', con, 'similarity ' + what):
        for t in o.value.items:
            x, g, w = t.items
            w = c.matof(o, w)
            if w is None:
                R.und('current', con, '%s %s' % (x.v, what), 'reference not resolved')
                continue
            c.opaque |= heads(w)
            c.equal(o, g, w, 'current', con, '%s %s' % (x.v, what))


def compiled(R, c):
    """the compiled function of a realization is not kept over a change of coefficients"""
    d = sif_dims(c)
    m = sif_mats(c, d)
    k = c.cls('fixif.SIF.Realization', 'Realization')
    c.I.hooks[('fixif.SoP.VarName', 'generateNames')] = lambda I, a, kw: Opq('names')
    for x in NAMES + ('Z',):
        def th():
            I = c.I
            s = c.new(k, Opq('filter'), Tup([I.arr('matrix', m[y], 2) for y in NAMES]))
            I.setattr(s, '_Cdouble', Opq('compiled with the previous coefficients'))
            I.setattr(s, x, I.arr('matrix', Eliminated(m, I.B).Z if x == 'Z' else m[x], 2))
            return c.get(s, '_Cdouble')
        for o in c.exceptions(c.run(th), 'accepts', 'fixif/SIF/Realization.py::Realization', 'change of %s' % x):
            if isinstance(o.value, Opq) and not o.value.is_top() and c.reach(o) not in (False, None):
                R.viol('current', 'fixif/SIF/Realization.py::Realization', 'compiled function after a change of %s' % x,
                       'the function compiled with the previous coefficients is kept')
            elif isinstance(o.value, Const):
                R.ok('current', 'fixif/SIF/Realization.py::Realization', 'compiled function after a change of %s' % x)
            else:
                R.und('current', 'fixif/SIF/Realization.py::Realization', 'compiled function after a change of %s' % x, repr(o.value))
