"""C01: the implicit form denotes exactly its eliminated state-space system"""
from .common import *

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of the SIF constructor, getters and exact elimination over symbolic matrices of '
               'symbolic sizes; each resulting normal form is compared with the specified formula')
F = 'fixif/SIF/SIF.py'


def check(R):
    R.rule('elimination', 'the matrices reported by the eliminated system are K.inv(J).M+P, K.inv(J).N+Q, L.inv(J).M+R, L.inv(J).N+S')
    R.rule('layout', 'Z is [[-J,M,N],[K,P,Q],[L,R,S]] and every getter returns the matrix given')
    R.rule('sizes', 'reported dimensions are those of the matrices')
    R.rule('accepts', 'consistent sizes are accepted')
    R.rule('refuses', 'inconsistent sizes raise ValueError')
    R.assumptions.append('J is unit lower triangular (the definition of the form)')

    for kind in ('matrix', 'array'):
        for l0 in (False, True):
            tag = ' (%s operands%s)' % (kind, ', l=0' if l0 else '')
            R.case('construct' + tag, lambda c: construct(R, c, kind, l0, tag))
            if kind == 'matrix':
                R.case('exact' + tag, lambda c: exact(R, c, l0, tag))
    for x in NAMES:
        for ax in (0, 1):
            R.case('refuse %s %d' % (x, ax), lambda c: refuse(R, c, x, ax))


def construct(R, c, kind, l0, tag):
    d = sif_dims(c, l0)
    m = sif_mats(c, d)
    outs = c.run(lambda: new_sif(c, d, m, kind=kind)[0])
    for o in c.exceptions(outs, 'accepts', F + '::SIF.__init__', 'consistent sizes accepted' + tag):
        ref = o.value
        E = c.at(o, lambda: Eliminated(m, c.I.B))
        get = lambda name: c.at(o, lambda: c.get(ref, name))
        c.equal(o, get('Z'), E.Z, 'layout', F + '::SIF.Z', 'Z' + tag)
        for x in NAMES:
            c.equal(o, get(x), m[x], 'layout', F + '::SIF.' + x, x + tag)
        js = get('JtoS')
        if isinstance(js, Tup):
            if len(js.items) != 9:
                R.viol('layout', F + '::SIF.JtoS', 'JtoS length' + tag, repr(js))
            else:
                for x, v in zip(NAMES, js.items):
                    c.equal(o, v, m[x], 'layout', F + '::SIF.JtoS', 'JtoS.%s%s' % (x, tag))
        c.equal(o, get('invJ'), E.iJ, 'elimination', F + '::SIF.invJ', 'invJ' + tag, strip=strip_ulow)
        for x, w in (('AZ', E.A), ('BZ', E.B), ('CZ', E.C), ('DZ', E.D)):
            c.equal(o, get(x), w, 'elimination', F + '::SIF.' + x, x + tag, strip=strip_ulow)
        ds = get('dSS')
        for x, w in (('A', E.A), ('B', E.B), ('C', E.C), ('D', E.D)):
            c.equal(o, c.at(o, lambda: c.get(ds, x)), w, 'elimination', F + '::SIF.dSS', 'dSS.%s%s' % (x, tag), strip=strip_ulow)
        for x in 'lnpq':
            c.equal(o, get(x), d[x], 'sizes', F + '::SIF.' + x, x + tag)
        sz = get('size')
        if isinstance(sz, Tup) and len(sz.items) == 4:
            for x, v in zip('lnpq', sz.items):
                c.equal(o, v, d[x], 'sizes', F + '::SIF.size', 'size.%s%s' % (x, tag))
        else:
            R.und('sizes', F + '::SIF.size', 'size' + tag, repr(sz))


def exact(R, c, l0, tag):
    d = sif_dims(c, l0)
    m = sif_mats(c, d)

    def th():
        s = new_sif(c, d, m)[0]
        return c.meth(s, 'to_dSSexact')
    outs = c.run(th)
    for o in c.exceptions(outs, 'accepts', F + '::SIF.to_dSSexact', 'exact elimination accepts a unit lower triangular J' + tag):
        E = c.at(o, lambda: Eliminated(m, c.I.B))
        for x, w in (('A', E.A), ('B', E.B), ('C', E.C), ('D', E.D)):
            c.equal(o, c.at(o, lambda: c.get(o.value, x)), w, 'elimination', F + '::SIF.to_dSSexact',
                    'exact %s%s' % (x, tag), strip=strip_ulow)


def refuse(R, c, x, ax):
    d = sif_dims(c)
    bad = c.dim('e', 1)
    s = SHAPES[x]
    c.assume_unequal(bad, d[s[ax]])
    sh = [d[s[0]], d[s[1]]]
    sh[ax] = bad
    m = sif_mats(c, d, {x: tuple(sh)})
    outs = c.run(lambda: new_sif(c, d, m)[0])
    c.refused(outs, 'refuses', F + '::SIF.__init__', '%s with a wrong number of %s' % (x, ('rows', 'columns')[ax]))
