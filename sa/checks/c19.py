"""C19: a filter keeps its two representations consistent"""
from .common import *
from .c07 import response, unit, lengths, canonical

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of the Filter constructor, its two representations and its dimensions for every way of building it, '
               'in every order of reading; the representation obtained by conversion is matched with the canonical forms of the other one, '
               'or refuted by an impulse response of the extracted formulas')
F = 'fixif/LTI/Filter.py'
SOURCES = ('Filter', 'dTF', 'dSS')
T, Fa = Const(True), Const(False)


def check(R):
    R.rule('accepts', 'complete construction arguments are accepted')
    R.rule('refuses', 'incomplete construction arguments, and the transfer function of a system with several channels, raise ValueError')
    R.rule('same', 'both representations denote the filter the constructor was given')
    R.rule('once', 'a representation is converted at most once (every later reading gives the same object)')
    R.rule('dims', 'order and numbers of inputs and outputs, whatever has been read before')
    R.rule('flags', 'single-input single-output, stability and name')
    for how in ('numden', 'tf', 'ABCD', 'ss'):
        for sizes in (('siso', 'mimo') if how in ('ABCD', 'ss') else ('siso',)):
            for before in ('', 'dSS', 'dTF', 'dSS,dTF', 'dTF,dSS'):
                if sizes == 'mimo' and 'dTF' in before:
                    continue
                R.case('%s %s read %s' % (how, sizes, before), lambda c: view(R, c, how, sizes, before))
    for mask in range(16):
        for rest in ('', 'num', 'den'):
            if mask != 15 and (mask or rest):
                R.case('partial %d %s' % (mask, rest), lambda c: partial(R, c, mask, rest))
    R.case('partial none', lambda c: partial(R, c, 0, ''))
    for ax in 'pq':
        for how in ('ABCD', 'ss'):
            R.case('refuse dTF %s %s' % (how, ax), lambda c: mimo(R, c, how, ax))
    for st in ('default', 'True', 'False'):
        R.case('stable ' + st, lambda c: stable(R, c, st))
    R.case('siso 1xq', lambda c: siso(R, c, 'p'))
    R.case('siso px1', lambda c: siso(R, c, 'q'))


def fcls(c):
    return c.cls('fixif.LTI.Filter', 'Filter')


def make(c, how, sizes, name=None):
    """(filter, source object or None, its matrices)"""
    kw = {} if name is None else {'name': Const(name)}
    if how in ('numden', 'tf'):
        n = c.dim('n', 1)
        unit(c)
        num, den = mnamed('num', ONE, n + 1), mnamed('den', ONE, n + 1)
        a = [c.I.arr('matrix', num, 2), c.I.arr('matrix', den, 2)]
        if how == 'numden':
            return lambda: (c.new(fcls(c), num=a[0], den=a[1], **kw), None), dict(num=num, den=den, n=n, p=ONE, q=ONE)

        def th():
            t = c.new(c.cls('fixif.LTI.dTF', 'dTF'), *a)
            return c.new(fcls(c), tf=t, **kw), t
        return th, dict(num=num, den=den, n=n, p=ONE, q=ONE)
    n = c.dim('n', 1)
    p, q = (ONE, ONE) if sizes == 'siso' else (c.dim('p', 2), c.dim('q', 2))
    mats = {'A': mnamed('A', n, n), 'B': mnamed('B', n, q), 'C': mnamed('C', p, n), 'D': mnamed('D', p, q)}
    if how == 'ABCD':
        return lambda: (c.new(fcls(c), **{k: c.I.arr('matrix', v, 2) for k, v in mats.items()}, **kw), None), dict(mats, n=n, p=p, q=q)

    def th():
        s = c.new(c.cls('fixif.LTI.dSS', 'dSS'), *[c.I.arr('matrix', mats[k], 2) for k in 'ABCD'])
        return c.new(fcls(c), ss=s, **kw), s
    return th, dict(mats, n=n, p=p, q=q)


def view(R, c, how, sizes, before):
    build, m = make(c, how, sizes, 'given')
    siso_ = sizes == 'siso'
    reads = [x for x in before.split(',') if x]

    def th():
        f, src = build()
        got = [c.get(f, x) for x in reads]
        return Tup([f, src or NONE] + got)
    what = '%s (%s)%s' % (how, sizes, ', after reading ' + before if before else '')
    for o in c.exceptions(c.run(th), 'accepts', F + '::Filter', what):
        f, src = o.value.items[:2]
        got = dict(zip(reads, o.value.items[2:]))
        dims(R, c, o, f, m, what)
        flags(R, c, o, f, siso_, what)
        for x, v in got.items():
            again = c.at(o, lambda: c.get(f, x))
            c.holds(o, isinstance(v, Ref) and isinstance(again, Ref) and v == again, 'once', F + '::Filter.' + x,
                    what + ': read again', 'another object')
            if src is not NONE and x == {'tf': 'dTF', 'ss': 'dSS'}[how]:
                c.holds(o, isinstance(v, Ref) and v == src, 'once', F + '::Filter.' + x, what + ': the object given', 'another object')
        if 'dSS' in got:
            reports_ss(R, c, o, got['dSS'], m, what)
        if 'dTF' in got:
            reports_tf(R, c, o, got['dTF'], m, what)


def dims(R, c, o, f, m, what):
    for x, v in (('order', m['n']), ('p', m['p']), ('q', m['q'])):
        c.equal(o, c.at(o, lambda: c.get(f, x)), v, 'dims', F + '::Filter.' + x, what)


def flags(R, c, o, f, siso_, what):
    c.truthy(o, c.at(o, lambda: c.meth(f, 'isSISO')), siso_, 'flags', F + '::Filter.isSISO', what)
    nm = c.at(o, lambda: c.get(f, 'name'))
    c.holds(o, nm == Const('given') if isinstance(nm, Const) else None, 'flags', F + '::Filter.name', what, 'name %s' % short(nm))


def reports_ss(R, c, o, ss, m, what):
    g = [c.at(o, lambda: c.get(ss, k)) for k in 'ABCD']
    if 'A' in m:
        for k, x in zip('ABCD', g):
            c.equal(o, x, m[k], 'same', F + '::Filter.dSS', '%s: %s' % (what, k))
        return

    def proof(A, B_, C, D, num, den):
        k = entry(den, ZERO, ZERO, c.I.B).inv()
        return any(all(mat_equal(x, c.I.N(y), c.I.B) for x, y in zip((A, B_, C, D), w))
                   for w in canonical(c, mscale(num, k), mscale(den, k), m['n']))
    c.judge(o, g + [m['num'], m['den']], response, 'same', F + '::Filter.dSS', what + ': response', proof=proof)


def reports_tf(R, c, o, tf, m, what):
    num, den = [c.at(o, lambda: c.get(tf, k)) for k in ('num', 'den')]
    if 'num' in m:
        k = c.at(o, lambda: entry(m['den'], ZERO, ZERO, c.I.B).inv())
        c.equal(o, num, mscale(m['num'], k), 'same', F + '::Filter.dTF', what + ': num')
        c.equal(o, den, mscale(m['den'], k), 'same', F + '::Filter.dTF', what + ': den')
        return

    def rel(env, *v):
        return response(env, *v)

    def proof(A, B_, C, D, num, den):
        ref = c.ref(TF, 'tf')
        w = c.call(ref, *[c.I.arr('matrix', x, 2) for x in (A, B_, C, D)])
        return all(mat_equal(x, c.I.N(c.matof(o, y)), c.I.B) for x, y in zip((num, den), w.items))
    c.judge(o, [m[k] for k in 'ABCD'] + [num, den], rel, 'same', F + '::Filter.dTF', what + ': response', proof=proof)


TF = """
from numpy import poly, r_, matrix, atleast_2d
def tf(A, B, C, D):
    den = poly(A)
    num = poly(A - B*C) + (D[0, 0] - 1)*den
    return atleast_2d(num), atleast_2d(den)
"""


def partial(R, c, mask, rest):
    n, p, q = c.dims_('n p q')
    sh = {'A': (n, n), 'B': (n, q), 'C': (p, n), 'D': (p, q)}
    kw = {k: c.mat(k, *sh[k]) for i, k in enumerate('ABCD') if mask >> i & 1}
    if rest:
        kw[rest] = c.mat(rest, 1, n + 1)
    c.refused(c.run(lambda: c.new(fcls(c), **kw)), 'refuses', F + '::Filter.__init__', 'only %s given' % (', '.join(kw) or 'nothing'))


def mimo(R, c, how, ax):
    n = c.dim('n', 1)
    p, q = (c.dim('p', 2), c.dim('q', 1)) if ax == 'p' else (c.dim('p', 1), c.dim('q', 2))
    mats = {'A': mnamed('A', n, n), 'B': mnamed('B', n, q), 'C': mnamed('C', p, n), 'D': mnamed('D', p, q)}

    def th():
        a = {k: c.I.arr('matrix', v, 2) for k, v in mats.items()}
        if how == 'ABCD':
            f = c.new(fcls(c), **a)
        else:
            f = c.new(fcls(c), ss=c.new(c.cls('fixif.LTI.dSS', 'dSS'), *[a[k] for k in 'ABCD']))
        return c.get(f, 'dTF')
    c.refused(c.run(th), 'refuses', F + '::Filter.dTF', 'several %s (%s)' % ({'p': 'outputs', 'q': 'inputs'}[ax], how))


def siso(R, c, ax):
    n = c.dim('n', 1)
    p, q = (c.dim('p', 2), ONE) if ax == 'p' else (ONE, c.dim('q', 2))
    mats = {'A': mnamed('A', n, n), 'B': mnamed('B', n, q), 'C': mnamed('C', p, n), 'D': mnamed('D', p, q)}
    outs = c.run(lambda: c.new(fcls(c), name=Const('given'), **{k: c.I.arr('matrix', v, 2) for k, v in mats.items()}))
    what = 'several %s only' % {'p': 'outputs', 'q': 'inputs'}[ax]
    for o in c.exceptions(outs, 'accepts', F + '::Filter', what):
        dims(R, c, o, o.value, dict(n=n, p=p, q=q), what)
        flags(R, c, o, o.value, False, what)


def stable(R, c, st):
    build, m = make(c, 'numden', 'siso')
    n = m['n']
    kw = {} if st == 'default' else {'stable': Const(st == 'True')}
    outs = c.run(lambda: c.new(fcls(c), num=c.mat('num', 1, n + 1), den=c.mat('den', 1, n + 1), **kw))
    for o in c.exceptions(outs, 'accepts', F + '::Filter', 'stable: ' + st):
        c.truthy(o, c.at(o, lambda: c.meth(o.value, 'isStable')), st == 'True', 'flags', F + '::Filter.isStable', 'stable: ' + st)
