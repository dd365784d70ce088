"""C22: simulations follow the recurrences of the system"""
from .mpsys import *

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of the simulation loops: each loop is summarised as a recurrence (state carried from one sample to the '
               'next) and compared with the recurrence of the system, for any numbers of states, inputs, outputs and samples')
SOURCES = ('SIF', 'dSSmp', 'mpf_matrix')
SIFC = 'fixif/SIF/SIF.py::SIF.simulate'


def check(R):
    R.rule('recurrence', 'each output is computed from the state before the update and the input of the same sample')
    R.rule('accepts', 'inputs with the right number of channels are accepted')
    R.rule('refuses', 'inputs with a wrong number of channels are refused')
    R.rule('state', 'simulating changes neither the system nor the arguments')
    for l0 in (False, True):
        for kind in ('matrix', 'array'):
            R.case('SIF %s %s' % (kind, l0), lambda c: sif(R, c, l0, kind))
    R.case('SIF refuse', lambda c: sif_refuse(R, c))
    for ku in KINDS:
        for kx in (None,) + KINDS:
            for exact in (True, False, None):
                R.case('dSSmp %s %s %s' % (ku, kx, exact), lambda c: mp(R, c, ku, kx, exact))
        R.case('dSSmp refuse %s' % ku, lambda c: mp_refuse(R, c, ku))
        for p in (1, 2):
            for T in (1, 2, 3):
                R.case('rounded %s %d %d' % (ku, p, T), lambda c: rounded(R, c, ku, p, T))


def recurrence(c, o, fn, m, d, T, u, x0, kind):
    arr = lambda x: c.I.arr(kind, x, 2)
    return c.at(o, lambda: c.I.run_paths(lambda: c.call(c.ref(REF, fn), *([arr(m[k]) for k in 'ABCD'] + [Num(sc(d[k]), 'int') for k in 'npq']
                                                                          + [Num(sc(T), 'int'), arr(u), arr(x0)]))))


def unchanged(R, c, o, con, what, own):
    bad = [e for e in o.st.effects[own['k']:] if e[0] in ('write', 'attr') and e[1] in own['own']]
    if bad:
        c.holds(o, False, 'state', con, what, 'writes %s' % short(bad[0]))
    else:
        R.ok('state', con, what)


def sif(R, c, l0, kind):
    d = sif_dims(c, l0)
    T = c.dim('T', 1)
    u = mnamed('u', d['q'], T)
    got = {}

    def th():
        s, _, m = new_sif(c, d)
        ua = c.I.arr(kind, u, 2)
        got['own'] = {s.a, ua.a}
        got['m'] = m
        got['k'] = len(c.I.st.effects)
        return c.meth(s, 'simulate', ua)
    what = 'any state, input and output%s (%s)' % (' without intermediate variables' if l0 else '', kind)
    for o in c.exceptions(c.run(th), 'accepts', SIFC, what):
        E = c.at(o, lambda: Eliminated(got['m'], c.I.B))
        m = dict(A=E.A, B=E.B, C=E.C, D=E.D)
        w, = recurrence(c, o, 'simulate_np', m, d, T, u, mzero(d['n'], 1), 'matrix')
        c.equal(o, o.value, c.matof(w, w.value), 'recurrence', SIFC, what, strip=strip_ulow)
        unchanged(R, c, o, SIFC, what, got)


def sif_refuse(R, c):
    d = sif_dims(c)
    T, e = c.dim('T', 1), c.dim('e', 1)
    c.assume_unequal(e, d['q'])
    c.refused(c.run(lambda: c.meth(new_sif(c, d)[0], 'simulate', c.I.arr('matrix', mnamed('u', e, T), 2))), 'refuses', SIFC, 'wrong number of inputs')


def mp(R, c, ku, kx, exact):
    d = dict(zip('npq', c.dims_('n p q')))
    T = c.dim('T', 1)
    u, x0 = mnamed('u', d['q'], T), mnamed('x0', d['n'], ONE)
    con = DSSMP + 'simulate'
    c.I.mround = True
    got = {}

    def th():
        s, got['m'] = mpsys(c)
        kw = {} if exact is None else {'exact': Const(exact)}
        ua = c.I.arr(ku, u, 2)
        got['own'] = {s.a, ua.a}
        if kx:
            kw['x0'] = c.I.arr(kx, x0, 2)
            got['own'].add(kw['x0'].a)
        got['k'] = len(c.I.st.effects)
        return c.meth(s, 'simulate', ua, **kw)
    what = 'input %s, initial state %s, %s' % (ku, kx, {True: 'exact', False: 'rounded', None: 'by default'}[exact])
    for o in c.exceptions(c.run(th), 'accepts', con, what):
        if exact is False:
            w, = rounded_ref(c, o, got['m'], d, T, u, x0 if kx else mzero(d['n'], 1))
        else:
            w, = recurrence(c, o, 'simulate', got['m'], d, T, u, x0 if kx else mzero(d['n'], 1), 'mp')
        c.opaque = c.opaque | {'mround'}
        c.equal(o, o.value, c.matof(w, w.value), 'recurrence', con, what)
        unchanged(R, c, o, con, what, got)


RREF = '''
import mpmath

def simulate(A, B, C, D, n, p, q, T, u, x0):
	xk = x0
	yk = mpmath.zeros(p, T)
	for i in range(0, T):
		yk[:, i] = C * xk + D * u[:, i]
		x1 = A * xk + B * u[:, i]
		xk = mpmath.zeros(n, 1)
		for j in range(0, n):
			xk[j, 0] = mpmath.fadd(x1[j, 0], 0, prec=53, rounding='n')
	return yk

def rounded(A, B, C, D, n, p, q, T, u, x0, prec, mode, round):
	xk = x0
	yk = mpmath.zeros(p, T)
	for i in range(0, T):
		y = C * xk + D * u[:, i]
		x1 = A * xk + B * u[:, i]
		xk = mpmath.zeros(n, 1)
		for j in range(0, n):
			xk[j, 0] = round(x1[j, 0], prec, mode)
		for j in range(0, p):
			yk[j, i] = round(y[j, 0], prec, mode)
	return yk
'''


def rounded_ref(c, o, m, d, T, u, x0):
    arr = lambda x: c.I.arr('mp', x, 2)
    return c.at(o, lambda: c.I.run_paths(lambda: c.call(c.ref(RREF, 'simulate'), *([arr(m[k]) for k in 'ABCD'] + [Num(sc(d[k]), 'int') for k in 'npq']
                                                                                   + [Num(sc(T), 'int'), arr(u), arr(x0)]))))


def mp_refuse(R, c, ku):
    n, p, q = c.dims_('n p q')
    T, e = c.dim('T', 1), c.dim('e', 1)
    c.assume_unequal(e, q)
    c.refused(c.run(lambda: c.meth(mpsys(c)[0], 'simulate', c.I.arr(ku, mnamed('u', e, T), 2))), 'refuses', DSSMP + 'simulate', 'wrong number of inputs (%s)' % ku)


def rounded(R, c, ku, p, T):
    con = DSSMP + 'simulate_rounded'
    c.I.hooks[('fixif.func_aux.mpf_matrix_to_sollya', 'mpf_matrix_to_sollya')] = by_rows
    prec = Num(Sc.sym('prec'), 'int')
    for n in (1, 2):
        u = mnamed('u', sc(2), sc(T))
        got = {}

        def th():
            s, got['m'] = mpsys(c, sc(n), sc(p), sc(2))
            return c.meth(s, 'simulate_rounded', c.I.arr(ku, u, 2), prec)
        what = '%s inputs, %d outputs, %d samples, order %d' % (ku, p, T, n)
        for o in c.exceptions(c.run(th), 'accepts', con, what):
            arr = lambda x: c.I.arr('mp', x, 2)
            w, = c.at(o, lambda: c.I.run_paths(lambda: c.call(c.ref(RREF, 'rounded'), *(
                [arr(got['m'][k]) for k in 'ABCD'] + [Num(sc(x), 'int') for x in (n, p, 2, T)] + [arr(u), arr(mzero(n, 1)), prec, ExtV('sollya.RN'), ExtV('sollya.round')]))))
            y = c.matof(w, w.value)
            want = c.at(o, lambda: mhstack([mscalar(entry(y, sc(i), sc(j), c.I.B)) for i in range(p) for j in range(T)], c.I.B))
            c.opaque = c.opaque | {'sround'}
            c.equal(o, o.value, want, 'recurrence', con, what)
