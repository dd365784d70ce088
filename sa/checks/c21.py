"""C21: fixed-point formats come from the bounds that justify them"""
import math
from ..spec import *
from ..values import *
from ..dom import *
from .. import evalf
from .c15 import Real, the_filter
from .c16 import num_lib, paths, SRC
from .c20 import tag, is_tag, seq, split

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of the format computations on realizations of given sizes with symbolic coefficients, worst-case gains and bounds; the gain '
               'is uninterpreted, the system it is asked for is recorded, and the formats are compared with the documented equations entry by entry')
F = 'fixif.SIF.Realization_FxP'
SIZES = [(0, 1, 1, 1), (1, 1, 1, 1), (0, 2, 1, 2), (1, 2, 2, 1), (2, 1, 2, 2), (0, 1, 3, 1)]
SPEC = '''
from mpmath import log, ceil, floor, power
import numpy

def msb(z):
	return int(ceil(log(z, 2)))

def tilde(z):
	m = ceil(log(z, 2))
	return int(1 + m - floor(log(power(2, m) - z, 2)))

def wls(n, m, es, ws):
	return max([int(numpy.ceil(numpy.log2(w * 2. ** m * n) - numpy.log2(e))) for e, w in zip(es, ws)])

def uniform(E, es, ts):
	g = max([int(numpy.ceil(numpy.log2(sum(r)) - numpy.log2(e))) for r, e in zip(E, es)])
	for r, e in zip(E, es):
		if not sum([x * 2. ** (-g + (1 if g < t else 0)) for x, t in zip(r, ts)]) < e:
			return g + 1
	return g

def lsb(ly, c, ws):
	return ly - 1 - (1 + max([numpy.ceil(numpy.log2(c * w)) for w in ws])) - 1
'''


def check(R):
    R.rule('system', 'the worst-case gain is the one of the system from the inputs (or the errors) to the variables (or the outputs)')
    R.rule('msb', 'the most significant bit of a variable is the least one that holds its greatest value')
    R.rule('threshold', 'the threshold of the word-length is the documented one')
    R.rule('uniform', 'the uniform word-length meets the error bound of every output, and is the least one')
    R.rule('multiple', 'the word-length of each variable is the least one within its share of every error bound')
    R.rule('lsb', 'the least significant bits keep the error of every output within its budget')
    R.rule('quantize', 'the coefficients of the new realization are the quantized ones, the original is unchanged')
    R.rule('accepts', 'the formats are available for all sizes')
    for size in SIZES:
        R.case('msb %s' % (size,), lambda c: msb(c, size))
        R.case('threshold %s' % (size,), lambda c: threshold(c, size))
        R.case('multiple %s' % (size,), lambda c: multiple(c, size))
        R.case('uniform %s' % (size,), lambda c: uniform(c, size))
        R.case('lsb %s' % (size,), lambda c: lsb(c, size))
        R.case('quantize %s' % (size,), lambda c: quantize(c, size))
    R.case('word-length refused', refused)


def pos(nm):
    """a strictly positive number"""
    s = Sc.sym(nm)
    return s * s + Sc.const(Fraction(1, 8))


def same(c, o, w):
    """the extracted value is the documented one"""
    w = c.at(o, lambda: c.I.N(w.s))

    def proof(*g):
        return not (as_scalar(c, o, g[0]) - w).t
    return proof


def as_scalar(c, o, g):
    return entry(g, ZERO, ZERO, o.st.B) if isinstance(g, Mat) else g


def table(c, f, r, k):
    rows = []
    for i in range(r):
        cs = [mscalar(f(i, j)) for j in range(k)]
        rows.append(mhstack(cs, c.I.B) if len(cs) > 1 else cs[0])
    return mvstack(rows, c.I.B) if len(rows) > 1 else rows[0]


def setting(c, size, **kw):
    """realization; the gain of each system as a matrix of positive symbols"""
    l, n, p, q = size
    r = Real(c, size, 'full' if n > 1 else 'upper')
    k = l + n + p
    asked = []

    def wcpg(I, a, kw):
        asked.append((a[0], a[1:], kw))
        I.st.effects.append(('wcpg', a[0]))
        C, D = I.arr_mat(I.getattr(a[0], 'C')), I.arr_mat(I.getattr(a[0], 'D'))
        ro, co = int(I.N(D.rows).cval()), int(I.N(D.cols).cval())
        return I.arr('matrix', table(c, lambda i, j: pos('w%d_%d' % (i, j)), ro, co), 2)
    c.I.hooks[('dSS', 'WCPG')] = wcpg
    return r, k


def the_system(c, o, R_, name, con, rule='system', count=1):
    """the gain asked is the one of the named system of the realization"""
    es = [e[1] for e in o.st.effects if e[0] == 'wcpg']
    c.holds(o, len(es) >= 1, rule, con, 'a worst-case gain is computed', str(len(es)))

    def mats(s):
        return [c.I.N(c.I.arr_mat(c.get(s, x))) for x in 'ABCD']

    def f():
        w = c.get(R_, name)
        if isinstance(w, Ref) and isinstance(c.I.obj(w), InstO) and c.I.obj(w).cls.name != 'dSS':
            w = c.get(w, 'dSS')
        return w
    ws = c.at(o, lambda: mats(f()))
    for s in es:
        for x, g, w in zip('ABCD', c.at(o, lambda: mats(s)), ws):
            c.equal(o, g, w, rule, con, 'matrix %s of the system' % x)


def ubar(c, q):
    return c.I.arr('matrix', table(c, lambda i, j: pos('u%d' % i), q, 1), 2)


def zeta(i, q):
    return sum((pos('w%d_%d' % (i, j)) * pos('u%d' % j) for j in range(q)), ZERO)


def spec(c, o, name, *args):
    return c.at(o, lambda: c.call(c.ref(SPEC, name), *args))


def per_variable(c, size, meth, rule, what, f):
    l, n, p, q = size
    r, k = setting(c, size)
    con = 'Realization.' + meth

    def th():
        the_filter(c)
        R_ = r.build()
        u = ubar(c, q)
        return Tup([c.meth(R_, meth, u), R_, u])
    for o in c.exceptions(c.run(th), 'accepts', con, 'answers'):
        v, R_, u = o.value.items
        xs = seq(c, o, v)
        if xs is None:
            g = c.matof(o, v)
            xs = [entry(g, sc(i), ZERO, o.st.B) for i in range(k)] if g is not None and g.rows.cval() == k else None
        if not c.holds(o, None if xs is None else len(xs) == k, rule, con, 'one value per variable', short(v)):
            continue
        for i, x in enumerate(xs):
            c.equal(o, x, spec(c, o, f, Num(zeta(i, q))), rule, con, what)
        the_system(c, o, R_, 'Hzeta', con)
        c.equal(o, u, table(c, lambda i, j: pos('u%d' % i), q, 1), 'system', con, 'the bounds of the inputs are unchanged')


def msb(c, size):
    per_variable(c, size, 'computeNaiveMSB', 'msb', 'smallest power of two above the greatest value of the variable', 'msb')


def threshold(c, size):
    per_variable(c, size, '_w_tilde', 'threshold', 'documented threshold', 'tilde')


def formats(c, k):
    """the bits given by the other methods"""
    ms = [c.dim('m%d' % i, -3) for i in range(k)]
    ts = [c.dim('t%d' % i, 2) for i in range(k)]
    c.I.hooks[('R_FxP', 'computeNaiveMSB')] = lambda I, a, kw: I.alloc(ListO([('item', Num(x, 'int')) for x in ms]))
    c.I.hooks[('R_FxP', '_w_tilde')] = lambda I, a, kw: I.alloc(ListO([('item', Num(x, 'int')) for x in ts]))
    return ms, ts


def eps_(c, p):
    return c.I.arr('matrix', table(c, lambda i, j: pos('e%d' % i), p, 1), 2)


def V(env, nm):
    return float(evalf.ev(env, Sc.sym(nm))) ** 2 + 0.125


def multiple(c, size):
    l, n, p, q = size
    r, k = setting(c, size)
    opened = []
    mod = paths(c, opened)
    num_lib(c)
    ms, ts = formats(c, k)
    c.I.hooks[(F, 'generateAMPLParam')] = lambda I, a, kw: Const('')
    c.I.hooks[(mod, 'filled')] = lambda I, a, kw: Const('')
    con = 'Realization.optimalWL'

    def th():
        the_filter(c)
        R_ = r.build()
        u, e = ubar(c, q), eps_(c, p)
        return Tup([c.meth(R_, 'optimalWL', u, e), R_])
    for o in c.exceptions(c.run(th), 'accepts', con, 'answers'):
        v, R_ = o.value.items
        xs = seq(c, o, v)
        if not c.holds(o, None if xs is None else len(xs) == k, 'multiple', con, 'one word-length per variable', short(v)):
            continue
        the_system(c, o, R_, 'Hepsilon', con)
        for j, x in enumerate(xs):
            def rel(env, w, j=j):
                need = [math.log2(V(env, 'w%d_%d' % (i, j)) * 2.0 ** env.dims['m%d' % j] * k) - math.log2(V(env, 'e%d' % i)) for i in range(p)]
                if any(abs(y - round(y)) < 1e-9 for y in need):
                    return None
                want = max(math.ceil(y) for y in need)
                g = num_of(w)
                return True if abs(g - want) < 1e-6 else '%s instead of %s' % (g, want)

            w = spec(c, o, 'wls', Num(sc(k), 'int'), Num(ms[j], 'int'), Tup([Num(pos('e%d' % i)) for i in range(p)]), Tup([Num(pos('w%d_%d' % (i, j))) for i in range(p)]))
            c.judge(o, [x], rel, 'multiple', con, 'least word-length within the share of each variable', proof=same(c, o, w))


def num_of(w):
    while isinstance(w, (list, tuple)) and w:
        w = w[2] if len(w) == 3 and isinstance(w[2], (list, tuple)) else w[0]
    return complex(w).real


def pow2(c, m):
    return c.call(c.ref('def f(m):\n\treturn 2. ** m\n', 'f'), Num(m, 'int')).s


def uniform(c, size):
    l, n, p, q = size
    r, k = setting(c, size)
    num_lib(c)
    ms, ts = formats(c, k)
    con = 'Realization.optimalUniformWL'

    def th():
        the_filter(c)
        R_ = r.build()
        return Tup([c.meth(R_, 'optimalUniformWL', ubar(c, q), eps_(c, p)), R_])
    good = c.exceptions(c.run(th), 'accepts', con, 'answers')
    for o in good:
        the_system(c, o, o.value.items[1], 'Hepsilon', con)
    rows = Tup([Tup([Num(pos('w%d_%d' % (i, j)) * pow2(c, ms[j])) for j in range(k)]) for i in range(p)])
    for o in split(c, good, lambda: c.call(c.ref(SPEC, 'uniform'), rows, Tup([Num(pos('e%d' % i)) for i in range(p)]), Tup([Num(t, 'int') for t in ts])), prune=False):
        v = o.value.items[0]

        def rel(env, w):
            g = num_of(w)
            if abs(g - round(g)) > 1e-9:
                return 'not an integer: %s' % g
            g = round(g)
            E = [[V(env, 'w%d_%d' % (i, j)) * 2.0 ** env.dims['m%d' % j] for j in range(k)] for i in range(p)]

            def err(i, w):
                return sum(E[i][j] * 2.0 ** (-w + (1 if w < env.dims['t%d' % j] else 0)) for j in range(k))
            e = [V(env, 'e%d' % i) for i in range(p)]
            if any(abs(err(i, x) - e[i]) < 1e-9 * e[i] for i in range(p) for x in (g - 1, g)):
                return None
            if any(err(i, g) > e[i] for i in range(p)):
                return 'error %s above %s with %d bits' % ([err(i, g) for i in range(p)], e, g)
            if all(err(i, g - 1) < e[i] for i in range(p)):
                return '%d bits are enough, %d are answered' % (g - 1, g)
            return True
        c.judge(o, [v], rel, 'uniform', con, 'least word-length that meets every error bound', proof=same(c, o, o.spec))


def lsb(c, size):
    l, n, p, q = size
    r, k = setting(c, size)
    num_lib(c)
    ly = c.dim('ly', -4)
    con = 'Realization._compute_LSB'
    # the gain of the error filter is asked for the system of its own SIF

    def th():
        the_filter(c)
        R_ = r.build()
        return Tup([c.meth(R_, '_compute_LSB', Num(ly, 'int')), R_])
    for o in c.exceptions(c.run(th), 'accepts', con, 'answers'):
        v, R_ = o.value.items
        if not c.holds(o, isinstance(v, Tup) and len(v.items) == 2 or None, 'lsb', con, 'bits and error budget', short(v)):
            continue
        g = c.matof(o, v.items[0])
        if not c.holds(o, None if g is None else ((g.rows * g.cols).cval() == k), 'lsb', con, 'one bit per variable', short(v.items[0])):
            continue
        xs = [c.at(o, lambda: entry(g, ZERO, sc(i), o.st.B) if g.rows.cval() == 1 else entry(g, sc(i), ZERO, o.st.B)) for i in range(k)]
        es = [e[1] for e in o.st.effects if e[0] == 'wcpg']
        for s in es:
            ws = c.at(o, lambda: [c.I.N(c.I.arr_mat(c.get(s, x))) for x in 'ABCD'])
            eps = c.at(o, lambda: [c.I.N(c.I.arr_mat(c.get(c.get(R_, 'Hepsilon'), x))) for x in 'ABCD'])
            for x, a, b in zip('ABCD', ws, eps):
                c.equal(o, a, b, 'system', con, 'matrix %s of the error system' % x)

        def rel(env, *bits):
            bits = [num_of(b) for b in bits]
            y = env.dims['ly']
            for j in range(p):
                tot = sum(V(env, 'w%d_%d' % (j, i)) * 2.0 ** bits[i] for i in range(k))
                if tot > 2.0 ** (y - 1) * (1 + 1e-9):
                    return 'error %s above 2^(%d-1) for the output %d with the bits %s' % (tot, y, j, bits)
            # not needlessly fine: the documented bits are at most three below what the share allows
            for i in range(k):
                m = max(math.ceil(math.log2(k * V(env, 'w%d_%d' % (j, i)))) for j in range(p))
                if bits[i] < y - m - 6:
                    return 'bit %s far below the share %s of the variable %d' % (bits[i], y - m, i)
            return True
        ws = [spec(c, o, 'lsb', Num(ly, 'int'), Num(sc(k), 'int'), Tup([Num(pos('w%d_%d' % (j, i))) for j in range(p)])) for i in range(k)]

        def proof(*g):
            return all(same(c, o, w)(x) for x, w in zip(g, ws))
        c.judge(o, xs, rel, 'lsb', con, 'the errors add up to less than the budget of each output', proof=proof)


def quantize(c, size):
    l, n, p, q = size
    r, k = setting(c, size)
    con = 'Realization.quantize'
    w = Num(sc(8), 'int')
    QS = '''
class Q:
	def __init__(self, x, wl=None, signed=True):
		self.approx = approx(x, wl, signed)
def approx(x, wl, signed):
	return 0
'''
    Q = c.ref(QS, 'Q')
    c.I.hooks[(Q.c.mod.name, 'approx')] = lambda I, a, kw: Num(Sc.atom(('fn', 'quantized', I.N(a[0].s), I.N(a[1].s) if isinstance(a[1], Num) else repr(a[1]))))
    for x in ('fixif.FxP.Constant', 'fixif.FxP.Constant.Constant'):
        c.I.hooks[('ext', x)] = lambda I, a, kw: I.call(Q, a, kw)

    def vec(I, a, kw):
        f = a[0]
        return tag('vectorized', f)

    def prog():
        the_filter(c)
        R_ = r.build()
        before = c.I.N(c.I.arr_mat(c.get(R_, 'Z')))
        N_ = c.meth(R_, 'quantize', w)
        return Tup([R_, N_, c.I.arr('matrix', before, 2)])
    for o in c.exceptions(c.run(prog), 'quantize', con, 'answers'):
        R_, N_, b = o.value.items
        zr, zn, zb = c.matof(o, c.at(o, lambda: c.get(R_, 'Z'))), c.matof(o, c.at(o, lambda: c.get(N_, 'Z'))), c.matof(o, b)
        c.equal(o, zr, zb, 'quantize', con, 'the original realization keeps its coefficients')
        c.holds(o, isinstance(N_, Ref) and isinstance(R_, Ref) and N_.a != R_.a, 'quantize', con, 'a new realization', short(N_))
        if zn is None:
            c.holds(o, None, 'quantize', con, 'coefficients', 'not resolved')
            continue
        # the blocks are those of the new matrix
        lst = list(zip('JKLMNPQRS', 'JKLMNPQRS'))
        d = dict(l=l, n=n, p=p, q=q)
        off = {'l': 0, 'n': l, 'p': l + n}
        offc = {'l': 0, 'n': l, 'q': l + n}
        from .common import SHAPES
        for x in 'JKLMNPQRS':
            ro, co = SHAPES[x]
            if not d[ro] or not d[co]:
                continue
            g = c.matof(o, c.at(o, lambda: c.get(N_, x)))
            for i in range(d[ro]):
                for j in range(d[co]):
                    z = entry(zn, sc(off[ro] + i), sc(offc[co] + j), o.st.B)
                    z = -z if x == 'J' else z
                    c.equal(o, c.at(o, lambda: entry(g, sc(i), sc(j), o.st.B)), z, 'quantize', con, 'block %s of the new realization' % x)
        # the systems computed from the original are not kept
        for nm in ('AZ', 'BZ', 'CZ', 'DZ'):
            a, f = c.matof(o, c.at(o, lambda: c.get(N_, nm))), None
            if a is None:
                c.holds(o, None, 'quantize', con, nm, 'not resolved')


def refused(c):
    r, k = setting(c, (0, 1, 1, 1))
    for v, what in ((Num(ZERO, 'int'), 'no bit'), (Num(sc(-1), 'int'), 'a negative number of bits'), (Num(Sc.const(Fraction(5, 2)), 'float'), 'a fraction of bits')):
        def th():
            the_filter(c)
            return c.meth(r.build(), 'quantize', v)
        c.refused(c.run(th), 'quantize', 'Realization.quantize', what)
