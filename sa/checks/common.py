"""shared symbolic inputs and specified formulas"""
from ..spec import *
from ..interp import norm_sign

SIFM = 'fixif.SIF.SIF'
NAMES = ('J', 'K', 'L', 'M', 'N', 'P', 'Q', 'R', 'S')
SHAPES = {'J': 'll', 'K': 'nl', 'L': 'pl', 'M': 'ln', 'N': 'lq', 'P': 'nn', 'Q': 'nq', 'R': 'pn', 'S': 'pq'}


def unit_lower(name):
    from fractions import Fraction

    def f(env, i, j):
        if i == j:
            return Fraction(1)
        if i < j:
            return Fraction(0)
        return env.value('mat', name, i, j)
    return f


def strip_ulow(x):
    """inverse of an operand known to be unit lower triangular: ulow(X) = X"""
    if isinstance(x, Mat):
        return map_atoms(x)
    return x


def unit_operand(x):
    """an operand that the specification takes unit lower triangular"""
    return isinstance(x, Mat) and any(x == mnamed(n, x.rows, x.cols) for n in ('J', 'L'))


def map_atoms(x):
    m = {}
    for a in walk_atoms(x):
        if a[0] == 'fn' and len(a) == 5 and isinstance(a[1], Sc) and a[3] == 'ulow' and unit_operand(a[4]):
            m[a] = a[4]
    return subst(x, m) if m else x


def sif_dims(c, l0=False):
    l = sc(0) if l0 else c.dim('l', 1)
    n, p, q = c.dim('n', 1), c.dim('p', 1), c.dim('q', 1)
    return dict(l=l, n=n, p=p, q=q)


def sif_mats(c, d, over=None):
    c.makers['J'] = unit_lower('J')
    out = {}
    for x in NAMES:
        r, k = SHAPES[x]
        rr, kk = (over or {}).get(x, (d[r], d[k]))
        out[x] = mnamed(x, rr, kk)
    return out


def new_sif(c, d=None, m=None, cls=None, kind='matrix', extra=()):
    d = d or sif_dims(c)
    m = m or sif_mats(c, d)
    k = cls or c.cls(SIFM, 'SIF')
    args = [c.I.arr(kind, m[x], 2) for x in NAMES]
    return c.new(k, Tup(args), *extra), d, m


class Eliminated:
    def __init__(self, m, B):
        iJ = minv(m['J'])
        self.iJ = iJ
        mm = lambda *x: mul(B, *x)
        self.A = madd(mm(m['K'], iJ, m['M']), m['P'], B)
        self.B = madd(mm(m['K'], iJ, m['N']), m['Q'], B)
        self.C = madd(mm(m['L'], iJ, m['M']), m['R'], B)
        self.D = madd(mm(m['L'], iJ, m['N']), m['S'], B)
        self.Z = mvstack([mhstack([mneg(m['J']), m['M'], m['N']], B), mhstack([m['K'], m['P'], m['Q']], B),
                          mhstack([m['L'], m['R'], m['S']], B)], B)


def mul(B, *ms):
    r = ms[0]
    for x in ms[1:]:
        r = mmul(r, x, B)
    return r


def dss_of(c, o, ref):
    """the four matrices of a state-space object in outcome o, as it reports them"""
    return {k: c.at(o, lambda: c.I.getattr(ref, k)) for k in 'ABCD'}


def new_dss(c, n='n', p='p', q='q', suffix='', kind='matrix', cls=None, mod='fixif.LTI.dSS', clsname='dSS'):
    n_, p_, q_ = [c.dim(x, 1) if isinstance(x, str) else x for x in (n, p, q)]
    mats = {'A': mnamed('A' + suffix, n_, n_), 'B': mnamed('B' + suffix, n_, q_), 'C': mnamed('C' + suffix, p_, n_),
            'D': mnamed('D' + suffix, p_, q_)}
    k = cls or c.cls(mod, clsname)
    return c.new(k, *[c.I.arr(kind, mats[x], 2) for x in 'ABCD']), mats


# ---- relations between filters, decided on the values of extracted formulas
def row_(v):
    return [x for r in v[2] for x in r] if isinstance(v, tuple) else [v]


def pmul_(a, b):
    o = [0] * (len(a) + len(b) - 1) if a and b else []
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            o[i + j] = o[i + j] + x * y
    return o


def padd_(a, b, s=1):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + s * (b[i] if i < len(b) else 0) for i in range(n)]


def close_(a, b):
    return evalf.near(a, b)


def same_rational(n1, d1, n2, d2):
    """n1/d1 = n2/d2 as rational functions of the delay (coefficients of increasing powers)"""
    if not d1 or not d2 or d1[0] == 0 or d2[0] == 0:
        return None
    u, v = pmul_(n1, d2), pmul_(n2, d1)
    k = max(len(u), len(v))
    u, v = u + [0] * (k - len(u)), v + [0] * (k - len(v))
    if all(close_(x, y) for x, y in zip(u, v)):
        return True
    return 'numerators over a common denominator: %s instead of %s' % ([show_val(x) for x in u], [show_val(x) for x in v])


def series(n, d, k):
    """the first k coefficients of n/d"""
    if not d or d[0] == 0:
        return None
    h = []
    for i in range(k):
        s = n[i] if i < len(n) else 0
        for j in range(1, min(i, len(d) - 1) + 1):
            s = s - d[j] * h[i - j]
        h.append(s / d[0])
    return h


def markov(A, B, C, D, k):
    """the first k impulse response matrices of a state-space"""
    if A[0] != A[1] or B[0] != A[0] or C[1] != A[0] or D[0] != C[0] or D[1] != B[1]:
        return 'sizes'
    out = [D[2]]
    X = B
    for _ in range(k - 1):
        out.append(evalf.mat_mul(C, X)[2])
        X = evalf.mat_mul(A, X)
    return out


def same_markov(a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        if len(x) != len(y) or any(len(r) != len(s) for r, s in zip(x, y)):
            return 'shape of the response'
        for r, s in zip(x, y):
            for u, v in zip(r, s):
                if not close_(u, v):
                    return 'impulse response at time %d: %s instead of %s' % (k, show_val(u), show_val(v))
    return True
