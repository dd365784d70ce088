"""Abstract value domain: scalar polynomials, non-commutative block-matrix polynomials with symbolic
dimensions, and the normal forms used to compare them.

Sc   commutative Laurent polynomial with rational coefficients over atoms (hashable tuples).
Mat  block matrix; each cell is a sum of words; a word is a product of letters (matrix atom, transposed?).
Everything is immutable and hashable."""
from fractions import Fraction
from functools import lru_cache

_rk = {}


def rkey(x):
    try:
        return _rk[x]
    except KeyError:
        r = repr(x)
        _rk[x] = r
        return r


class Sc:
    __slots__ = ('t', '_h', '_r')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._r = None

    # -- constructors
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Sc({(): c} if c else {})

    @staticmethod
    def atom(a, e=1):
        return Sc({((a, e),): Fraction(1)})

    @staticmethod
    def sym(name):
        return Sc.atom(('sym', name))

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Sc) and self.t == o.t

    def __repr__(self):
        if self._r is None:
            if not self.t:
                self._r = '0'
            else:
                out = []
                for m, c in sorted(self.t.items(), key=lambda mc: rkey(mc[0])):
                    f = '*'.join(show_atom(a) + ('' if e == 1 else '^%d' % e) for a, e in m)
                    if not f:
                        out.append(str(c))
                    elif c == 1:
                        out.append(f)
                    elif c == -1:
                        out.append('-' + f)
                    else:
                        out.append('%s*%s' % (c, f))
                self._r = ' + '.join(out).replace('+ -', '- ')
        return self._r

    # -- arithmetic
    def __add__(self, o):
        o = sc(o)
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Sc(t)
    __radd__ = __add__

    def __neg__(self):
        return Sc({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-sc(o))

    def __rsub__(self, o):
        return sc(o) - self

    def __mul__(self, o):
        o = sc(o)
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                v = t.get(m, 0) + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        return Sc(t)
    __rmul__ = __mul__

    def inv(self):
        if not self.t:
            return None
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return Sc({tuple((a, -e) for a, e in m): 1 / c})
        # pull out the content so that 2a+2b and a+b share an atom
        lead = min(self.t.items(), key=lambda mc: rkey(mc[0]))[1]
        return Sc.atom(('poly', self * (Fraction(1) / lead)), -1) * (Fraction(1) / lead)

    def __truediv__(self, o):
        i = sc(o).inv()
        return None if i is None else self * i

    def ipow(self, k):
        r = ONE
        if k < 0:
            b = self.inv()
            if b is None:
                return None
            k = -k
        else:
            b = self
        for _ in range(k):
            r = r * b
        return r

    # -- queries
    def is_const(self):
        return all(m == () for m in self.t)

    def cval(self):
        return self.t.get((), Fraction(0)) if self.is_const() else None

    def is_zero(self):
        return not self.t

    def atoms(self):
        return {a for m in self.t for a, _ in m}


def show_atom(a):
    if isinstance(a, tuple) and a:
        if a[0] == 'sym':
            return str(a[1])
        if a[0] == 'ent':
            return '%s[%r,%r]' % (show_mat_atom(a[1]), a[2], a[3])
        if a[0] == 'sum':
            return 'Sum_{%s<%r}(%r)' % (a[1], a[2], a[3])
        if a[0] == 'fn':
            return '%s(%s)' % (a[1], ', '.join(repr(x) for x in a[2:]))
    return repr(a)


def show_mat_atom(a):
    if a[0] == 'mat':
        return str(a[3])
    if a[0] == 'sub':
        return '%s{%r:%r,%r:%r}' % (show_mat_atom(a[3]), a[4], a[5], a[6], a[7])
    if a[0] == 'inv':
        return 'inv(%r)' % (a[3],)
    if a[0] in ('exch', 'shift', 'diag', 'ones'):
        return '%s(%s)' % (a[0], ','.join(repr(x) for x in a[2:]))
    if a[0] == 'fn':
        return '%s(%s)' % (a[3], ', '.join(repr(x) for x in a[4:]))
    if a[0] == 'lam':
        return 'Lam(%r)' % (a[3],)
    return '%s<%s>' % (a[0], ','.join(repr(x) for x in a[1:]))


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            del d[a]
    # delta(i,j)*... left to entry normalisation
    return tuple(sorted(d.items(), key=lambda ae: rkey(ae[0])))


def sc(x):
    if isinstance(x, Sc):
        return x
    if isinstance(x, float):
        return Sc.const(Fraction(x))
    return Sc.const(x)


ZERO = Sc({})
ONE = Sc.const(1)


# ---------------------------------------------------------------------------------------------
# bounds: symbols that stand for dimensions are >= 0 (or >= a declared minimum)
class Bounds:
    """lower bounds of atoms; used to order offsets"""

    def __init__(self, low=None, extra=()):
        self.low = dict(low or {})
        self.extra = list(extra)     # Sc known to be >= 0

    def copy(self):
        return Bounds(self.low, self.extra)

    def nonneg(self, d):
        """True when d >= 0 is certain"""
        if self._nn(d):
            return True
        for e in self.extra:
            if self._nn(d - e):
                return True
        for e in self.extra:
            for f in self.extra:
                if e is not f and self._nn(d - e - f):
                    return True
        return False

    def _nn(self, d):
        c = Fraction(0)
        for m, k in d.t.items():
            if m == ():
                c += k
                continue
            lo = Fraction(1)
            for a, e in m:
                l = self.low.get(a)
                if l is None or e < 0:
                    return False
                lo *= Fraction(l) ** e
            if k < 0:
                return False
            c += k * lo
        return c >= 0


# ---------------------------------------------------------------------------------------------
# matrices: terms = dict word -> Sc ; word = tuple of letters ; letter = (atom, transposed)
def atom_dims(a):
    return a[1], a[2]


def letter_dims(l):
    (a, t) = l
    return (a[2], a[1]) if t else (a[1], a[2])


SYMMETRIC = ('exch', 'diag')


def mk_letter(a, t):
    if t:
        if a[0] in SYMMETRIC or (a[0] == 'mat' and len(a) > 4 and a[4] == 'sym'):
            return (a, 0)
        if a[0] == 'shift':
            return (('shift', a[1], a[2], -a[3]), 0)
        if a[0] == 'sub' and a[3][0] in SYMMETRIC:
            return (('sub', a[2], a[1], a[3], a[6], a[7], a[4], a[5]), 0)
        if a[0] == 'ones':
            return (('ones', a[2], a[1]), 0)
        if a[0] == 'lam':
            return (mk_lam(a[2], a[1], subst(a[3], {('bi',): Sc.atom(('bj',)), ('bj',): Sc.atom(('bi',))})), 0)
    return (a, 1 if t else 0)


def word_rows(w, dflt):
    return letter_dims(w[0])[0] if w else dflt


def reduce_word(w):
    """adjacent simplifications; returns (coef, word)"""
    out = []
    for l in w:
        out.append(l)
        while len(out) >= 2:
            a, b = out[-2], out[-1]
            if a[0][0] == 'exch' and b[0][0] == 'exch':
                out.pop(); out.pop()
                continue
            if a[0][0] == 'exch' and b[0][0] == 'shift':
                out[-2:] = [(('shift', b[0][1], b[0][2], -b[0][3]), 0), a]
                continue
            if a[0][0] == 'exch' and b[0][0] == 'ones':
                del out[-2]
                continue
            if a[0][0] == 'ones' and b[0][0] == 'exch':
                out.pop()
                continue
            if is_inverse_pair(a, b) or is_inverse_pair(b, a):
                out.pop(); out.pop()
                continue
            break
    return tuple(out)


def is_inverse_pair(a, b):
    """a is inv(M) with M == b (same transposition)"""
    if a[0][0] != 'inv' or a[1] != b[1]:
        return False
    M = a[0][3]
    w = M.single_word()
    return w is not None and w[0] == ONE and w[1] == ((b[0], 0),)


def t_add(t1, t2, k=ONE):
    t = dict(t1)
    for w, c in t2.items():
        v = t.get(w, ZERO) + c * k
        if v.t:
            t[w] = v
        else:
            t.pop(w, None)
    return t


def t_mul(t1, t2):
    t = {}
    for w1, c1 in t1.items():
        for w2, c2 in t2.items():
            w = reduce_word(w1 + w2)
            v = t.get(w, ZERO) + c1 * c2
            if v.t:
                t[w] = v
            else:
                t.pop(w, None)
    return t


def t_transpose(t):
    out = {}
    for w, c in t.items():
        nw = reduce_word(tuple(mk_letter(a, 1 - f) for a, f in reversed(w)))
        v = out.get(nw, ZERO) + c
        if v.t:
            out[nw] = v
        else:
            out.pop(nw, None)
    return out


class Incomparable(Exception):
    """offsets or dimensions whose order the analysis cannot decide"""


class Tangled(Incomparable):
    """partitions that cut each other without end (the operands are then kept as whole blocks)"""


class ShapeError(Exception):
    """dimensions that do not conform"""

    def __init__(self, msg, d1=None, d2=None):
        Exception.__init__(self, msg)
        self.d1, self.d2 = d1, d2


class Mat:
    __slots__ = ('rp', 'cp', 'cells', '_h')

    def __init__(self, rp, cp, cells):
        # drop empty partitions (dimension identically zero)
        rk = [i for i, d in enumerate(rp) if d.t]
        ck = [j for j, d in enumerate(cp) if d.t]
        if len(rk) != len(rp) or len(ck) != len(cp):
            cells = [[cells[i][j] for j in ck] for i in rk]
            rp = [rp[i] for i in rk]
            cp = [cp[j] for j in ck]
        self.rp = tuple(rp)
        self.cp = tuple(cp)
        self.cells = tuple(tuple(c if isinstance(c, FT) else FT(clean_terms(c)) for c in r) for r in cells)
        self._h = None

    @property
    def rows(self):
        return sum(self.rp, ZERO)

    @property
    def cols(self):
        return sum(self.cp, ZERO)

    @property
    def shape(self):
        return self.rows, self.cols

    def key(self):
        m = self.coarsen()
        return (m.rp, m.cp, m.cells)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        if not isinstance(o, Mat):
            return False
        if self is o:
            return True
        return self.key() == o.key()

    def __repr__(self):
        m = self.coarsen()
        if len(m.rp) == 1 and len(m.cp) == 1:
            return show_terms(m.cells[0][0], m.rp[0], m.cp[0])
        return '[' + '; '.join(', '.join(show_terms(c, m.rp[i], m.cp[j]) for j, c in enumerate(r))
                               for i, r in enumerate(m.cells)) + ']' + ('' if m.rp and m.cp else '(%r x %r)' % m.shape)

    def single(self):
        return len(self.rp) == 1 and len(self.cp) == 1

    def single_word(self):
        """(coef, word) when the matrix is one word"""
        if self.single() and len(self.cells[0][0].d) == 1:
            (w, c), = self.cells[0][0].d.items()
            return c, w
        return None

    def is_zero(self):
        return all(not c.d for r in self.cells for c in r)

    def coarsen(self):
        """merge partitions that are trivially mergeable (all-zero strips, identity splits, ones)"""
        rp, cp, cells = list(self.rp), list(self.cp), [list(r) for r in self.cells]
        changed = True
        while changed:
            changed = False
            # fully zero matrix
            if (len(rp) > 1 or len(cp) > 1) and rp and cp and all(not c.d for r in cells for c in r):
                return Mat([sum(rp, ZERO)], [sum(cp, ZERO)], [[FT({})]])
            for i in range(len(rp) - 1):
                if all(not c.d for c in cells[i]) and all(not c.d for c in cells[i + 1]):
                    cells[i:i + 2] = [cells[i]]
                    rp[i:i + 2] = [rp[i] + rp[i + 1]]
                    changed = True
                    break
                m = [merge_cells(cells[i][j], cells[i + 1][j], rp[i], rp[i + 1], cp[j], True) for j in range(len(cp))]
                if cp and all(x is not None for x in m):
                    cells[i:i + 2] = [m]
                    rp[i:i + 2] = [rp[i] + rp[i + 1]]
                    changed = True
                    break
            if changed:
                continue
            for j in range(len(cp) - 1):
                m = [merge_cells(cells[i][j], cells[i][j + 1], cp[j], cp[j + 1], rp[i], False) for i in range(len(rp))]
                if rp and all(x is not None for x in m):
                    for i in range(len(rp)):
                        cells[i][j:j + 2] = [m[i]]
                    cp[j:j + 2] = [cp[j] + cp[j + 1]]
                    changed = True
                    break
            if changed:
                continue
            # identity split: rows i,i+1 and cols j,j+1 forming diag(I,I) with zero elsewhere in the strips
            for i in range(len(rp) - 1):
                for j in range(len(cp) - 1):
                    a, b, c, d = cells[i][j], cells[i][j + 1], cells[i + 1][j], cells[i + 1][j + 1]
                    if rp[i] != cp[j] or rp[i + 1] != cp[j + 1]:
                        continue
                    if a.d and a == d and list(a.d) == [()] and not b.d and not c.d and \
                            all(not cells[k][m].d for k in (i, i + 1) for m in range(len(cp)) if m not in (j, j + 1)) and \
                            all(not cells[k][m].d for m in (j, j + 1) for k in range(len(rp)) if k not in (i, i + 1)):
                        for k in range(len(rp)):
                            cells[k][j:j + 2] = [cells[k][j]]
                        cells[i:i + 2] = [cells[i]]
                        rp[i:i + 2] = [rp[i] + rp[i + 1]]
                        cp[j:j + 2] = [cp[j] + cp[j + 1]]
                        changed = True
                        break
                if changed:
                    break
        return Mat(rp, cp, cells)


def merge_cells(a, b, da, db, other, vert):
    """two adjacent cells that are adjacent sub-blocks of the same atoms"""
    if not a.d and not b.d:
        return a
    if len(a.d) != len(b.d):
        return None
    out = {}
    for w1, c1 in a.d.items():
        hit = None
        for w2, c2 in b.d.items():
            if c1 != c2 or not w1 or not w2 or len(w1) != len(w2):
                continue
            k = 0 if vert else -1
            if (w1[1:] != w2[1:]) if vert else (w1[:-1] != w2[:-1]):
                continue
            l = merge_letters(w1[k], w2[k], vert)
            if l is not None:
                hit = ((l,) + w1[1:]) if vert else (w1[:-1] + (l,))
                break
        if hit is None:
            return None
        out[hit] = c1
    return FT(out)


def merge_letters(l1, l2, vert):
    (a, t1), (b, t2) = l1, l2
    if a[0] == 'ones' and b[0] == 'ones':
        return (('ones', a[1] + b[1], a[2]), 0) if vert else (('ones', a[1], a[2] + b[2]), 0)
    if t1 != t2 or a[0] != 'sub' or b[0] != 'sub' or a[3] != b[3]:
        return None
    alongrows = vert != bool(t1)
    if alongrows:
        if a[6:8] == b[6:8] and a[5] == b[4]:
            return mk_letter(mk_sub(a[3], a[4], b[5], a[6], a[7]), t1)
    else:
        if a[4:6] == b[4:6] and a[7] == b[6]:
            return mk_letter(mk_sub(a[3], a[4], a[5], a[6], b[7]), t1)
    return None


class FT:
    """frozen terms"""
    __slots__ = ('d', '_h')

    def __init__(self, d):
        self.d = d
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, FT) and self.d == o.d

    def __repr__(self):
        return show_terms(self, None, None)


def clean_terms(d):
    out = {}
    for w, c in d.items():
        if not c.t:
            continue
        dead = False
        for l in w:
            r, k = letter_dims(l)
            if not r.t or not k.t:
                dead = True
        if not dead:
            out[w] = c
    return out


def show_terms(ft, r, c):
    if not ft.d:
        return '0' if r is None else '0(%rx%r)' % (r, c)
    out = []
    for w, k in sorted(ft.d.items(), key=lambda x: rkey(x[0])):
        s = '.'.join(show_mat_atom(a) + ("'" if t else '') for a, t in w) or 'I'
        if k == ONE:
            pass
        elif k == -ONE:
            s = '-' + s
        else:
            s = '(%r)*%s' % (k, s)
        out.append(s)
    return ' + '.join(out)


# -- constructors ------------------------------------------------------------------------------
def mzero(r, c):
    return Mat([sc(r)], [sc(c)], [[FT({})]])


def meye(n, k=ONE):
    n = sc(n)
    return Mat([n], [n], [[FT({(): sc(k)})]])


def matom(a):
    return Mat([a[1]], [a[2]], [[FT({((a, 0),): ONE})]])


def mnamed(name, r, c, sym=False):
    r, c = sc(r), sc(c)
    return matom(('mat', r, c, name, 'sym') if sym else ('mat', r, c, name))


def mscalar(s):
    """1x1 matrix holding scalar s"""
    return Mat([ONE], [ONE], [[FT({(): sc(s)} if sc(s).t else {})]])


def mones(r, c):
    r, c = sc(r), sc(c)
    if r == ONE and c == ONE:
        return mscalar(1)
    return matom(('ones', r, c))


def mfn(name, r, c, *args):
    return matom(('fn', sc(r), sc(c), name) + tuple(args))


def mk_lam(r, c, body):
    return ('lam', r, c, body)


def mk_sub(atom, r0, r1, c0, c1):
    if atom[0] == 'sub':
        return mk_sub(atom[3], atom[4] + r0, atom[4] + r1, atom[6] + c0, atom[6] + c1)
    if not r0.t and not c0.t and r1 == atom[1] and c1 == atom[2]:
        return atom
    if atom[0] == 'ones':
        return ('ones', r1 - r0, c1 - c0)
    if atom[0] == 'lam':
        sh = {('bi',): Sc.atom(('bi',)) + r0, ('bj',): Sc.atom(('bj',)) + c0}
        return ('lam', r1 - r0, c1 - c0, subst(atom[3], sh))
    return ('sub', r1 - r0, c1 - c0, atom, r0, r1, c0, c1)


def offsets(parts):
    o, out = ZERO, [ZERO]
    for p in parts:
        o = o + p
        out.append(o)
    return out


def merge_cuts(o1, o2, B):
    """ordered union of two offset lists (same first and last)"""
    out = list(o1)
    for x in o2:
        for _ in range(8):
            if x in out:
                break
            for i in range(len(out) - 1):
                if B.nonneg(x - out[i]) and B.nonneg(out[i + 1] - x):
                    out.insert(i + 1, x)
                    break
            else:
                if CurrentBounds.order is None or not order_split(x, out, B):
                    raise Incomparable('cannot order offset %r among %r' % (x, out))
                continue
            break
        if x not in out:
            raise Incomparable('cannot order offset %r among %r' % (x, out))
    return out


def order_split(x, out, B):
    for y in out:
        if not B.nonneg(x - y) and not B.nonneg(y - x):
            return CurrentBounds.order(x, y)
    return False


def refine(M, rcuts, ccuts, B):
    """partition of M refined to contain the given cut offsets"""
    M0 = M
    top = 24 + 2 * (len(M.rp) + len(M.cp)) + len(rcuts) + len(ccuts)
    for _ in range(12):
        ro, co = offsets(M.rp), offsets(M.cp)
        rc = merge_cuts(ro, rcuts, B) if M.rp else ro
        cc = merge_cuts(co, ccuts, B) if M.cp else co
        # identities and exchanges force matching cuts
        grew, stuck = True, False
        while grew:
            grew = False
            for i, r in enumerate(M.cells):
                for j, cell in enumerate(r):
                    if not cell.d:
                        continue
                    lr = [x - ro[i] for x in inside(rc, ro[i], ro[i + 1])]
                    lc = [x - co[j] for x in inside(cc, co[j], co[j + 1])]
                    for w in cell.d:
                        if w == ():
                            need_c = [x for x in lr if x not in lc]
                            need_r = [x for x in lc if x not in lr]
                        elif len(w) == 1 and w[0][0][0] == 'exch':
                            n = M.rp[i]
                            need_c = [n - x for x in lr if (n - x) not in lc]
                            need_r = [n - x for x in lc if (n - x) not in lr]
                        else:
                            continue
                        if need_c:
                            k = len(cc)
                            cc = merge_cuts(cc, [co[j] + x for x in need_c], B)
                            grew = True
                            stuck = stuck or len(cc) == k
                        if need_r:
                            k = len(rc)
                            rc = merge_cuts(rc, [ro[i] + x for x in need_r], B)
                            grew = True
                            stuck = stuck or len(rc) == k
                        if grew:
                            break
                    if grew:
                        break
                if grew:
                    break
            if stuck or len(rc) + len(cc) > top:
                # identities and exchanges that cut each other without end: kept as one unknown-partition block
                if M0.single() and M0.single_word() is not None and len(M0.single_word()[1]) == 1:
                    raise Tangled('cuts without end')
                return refine(matom(('blk', M0.rows, M0.cols, M0)), rcuts, ccuts, B)
        if rc == ro and cc == co:
            return M
        nr, nc = len(rc) - 1, len(cc) - 1
        grid = [[None] * nc for _ in range(nr)]
        for a in range(nr):
            i = seg_index(rc[a], ro, rc)
            for b in range(nc):
                j = seg_index(cc[b], co, cc)
                r0, r1 = rc[a] - ro[i], rc[a + 1] - ro[i]
                c0, c1 = cc[b] - co[j], cc[b + 1] - co[j]
                d = {}
                for w, k in M.cells[i][j].d.items():
                    for w2, k2 in sub_word(w, r0, r1, c0, c1, M.rp[i], M.cp[j], B).items():
                        d = t_add(d, {w2: k2 * k})
                grid[a][b] = FT(clean_terms(d))
        M = Mat([rc[a + 1] - rc[a] for a in range(nr)], [cc[b + 1] - cc[b] for b in range(nc)], grid)
    return M


def inside(order, a, b):
    """the cuts strictly between a and b"""
    return order[order.index(a) + 1:order.index(b)]


def seg_index(x, offs, order):
    """segment of offs containing the (refined) offset x"""
    ix = order.index(x)
    for i in range(len(offs) - 1):
        if order.index(offs[i]) <= ix < order.index(offs[i + 1]):
            return i
    raise Incomparable('offset')


def sub_word(w, r0, r1, c0, c1, R, C, B):
    """sub-block [r0:r1, c0:c1] of a word of size R x C, as terms"""
    full_r = not r0.t and r1 == R
    full_c = not c0.t and c1 == C
    if full_r and full_c:
        return {w: ONE}
    if w == ():
        if r0 == c0 and r1 == c1:
            return {(): ONE}
        if B.nonneg(c0 - r1) or B.nonneg(r0 - c1):
            return {}
        raise Tangled('identity block %r:%r,%r:%r' % (r0, r1, c0, c1))
    if len(w) == 1:
        a, t = w[0]
        if a[0] == 'exch':
            n = a[1]
            if r0 + c1 == n and r1 + c0 == n:
                if r1 - r0 == ONE:
                    return {(): ONE}
                return {((('exch', r1 - r0, r1 - r0), 0),): ONE}
            if B.nonneg(n - r1 - c1) or B.nonneg(r0 + c0 - n):
                return {}
            raise Tangled('exchange block')
        if a[0] == 'diag':
            if r0 == c0 and r1 == c1:
                v = submat(a[3], ZERO, a[3].rows, r0, r1, B)
                return mdiag(v, B).cells[0][0].d
            if B.nonneg(c0 - r1) or B.nonneg(r0 - c1):
                return {}
        if t:
            s = mk_sub(a, c0, c1, r0, r1)
        else:
            s = mk_sub(a, r0, r1, c0, c1)
        return {(mk_letter(s, t),): ONE}
    # several letters: cut the first along rows and the last along columns
    f, l = w[0], w[-1]
    fr, fc = letter_dims(f)
    lr, lc = letter_dims(l)
    F = {(f,): ONE} if full_r else None
    L = {(l,): ONE} if full_c else None
    fcut, lcut = (ZERO, fc), (ZERO, lr)
    if not full_r:
        if f[0][0] == 'exch':
            fcut = (fr - r1, fr - r0)
            F = sub_word((f,), r0, r1, fcut[0], fcut[1], fr, fc, B)
        else:
            F = sub_word((f,), r0, r1, ZERO, fc, fr, fc, B)
    if not full_c:
        if l[0][0] == 'exch':
            lcut = (lc - c1, lc - c0)
            L = sub_word((l,), lcut[0], lcut[1], c0, c1, lr, lc, B)
        else:
            L = sub_word((l,), ZERO, lr, c0, c1, lr, lc, B)
    mid = w[1:-1]
    if len(w) == 2:
        if fcut != (ZERO, fc) and lcut != (ZERO, lr):
            raise Tangled('double exchange cut')
        if fcut != (ZERO, fc):
            L2 = {}
            for lw, lk in L.items():
                L2 = t_add(L2, {k: v * lk for k, v in sub_word(lw, fcut[0], fcut[1], ZERO, c1 - c0, lr, c1 - c0, B).items()})
            L = L2
        if lcut != (ZERO, lr):
            F2 = {}
            for fw, fk in F.items():
                F2 = t_add(F2, {k: v * fk for k, v in sub_word(fw, ZERO, r1 - r0, lcut[0], lcut[1], r1 - r0, fc, B).items()})
            F = F2
        return t_mul(F, L)
    if fcut != (ZERO, fc):
        mr, mc = letter_dims(mid[0])[0], letter_dims(mid[-1])[1]
        midt = sub_word(mid, fcut[0], fcut[1], ZERO, mc, mr, mc, B)
    else:
        midt = {mid: ONE}
    if lcut != (ZERO, lr):
        mc = letter_dims(mid[-1])[1]
        m2 = {}
        for mw, mk in midt.items():
            mr = word_rows(mw, mc)
            m2 = t_add(m2, {k: v * mk for k, v in sub_word(mw, ZERO, mr, lcut[0], lcut[1], mr, mc, B).items()})
        midt = m2
    return t_mul(t_mul(F, midt), L)


# -- operations --------------------------------------------------------------------------------
def whole(A):
    """A as a single block whose partition is not looked into"""
    return A if A.single() and all(w and a[0][0] not in ('exch',) for w in A.cells[0][0].d for a in w[:1]) else matom(('blk', A.rows, A.cols, A))


def align(A, Bm, B):
    if len(A.rp) == len(Bm.rp) and len(A.cp) == len(Bm.cp) and A.rp == Bm.rp and A.cp == Bm.cp:
        return A, Bm
    for _ in range(12):
        ra, ca = offsets(A.rp), offsets(A.cp)
        rb, cb = offsets(Bm.rp), offsets(Bm.cp)
        if len(ra) + len(ca) + len(rb) + len(cb) > 100:
            raise Tangled('alignment')
        A2 = refine(A, rb, cb, B)
        B2 = refine(Bm, offsets(A2.rp), offsets(A2.cp), B)
        if A2.rp == B2.rp and A2.cp == B2.cp:
            return A2, B2
        A, Bm = A2, B2
    raise Tangled('alignment')


def madd(A, M2, B, k=ONE):
    if A.rows != M2.rows or A.cols != M2.cols:
        raise ShapeError('%r x %r  +  %r x %r' % (A.shape + M2.shape),
                         A.rows if A.rows != M2.rows else A.cols, M2.rows if A.rows != M2.rows else M2.cols)
    if not A.rp or not A.cp:
        return A
    if M2.is_zero():
        return A
    if A.is_zero():
        return mscale(M2, k)
    if not A.single() and A.coarsen().single():
        A = A.coarsen()
    try:
        A, M2 = align(A, M2, B)
    except Tangled:
        A, M2 = whole(A), whole(M2)
    return Mat(A.rp, A.cp, [[FT(clean_terms(t_add(A.cells[i][j].d, M2.cells[i][j].d, k)))
                             for j in range(len(A.cp))] for i in range(len(A.rp))])


def mscale(A, k):
    k = sc(k)
    return Mat(A.rp, A.cp, [[FT({w: c * k for w, c in cell.d.items()} if k.t else {}) for cell in r] for r in A.cells])


def mneg(A):
    return mscale(A, -ONE)


def mT(A):
    return Mat(A.cp, A.rp, [[FT(t_transpose(A.cells[i][j].d)) for i in range(len(A.rp))] for j in range(len(A.cp))])


def mmul(A, M2, B):
    if A.cols != M2.rows:
        raise ShapeError('(%r x %r) * (%r x %r)' % (A.shape + M2.shape), A.cols, M2.rows)
    if not A.rows.t or not M2.cols.t:
        return Mat(A.rp, M2.cp, [[FT({}) for _ in M2.cp] for _ in A.rp])
    if not A.cols.t:
        return mzero(A.rows, M2.cols)
    if A.is_zero() or M2.is_zero():
        return mzero(A.rows, M2.cols)
    A0, M0 = A, M2
    try:
        for _ in range(12):
            oa, ob = offsets(A.cp), offsets(M2.rp)
            if oa == ob:
                break
            if len(oa) + len(ob) > 60:
                raise Tangled('product partition')
            A = refine(A, [], ob, B)
            M2 = refine(M2, offsets(A.cp), [], B)
        else:
            raise Tangled('product partition')
    except Tangled:
        A, M2 = whole(A0), whole(M0)
    out = []
    for i in range(len(A.rp)):
        row = []
        for j in range(len(M2.cp)):
            d = {}
            for k in range(len(A.cp)):
                d = t_add(d, t_mul(A.cells[i][k].d, M2.cells[k][j].d))
            row.append(FT(clean_terms(d)))
        out.append(row)
    return Mat(A.rp, M2.cp, out)


def const_inverse(A):
    """inverse of a small matrix of numbers given by its cells"""
    n = A.rows.cval()
    if n is None or n > 8 or any(x != ONE for x in list(A.rp) + list(A.cp)):
        return None
    n = int(n)
    M = []
    for i in range(n):
        row = []
        for j in range(n):
            d = A.cells[i][j].d
            v = ZERO if not d else d[()] if set(d) == {()} else None
            if v is None or v.cval() is None:
                return None
            row.append(v.cval())
        M.append(row + [Fraction(int(i == j)) for j in range(n)])
    for i in range(n):
        p = next((k for k in range(i, n) if M[k][i] != 0), None)
        if p is None:
            return None
        M[i], M[p] = M[p], M[i]
        M[i] = [x / M[i][i] for x in M[i]]
        for k in range(n):
            if k != i and M[k][i] != 0:
                f = M[k][i]
                M[k] = [a - f * b for a, b in zip(M[k], M[i])]
    return Mat(A.rp, A.cp, [[FT({(): sc(v)}) if v != 0 else FT({}) for v in row[n:]] for row in M])


def minv(A):
    A = A.coarsen()
    if A.rows != A.cols:
        raise ShapeError('inverse of a %r x %r matrix' % A.shape, A.rows, A.cols)
    if not A.rp:
        return A
    if A.single() and A.rp[0] == ONE and A.cells[0][0].d and set(A.cells[0][0].d) == {()}:
        return mscalar(A.cells[0][0].d[()].inv())
    if not A.single():
        q = const_inverse(A)
        if q is not None:
            return q
    sw = A.single_word()
    if sw is not None:
        k, w = sw
        letters = []
        ok = True
        for a, t in reversed(w):
            r, c = atom_dims(a)
            if r != c:
                ok = False
                break
            if a[0] == 'exch':
                letters.append((a, 0))
            elif a[0] == 'inv':
                m = a[3].single_word()
                if m is None or m[0] != ONE or len(m[1]) != 1:
                    ok = False
                    break
                letters.append(mk_letter(m[1][0][0], m[1][0][1] ^ t))
            else:
                letters.append((('inv', c, r, matom(a)), t))
        ik = k.inv()
        if ok and ik is not None:
            return Mat(A.rp, A.cp, [[FT({reduce_word(tuple(letters)): ik})]])
    # block-diagonal and exchange permutations of scalars
    if len(A.rp) > 1 and A.rp == A.cp and \
            all(not A.cells[i][j].d for i in range(len(A.rp)) for j in range(len(A.cp)) if i != j):
        blocks = [minv(Mat([A.rp[i]], [A.cp[i]], [[A.cells[i][i]]])) for i in range(len(A.rp))]
        if all(b.single() for b in blocks):
            return Mat(A.rp, A.cp, [[blocks[i].cells[0][0] if i == j else FT({}) for j in range(len(A.cp))]
                                    for i in range(len(A.rp))])
    u = small_inverse(A)
    if u is not None:
        return u
    k = leading_factor(A)
    if k is not None and k != ONE and k.inv() is not None:
        return mscale(matom(('inv', A.rows, A.cols, mscale(A, k.inv()))), k.inv())
    return matom(('inv', A.rows, A.cols, A))


def small_inverse(A):
    """adjugate over determinant of a matrix of a known small size whose determinant is a monomial"""
    n = A.rows.cval()
    if n is None or not 2 <= n <= 4:
        return None
    n = int(n)
    try:
        e = [[entry(A, sc(i), sc(j), NB) for j in range(n)] for i in range(n)]
    except (Incomparable, ShapeError):
        return None
    if sum(len(x.t) for r in e for x in r) > 60:
        return None

    def det(rs, cs):
        if not rs:
            return ONE
        t = ZERO
        for k, c in enumerate(cs):
            if e[rs[0]][c].t:
                d = e[rs[0]][c] * det(rs[1:], cs[:k] + cs[k + 1:])
                t = t + (d if k % 2 == 0 else -d)
        return t
    al = list(range(n))
    d = det(al, al)
    if len(d.t) != 1:
        return None
    k = d.inv()
    cells = [[det([r for r in al if r != j], [c for c in al if c != i]) * k * (-1 if (i + j) % 2 else 1) for j in range(n)] for i in range(n)]
    return Mat([ONE] * n, [ONE] * n, [[FT({(): x} if x.t else {}) for x in r] for r in cells])


def leading_factor(A):
    """coefficient of the first term of the first non-zero block (used to normalise an inverse up to a factor)"""
    for r in A.cells:
        for c in r:
            if c.d:
                w = min(c.d, key=rkey)
                k = c.d[w].cval()
                return sc(k) if k else None
    return None


def mhstack(ms, B):
    ms = list(ms)
    out = ms[0]
    for m in ms[1:]:
        if out.rows != m.rows:
            raise ShapeError('side by side: %r rows and %r rows' % (out.rows, m.rows), out.rows, m.rows)
        if not m.rp or not out.rp:
            out = Mat([], list(out.cp) + list(m.cp), [])
            continue
        if out.rp != m.rp:
            for _ in range(12):
                out = refine(out, offsets(m.rp), [], B) if out.cp else mzero_like_rows(out, m)
                m = refine(m, offsets(out.rp), [], B) if m.cp else mzero_like_rows(m, out)
                if out.rp == m.rp:
                    break
        out = Mat(out.rp, list(out.cp) + list(m.cp), [list(out.cells[i]) + list(m.cells[i]) for i in range(len(out.rp))])
    return out


def mzero_like_rows(z, m):
    return Mat(m.rp, z.cp, [[] for _ in m.rp])


def mvstack(ms, B):
    return mT(mhstack([mT(m) for m in ms], B))


def submat(M, r0, r1, c0, c1, B):
    r0, r1, c0, c1 = sc(r0), sc(r1), sc(c0), sc(c1)
    if r0 == ZERO and c0 == ZERO and r1 == M.rows and c1 == M.cols:
        return M
    if r0 == r1 or c0 == c1:
        return mzero(r1 - r0, c1 - c0)
    M = refine(M, [r0, r1], [c0, c1], B)
    ro, co = offsets(M.rp), offsets(M.cp)
    i0, i1, j0, j1 = ro.index(r0), ro.index(r1), co.index(c0), co.index(c1)
    return Mat(M.rp[i0:i1], M.cp[j0:j1], [M.cells[i][j0:j1] for i in range(i0, i1)])


def setsub(M, r0, r1, c0, c1, V, B):
    """M with block [r0:r1, c0:c1] replaced by V"""
    r0, r1, c0, c1 = sc(r0), sc(r1), sc(c0), sc(c1)
    if V.rows != r1 - r0 or V.cols != c1 - c0:
        raise ShapeError('block of %r x %r written into %r x %r' % (V.rows, V.cols, r1 - r0, c1 - c0),
                         V.rows if V.rows != r1 - r0 else V.cols, r1 - r0 if V.rows != r1 - r0 else c1 - c0)
    if r0 == r1 or c0 == c1:
        return M
    for _ in range(12):
        rcuts = [r0, r1] + [r0 + x for x in offsets(V.rp)]
        ccuts = [c0, c1] + [c0 + x for x in offsets(V.cp)]
        M = refine(M, rcuts, ccuts, B)
        ro, co = offsets(M.rp), offsets(M.cp)
        i0, i1, j0, j1 = ro.index(r0), ro.index(r1), co.index(c0), co.index(c1)
        V2 = refine(V, [x - r0 for x in ro[i0:i1 + 1]], [x - c0 for x in co[j0:j1 + 1]], B)
        if len(V2.rp) == i1 - i0 and len(V2.cp) == j1 - j0:
            cells = [list(r) for r in M.cells]
            for i in range(i0, i1):
                for j in range(j0, j1):
                    cells[i][j] = V2.cells[i - i0][j - j0]
            return Mat(M.rp, M.cp, cells)
        V = V2
    raise Incomparable('block write')


def mdiag(v, B):
    """diag of a row or column vector Mat; returns Mat"""
    if v.cols == ONE and v.rows != ONE:
        v = mT(v)
    v = v.coarsen()
    n = v.cols
    if not n.t:
        return mzero(ZERO, ZERO)
    if v.single():
        if n == ONE:
            return v
        if not v.cells[0][0].d:
            return mzero(n, n)
        d = v.cells[0][0].d
        if len(d) == 1:
            (w, k), = d.items()
            if len(w) == 1 and w[0][0][0] == 'ones':
                return meye(n, k)
            return mscale(matom(('diag', n, n, Mat([ONE], [n], [[FT({w: ONE})]]))), k)
        out = mzero(n, n)
        for w, k in d.items():
            out = madd(out, mdiag(Mat([ONE], [n], [[FT({w: k})]]), B), B)
        return out
    if len(v.rp) == 1:
        blocks = [mdiag(Mat([ONE], [c], [[v.cells[0][j]]]), B) for j, c in enumerate(v.cp)]
        out = blocks[0]
        for b in blocks[1:]:
            out = mvstack([mhstack([out, mzero(out.rows, b.cols)], B), mhstack([mzero(b.rows, out.cols), b], B)], B)
        return out
    return matom(('diag', n, n, v))


def mshift(n, k):
    n = sc(n)
    if n == ONE:
        return mzero(1, 1)
    return matom(('shift', n, n, k))


def mexch(n):
    n = sc(n)
    if n == ONE:
        return mscalar(1)
    c = n.cval()
    if c is not None and c <= 6:
        c = int(c)
        return Mat([ONE] * c, [ONE] * c, [[FT({(): ONE}) if i + j == c - 1 else FT({}) for j in range(c)] for i in range(c)])
    return matom(('exch', n, n))


# -- entries -----------------------------------------------------------------------------------
_bv = [0]


def fresh(prefix='k'):
    _bv[0] += 1
    return ('idx', '%s%d' % (prefix, _bv[0]))


def entry(M, i, j, B):
    """scalar entry M[i, j] for symbolic indices"""
    i, j = sc(i), sc(j)
    if M.single():
        return t_entry(M.cells[0][0].d, i, j, M.rp[0], M.cp[0], B)
    ro, co = offsets(M.rp), offsets(M.cp)
    a = locate(i, ro, B)
    b = locate(j, co, B)
    if a is None or b is None:
        u = unit_entry(M, i, j, ro, co, a, b, B)
        if u is not None:
            return u
        C = M.coarsen()
        if C.single():
            return t_entry(C.cells[0][0].d, i, j, C.rp[0], C.cp[0], B)
        return Sc.atom(('ent', ('blk', M.rows, M.cols, C), i, j))
    return t_entry(M.cells[a][b].d, i - ro[a], j - co[b], M.rp[a], M.cp[b], B)


def unit_entry(M, i, j, ro, co, a, b, B):
    """entry at an unordered position when every non-zero block is one row (or one column) high"""
    out = ZERO
    for p, r in enumerate(M.cells):
        for q, c in enumerate(r):
            if not c.d or (a is not None and p != a) or (b is not None and q != b):
                continue
            k = ONE
            if a is None:
                if M.rp[p] != ONE:
                    return None
                k = k * w_entry((), i, ro[p], ZERO, ZERO, B)
            if b is None:
                if M.cp[q] != ONE:
                    return None
                k = k * w_entry((), j, co[q], ZERO, ZERO, B)
            out = out + k * t_entry(c.d, ZERO if a is None else i - ro[p], ZERO if b is None else j - co[q], M.rp[p], M.cp[q], B)
    return out


def locate(x, offs, B):
    for k in range(len(offs) - 1):
        if B.nonneg(x - offs[k]) and B.nonneg(offs[k + 1] - x - 1):
            return k
    return None


def t_entry(d, i, j, R, C, B):
    out = ZERO
    for w, k in d.items():
        out = out + w_entry(w, i, j, R, C, B) * k
    return out


def w_entry(w, i, j, R, C, B):
    if w == ():
        if i == j:
            return ONE
        if R == ONE and C == ONE:
            return ONE
        df = i - j
        if df.is_const() or B.nonneg(df - 1) or B.nonneg(-df - 1):
            return ZERO
        return Sc.atom(('delta', df if rkey(df) < rkey(-df) else -df))
    if len(w) == 1:
        return l_entry(w[0], i, j, B)
    k = fresh('s')
    ks = Sc.atom(k)
    N = letter_dims(w[0])[1]
    B2 = B.copy()
    B2.low[k] = 0
    B2.extra.append(N - 1 - ks)
    body = l_entry(w[0], i, ks, B2) * w_entry(w[1:], ks, j, N, C, B2)
    return mk_sum(k, N, body, B2)


def l_entry(l, i, j, B):
    a, t = l
    if t:
        i, j = j, i
    if a[0] == 'sub':
        return l_entry((a[3], 0), a[4] + i, a[6] + j, B)
    if a[0] == 'lam':
        return subst(a[3], {('bi',): i, ('bj',): j})
    if a[0] == 'blk':
        return entry(a[3], i, j, B)
    if a[0] == 'ones':
        return ONE
    if a[0] == 'exch':
        return w_entry((), i, a[1] - 1 - j, ZERO, ZERO, B)
    if a[0] == 'shift':
        return w_entry((), i + a[3], j, ZERO, ZERO, B)
    if a[0] == 'diag':
        return w_entry((), i, j, ZERO, ZERO, B) * entry(a[3], ZERO, i, B)
    return Sc.atom(('ent', a, i, j))


def full_dim(N):
    return len(N.t) == 1 and all(c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'sym' for m, c in N.t.items())


def plain_index(x):
    return len(x.t) == 1 and all(c == 1 and len(m) == 1 and m[0][1] == 1 for m, c in x.t.items())


def mk_sum(k, N, body, B=None):
    """Sum_{k=0}^{N-1} body, normalised: split into monomials, constants pulled out"""
    out = ZERO
    N = sc(N)
    c = N.cval()
    if c is not None and c <= 0:
        return ZERO
    if c == 1:
        return subst(body, {k: ZERO})
    if c is not None and c <= 8 and len(body.t) <= 64:
        for i in range(int(c)):
            out = out + subst(body, {k: sc(i)})
        return out
    for m, co in body.t.items():
        inn, outm = [], []
        for a, e in m:
            (inn if mentions(a, k) else outm).append((a, e))
        om = Sc({tuple(outm): co})
        if not inn:
            out = out + om * N
            continue
        # delta(k - x) collapses when x is certainly in range
        col = None
        for a, e in inn:
            if a[0] == 'delta' and e >= 1:
                ck = a[1].t.get(((k, 1),))
                if ck in (1, -1):
                    x = Sc.atom(k) - a[1] * ck
                    if mentions(x, k):
                        continue
                    B = B or NB
                    if B.nonneg(x) and B.nonneg(N - 1 - x) or plain_index(x) and full_dim(N):
                        col = (a, x)
                        break
                    if B.nonneg(-x - 1) or B.nonneg(x - N):
                        col = (a, None)
                        break
        if col is not None:
            if col[1] is None:
                continue
            rest = Sc({tuple(ae for ae in inn if ae[0] != col[0]): Fraction(1)})
            out = out + om * subst(rest, {k: col[1]})
            continue
        out = out + om * canon_sum(k, N, Sc({tuple(inn): Fraction(1)}))
    return out


def canon_sum(k, N, mono):
    depth = max_bv(mono) + 1
    bv = ('bv', depth)
    body = subst(mono, {k: Sc.atom(bv)})
    # flatten nested sums into one multi-sum atom
    (m, c), = body.t.items() if len(body.t) == 1 else (((), None),)
    if c is not None:
        inner = [(a, e) for a, e in m if a[0] == 'msum' and e == 1]
        if len(inner) == 1:
            a = inner[0][0]
            rest = Sc({tuple(ae for ae in m if ae[0] != a): c})
            names = list(a[1])
            return mk_msum([(bv, N)] + names, rest * a[2])
    return mk_msum([(bv, N)], body)


def mk_msum(bounds, body):
    """multi-index sum; bound variables renamed canonically"""
    from itertools import permutations
    tmp = []
    b2 = body
    ren = {}
    for i, (v, N) in enumerate(bounds):
        ren[v] = Sc.atom(('tv', i))
    b2 = subst(b2, ren)
    bs = [subst(N, ren) for v, N in bounds]
    best = None
    idxs = range(len(bounds))
    perms = permutations(idxs) if len(bounds) <= 4 else [tuple(idxs)]
    for p in perms:
        # position r is given to old index p[r]
        m = {('tv', old): Sc.atom(('bv', new)) for new, old in enumerate(p)}
        nb = subst(b2, m)
        key = (rkey(nb), [rkey(subst(bs[old], m)) for old in p])
        if best is None or key < best[0]:
            best = (key, tuple((('bv', new), subst(bs[old], m)) for new, old in enumerate(p)), nb)
    return Sc.atom(('msum', best[1], best[2]))


def max_bv(x):
    r = -1
    for a in walk_atoms(x):
        if a[0] == 'bv':
            r = max(r, a[1])
        elif a[0] == 'msum':
            pass
    return r


def walk_atoms(x):
    """every tuple reachable inside x (atoms, nested scalars and matrices)"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, Sc):
            for m in y.t:
                for a, _ in m:
                    st.append(a)
        elif isinstance(y, Mat):
            for d in y.rp + y.cp:
                st.append(d)
            for r in y.cells:
                for c in r:
                    st.append(c)
        elif isinstance(y, FT):
            for w, c in y.d.items():
                st.append(c)
                for l in w:
                    st.append(l[0])
        elif isinstance(y, tuple):
            if y and isinstance(y[0], str):
                yield y
            st.extend(z for z in y if isinstance(z, (tuple, Sc, Mat, FT)) or hasattr(z, 'akids'))
        elif hasattr(y, 'akids'):
            st.extend(y.akids())


def QI(*body):
    """canonical bound index for a binder around body (level above every binder inside)"""
    lv = -1
    for a in walk_atoms(body):
        if a[0] == 'qi':
            lv = max(lv, a[1] if len(a) > 1 else 0)
    return Sc.atom(('qi', lv + 1))


_ment = {}


def free_atoms(x):
    """the atoms of x that are not inside an entry-wise definition with indices of its own"""
    out = set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, Sc):
            st.extend(a for mo in y.t for a, _ in mo)
        elif isinstance(y, Mat):
            st.extend(y.rp + y.cp)
            for r in y.cells:
                for c in r:
                    st.append(c)
        elif isinstance(y, FT):
            for w, c in y.d.items():
                st.append(c)
                st.extend(l[0] for l in w)
        elif isinstance(y, tuple):
            if y and isinstance(y[0], str):
                out.add(y)
                if y[0] == 'lam':
                    st.extend(y[1:3])
                    continue
            st.extend(z for z in y if isinstance(z, (tuple, Sc, Mat, FT)) or hasattr(z, 'akids'))
        elif hasattr(y, 'akids'):
            st.extend(y.akids())
    return out


def mentions(x, atom):
    k = (x, atom)
    try:
        return _ment[k]
    except KeyError:
        r = any(a == atom for a in walk_atoms(x))
        _ment[k] = r
        return r
    except TypeError:
        return any(a == atom for a in walk_atoms(x))


def subst(x, m):
    """substitute atoms (tuple -> Sc, or matrix atom -> Mat) everywhere inside x"""
    if not m:
        return x
    if isinstance(x, Sc):
        out = ZERO
        hit = False
        for mono in x.t:
            for a, e in mono:
                if touched(a, m):
                    hit = True
        if not hit:
            return x
        for mono, c in x.t.items():
            p = Sc.const(c)
            for a, e in mono:
                r = subst_atom(a, m)
                if e == 1:
                    p = p * r
                else:
                    q = r.ipow(e)
                    p = p * (q if q is not None else Sc.atom(('undef', r), e))
            out = out + p
        return out
    if isinstance(x, Mat):
        if not any(touched(a, m) for r in x.cells for c in r for w in c.d for a, _ in w) and \
                not any(touched(k, m) for r in x.cells for c in r for k in c.d.values()) and \
                not any(touched(d, m) for d in x.rp + x.cp):
            return x
        rp = [subst(d, m) for d in x.rp]
        cp = [subst(d, m) for d in x.cp]
        grid = []
        blocky = False
        for i, r in enumerate(x.cells):
            row = []
            for j, c in enumerate(r):
                cellm = None
                for w, k in c.d.items():
                    wm = None
                    for a, t in w:
                        lm = subst_matom(a, m)
                        if t:
                            lm = mT(lm)
                        wm = lm if wm is None else mmul(wm, lm, NB)
                    if wm is None:
                        wm = meye(rp[i]) if rp[i].t else mzero(rp[i], cp[j])
                    wm = mscale(wm, subst(k, m))
                    cellm = wm if cellm is None else madd(cellm, wm, NB)
                if cellm is None:
                    cellm = mzero(rp[i], cp[j])
                if not cellm.single():
                    cellm = cellm.coarsen()
                if not cellm.single() and cellm.rp and cellm.cp:
                    blocky = True
                row.append(cellm)
            grid.append(row)
        if blocky:
            return mvstack([mhstack(r, NB) for r in grid], NB)
        return Mat(rp, cp, [[(c.cells[0][0] if c.single() else FT({})) for c in r] for r in grid])
    if isinstance(x, FT):
        raise TypeError
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x in m:
            return m[x]
        return tuple(subst(y, m) if isinstance(y, (Sc, Mat, tuple)) or hasattr(y, 'asubst') else y for y in x)
    if hasattr(x, 'asubst'):
        return x.asubst(m)
    return x


class CurrentBounds:
    """the bounds of the state being interpreted (substitution happens far from any state)"""
    provider = None
    order = None        # decides the relative order of two offsets by splitting the analysed path
    empty = Bounds()

    def __getattr__(self, n):
        p = CurrentBounds.provider
        return getattr(p() if p is not None else CurrentBounds.empty, n)


NB = CurrentBounds()


def submat_lax(M, r0, r1, c0, c1, B):
    """submat, keeping an unordered cut of a single block symbolic"""
    try:
        return submat(M, r0, r1, c0, c1, B)
    except Incomparable:
        w = M.single_word()
        if w and w[0] == ONE and len(w[1]) == 1:
            a, t = w[1][0]
            return mT(matom(mk_sub(a, c0, c1, r0, r1))) if t else matom(mk_sub(a, r0, r1, c0, c1))
        C = M.coarsen()
        return matom(('sub', r1 - r0, c1 - c0, ('blk', M.rows, M.cols, C), r0, r1, c0, c1))


def touched(x, m):
    return any(mentions(x, k) for k in m)


def subst_atom(a, m):
    """scalar atom under substitution -> Sc"""
    if a in m:
        return sc(m[a])
    if not touched(a, m):
        return Sc.atom(a)
    h = a[0]
    if h == 'ent':
        if a[1][0] == 'blk':
            return entry(subst(a[1][3], m), subst(a[2], m), subst(a[3], m), NB)
        M = subst_matom(a[1], m)
        return entry(M, subst(a[2], m), subst(a[3], m), NB)
    if h == 'delta':
        df = subst(a[1], m)
        if not df.t:
            return ONE
        if df.is_const():
            return ZERO
        return Sc.atom(('delta', df if rkey(df) < rkey(-df) else -df))
    if h == 'msum':
        ren = {v: Sc.atom(fresh('r')) for v, _ in a[1]}
        bounds = [(v, subst(subst(N, ren), m)) for v, N in a[1]]
        B2 = NB.copy()
        for v, N in bounds:
            (mono,) = ren[v].t
            B2.low[mono[0][0]] = 0
            B2.extra.append(N - 1 - ren[v])
        sv = CurrentBounds.provider
        CurrentBounds.provider = lambda: B2
        try:
            body = subst(subst(a[2], ren), m)
        finally:
            CurrentBounds.provider = sv
        for v, N in reversed(bounds):
            (mono,) = ren[v].t
            body = mk_sum(mono[0][0], N, body)
        return body
    if h == 'poly':
        return subst(a[1], m)
    if h == 'ite':
        c = subst(a[1], m)
        x, y = subst(a[2], m), subst(a[3], m)
        if c is True:
            return x
        if c is False:
            return y
        return x if x == y else Sc.atom(('ite', c, x, y))
    return Sc.atom(subst_in(a, m))


def subst_in(a, m):
    out = []
    for y in a:
        if isinstance(y, (Sc, Mat)) or hasattr(y, 'asubst'):
            out.append(subst(y, m))
        elif isinstance(y, tuple):
            if y and isinstance(y[0], str) and y in m:
                r = m[y]
                out.append(r)
            else:
                out.append(subst_in(y, m))
        else:
            out.append(y)
    return tuple(out)


def subst_matom(a, m):
    """matrix atom under substitution -> Mat"""
    if a in m:
        return m[a]
    if a[0] == 'blk':
        return subst(a[3], m)
    if not touched(a, m):
        return matom(a)
    if a[0] == 'inv':
        return minv(subst(a[3], m))
    if a[0] == 'sub':
        return submat_lax(subst_matom(a[3], m), subst(a[4], m), subst(a[5], m), subst(a[6], m), subst(a[7], m), NB)
    if a[0] == 'exch':
        return mexch(subst(a[1], m))
    if a[0] == 'shift':
        return mshift(subst(a[1], m), a[3])
    if a[0] == 'ones':
        return mones(subst(a[1], m), subst(a[2], m))
    if a[0] == 'diag':
        return mdiag(subst(a[3], m), NB)
    if a[0] == 'lam':
        # its indices are its own
        I, J = ('bi',), ('bj',)
        inner = {k: v for k, v in m.items() if k != I and k != J}
        body = a[3]
        if inner and touched(body, inner):
            if any(mentions(v, x) and x in free_atoms(v) for k, v in inner.items() if mentions(body, k) for x in (I, J) if not mentions(k, x)):
                raise Incomparable('index of an outer definition inside an inner one')
            body = subst(body, inner)
        return lift_lam(subst(a[1], m), subst(a[2], m), body, NB)
    b = subst_in(a, m)
    return matom(b)


# -- lifting an entry-wise definition back to matrix algebra -----------------------------------
def lift_lam(r, c, body, B):
    """matrix of size r x c with entry body(bi, bj)"""
    r, c = sc(r), sc(c)
    I, J = ('bi',), ('bj',)
    if r == ONE:
        body = subst(body, {I: ZERO})
    if c == ONE:
        body = subst(body, {J: ZERO})
    out = mzero(r, c)
    for mono, k in body.t.items():
        M = lift_mono(mono, r, c, I, J, B)
        if M is None:
            return matom(('lam', r, c, body)) if body.t else mzero(r, c)
        out = madd(out, mscale(M, k), B)
    return out


def lift_mono(mono, r, c, I, J, B):
    sI, sJ = Sc.atom(I) if r != ONE else ZERO, Sc.atom(J) if c != ONE else ZERO
    coef, fac, sums = ONE, [], []
    for a, e in mono:
        if a[0] == 'msum' and e == 1:
            if sums:
                return None
            sums = list(a[1])
            for mm, kk in a[2].t.items():
                for b, f in mm:
                    fac.extend([b] * f if f > 0 else [None])
                coef = coef * kk
        elif (r != ONE and mentions(a, I)) or (c != ONE and mentions(a, J)):
            if e != 1:
                return None
            fac.append(a)
        else:
            coef = coef * Sc.atom(a, e)
    if any(f is None for f in fac):
        return None
    if not fac:
        return mscale(mones(r, c), coef)
    bvs = {Sc.atom(v): N for v, N in sums}
    # chain of entries from bi to bj through the bound variables
    edges = []
    for a in fac:
        if a[0] == 'ent' and a[1][0] != 'blk' and (len(fac) > 1 or sums):
            edges.append((matom(a[1]), a[2], a[3]))
        elif a[0] == 'ent' and len(fac) == 1 and not sums:
            try:
                M = a[1][3] if a[1][0] == 'blk' else matom(a[1])
                for x, y, t in ((a[2], a[3], 0), (a[3], a[2], 1)):
                    dx, dy = x - sI, y - sJ
                    if any(mentions(z, v) for z in (dx, dy) for v in (I, J)):
                        continue
                    M = mT(M) if t else M
                    if not dx.t and not dy.t and M.rows == r and M.cols == c:
                        return mscale(M, coef)
                    return mscale(submat(M, dx, dx + r, dy, dy + c, B), coef)
            except (Incomparable, ShapeError):
                return None
            return None
        elif a[0] == 'delta':
            if not sums and len(fac) == 1 and r == c and (a[1] == sI - sJ or a[1] == sJ - sI):
                return mscale(meye(r), coef)
            return None
        else:
            return None
    pos, word, left, rem = sI, None, list(edges), dict(bvs)
    rowfree = r == ONE
    for _ in range(len(edges)):
        nxt = None
        for e in left:
            M, x, y = e
            for (p, q, MM) in ((x, y, M), (y, x, mT(M))):
                if p == pos and (q in rem or (len(left) == 1 and q == sJ)):
                    full_row = (MM.rows == (r if pos == sI and word is None else None)) if word is None else True
                    if word is None and p == sI and MM.rows != r:
                        continue
                    if q in rem and MM.cols != rem[q]:
                        continue
                    if q == sJ and q not in rem and MM.cols != c:
                        continue
                    nxt = (e, q, MM)
                    break
            if nxt:
                break
        if nxt is None:
            return None
        left.remove(nxt[0])
        pos = nxt[1]
        rem.pop(pos, None)
        word = nxt[2] if word is None else mmul(word, nxt[2], B)
    if rem or pos != sJ or word.rows != r or word.cols != c:
        return None
    return mscale(word, coef)


def mat_entries_equal(A, M2, B):
    """compare two matrices entry by entry in scalar normal form"""
    I, J = Sc.atom(('bi',)), Sc.atom(('bj',))
    B2 = B.copy()
    B2.low[('bi',)] = 0
    B2.low[('bj',)] = 0
    B2.extra += [A.rows - 1 - I, A.cols - 1 - J]
    return entry(A, I, J, B2) == entry(M2, I, J, B2)


def mat_equal(A, M2, B):
    """True / False; raises Incomparable when the partitions cannot be aligned"""
    if A.rows != M2.rows or A.cols != M2.cols:
        return False
    if A == M2:
        return True
    if not A.rows.t or not A.cols.t:
        return True
    try:
        D = madd(A, M2, B, -ONE)
        if D.is_zero():
            return True
    except Incomparable:
        D = None
    try:
        if mat_entries_equal(A, M2, B):
            return True
    except Incomparable:
        if D is None:
            raise
    if D is not None:
        return all(cell_zero(D.cells[i][j].d, D.rp[i], D.cp[j], B) for i in range(len(D.rp)) for j in range(len(D.cp)))
    return False


def cell_zero(d, R, C, B):
    if not d:
        return True
    I, J = Sc.atom(('bi',)), Sc.atom(('bj',))
    B2 = B.copy()
    B2.low[('bi',)] = 0
    B2.low[('bj',)] = 0
    B2.extra += [R - 1 - I, C - 1 - J]
    x = t_entry(d, ZERO if R == ONE else I, ZERO if C == ONE else J, R, C, B2)
    if x.is_zero():
        return True
    # positions that never coincide
    m = {a: ZERO for a in x.atoms() if a[0] == 'delta' and (B2.nonneg(a[1] - 1) or B2.nonneg(-a[1] - 1))}
    return bool(m) and subst(x, m).is_zero()


def fn_heads(x):
    """names of uninterpreted functions inside x, and whether it contains unresolved values"""
    heads = set()
    for a in walk_atoms(x):
        if a[0] == 'fn':
            heads.add(a[1] if isinstance(a[1], str) else a[3])
        elif a[0] in ('top', 'car', 'opq', 'blk', 'rec', 'arr', 'undef', 'phi'):
            heads.add('!' + a[0])
    return heads
