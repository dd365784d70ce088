"""the exact multiprecision operations on matrices: how they are called and what they compute"""
import ast
from fractions import Fraction
from .common import *

FA = 'fixif.func_aux.'
KINDS = ('matrix', 'mp')


def fa(c, name):
    return c.func(FA + name, name)


def fn_of(name):
    return 'fixif/func_aux/%s.py::%s' % (name, name)


def mpm(c, name, r, k):
    return c.I.arr('mp', mnamed(name, sc(r), sc(k)), 2)


def wrap(c, m, kind):
    """an operand of the given kind: numpy.matrix, numpy array, mpmath matrix or MPFMatrix"""
    if kind == 'MPF':
        return c.new(c.cls(FA + 'MPFMatrix', 'MPFMatrix'), c.I.arr('mp', m, 2))
    return c.I.arr(kind, m, 2)


class Op:
    def __init__(self, name, construct, thunk, want, exact=True, strip=None, rule='value'):
        self.name, self.construct, self.thunk, self.want = name, construct, thunk, want
        self.exact, self.strip, self.rule = exact, strip, rule


def lt(c, kind):
    """a unit lower triangular operand of any size"""
    n = c.dim('n', 1)
    c.makers['L'] = unit_lower('L')
    return mnamed('L', n, n)


def operations():
    """name -> function of a case giving (thunk, [(label, expected Mat given bounds, getter of the value)])"""
    out = []

    def add(name, construct, f, exact=True, strip=None):
        out.append((name, construct, f, exact, strip))

    # ---- sums, differences and products
    for fn, k in (('mpf_matrix_fadd', 1), ('mpf_matrix_fsub', -1), ('mpf_matrix_fmul', 0)):
        for ka in KINDS:
            for kb in KINDS:
                def f(c, fn=fn, k=k, ka=ka, kb=kb):
                    A, Bm = operands(c, k)
                    return (lambda: c.call(fa(c, fn), wrap(c, A, ka), wrap(c, Bm, kb))), (lambda B: combine(A, Bm, k, B))
                add('%s %s %s' % (fn, ka, kb), fn_of(fn), f)
    MP = 'fixif/func_aux/MPFMatrix.py::MPFMatrix.'
    for meth, k in (('add_exact', 1), ('sub_exact', -1), ('mul_exact', 0)):
        def f(c, meth=meth, k=k):
            A, Bm = operands(c, k)
            return (lambda: c.get(c.meth(wrap(c, A, 'MPF'), meth, wrap(c, Bm, 'MPF')), 'matrix')), (lambda B: combine(A, Bm, k, B))
        add(meth, MP + meth, f)
    for meth, op, k in (('__add__', ast.Add, 1), ('__sub__', ast.Sub, -1), ('__mul__', ast.Mult, 0)):
        for kb in ('matrix', 'array', 'mp', 'MPF'):
            def f(c, op=op, k=k, kb=kb):
                A, Bm = operands(c, k)
                return (lambda: c.get(c.I.binop(op(), wrap(c, A, 'MPF'), wrap(c, Bm, kb)), 'matrix')), (lambda B: combine(A, Bm, k, B))
            add('MPFMatrix %s %s' % (meth, kb), MP + meth, f, exact=False)
    # ---- an object with itself
    def square(c, k):
        m = c.dim('m', 1)
        n = c.dim('n', 1) if k else m
        return mnamed('A', m, n)
    for meth, op, k in (('add_exact', None, 1), ('sub_exact', None, -1), ('mul_exact', None, 0),
                        ('__add__', ast.Add, 1), ('__sub__', ast.Sub, -1), ('__mul__', ast.Mult, 0)):
        def f(c, meth=meth, op=op, k=k):
            A = square(c, k)

            def th():
                x = wrap(c, A, 'MPF')
                return c.get(c.I.binop(op(), x, x) if op else c.meth(x, meth, x), 'matrix')
            return th, (lambda B: combine(A, A, k, B))
        add('MPFMatrix %s itself' % meth, MP + meth, f, exact=op is None)
    for fn, k in (('mpf_matrix_fadd', 1), ('mpf_matrix_fsub', -1), ('mpf_matrix_fmul', 0)):
        for kind in KINDS:
            def f(c, fn=fn, k=k, kind=kind):
                A = square(c, k)

                def th():
                    x = wrap(c, A, kind)
                    return c.call(fa(c, fn), x, x)
                return th, (lambda B: combine(A, A, k, B))
            add('%s %s itself' % (fn, kind), fn_of(fn), f)
    # ---- lower triangular inverse
    for kind in KINDS:
        def f(c, kind=kind):
            L = lt(c, kind)
            return (lambda: c.call(fa(c, 'mpf_matrix_lt_inverse'), wrap(c, L, kind))), (lambda B: minv(L))
        add('mpf_matrix_lt_inverse %s' % kind, fn_of('mpf_matrix_lt_inverse'), f, strip=strip_ulow)

    def f(c):
        L = lt(c, 'MPF')
        return (lambda: c.get(c.meth(wrap(c, L, 'MPF'), 'inv_lowtr'), 'matrix')), (lambda B: minv(L))
    add('inv_lowtr', MP + 'inv_lowtr', f, strip=strip_ulow)
    # ---- conversions
    for kind in ('matrix', 'array', 'mp'):
        def f(c, kind=kind):
            m, n = c.dims_('m n')
            A = mnamed('A', m, n)
            return (lambda: c.get(wrap(c, A, 'MPF') if kind == 'MPF' else c.new(c.cls(FA + 'MPFMatrix', 'MPFMatrix'), wrap(c, A, kind)), 'matrix')), (lambda B: A)
        add('MPFMatrix of %s' % kind, MP + '__init__', f)

    def f(c):
        m, n = c.dims_('m n')
        A = mnamed('A', m, n)
        return (lambda: c.call(fa(c, 'python2mpf_matrix'), wrap(c, A, 'matrix'))), (lambda B: A)
    add('python2mpf_matrix', fn_of('python2mpf_matrix'), f)
    return out


def operands(c, k):
    m, n = c.dims_('m n')
    if k:
        return mnamed('A', m, n), mnamed('B', m, n)
    p = c.dim('p', 1)
    return mnamed('A', m, n), mnamed('B', n, p)


def combine(A, Bm, k, B):
    return madd(A, Bm, B, sc(k)) if k else mmul(A, Bm, B)
