"""multiprecision systems: how they are built, and what they must compute"""
from .mpops import *

DSSMP = 'fixif/LTI/dSSmp.py::dSSmp.'
DTFMP = 'fixif/LTI/dTFmp.py::dTFmp.'
REF = '''
import mpmath
import numpy

def simulate(A, B, C, D, n, p, q, T, u, x0):
	xk = x0
	yk = mpmath.zeros(p, T)
	for i in range(0, T):
		yk[:, i] = C * xk + D * u[:, i]
		xk = A * xk + B * u[:, i]
	return yk

def simulate_np(A, B, C, D, n, p, q, T, u, x0):
	xk = x0
	yk = numpy.matrix(numpy.zeros((p, T)))
	for i in range(0, T):
		yk[:, i] = C * xk + D * u[:, i]
		xk = A * xk + B * u[:, i]
	return yk
'''


def mpsys(c, n='n', p='p', q='q', suffix='', kind='mp'):
    return new_dss(c, n, p, q, suffix, kind, mod='fixif.LTI.dSSmp', clsname='dSSmp')


def by_rows(I, args, kw):
    """mpf_matrix_to_sollya, decided by C10: the entries by rows, the sizes"""
    m = I.arr_mat(args[0])
    if m is None or not m.rows.is_const() or not m.cols.is_const():
        return None
    r, k = int(m.rows.cval()), int(m.cols.cval())
    items = [('item', Num(entry(m, sc(i), sc(j), I.B), 'sollya')) for i in range(r) for j in range(k)]
    return Tup([I.alloc(ListO(items)), Num(sc(r), 'int'), Num(sc(k), 'int')])
