SEEDS = {
'c09-fmul-accumulator': dict(property='C09', file='fixif/func_aux/mpf_matrix_fmul.py',
	old="				C[i,j] = mpmath.fadd(C[i,j], tmp, exact=True)",
	new="				C[i,j] = mpmath.fadd(C[i,j], tmp, prec=max(mp.prec, tmp._mpf_[3] + 64)) if k else tmp",
	needs='at least two terms in a dot product whose magnitudes differ by more than the working precision',
	breaks='the accumulation of the exact product rounds',
	demo="""
import mpmath
from fixif.func_aux import mpf_matrix_fmul
A = mpmath.matrix([[1, 1]]); B = mpmath.matrix([[mpmath.ldexp(1, 300)], [1]])
C = mpf_matrix_fmul(A, B)
assert int(C[0, 0]) == 2**300 + 1
"""),
'c09-lt-inverse-sum': dict(property='C09', file='fixif/func_aux/mpf_matrix_lt_inverse.py',
	old="		for j in range(0, i):\n			tmp = mpmath.fmul(L[i,j], x[j,0], exact=True)\n			x[i,0] = mpmath.fsub(x[i,0], tmp, exact=True)",
	new="		tmp = mpmath.fdot([(L[i,j], x[j,0]) for j in range(0, i)])\n		x[i,0] = mpmath.fsub(x[i,0], tmp, exact=True)",
	needs='a dot product of the substitution that does not fit the working precision',
	breaks='the inverse is rounded to the working precision',
	demo="""
import mpmath
from fixif.func_aux import mpf_matrix_lt_inverse
a = 1 + mpmath.ldexp(1, -50)
L = mpmath.eye(3); L[1, 0] = a; L[2, 1] = a
X = mpf_matrix_lt_inverse(L)
assert mpmath.fsub(X[2, 0], mpmath.fmul(a, a, exact=True), exact=True) == 0
"""),
'c10-poly-length': dict(property='C10', file='fixif/func_aux/mp_poly_product.py',
	old="			for i in range(1, j):\n				c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))",
	new="			for i in range(1, min(j, degP - 2)):\n				c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))",
	needs='at least three roots, and the last one excluded',
	breaks='a factor of the product is lost when the excluded index is the last one',
	demo="""
import mpmath
from fixif.func_aux import mp_poly_product
c = mp_poly_product([mpmath.mpf(2), mpmath.mpf(3), mpmath.mpf(5)], 2)
assert [float(x) for x in c] == [1, 5, 6], c
"""),
'c10-transposed-copy': dict(property='C10', file='fixif/func_aux/mpf_to_numpy.py',
	old="	M = numpy.matrix(numpy.zeros([m,n]))\n	for i in range(0,m):\n		for j in range(0, n):\n			M[i,j] = float(A[i,j])",
	new="	M = numpy.matrix([float(x) for x in A]).reshape(n, m)\n	M = M.T if m != 1 and n != 1 and m != n else M.reshape(m, n)",
	needs='a rectangular matrix that is not a vector',
	breaks='the entries of rectangular matrices are permuted (row-major data read column by column)',
	demo="""
import mpmath, numpy as np
from fixif.func_aux import mpf_to_numpy
A = mpmath.matrix([[1, 2, 3], [4, 5, 6]])
assert np.array_equal(mpf_to_numpy(A), np.matrix([[1., 2, 3], [4, 5, 6]]))
assert np.array_equal(mpf_to_numpy(mpmath.matrix([[1, 2], [4, 5]])), np.matrix([[1., 2], [4, 5]]))
"""),
'c11-triangular-band': dict(property='C11', file='fixif/func_aux/mpf_matrix_lt_inverse.py',
	old="		for j in range(i+1, n):\n			if L[i,j] != mpmath.mp.zero:",
	new="		for j in range(i+1, min(n, i+3)):\n			if L[i,j] != mpmath.mp.zero:",
	needs='a matrix of size 4 or more whose only upper entries are far from the diagonal',
	breaks='a matrix that is not lower triangular is accepted and a wrong inverse returned',
	demo="""
import mpmath
from fixif.func_aux import mpf_matrix_lt_inverse
L = mpmath.eye(5); L[0, 4] = 2
try:
	mpf_matrix_lt_inverse(L)
except ValueError:
	pass
else:
	raise SystemExit('accepted')
"""),
'c11-dssmp-outputs': dict(property='C11', file='fixif/LTI/dSSmp.py',
	old="		if D.rows != self._p or D.cols != self._q:",
	new="		if (D.rows, D.cols) not in [(self._p, self._q), (1, 1)]:",
	needs='a 1x1 D with several inputs or outputs',
	breaks='an unsuitable D is accepted',
	demo="""
import mpmath
from fixif.LTI import dSSmp
try:
	dSSmp(mpmath.matrix(2, 2), mpmath.matrix(2, 1), mpmath.matrix(3, 2), mpmath.matrix(1, 1))
except ValueError:
	pass
else:
	raise SystemExit('accepted')
"""),
'c12-matrix-alias': dict(property='C12', file='fixif/func_aux/mpf_matrix_lt_inverse.py',
	old="			x[i,0] = mpmath.fsub(x[i,0], tmp, exact=True)",
	new="			x[i,0] = mpmath.fsub(x[i,0], tmp, exact=True)\n			if not x[i,0]:\n				L[i,j] = x[i,0]",
	needs='a substitution in which a partial sum vanishes',
	breaks='the inversion of a lower triangular matrix changes the matrix',
	demo="""
import mpmath
from fixif.func_aux import mpf_matrix_lt_inverse
L = mpmath.matrix([[1, 0, 0], [2, 1, 0], [6, 3, 1]])
mpf_matrix_lt_inverse(L)
assert [float(x) for x in L] == [1, 0, 0, 2, 1, 0, 6, 3, 1], L
"""),
'c13-inverse-precision': dict(property='C13', file='fixif/func_aux/MPFMatrix.py',
	old="		# checking if the matrix is indeed lower-triangular with 1s on the main diagonal\n		for i in range(0, n):",
	new="		prec, mpmath.mp.prec = mpmath.mp.prec, 4 * mpmath.mp.prec\n		# checking if the matrix is indeed lower-triangular with 1s on the main diagonal\n		for i in range(0, n):",
	more=[("			X[:, i] = my_forward_subst(self._M, i)\n\n		return MPFMatrix(X)", "			X[:, i] = my_forward_subst(self._M, i)\n		mpmath.mp.prec = prec\n\n		return MPFMatrix(X)")],
	needs='a matrix that is refused: the function leaves by an exception',
	breaks='the working precision of the caller is left changed',
	demo="""
import mpmath
from fixif.func_aux.MPFMatrix import MPFMatrix
p = mpmath.mp.prec
M = mpmath.eye(3); M[0, 2] = 1
try:
	MPFMatrix(M).inv_lowtr()
except ValueError:
	pass
assert mpmath.mp.prec == p
assert MPFMatrix(mpmath.eye(3)).inv_lowtr().rows == 3 and mpmath.mp.prec == p
"""),
'c14-final-rounding': dict(property='C14', file='fixif/LTI/dSSmp.py',
	old="			a[i, 0] = Q[i, 0].real\n			a[i, 0] = mpmath.fadd(a[i, 0], mpmath.mp.zero, prec=prec)",
	new="			a[i, 0] = mpmath.mpf(float(Q[i, 0].real)) if i == Q.rows - 1 else Q[i, 0].real",
	needs='a system whose last denominator coefficient does not fit a double',
	breaks='the last coefficient of the denominator is rounded to double precision whatever precision is asked',
	demo="""
import mpmath
from fixif.LTI import dSSmp
mpmath.mp.prec = 200
A = mpmath.matrix([[mpmath.mpf(1)/3, 0], [0, mpmath.mpf(1)/7]])
S = dSSmp(A, mpmath.matrix([[1], [1]]), mpmath.matrix([[1, 1]]), mpmath.matrix([[0]]))
T = S.to_dTFmp(200)
assert abs(T.den[2, 0] - mpmath.mpf(1)/21) < mpmath.ldexp(1, -150), T.den
"""),
'c14-sub-inputs': dict(property='C14', file='fixif/LTI/dSSmp.py',
	old="		for i in range(0, self.p):\n			for j in range(0, S.n):\n				C[i, j + self.n] = mpmath.fneg(S.C[i, j], exact=True)",
	new="		for i in range(0, self.p):\n			for j in range(0, min(self.n, S.n)):\n				C[i, j + self.n] = mpmath.fneg(S.C[i, j], exact=True)\n			for j in range(self.n, S.n):\n				C[i, j + self.n] = S.C[i, j]",
	needs='the subtracted system has more states than the other one',
	breaks='the extra states of the subtracted system are added',
	demo="""
import mpmath
from fixif.LTI import dSSmp
one = mpmath.matrix([[1]])
S = dSSmp(one, one, one, one)
T = dSSmp(mpmath.eye(2), mpmath.matrix([[1], [2]]), mpmath.matrix([[3, 5]]), one)
H = S - T
assert [float(x) for x in H.C] == [1, -3, -5]
assert [float(x) for x in (T - S).C] == [3, 5, -1]
"""),
'c22-sif-initial': dict(property='C22', file='fixif/SIF/SIF.py',
	old="			y[:, i] = self.CZ*xk + self.DZ*u[:, i]\n			xk = xkp1",
	new="			y[:, i] = self.CZ*xk + self.DZ*u[:, i]\n			xk[:] = xkp1 if any(abs(x) > 1e-12 for x in xkp1.flat) else 0",
	needs='a state that becomes tiny',
	breaks='a small state is flushed to zero in the middle of the simulation',
	demo="""
import numpy as np
from fixif.SIF import SIF
m = lambda x: np.matrix([[float(x)]])
S = SIF((m(1), m(0), m(0), m(0), m(0), m(0.5), m(1e-13), m(1), m(0)))
y = S.simulate(np.matrix([[1., 0, 0]]))
e = [0, 1e-13, 0.5e-13]
g = [float(x) for x in np.asarray(y).ravel()]
A = S.AZ[0, 0]
assert abs(g[1] - 1e-13) < 1e-20 and abs(g[2] - A*1e-13) < 1e-20 and g[2] != 0, g
"""),
}
