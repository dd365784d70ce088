From 059a3f2fddcf33618653d033f7bf9c9e0f525b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 01/67] fix: dSS product checks the dimensions it connects
 (inputs of self, outputs of other)

---
 fixif/LTI/dSS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index f520783..8ee48cf 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -528,8 +528,8 @@ class dSS(object):
 		n1, p1, q1 = self.size
 		n2, p2, q2 = other.size
 
-		if p1 != q2:
-			raise ValueError("dSS: second state space should have same number of inputs as first state number of outputs")
+		if q1 != p2:
+			raise ValueError("dSS: second state space should have same number of outputs as first state number of inputs")
 
 		# TODO: possible simplification if self.A==other.A ??
 
-- 
2.43.0


From 9d80743d55fc9a4a5f277e808cbce1edb415f404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 02/67] fix: sensitivity matrices use the derivatives of the
 products by Z (one column per variable, state and input)

---
 fixif/SIF/SIF_sensibility.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/fixif/SIF/SIF_sensibility.py b/fixif/SIF/SIF_sensibility.py
index 17a94ca..c9225ae 100644
--- a/fixif/SIF/SIF_sensibility.py
+++ b/fixif/SIF/SIF_sensibility.py
@@ -10,7 +10,7 @@ __status__ = "Beta"
 
 
 from fixif.LTI import dSS
-from numpy import zeros, matrix as mat, multiply, conj, transpose, real, diag
+from numpy import zeros, eye, r_, matrix as mat, multiply, conj, transpose, real, diag
 from numpy.linalg import norm, eig, inv
 
 
@@ -112,13 +112,23 @@ class SIF_sensibility:
 	This class adds methods to compute the sensibility (wrt Z)
 	"""
 
+	def _sensitivity_N(self):
+		"""Returns the matrices [invJ*M; I; 0] and [invJ*N; 0; I] such that the inputs of the products by the coefficients of Z
+		(intermediate variables, states and inputs) are N1*x(k) + N2*u(k)
+		"""
+		N1 = r_[self.invJ * self.M, eye(self.n), zeros((self.q, self.n))]
+		N2 = r_[self.invJ * self.N, zeros((self.n, self.q)), eye(self.q)]
+		return N1, N2
+
+
 	def dTFsensitivity(self):
 		"""Compute the transfer function sensitivity measure and matrix
 		Returns
 			- M: tf sensitivity measure
 			- MX: tf sensitivity matrix
 		"""
-		return _w_norm_prod(dSS(self.AZ, self._M1, self.CZ, self._M2), dSS(self.AZ, self.BZ, self._N1, self._N2), self.dZ)
+		N1, N2 = self._sensitivity_N()
+		return _w_norm_prod(dSS(self.AZ, self._M1, self.CZ, self._M2), dSS(self.AZ, self.BZ, N1, N2), self.dZ)
 		#TODO: check if the object is a controller, and use M1bar, M2bar, N1bar and N2bar instead of M1, M2, N1 and N2
 
 
@@ -132,7 +142,7 @@ class SIF_sensibility:
 			- MXk: pole sensitivity matrices for each pole
 		"""
 
-		dlambda_dZ, dlk_dZ = deigdZ(self.AZ, self._M1, self._N1, self.Z.shape, moduli)
+		dlambda_dZ, dlk_dZ = deigdZ(self.AZ, self._M1, self._sensitivity_N()[0], self.Z.shape, moduli)
 
 		#TODO: check if the object is a controller, and then
 		# Abar, Bbar, Cbar, Dbar, M1bar, M2bar, N1bar, N2bar = calc_plantSIF(R, plant)
-- 
2.43.0


From 314deba456643c844541d7d7a0e48a4d984e385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:25 +0000
Subject: [PATCH 03/67] fix: a similarity transform invalidates the cached
 Gramians

---
 fixif/LTI/dSS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 8ee48cf..92b0470 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -445,7 +445,9 @@ class dSS(object):
 		self._A = Tinv * self._A * T
 		self._B = Tinv * self._B
 		self._C = self._C * T
-		# D is unchanged
+		# D is unchanged (and so are the norms and gains), but the Gramians depend on the state coordinates
+		self._Wo = None
+		self._Wc = None
 
 	# ======================================================================================
 	def _check_dimensions(self):
-- 
2.43.0


From 900f47586cb84d971d1cfec341de097005b64a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:25 +0000
Subject: [PATCH 04/67] fix: changing a coefficient matrix rebuilds all the
 derived matrices and state-spaces of a SIF

---
 fixif/SIF/SIF.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 9217322..b6cf49a 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -246,6 +246,10 @@ class SIF(SIF_sensibility):
 	def _build_fromZ(self):
 		self._build_AZtoDZ()
 		self._build_M1M2N1N2()
+		# the associated state-spaces depend on Z (they are computed again the next time they are required)
+		self._Hu = None
+		self._Hepsilon = None
+		self._Hzeta = None
 
 
 	# Only matrix Z is kept in memory
@@ -435,7 +439,7 @@ class SIF(SIF_sensibility):
 	def P(self, mymat):
 		self._Z[self._l: self._l + self._n, self._l: self._l + self._n] = mymat
 		self._build_dZ(None)  # TODO: all these setters should call _build_dZ(None) !!
-		self._build_AZtoDZ()
+		self._build_fromZ()
 
 	@Q.setter
 	def Q(self, mymat):
-- 
2.43.0


From 9fe779914133dba82beea838c658ffcf869ddffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:25 +0000
Subject: [PATCH 05/67] fix: dJ reads back the flags that are stored in dZ (no
 sign change)

---
 fixif/SIF/SIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index b6cf49a..ae21234 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -371,7 +371,7 @@ class SIF(SIF_sensibility):
 
 	@property
 	def dJ(self):
-		return -self._dZ[0: self._l, 0: self._l]
+		return self._dZ[0: self._l, 0: self._l]
 
 	@property
 	def dK(self):
-- 
2.43.0


From 3c9f683fd03f3c7a7677ac078922e475dce2a7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:25 +0000
Subject: [PATCH 06/67] fix: Z and dZ are stored as matrices (copies of what
 the caller gives)

---
 fixif/SIF/SIF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index ae21234..e095e48 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -313,13 +313,13 @@ class SIF(SIF_sensibility):
 	# Z, dZ setters
 	@Z.setter
 	def Z(self, mymat):
-		self._Z = mymat
+		self._Z = np.matrix(mymat)
 		self._invJ = inv(self.J)
 		self._build_fromZ()
 
 	@dZ.setter
 	def dZ(self, mymat):
-		self._dZ = mymat
+		self._dZ = np.matrix(mymat)
 
 
 	#  JtoS getters
-- 
2.43.0


From a63f818ef8924d856bc9c0f366cb7a333738c42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:10 +0000
Subject: [PATCH 07/67] fix: the compiled C function of a realization is
 dropped when its coefficients change

---
 fixif/SIF/Realization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fixif/SIF/Realization.py b/fixif/SIF/Realization.py
index cfcad67..0a903eb 100644
--- a/fixif/SIF/Realization.py
+++ b/fixif/SIF/Realization.py
@@ -91,6 +91,12 @@ class Realization(SIF, R_algorithm, R_FxP, R_implementation):
 		self._Cdouble = None
 
 
+	def _build_fromZ(self):
+		"""Rebuild everything that depends on the coefficients (the compiled C function included)"""
+		super(Realization, self)._build_fromZ()
+		self._Cdouble = None
+
+
 	@property
 	def MSB(self):
 		"""Returns the MSB"""
-- 
2.43.0


From 5766eaaf6db0380b77b2e2f8bf48cb819ae0ef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 08/67] fix: transfer-function sums and products keep the
 delays and align the coefficients on the powers of z^-1

---
 fixif/LTI/dTF.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 43da056..328c950 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -17,12 +17,20 @@ __status__ = "Beta"
 
 from fixif.WCPG import WCPG_TF
 from numpy import ndenumerate, array, linspace
-from numpy import matrix as mat, polymul, polyadd
+from numpy import matrix as mat, convolve as polymul
 from numpy import diagflat, zeros, ones, r_, atleast_2d, fliplr
 from scipy.signal import tf2ss, TransferFunction, dbode
 from scipy.linalg import norm
 
 
+def polyadd(a, b):
+	"""Sum of two polynomials in z^-1 (1D arrays, lowest power of z^-1 first: numpy.polyadd would align the highest ones)"""
+	s = zeros(max(len(a), len(b)))
+	s[:len(a)] += a
+	s[:len(b)] += b
+	return s
+
+
 class dTF(object):
 
 	def __init__(self, num, den):
-- 
2.43.0


From c8025b382aeefde848e0b7d7035729680bdd81cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 09/67] fix: numerator and denominator of a transfer function
 have the same length (order, to_dSS and structures rely on it)

---
 fixif/LTI/dTF.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 328c950..7d46fe3 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -18,7 +18,7 @@ __status__ = "Beta"
 from fixif.WCPG import WCPG_TF
 from numpy import ndenumerate, array, linspace
 from numpy import matrix as mat, convolve as polymul
-from numpy import diagflat, zeros, ones, r_, atleast_2d, fliplr
+from numpy import diagflat, zeros, ones, r_, c_, atleast_2d, fliplr
 from scipy.signal import tf2ss, TransferFunction, dbode
 from scipy.linalg import norm
 
@@ -46,6 +46,11 @@ class dTF(object):
 		if (num.shape[0] != 1) or (den.shape[0] != 1):
 			raise ValueError('dTF: num and den should be 1D matrixes')
 
+		# numerator and denominator are given the same length (the missing highest powers of z^-1 have null coefficients)
+		n = max(num.shape[1], den.shape[1])
+		num = mat(c_[num, zeros((1, n-num.shape[1]))])
+		den = mat(c_[den, zeros((1, n-den.shape[1]))])
+
 		# we normalize if den[0] is not equal to 1
 		if den[0, 0] == 0:
 			raise ValueError('dTF: The 1st coefficient of the denominator cannot be ZERO !')
-- 
2.43.0


From fd9d11f91f5220224b02719af2dcfb9be0ae2162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 10/67] fix: the reflected difference of a transfer function
 refuses the operands it does not know

---
 fixif/LTI/dTF.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 7d46fe3..08822a9 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -142,6 +142,7 @@ class dTF(object):
 			numer = polyadd(polymul(other.num.A1, self._den.A1), -polymul(other.den.A1, self._num.A1))
 			denom = polymul(self._den.A1, other.den.A1)
 			return dTF(numer, denom)
+		raise ValueError("Cannot substract a dTF to a %s", type(other))
 
 
 	def to_dTFmp(self):
-- 
2.43.0


From 6aae32fdd75ba69fca7eb059b7d9745b1d1a12be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:58 +0000
Subject: [PATCH 11/67] fix: rho direct form II without scaling keeps the gamma
 parameters on the diagonal of P

---
 fixif/Structures/rhoDFIIt/rhoDFIIt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/Structures/rhoDFIIt/rhoDFIIt.py b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
index 705fbff..7bdec85 100644
--- a/fixif/Structures/rhoDFIIt/rhoDFIIt.py
+++ b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
@@ -163,7 +163,7 @@ def makerhoDFII(filt, gamma=None, Delta=None, transposed=True, scaling=None, equ
 			L = mat(1)
 			M = c_[atleast_2d(1), zeros((1, n - 1))]
 			N = mat(Vbeta[0, 0])
-			P = mat(diagflat(Delta)) + mat(diagflat(ones((1, n - 1)), 1))
+			P = mat(diagflat(gamma)) + mat(diagflat(ones((1, n - 1)), 1))
 			Q = Vbeta[1:n + 1, 0]
 			R = zeros((1, n))
 			S = mat(0)
-- 
2.43.0


From 7dbe1aaced584e3660b763fdbd60a0784117911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 12/67] fix: dSS Gramians: a failing Lyapunov solver raises the
 intended error (no AttributeError on info/message)

---
 fixif/LTI/dSS.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 92b0470..9fa6722 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -208,13 +208,7 @@ class dSS(object):
 				self._Wo = mat(X)
 
 			except LinAlgError as ve:
-				if ve.info < 0:
-					e = LinAlgError(ve.message)
-					e.info = ve.info
-				else:
-					e = LinAlgError("dSS: Wo: scipy Linalg failed to compute eigenvalues of Lyapunov equation")
-					e.info = ve.info
-				raise e
+				raise LinAlgError("dSS: Wo: scipy Linalg failed to compute eigenvalues of Lyapunov equation (%s)" % ve)
 
 		elif method == 'slycot':
 			# Solve the Lyapunov equation by calling the Slycot function sb03md
@@ -228,7 +222,7 @@ class dSS(object):
 			except ValueError as ve:
 
 				if ve.info < 0:
-					e = ValueError(ve.message)
+					e = ValueError(str(ve))
 					e.info = ve.info
 				else:
 					e = ValueError("dSS: Wo: The QR algorithm failed to compute all the eigenvalues "
@@ -284,13 +278,7 @@ class dSS(object):
 				self._Wc = mat(X)
 
 			except LinAlgError as ve:
-				if ve.info < 0:
-					e = LinAlgError(ve.message)
-					e.info = ve.info
-				else:
-					e = LinAlgError("dSS: Wc: scipy Linalg failed to compute eigenvalues of Lyapunov equation")
-					e.info = ve.info
-				raise e
+				raise LinAlgError("dSS: Wc: scipy Linalg failed to compute eigenvalues of Lyapunov equation (%s)" % ve)
 
 		elif method == 'slycot':
 			# Solve the Lyapunov equation by calling the Slycot function sb03md
@@ -304,7 +292,7 @@ class dSS(object):
 			except ValueError as ve:
 
 				if ve.info < 0:
-					e = ValueError(ve.message)
+					e = ValueError(str(ve))
 					e.info = ve.info
 				else:
 					e = ValueError("dSS: Wc: The QR algorithm failed to compute all the eigenvalues "
-- 
2.43.0


From d8a2598956dcf9cbda9aca4529f40cc2ac2112c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 13/67] fix: dSS.H2norm fallback uses D'D with the
 observability Gramian (dimensions with p != q)

---
 fixif/LTI/dSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 9fa6722..b9582e1 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -332,7 +332,7 @@ class dSS(object):
 			self._H2norm = sqrt(M.trace())[0,0]
 		except ValueError:  # TODO: check what kind of exception we need to catch here
 			try:
-				M = self._B.transpose() * self.Wo * self._B + self._D * self._D.transpose()
+				M = self._B.transpose() * self.Wo * self._B + self._D.transpose() * self._D
 				self._H2norm = sqrt(M.trace())[0,0]
 			except ValueError:
 				raise ValueError("dSS: h2-norm : Impossible to compute M. Default value is 'inf'")
-- 
2.43.0


From 1ef6fbc5db76a4e896edc1d53438ecc048438ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 14/67] fix: exact matrix operations: the refusal of an operand
 raises its ValueError (misplaced %)

---
 fixif/func_aux/MPFMatrix.py             | 14 +++++++-------
 fixif/func_aux/mpf_matrix_fadd.py       |  4 ++--
 fixif/func_aux/mpf_matrix_fmul.py       |  4 ++--
 fixif/func_aux/mpf_matrix_fsub.py       |  4 ++--
 fixif/func_aux/mpf_matrix_lt_inverse.py |  6 +++---
 fixif/func_aux/mpf_matrix_to_sollya.py  |  4 ++--
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/fixif/func_aux/MPFMatrix.py b/fixif/func_aux/MPFMatrix.py
index 92c638d..7aa164b 100644
--- a/fixif/func_aux/MPFMatrix.py
+++ b/fixif/func_aux/MPFMatrix.py
@@ -142,7 +142,7 @@ class MPFMatrix(object):
 		# check input type
 
 		if not isinstance(other, MPFMatrix):
-				raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+				raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		#test sizes
 		if self.shape != other.shape:
@@ -156,7 +156,7 @@ class MPFMatrix(object):
 			for j in range(0, n):
 				C[i,j] = mpmath.fadd(self[i,j], other[i,j], exact=True)
 				if mpmath.isnan(C[i,j]) or mpmath.isinf(C[i,j]):
-					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f') % C[i,j]
+					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f' % C[i,j])
 		# TODO: use np.vectorize !
 
 		return MPFMatrix(C)
@@ -177,7 +177,7 @@ class MPFMatrix(object):
 		# check input type
 
 		if not isinstance(other, MPFMatrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		# test sizes
 		if self.shape != other.shape:
@@ -191,7 +191,7 @@ class MPFMatrix(object):
 			for j in range(0, n):
 				C[i, j] = mpmath.fsub(self[i, j], other[i, j], exact=True)
 				if mpmath.isnan(C[i, j]) or mpmath.isinf(C[i, j]):
-					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f') % C[i, j]
+					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f' % C[i,j])
 		# TODO: use np.vectorize !
 
 		return MPFMatrix(C)
@@ -214,7 +214,7 @@ class MPFMatrix(object):
 
 		# check input type
 		if not isinstance(other, MPFMatrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		# test sizes
 
@@ -233,7 +233,7 @@ class MPFMatrix(object):
 					tmp = mpmath.fmul(self[i, k], other[k, j], exact=True)
 					C[i, j] = mpmath.fadd(C[i, j], tmp, exact=True)
 					if mpmath.isnan(C[i, j]) or mpmath.isinf(C[i, j]):
-						print('WARNING: in matrix multiplication an abnormal number (NaN/Inf) occured: %f') % C[i, j]
+						print('WARNING: in matrix multiplication an abnormal number (NaN/Inf) occured: %f' % C[i,j])
 
 		return MPFMatrix(C)
 
@@ -256,7 +256,7 @@ class MPFMatrix(object):
 
 		# checking the size
 		if self.rows != self.cols:
-			raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % self.rows, self.cols)
+			raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % (self.rows, self.cols))
 		else:
 			n = self.rows
 
diff --git a/fixif/func_aux/mpf_matrix_fadd.py b/fixif/func_aux/mpf_matrix_fadd.py
index 56b400c..f78d33a 100644
--- a/fixif/func_aux/mpf_matrix_fadd.py
+++ b/fixif/func_aux/mpf_matrix_fadd.py
@@ -28,7 +28,7 @@ def mpf_matrix_fadd(A, B):
 			raise ValueError('Cannot compute exact sum of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fadd(A, B):
 			raise ValueError('Cannot compute exact sum of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_fmul.py b/fixif/func_aux/mpf_matrix_fmul.py
index 2c50ce2..cbce90d 100644
--- a/fixif/func_aux/mpf_matrix_fmul.py
+++ b/fixif/func_aux/mpf_matrix_fmul.py
@@ -28,7 +28,7 @@ def mpf_matrix_fmul(A, B):
 			raise ValueError('Cannot compute exact product of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fmul(A, B):
 			raise ValueError('Cannot compute exact product of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_fsub.py b/fixif/func_aux/mpf_matrix_fsub.py
index cfae140..36235eb 100644
--- a/fixif/func_aux/mpf_matrix_fsub.py
+++ b/fixif/func_aux/mpf_matrix_fsub.py
@@ -28,7 +28,7 @@ def mpf_matrix_fsub(A, B):
 			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fsub(A, B):
 			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_lt_inverse.py b/fixif/func_aux/mpf_matrix_lt_inverse.py
index 2622a6b..4d074ed 100644
--- a/fixif/func_aux/mpf_matrix_lt_inverse.py
+++ b/fixif/func_aux/mpf_matrix_lt_inverse.py
@@ -64,15 +64,15 @@ def mpf_matrix_lt_inverse(L):
 		try:
 			L = python2mpf_matrix(L)
 		except ValueError as e:
-			raise ValueError('Cannot compute exact difference of two matrices. %s') % e
+			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(L, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(L)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(L))
 
 
 	#checking the size
 	if L.rows != L.cols:
-		raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % L.rows, L.cols)
+		raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % (L.rows, L.cols))
 	else:
 		n = L.rows
 
diff --git a/fixif/func_aux/mpf_matrix_to_sollya.py b/fixif/func_aux/mpf_matrix_to_sollya.py
index 95fec46..a56658b 100644
--- a/fixif/func_aux/mpf_matrix_to_sollya.py
+++ b/fixif/func_aux/mpf_matrix_to_sollya.py
@@ -24,10 +24,10 @@ def mpf_matrix_to_sollya(A):
 	"""
 
 	if not isinstance(A,mpmath.matrix):
-		raise ValueError('Cannot convert matrix to sollya: expected mpmath.matrix but instead got %s') % type(A)
+		raise ValueError('Cannot convert matrix to sollya: expected mpmath.matrix but instead got %s' % type(A))
 
 	if not isinstance(A[0,0], mpmath.mpf):
-		raise ValueError('Cannot convert matrix to sollya: expected a real matrix but instead got %s') % type(A[0,0])
+		raise ValueError('Cannot convert matrix to sollya: expected a real matrix but instead got %s' % type(A[0,0]))
 
 	#First, we need to get the (long, long) representation of the matrix A
 	#We compute matrices Y and N such that A[i,j] = Y[i,j] * 2 ** N[i,j]
-- 
2.43.0


From dc4c1df8b4bc9bb8729cd7bdb5f0bef14fe493db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 15/67] fix: MPFMatrix.mul_exact: checks and sums over the
 inner dimension

---
 fixif/func_aux/MPFMatrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/func_aux/MPFMatrix.py b/fixif/func_aux/MPFMatrix.py
index 7aa164b..16d73f4 100644
--- a/fixif/func_aux/MPFMatrix.py
+++ b/fixif/func_aux/MPFMatrix.py
@@ -219,11 +219,11 @@ class MPFMatrix(object):
 		# test sizes
 
 
-		if self.rows != other.cols:
+		if self.cols != other.rows:
 			raise ValueError('Cannot compute exact product of two matrices: incorrect sizes.')
 
 		m = self.rows
-		n = self.rows
+		n = self.cols
 		p = other.cols
 
 		C = mpmath.zeros(m, p)
-- 
2.43.0


From b8ea125ed55aa78c2bfad3d37081d4839de09cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 16/67] fix: python2mpf_matrix converts doubles losslessly at
 any working precision

---
 fixif/func_aux/python2mpf_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/func_aux/python2mpf_matrix.py b/fixif/func_aux/python2mpf_matrix.py
index f493d45..c689672 100644
--- a/fixif/func_aux/python2mpf_matrix.py
+++ b/fixif/func_aux/python2mpf_matrix.py
@@ -11,7 +11,7 @@ def python2mpf_matrix(M):
 	Mmp = mp.zeros(n, m)
 	for i in range(0, n):
 		for j in range(0, m):
-			Mmp[i, j] = mp.mpf(M[i, j])
+			Mmp[i, j] = mp.mpmathify(M[i, j])  # lossless, whatever the working precision is
 
 
 	return Mmp
-- 
2.43.0


From dcc56dfc3ba415f46196e4a7bdbd879f3adc7349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 17/67] fix: mp_poly_product accepts one coefficient
 (conversion of a first order dSSmp)

---
 fixif/func_aux/mp_poly_product.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fixif/func_aux/mp_poly_product.py b/fixif/func_aux/mp_poly_product.py
index f268778..b84ff0f 100644
--- a/fixif/func_aux/mp_poly_product.py
+++ b/fixif/func_aux/mp_poly_product.py
@@ -27,14 +27,16 @@ def mp_poly_product(p, j=-1):
 
 	"""
 	degP = len(p)
-	if degP < 2:
+	if degP < 1:
 		raise ValueError('error in polynomial product: empty polynomial')
 	if j == -1:
 		c = mp.matrix([1, p[0]])
 		for i in range(1, degP):
 			c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
 	else:
-		if j == 0:
+		if degP == 1:
+			c = mp.matrix([mpmath.mpf(1)])
+		elif j == 0:
 			c = mp.matrix([1, p[1]])
 			for i in range(2, degP):
 				c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
-- 
2.43.0


From df74955176e6101d581d2733bbdb6f394c103883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 18/67] fix: dSSmp.__sub__ negates the output matrix exactly

---
 fixif/LTI/dSSmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 474a135..73bb7e0 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -265,7 +265,7 @@ class dSSmp(object):
 				D[i, j] = mpmath.fsub(self.D[i, j], S.D[i, j], exact=True)
 		for i in range(0, self.p):
 			for j in range(0, S.n):
-				C[i, j + self.n] = -S.C[i, j]
+				C[i, j + self.n] = mpmath.fneg(S.C[i, j], exact=True)
 
 		return dSSmp(A, B, C, D)
 
-- 
2.43.0


From f9157fc9d9c3fb198186b71a6c32f231375bd142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 19/67] fix: dSSmp.to_dTFmp restores the working precision on
 every exit

---
 fixif/LTI/dSSmp.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 73bb7e0..16218c1 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -290,14 +290,19 @@ class dSSmp(object):
 		"""
 		# converting the dSS matrices to mp type
 
-		oldprec = mpmath.mp.prec
-		mpmath.mp.prec = prec
-
 		from fixif.LTI import dTFmp
 
 		if self.p != 1 or self.q != 1:
 			raise ValueError('dSS: cannot convert a dSSmp to dTFmp for not a SISO system')
 
+		# the working precision is restored, even when the computation fails
+		with mpmath.mp.workprec(prec):
+			b, a = self._num_den(prec)
+
+		return dTFmp(b, a)
+
+	def _num_den(self, prec):
+		"""numerator and denominator of the transfer function, with a working precision of prec bits"""
 		E, V = mpmath.mp.eig(self.A)  # eig returns a list E and a matrix V
 		Cmp = self.C * V
 		Vinv = mpmath.mp.inverse(V)
@@ -329,8 +334,7 @@ class dSSmp(object):
 			a[i, 0] = Q[i, 0].real
 			a[i, 0] = mpmath.fadd(a[i, 0], mpmath.mp.zero, prec=prec)
 
-		mpmath.mp.prec = oldprec
-		return dTFmp(b, a)
+		return b, a
 
 	def WCPGmp(self, delta=2**-53):
 		"""
-- 
2.43.0


From 005dfa844a1ca8feae83a316621d7e318f3b3b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 20/67] fix: dSSmp.simulate uses the given initial state and
 advances the rounded state at each sample

---
 fixif/LTI/dSSmp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 16218c1..d2ecf21 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -433,8 +433,10 @@ class dSSmp(object):
 			raise ValueError('Cannot perform somulation: u is of incorrect size')
 
 		xk = mpmath.mp.zeros(self._n, 1)
-		if x0:
-			if not isinstance(x0, mpmath.matrix):
+		if x0 is not None:
+			if isinstance(x0, mpmath.matrix):
+				xk = x0.copy()
+			else:
 				if isinstance(x0, numpy.matrix):
 					xk = python2mpf_matrix(x0)
 				else:
@@ -464,8 +466,8 @@ class dSSmp(object):
 				yk[:, i] = mpf_matrix_fmul(self._C, xk)
 				yk[:, i] = mpf_matrix_fadd(yk[:, i], mpf_matrix_fmul(self._D, u[:, i]))
 
-			for i in range(0, xk.rows):
-				xk[i, 0] = mpmath.fadd(xkp1[i, 0], mpmath.mp.zero, prec=64, rounding='n')
+				for j in range(0, xk.rows):
+					xk[j, 0] = mpmath.fadd(xkp1[j, 0], mpmath.mp.zero, prec=53, rounding='n')
 
 
 		return yk
-- 
2.43.0


From 684d8eddaf8518018747260e3f55666dacd7a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 21/67] fix: dTFmp normalises numerator and denominator by the
 leading denominator coefficient, without changing its arguments

---
 fixif/LTI/dTFmp.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 4afb131..62877b2 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -48,12 +48,22 @@ class dTFmp(object):
 			raise ValueError('Cannot create a dTFmp pbject: incorrect sizes')
 
 
-		n = a.rows
-		if a[0, 0] != mpmath.mp.one:
+		# the same number of coefficients for the numerator and the denominator (in copies: the arguments are left unchanged)
+		n = max(a.rows, b.rows)
+		num = mpmath.mp.zeros(n, 1)
+		den = mpmath.mp.zeros(n, 1)
+		for i in range(0, b.rows):
+			num[i, 0] = b[i, 0]
+		for i in range(0, a.rows):
+			den[i, 0] = a[i, 0]
+		a0 = den[0, 0]
+		b, a = num, den
+
+		if a0 != mpmath.mp.one:
 			for i in range(0, n):
 				# division cannot be performed exactly but we do it with doubled precision
-				a[i, 0] = mpmath.fdiv(a[i, 0], a[0, 0], prec=a[i, 0]._mpf_[3] * 2)
-				b[i, 0] = mpmath.fdiv(b[i, 0], b[0, 0], prec=b[i, 0]._mpf_[3] * 2)
+				a[i, 0] = mpmath.fdiv(a[i, 0], a0, prec=max(mpmath.mp.prec, a[i, 0]._mpf_[3], a0._mpf_[3]) * 2)
+				b[i, 0] = mpmath.fdiv(b[i, 0], a0, prec=max(mpmath.mp.prec, b[i, 0]._mpf_[3], a0._mpf_[3]) * 2)
 
 		self._order = n - 1
 		self._num = b
-- 
2.43.0


From 75141ede62b12d77d3fc81eb8f1b8c5b762ec94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 22/67] fix: dTFmp.to_dSSmp negates the denominator exactly

---
 fixif/LTI/dTFmp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 62877b2..eb6fda4 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -134,7 +134,8 @@ class dTFmp(object):
 		N = self.order + 1
 
 		A = mpmath.mp.zeros(N - 1, N - 1)
-		A[0, :] = -self.den.transpose()[0, 1:N]
+		for i in range(1, N):
+			A[0, i - 1] = mpmath.fneg(self.den[i, 0], exact=True)
 		for i in range(1, N - 1):
 			A[i, i - 1] = mpmath.mp.one
 		B = mpmath.mp.zeros(N - 1, 1)
-- 
2.43.0


From bb496aaecf2286a700d743a103fbcb1132256cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 23/67] fix: sollya is imported where it is used

---
 fixif/LTI/dSSmp.py                       | 1 +
 fixif/LTI/dTFmp.py                       | 1 +
 fixif/func_aux/mpf_matrix_to_sollya.py   | 2 ++
 fixif/func_aux/sollya_matrix_to_numpy.py | 1 +
 4 files changed, 5 insertions(+)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index d2ecf21..94e6e4d 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -378,6 +378,7 @@ class dSSmp(object):
 
 	def simulate_rounded(self, u, prec=53):
 
+		import sollya
 		# suppose u is a mpmath matrix
 		xk = mpmath.mp.zeros(self._n, 1)
 
diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index eb6fda4..30ac4c5 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -159,6 +159,7 @@ class dTFmp(object):
 		Returns
 		- num, den: (sollya object) numerator and denominator of the transfer function
 		"""
+		import sollya
 		if not self._sollya:
 			tf_num_sollya, len_num, _ = mpf_matrix_to_sollya(self._num)
 			tf_den_sollya, len_den, _ = mpf_matrix_to_sollya(self._den)
diff --git a/fixif/func_aux/mpf_matrix_to_sollya.py b/fixif/func_aux/mpf_matrix_to_sollya.py
index a56658b..ab85a36 100644
--- a/fixif/func_aux/mpf_matrix_to_sollya.py
+++ b/fixif/func_aux/mpf_matrix_to_sollya.py
@@ -34,6 +34,8 @@ def mpf_matrix_to_sollya(A):
 
 	(Y, N) = mpf_matrix_get_representation(A)
 
+	import sollya
+
 	m = A.rows
 	n = A.cols
 	S = list()
diff --git a/fixif/func_aux/sollya_matrix_to_numpy.py b/fixif/func_aux/sollya_matrix_to_numpy.py
index 23b370a..0b72e84 100644
--- a/fixif/func_aux/sollya_matrix_to_numpy.py
+++ b/fixif/func_aux/sollya_matrix_to_numpy.py
@@ -18,6 +18,7 @@ def sollya_matrix_to_numpy(A, m, n):
 	B - numpy matrix
 	"""
 
+	import sollya
 	B = numpy.matrix(numpy.zeros([m,n]))
 	for i in range(0,m):
 		for j in range(0,n):
-- 
2.43.0


From 3314aea3d9bd7a7d797f34c9bb767786837d0c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 24/67] fix: dSSmp.simulate_rounded accepts mpmath inputs and
 fills every output

---
 fixif/LTI/dSSmp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 94e6e4d..f493775 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -384,7 +384,7 @@ class dSSmp(object):
 
 		# xk = mpf_matrix_to_sollya(xk)[0]
 
-		nSimulations = u.shape[1]
+		nSimulations = u.cols if isinstance(u, mpmath.matrix) else u.shape[1]
 		yk = mpmath.mp.zeros(self._p, nSimulations)
 
 		yk_sollya = mpf_matrix_to_sollya(yk)[0]
@@ -397,7 +397,9 @@ class dSSmp(object):
 
 
 			xk = mpmath.matrix([float(sollya.round(mpf_matrix_to_sollya(xkp1)[0][j], prec, sollya.RN)) for j in range(0, self._n)])
-			yk_sollya[i] = sollya.round(mpf_matrix_to_sollya(yk[:, i])[0][0], prec, sollya.RN)
+			yki_sollya = mpf_matrix_to_sollya(yk[:, i])[0]
+			for j in range(0, self._p):  # the p*T outputs are stored row by row
+				yk_sollya[j * nSimulations + i] = sollya.round(yki_sollya[j], prec, sollya.RN)
 
 		return yk_sollya
 
-- 
2.43.0


From 83b7153348314b85b17d7c2925e73dbb626f9f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 25/67] fix: random_Gabarit leaves numpy's global random
 generator alone and accepts seed 0

---
 fixif/LTI/Gabarit.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index eab4c55..7c8a77f 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -20,7 +20,7 @@ from fixif.func_aux import MatlabHelper, isMatlabInstalled
 
 from scipy.signal import iirdesign, freqz
 from numpy import array, pi, log10, infty
-from numpy.random import seed as set_seed, choice, randint, uniform
+from numpy.random import RandomState
 
 import matplotlib.pyplot as plt
 from matplotlib.patches import Rectangle
@@ -461,27 +461,26 @@ def random_Gabarit(form=None, seed=None):
 	- form: (string) {None, ‘lowpass’, ‘highpass’, ‘bandpass’, ‘bandstop’}. Gives the type of filter. If None, the type is randomized
 	- seed: if not None, indicates the seed to use for the random part (in order to be reproductible, the seed is stored in the name of the gabarit)
 	"""
-	# change the seed if asked (otherwise, set the seed)
-	if not seed:
-		set_seed(None)  # (from doc):  If seed is omitted or None, current system time is used
-		seed = randint(0, 16777215)  # between 0 and 2^24-1
-	set_seed(seed)
+	# use the seed asked (otherwise, choose one), without changing the state of numpy's global generator
+	if seed is None:
+		seed = RandomState().randint(0, 16777215)  # between 0 and 2^24-1
+	rng = RandomState(seed)
 
 
 	# choose a form if asked
 	if form is None:
 		# form = choice(("lowpass", "highpass", "bandpass", "bandstop"))
-		form = choice(("lowpass",))
+		form = rng.choice(("lowpass",))
 
-	Fs = randint(500, 100000)
+	Fs = rng.randint(500, 100000)
 
 	# lowpass
 	if form == 'lowpass':
-		Fpass = uniform(0.01, 0.9)*Fs/2  # Wpass between 0.01 and 0.9
-		Fstop = uniform(Fpass, Fs/2)     # Wstop between Wpass and 1
-		gp = uniform(-5, 5)              # upperband for pass in [-5;5]
-		gps = uniform(0.1, 5)            # pass width in [0.1;5]
-		gs = uniform(-80, 2*(gp-gps))   # stop band in [-80 and 2*lowerband]
+		Fpass = rng.uniform(0.01, 0.9)*Fs/2  # Wpass between 0.01 and 0.9
+		Fstop = rng.uniform(Fpass, Fs/2)     # Wstop between Wpass and 1
+		gp = rng.uniform(-5, 5)              # upperband for pass in [-5;5]
+		gps = rng.uniform(0.1, 5)            # pass width in [0.1;5]
+		gs = rng.uniform(-80, 2*(gp-gps))   # stop band in [-80 and 2*lowerband]
 		bands = [(0, Fpass), (Fstop, None)]
 		Gains = [(gp, gp-gps), gs]
 	else:
-- 
2.43.0


From c67952c87eeb9db9b1d08a2f068cbe24a697c46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 26/67] fix: dSS.WCPG_mp restores numpy's print options

---
 fixif/LTI/dSS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index b9582e1..bd3b125 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -17,7 +17,7 @@ __status__ = "Beta"
 
 from copy import copy
 from numpy import empty, float64, identity, dot, array
-from numpy import matrix as mat, set_printoptions
+from numpy import matrix as mat, printoptions
 from numpy import eye, zeros, r_, c_, sqrt
 from numpy.linalg import inv, solve, norm
 from numpy.linalg.linalg import LinAlgError
@@ -374,8 +374,8 @@ class dSS(object):
 				if err == 0:
 					# change numpy display formatter, so that we can display the full coefficient in hex
 					# (equivalent to printf("%a",...) in C)
-					set_printoptions(formatter={'float_kind': lambda x: x.hex()})
-					print(self)
+					with printoptions(formatter={'float_kind': lambda x: x.hex()}):
+						print(self)
 					raise ValueError("WCPG: cannot compute WCPG")
 				self._WCPG = mat(W)
 			except:
-- 
2.43.0


From 628153ba8c8f676ae58e77b6592f06c646101567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 27/67] fix: dSSmp keeps copies of the matrices it is given

---
 fixif/LTI/dSSmp.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index f493775..ec7f731 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -104,10 +104,11 @@ class dSSmp(object):
 		if D.rows != self._p or D.cols != self._q:
 			raise ValueError('Cannot create dSSmp object: incorrect sizes')
 
-		self._A = A
-		self._B = B
-		self._C = C
-		self._D = D
+		# in copies: a later change of the arguments does not change the system
+		self._A = A.copy()
+		self._B = B.copy()
+		self._C = C.copy()
+		self._D = D.copy()
 
 
 
-- 
2.43.0


From 03fe8b5412ddfca2999124bd49ba4cce9d42c73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 28/67] fix: Realization.quantize works with the supported
 numpy and keeps its own exactness flags

---
 fixif/SIF/Realization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization.py b/fixif/SIF/Realization.py
index 0a903eb..f6bda08 100644
--- a/fixif/SIF/Realization.py
+++ b/fixif/SIF/Realization.py
@@ -160,7 +160,8 @@ class Realization(SIF, R_algorithm, R_FxP, R_implementation):
 
 		# copy the realization and quantized the matrix Z
 		R = copy(self)
-		quantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[np.float])
+		R._dZ = self._dZ.copy()
+		quantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[float])
 		R.Z = quantizeMat(R.Z)
 		return R
 
-- 
2.43.0


From dc51f14206006aeb711937911306b7a2b64baf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 29/67] fix: MatlabHelper.double and
 MatlabHelper.MatlabExecutionError refer to names bound in the constructor
 only

---
 fixif/func_aux/MatlabHelper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixif/func_aux/MatlabHelper.py b/fixif/func_aux/MatlabHelper.py
index 7339356..562f1d2 100644
--- a/fixif/func_aux/MatlabHelper.py
+++ b/fixif/func_aux/MatlabHelper.py
@@ -33,6 +33,7 @@ class MatlabHelper(object):
 			from matlab.engine import start_matlab, MatlabExecutionError
 			from matlab import double as matlab_double
 			self._engine = start_matlab()
+			self._double, self._MatlabExecutionError = matlab_double, MatlabExecutionError
 		except ImportError:
 			if raiseError:
 				raise ValueError("Matlab and the matlab python engine are not working correctly (may be not installed")
@@ -50,10 +51,10 @@ class MatlabHelper(object):
 			return getattr(self._engine, name)
 
 	def double(self):
-		return matlab_double
+		return self._double
 
 	def MatlabExecutionError(self):
-		return MatlabExecutionError
+		return self._MatlabExecutionError
 
 
 def isMatlabInstalled():
-- 
2.43.0


From 96b4045458c4bb51f704731c269443b080434fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 30/67] fix: Simulink Sif.reorganize stops through sys, which
 was not imported

---
 fixif/Structures/Simulink/sif.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 3dd2960..0b94eb3 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -14,6 +14,7 @@ __email__ = "thibault.hilaire@lip6.fr"
 __status__ = "Beta"
 
 
+import sys
 from fixif.Structures.Simulink.diagram import Equation
 
 class Sif(object):
-- 
2.43.0


From 2cd8b7e77ec96b9b7ecf207be493620c94671a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 31/67] fix: word-length optimizations call computeNaiveMSB,
 not the undefined _computeNaiveMSB

---
 fixif/SIF/Realization_FxP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index d3b08ee..8b4e23c 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -115,7 +115,7 @@ class R_FxP:
 			return d
 
 		# determining the MSB and w_tilde
-		m_tilde = matrix(self._computeNaiveMSB(u_bar)).transpose()
+		m_tilde = matrix(self.computeNaiveMSB(u_bar)).transpose()
 		w_tilde = matrix(self._w_tilde(u_bar)).transpose()
 
 		# error
@@ -150,7 +150,7 @@ class R_FxP:
 		wmax = wmax * ones((self.l + self.n + self.p, 1))
 
 		# determining the MSB
-		m_tilde = matrix(self._computeNaiveMSB(u_bar)).transpose()
+		m_tilde = matrix(self.computeNaiveMSB(u_bar)).transpose()
 		w_tilde = matrix(self._w_tilde(u_bar)).transpose()
 
 		# error
-- 
2.43.0


From ff9ca7cbb332a25e49e039d9ca391b7c6cf0c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 32/67] fix: C code with one state uses xk[0], xk being a
 pointer

---
 fixif/SIF/Realization_implementation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index cbc232d..b56f0e5 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -83,7 +83,7 @@ class R_implementation:
 		# input(s), output(s), states, intermediate variables
 		strU = genCvarNames('u', q)
 		strY = genCvarNames('y', p)
-		strXk = genCvarNames('xk', n)
+		strXk = ['xk[%d]' % (i,) for i in range(n)]     # the states are always given by a pointer, even when there is only one
 		strXkp = ['x%d_kp1' % (i,) for i in range(n)]
 		strT = ['T%d' % (i,) for i in range(l)]
 
-- 
2.43.0


From 961d089c975d3aa65076de30943dbf7a57124a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 33/67] fix: makeCdouble declares the type returned by the C
 function (an int otherwise)

---
 fixif/SIF/Realization_implementation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index b56f0e5..48e28d3 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -173,6 +173,7 @@ class R_implementation:
 
 		# use ctype
 		self._Cdouble = CDLL(GENERATED_PATH + 'runC.so').implementCdouble
+		self._Cdouble.restype = c_double if self.p == 1 else None
 		if self.p == 1:
 			self._Cdouble.argtypes = (c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
 		else:
-- 
2.43.0


From b7b9179e810d6ffc1094d2e9998fd8d7a09f9962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 34/67] fix: runCdouble runs the C function for several inputs
 or outputs too (it returned zeros)

---
 fixif/SIF/Realization_implementation.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index 48e28d3..86494bf 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -12,7 +12,7 @@ __status__ = "Beta"
 
 
 from jinja2 import Environment, FileSystemLoader
-from numpy import tril, all, zeros, matrix as mat
+from numpy import tril, all, zeros, array, matrix as mat
 from datetime import datetime
 from subprocess import Popen, PIPE
 from ctypes import CDLL, POINTER, c_double
@@ -205,7 +205,18 @@ class R_implementation:
 		y = zeros((self._p, N))
 
 		# loop to compute the outputs
-		if self.p == 1 and self.q == 1:
-			for i in range(N):
-				y[:, i] = self._Cdouble(u[:, i], px)
+		for i in range(N):
+			# input(s) of the C function: a double, or an array of doubles
+			if self.q == 1:
+				ui = c_double(u[0, i])
+			else:
+				uk = array(u[:, i], dtype=float).flatten()
+				ui = uk.ctypes.data_as(POINTER(c_double))
+			# output(s) of the C function: returned, or written in an array of doubles
+			if self.p == 1:
+				y[0, i] = self._Cdouble(ui, px)
+			else:
+				yk = zeros(self.p)
+				self._Cdouble(yk.ctypes.data_as(POINTER(c_double)), ui, px)
+				y[:, i] = yk
 		return y
\ No newline at end of file
-- 
2.43.0


From 0751dd42b27b4a2a4a61069bc29daa5ee0176ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 35/67] fix: makeCdouble loads the library it has just
 compiled, not the one of a previous realization

---
 fixif/SIF/Realization_implementation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index 86494bf..082cfce 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -16,6 +16,8 @@ from numpy import tril, all, zeros, array, matrix as mat
 from datetime import datetime
 from subprocess import Popen, PIPE
 from ctypes import CDLL, POINTER, c_double
+from os import remove
+from uuid import uuid4
 import numpy
 
 
@@ -163,8 +165,9 @@ class R_implementation:
 
 		print("Compiling runC.c")
 
-		# compile it
-		proc = Popen("cd " + GENERATED_PATH + "&& cc -Wall -fPIC -shared -o runC.so runC.c ", stderr=PIPE, shell=True)
+		# compile it (with a new library name each time, because a library that is already loaded is not loaded again)
+		libName = 'runC_%s.so' % uuid4().hex
+		proc = Popen("cd " + GENERATED_PATH + "&& cc -Wall -fPIC -shared -o " + libName + " runC.c ", stderr=PIPE, shell=True)
 		# check the output and print it
 		line = 'non-empty'
 		while line:
@@ -172,7 +175,8 @@ class R_implementation:
 			print(line[:-1])		# TODO: log it somewhere ?
 
 		# use ctype
-		self._Cdouble = CDLL(GENERATED_PATH + 'runC.so').implementCdouble
+		self._Cdouble = CDLL(GENERATED_PATH + libName).implementCdouble
+		remove(GENERATED_PATH + libName)    # not needed anymore, once loaded
 		self._Cdouble.restype = c_double if self.p == 1 else None
 		if self.p == 1:
 			self._Cdouble.argtypes = (c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
-- 
2.43.0


From d15897d1db6655ba4ae482f41e92e105fc2f3e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 36/67] fix: SoP.__str__ gives its format as the format of the
 coefficients, not as the assignment

---
 fixif/SoP/SoP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SoP/SoP.py b/fixif/SoP/SoP.py
index 16ee774..e0c46d1 100644
--- a/fixif/SoP/SoP.py
+++ b/fixif/SoP/SoP.py
@@ -83,4 +83,4 @@ class SoP:
 
 	def __str__(self):
 		"""display the SoP"""
-		return self.toAlgoStr('%4f')
+		return self.toAlgoStr(coefFormat='%4f')
-- 
2.43.0


From fdee61281c15aa16c859b67a1831c937caae9cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 37/67] fix: SoP.toAlgoStr displays integer coefficients too
 (int has no method hex)

---
 fixif/SoP/SoP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SoP/SoP.py b/fixif/SoP/SoP.py
index e0c46d1..ceddf69 100644
--- a/fixif/SoP/SoP.py
+++ b/fixif/SoP/SoP.py
@@ -69,7 +69,7 @@ class SoP:
 			elif co == -1:
 				dp.append('-' + var)
 			elif co:
-				dp.append((coefFormat % (co,) if coefFormat else co.hex()) + '*' + var)
+				dp.append((coefFormat % (co,) if coefFormat else float(co).hex()) + '*' + var)
 
 		S = " + ".join(dp)
 		if S == "":
-- 
2.43.0


From 29e25b00402189da92e523822367bdd028b3a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 38/67] fix: _algorithmCore refuses surnames with time without
 time for the states too

---
 fixif/SIF/Realization_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_algorithms.py b/fixif/SIF/Realization_algorithms.py
index b6e43f6..c0d1497 100644
--- a/fixif/SIF/Realization_algorithms.py
+++ b/fixif/SIF/Realization_algorithms.py
@@ -108,7 +108,7 @@ class R_algorithm:
 		if withSurname and not withTime:
 			# it raises an error only when at least one VarName has a surname with time (with shift != 0)
 			v = [v for v in self._varNameT if v.hasSurnameWithIndex()]
-			v.extend([v for v in self._varNameT if v.hasSurnameWithIndex()])
+			v.extend([v for v in self._varNameX if v.hasSurnameWithIndex()])
 			if len(v) > 0:
 				raise ValueError("algorithmTxt: wichSurname=True and withTime=False are incoherent")
 
-- 
2.43.0


From c01b0cb8f378e14db380e9fc51813c70af9b12f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:21 +0000
Subject: [PATCH 39/67] fix: algorithmTxt without time copies back the states
 computed aside

---
 fixif/SIF/Realization_algorithms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fixif/SIF/Realization_algorithms.py b/fixif/SIF/Realization_algorithms.py
index c0d1497..8576131 100644
--- a/fixif/SIF/Realization_algorithms.py
+++ b/fixif/SIF/Realization_algorithms.py
@@ -93,6 +93,13 @@ class R_algorithm:
 			if self._l > 0:
 				algoStr.insert(0, "/ Temporary variables /" if self._l > 1 else "/ Temporary variable /")
 
+		# the states computed aside are copied back
+		if not withTime and self.isPnut():
+			if comments:
+				algoStr.append("/ Swap states /")
+			for v in self._varNameX:
+				algoStr.append("%s <- %s" % tuple(v.toStr(withTime=False, withSurname=withSurname, suffix=suffix) for suffix in ('', 'p')))
+
 		return "\n".join(algoStr)
 
 
-- 
2.43.0


From 431e23a880769414c356bfa77ecd609d9552aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 40/67] fix: Band.__sub__ keeps a stop band at 0 dB (its gain
 was lost)

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 7c8a77f..52973fa 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -102,7 +102,7 @@ class Band(object):
 	def __sub__(self, other):
 		"""Substract a Band and a Gain"""
 		try:
-			stopGain = self._stopGain-other if self._stopGain else None
+			stopGain = self._stopGain-other if self._stopGain is not None else None
 			passGains = (self._passGains[0]-other, self._passGains[1]-other) if self._passGains else None
 		except Exception:
 			raise ValueError("The gain should be a constant")
-- 
2.43.0


From ad24b626e153284f8031f9bd79e44cba3a14f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 41/67] fix: Gabarit.to_dTF compares the two pass bands of a
 bandstop (the first was compared with itself)

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 52973fa..77367b8 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -314,7 +314,7 @@ class Gabarit(object):
 			pass1b, stopb, pass2b = bands
 			matlabParams = [pass1b.w2, stopb.w1, stopb.w2, pass2b.w1, -pass1b.passGains[0], -stopb.stopGain, -pass2b.passGains[0]]
 			scipyParams = [[pass1b.w2, pass2b.w1], [stopb.w1, stopb.w2], -pass1b.passGains[0], -stopb.stopGain]
-			if not matlabEng and pass1b.passGains[0] != pass1b.passGains[0]:
+			if not matlabEng and pass1b.passGains[0] != pass2b.passGains[0]:
 					raise ValueError("Scipy cannot handle bandstop when the two pass bands have different gains")
 
 
-- 
2.43.0


From e4e33cbbdb7ac86fc170b090e43207ad4d9d6e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 42/67] fix: findMaxIssue measures a gain below its band from
 the lower bound of the band

---
 fixif/LTI/Gabarit.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 77367b8..18247aa 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -505,9 +505,7 @@ def findMaxIssue(res):
 				H = dict(i)["H"]
 				betaInf = dict(dict(i)["specification"])["betaInf"]
 				betaSup = dict(dict(i)["specification"])["betaSup"]
-				if sollya.inf(H) > betaSup:
-					maxError = sollya.max(maxError, sollya.sup(H) - betaSup)
-				else:
-					maxError = sollya.max(maxError, betaSup - sollya.inf(H))
+				# distance to the interval [betaInf, betaSup], on both sides
+				maxError = sollya.max(maxError, sollya.sup(H) - betaSup, betaInf - sollya.inf(H))
 
 	return maxError
-- 
2.43.0


From b83ce93a3cccdfef6a6fcd6874b99d6701f15ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 43/67] fix: Sollya is declared ready only when it is (the
 second call did not fail without Sollya)

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 18247aa..4f099d1 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -188,12 +188,12 @@ class Gabarit(object):
 		"""load gabarit.sol and check if ready/ok"""
 
 		if not Gabarit.isSollyaRunning:
-			Gabarit.isSollyaRunning = True
 			try:
 				sollya.suppressmessage(57, 174, 130, 457)
 				sollya.execute("fixif/LTI/gabarit.sol")
 			except NameError:
 				raise ValueError("Sollya and SollyaPython are not installed !")
+			Gabarit.isSollyaRunning = True
 
 
 
-- 
2.43.0


From 026c42ebc6b9cdf3efabc2580ba64ad81cb3f655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 44/67] fix: gabarit.sol is found from any working directory

---
 fixif/LTI/Gabarit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 4f099d1..5cfc161 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -21,6 +21,7 @@ from fixif.func_aux import MatlabHelper, isMatlabInstalled
 from scipy.signal import iirdesign, freqz
 from numpy import array, pi, log10, infty
 from numpy.random import RandomState
+from os import path
 
 import matplotlib.pyplot as plt
 from matplotlib.patches import Rectangle
@@ -190,7 +191,7 @@ class Gabarit(object):
 		if not Gabarit.isSollyaRunning:
 			try:
 				sollya.suppressmessage(57, 174, 130, 457)
-				sollya.execute("fixif/LTI/gabarit.sol")
+				sollya.execute(path.join(path.dirname(path.abspath(__file__)), "gabarit.sol"))
 			except NameError:
 				raise ValueError("Sollya and SollyaPython are not installed !")
 			Gabarit.isSollyaRunning = True
-- 
2.43.0


From a1cf3a48e68d1a8b41ce1598b689d085145d20eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 45/67] fix: wcpg.sol is found from any working directory (its
 path named another package)

---
 fixif/LTI/dSSmp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index ec7f731..80ad067 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -10,6 +10,8 @@ __maintainer__ = "Anastasia Volkova"
 __email__ = "Anastasia.Volkova@lip6.fr"
 __status__ = "Beta"
 
+from os import path
+
 import mpmath
 import numpy
 
@@ -360,7 +362,7 @@ class dSSmp(object):
 
 		# load gabarit.sol
 		# sollya.suppressmessage(57, 174, 130, 457)
-		sollya.execute("fipogen/LTI/wcpg.sol")
+		sollya.execute(path.join(path.dirname(path.abspath(__file__)), "wcpg.sol"))
 
 		wcpg = sollya.parse("wcpg")
 
-- 
2.43.0


From 9ce012866a70ce7fbdd487141ae96d576fd1f0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 46/67] fix: the AMPL data of a one-row matrix have two indices
 (E has two indices in the model, even with one output)

---
 fixif/SIF/Realization_FxP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index 8b4e23c..d8f314e 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -29,8 +29,8 @@ def generateAMPLParam(name, val, format="%f"):
 	"""
 	if isinstance(val, int):
 		return "param %s := %d;" % (name, val)
-	if val.shape[0] == 1 or val.shape[1] == 1:
-		# 1d vector
+	if val.shape[1] == 1:
+		# 1d (column) vector
 		return "param %s := \n%s;" % (name, "\n".join(("%d "+format) % (i[0]+1, wm) for i, wm in ndenumerate(val)))
 	else:
 		# 2d array
-- 
2.43.0


From 2ca8842a29900fed2d4060a857a2ef08739aadbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 47/67] fix: optimalUniformWL and optimalWL accept negative
 most significant bits (integers cannot be raised to negative powers)

---
 fixif/SIF/Realization_FxP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index d8f314e..52949c2 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -120,7 +120,7 @@ class R_FxP:
 
 		# error
 		Weps = self.Hepsilon.WCPG()
-		E = multiply(Weps, kron(ones((self.p, 1)), power(2, m_tilde.transpose())))
+		E = multiply(Weps, kron(ones((self.p, 1)), power(2., m_tilde.transpose())))
 
 		# determining the minimal word-length with uniform scheme
 		w_guess = int(max(ceil(log2(E * ones((self.l + self.n + self.p, 1))) - log2(eps)))[0, 0])
@@ -155,7 +155,7 @@ class R_FxP:
 
 		# error
 		Weps = self.Hepsilon.WCPG()
-		E = multiply(Weps, kron(ones((self.p, 1)), power(2, m_tilde.transpose())))
+		E = multiply(Weps, kron(ones((self.p, 1)), power(2., m_tilde.transpose())))
 
 		# generate the .dat file
 		AMPLcode = {
-- 
2.43.0


From a1d541dee7dcecb2377ad4ac0000b47f828e9199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 48/67] fix: fix: _compute_LSB computes the correction terms
 g_i from the gains only (the error of the outputs was above the budget for
 positive LSBs)

---
 fixif/SIF/Realization_FxP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index 52949c2..654e000 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -205,7 +205,7 @@ class R_FxP:
 		# where the correction term g_i is computed via
 		# g_i = 1 + max_j { ceil( log2 ( c * wcpgDeltaH[j, i] ) )}
 
-		g = bmat([1 + max(ceil(log2(c * wcpgDeltaH[:, i] * 2**-l_y_out))) for i in range(0, c)])
+		g = bmat([1 + max(ceil(log2(c * wcpgDeltaH[:, i]))) for i in range(0, c)])
 
 		# the error budget for the output y(k) that will be later passed on to FloPoCo
 		error_budget_y = 2**-ceil(log2(c * wcpgDeltaH[0, c-1] * 2**-l_y_out))/2**(l_y_out+1)
-- 
2.43.0


From a39db894d2935e68928efc96484e405ee469d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 49/67] fix: random filters accept a null seed and no seed (0
 was ignored, and None could not be put in the name)

---
 fixif/LTI/Butter.py   | 4 ++--
 fixif/LTI/Elliptic.py | 4 ++--
 fixif/LTI/Filter.py   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index 8862413..9337727 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -88,7 +88,7 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		- seed: if not None, indicates the seed toi use for the random part (in order to be reproductible, the seed is stored in the name of the filter)
 	"""
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 	# choose a form if asked
 	if form is None:
@@ -111,4 +111,4 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 	if onlyEven and order % 2 == 0:
 		order += 1
 
-	return Butter(order, W, form, name='Butterworth-random-%d' % seed)
+	return Butter(order, W, form, name='Butterworth-random-%d' % seed if seed is not None else 'Butterworth-random')
diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index b1243ca..d813151 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -99,7 +99,7 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		- seed: if not None, indicates the seed toi use for the random part (in order to be reproductible, the seed is stored in the name of the filter)
 	"""
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 	# choose a form if asked
 	if form is None:
@@ -129,7 +129,7 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		if isinstance(W, list):
 			W = [quantify(W[0], quant), quantify(W[1], quant)]
 
-	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random-%d' % seed)
+	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random-%d' % seed if seed is not None else 'Elliptic-random')
 
 
 
diff --git a/fixif/LTI/Filter.py b/fixif/LTI/Filter.py
index b4aebc7..2c39c1e 100644
--- a/fixif/LTI/Filter.py
+++ b/fixif/LTI/Filter.py
@@ -233,7 +233,7 @@ def random_Filter(n=10, p=5, q=5, seed=None, name=None):
 		else:
 			raise ValueError("randomFilter: the string should be a valid string, ie be like 'RandomFilter-7/1/4-12345678'")
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 		name = 'RandomFilter-%d/%d/%d-%d' % (n, p, q, seed) 	# for example 'RandomFilter-(5,10)/(1,2)/(1,10)-12345678' for a MISO filter (#states between 5 and 10, #inputs between 1 and 10), seed=12345678)
 	else:
-- 
2.43.0


From e679d30c01dd6916bf4cf3068b0c3d54e700052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 50/67] fix: the text of a gabarit shows a null seed

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 5cfc161..bf757ab 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -225,7 +225,7 @@ class Gabarit(object):
 		self._seed = seed
 
 	def __str__(self):
-		seed = "Seed=%s\n" % (self._seed,) if self._seed else ""
+		seed = "Seed=%s\n" % (self._seed,) if self._seed is not None else ""
 		return "%sType: %s (Fs=%sHz)\n%s" % (seed, self.type, self._Fs, "\n".join(str(b) for b in self._bands))
 
 	@property
-- 
2.43.0


From f4fbde273976fc407c16b021e4464a0972d405b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 51/67] fix: iter_random_Filter chooses a type for each filter,
 not once for all of them

---
 fixif/LTI/Filter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/Filter.py b/fixif/LTI/Filter.py
index 2c39c1e..346310f 100644
--- a/fixif/LTI/Filter.py
+++ b/fixif/LTI/Filter.py
@@ -196,11 +196,11 @@ def iter_random_Filter(number, n=(5, 10), p=(1, 5), q=(1, 5), seeded=True, ftype
 	seeds = [randint(0, 1e9) if seeded else None for _ in range(number)]  # generate a particular seed for each random dSS, or None (if seeded is set to False)
 
 	for s in seeds:
-		if ftype not in pq.keys():
-			ftype = choice(list(pq.keys()))
+		# for 'all', a type is chosen for each filter
+		ft = ftype if ftype in pq.keys() else choice(list(pq.keys()))
 		nn = randint(*n)
-		pp = randint(*pq[ftype][0])
-		qq = randint(*pq[ftype][1])
+		pp = randint(*pq[ft][0])
+		qq = randint(*pq[ft][1])
 		yield random_Filter(n=nn, p=pp, q=qq, seed=s)
 
 
-- 
2.43.0


From a575440c1880ca94c024a3d0f64b2819e6de4ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 52/67] fix: random_Elliptic quantizes the cut frequency of
 lowpass and highpass filters too

---
 fixif/LTI/Elliptic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index d813151..e640aee 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -128,6 +128,8 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		rst = quantify(rst, quant)
 		if isinstance(W, list):
 			W = [quantify(W[0], quant), quantify(W[1], quant)]
+		else:
+			W = quantify(W, quant)
 
 	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random-%d' % seed if seed is not None else 'Elliptic-random')
 
-- 
2.43.0


From a1da08047e863796aae3807b6ab314ac0ffaa54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 53/67] fix: random_Butter with onlyEven gives even orders, in
 the range asked

---
 fixif/LTI/Butter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index 9337727..35678a5 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -108,7 +108,7 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		W = (Wc[1] - Wc[0]) * random_sample() + Wc[0]
 	# choose order
 	order = randint(*n)
-	if onlyEven and order % 2 == 0:
-		order += 1
+	if onlyEven and order % 2 == 1:
+		order += -1 if order > n[0] else 1		# stay in the range
 
 	return Butter(order, W, form, name='Butterworth-random-%d' % seed if seed is not None else 'Butterworth-random')
-- 
2.43.0


From 1202a8914afec343b3d8a39ce84ee024c001cd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 54/67] fix: random transfer functions have the order asked
 (n+1 coefficients)

---
 fixif/LTI/dTF.py   | 4 ++--
 fixif/LTI/dTFmp.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 08822a9..43e8ed8 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -295,8 +295,8 @@ def random_dTF(order=(5, 10)):
 		n = order[0]
 	else:
 		n = randint(*order)
-	num = mat(rand(1, n))
-	den = mat(rand(1, n))
+	num = mat(rand(1, n+1))
+	den = mat(rand(1, n+1))
 	return dTF(num, den)
 
 
diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 30ac4c5..150dd2b 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -203,8 +203,8 @@ def random_dTFmp(order=(5, 10)):
 		n = order[0]
 	else:
 		n = randint(*order)
-	num = numpy.matrix(rand(1, n))
-	den = numpy.matrix(rand(1, n))
+	num = numpy.matrix(rand(1, n+1))
+	den = numpy.matrix(rand(1, n+1))
 	return dTFmp(num, den)
 
 
-- 
2.43.0


From 5b49905283c459ed56ce719cce0c060fe2417f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 55/67] fix: random_dSS retries the masks that remove
 everything (and only them), and applies the mask of D

---
 fixif/LTI/dSS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index bd3b125..056a0c1 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -888,12 +888,12 @@ def random_dSS(n, p, q, pRepeat=0.01, pReal=0.5, pBCmask=0.90, pDmask=0.8, pDzer
 	# Make masks to zero out some of the elements.
 	while True:
 		Bmask = rand(n, q) < pBCmask
-		if not Bmask.all():  # Retry if we get all zeros.
+		if Bmask.any():  # Retry if we get all zeros.
 			break
 
 	while True:
 		Cmask = rand(p, n) < pBCmask
-		if not Cmask.all():  # Retry if we get all zeros.
+		if Cmask.any():  # Retry if we get all zeros.
 			break
 
 	if rand() < pDzero:
@@ -902,14 +902,14 @@ def random_dSS(n, p, q, pRepeat=0.01, pReal=0.5, pBCmask=0.90, pDmask=0.8, pDzer
 	else:
 		while True:
 			Dmask = rand(p, q) < pDmask
-			if not Dmask.all():  # Retry if we get all zeros.
+			if Dmask.any():  # Retry if we get all zeros.
 				break
 
 
 	# Apply masks.
 	B *= Bmask
 	C *= Cmask
-	# D *= Dmask
+	D *= Dmask
 
 	return dSS(A, B, C, D)
 
-- 
2.43.0


From 52215d7af22739633623f5723046f24b1365d66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 56/67] fix: iter_random_dSS accepts one input or one output
 given as 1, as documented

---
 fixif/LTI/dSS.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 056a0c1..35aaf7c 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -776,15 +776,13 @@ def iter_random_dSS(number, stable=True, n=(5, 10), p=(1, 5), q=(1, 5),
 	"""
 	for i in range(number):
 		if stable:
-			yield random_dSS(randint(*n), randint(*p), randint(*q), pRepeat, pReal, pBCmask, pDmask, pDzero)
+			pp = 1 if p == 1 else randint(*p)
+			qq = 1 if q == 1 else randint(*q)
+			yield random_dSS(randint(*n), pp, qq, pRepeat, pReal, pBCmask, pDmask, pDzero)
 		else:
 			nn = randint(*n)
-			if p == 1 and q == 1:
-				pp = 1
-				qq = 1
-			else:
-				pp = randint(*p)
-				qq = randint(*q)
+			pp = 1 if p == 1 else randint(*p)
+			qq = 1 if q == 1 else randint(*q)
 			A = mat(rand(nn, nn))
 			B = mat(rand(nn, qq))
 			C = mat(rand(pp, nn))
-- 
2.43.0


From f73f9df779d718fe1c87bb8620f11d0db6bbc73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 57/67] fix: random band filters draw both frequencies again
 (no second frequency could be above the first one)

---
 fixif/LTI/Butter.py   | 1 +
 fixif/LTI/Elliptic.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index 35678a5..b916b7a 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -101,6 +101,7 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
 		Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
 		while Wn2 <= Wn1:
+			Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
 			Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
 		W = [Wn1, Wn2]
 	else:
diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index e640aee..43f2cdd 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -112,6 +112,7 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
 		Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
 		while Wn2 <= Wn1:
+			Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
 			Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
 		W = [Wn1, Wn2]
 	else:
-- 
2.43.0


From f24d66c5866444c1b17d11a0d083e396355d4b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:28 +0000
Subject: [PATCH 58/67] fix: dSS.simplify removes the states that stay at zero,
 and only them (it looped for ever on singular matrices without zero rows, and
 lost one delay)

---
 fixif/LTI/dSS.py | 74 +++++++++++-------------------------------------
 1 file changed, 17 insertions(+), 57 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 35aaf7c..d717778 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -559,83 +559,43 @@ class dSS(object):
 
 	def simplify(self):
 		"""
-		This function tries to simplify the state-space msystem.
-		It may occur that matrix A contains one or several rows that contain only zeros.
-		In this case we have that the corresponding state-space variable depends only on
-		the term B[i,:]*u(k):
-		x1(k+1) = A[1,:] * x(k) +  B[1,:]*u(k)
-		..
-		xi(k+1) = B[i,:]*u(k)
-		...
-		y(k) = C * x(k) + D * u(k)
-
-		Then, we can re-write
+		This function tries to simplify the state-space system.
+		It may occur that, for a given state, the corresponding rows of matrices A and B contain only zeros.
+		In this case this state stays equal to zero:
 		x1(k+1) = A[1,:] * x(k) +  B[1,:]*u(k)
 		..
 		xi(k+1) = 0
 		...
-		y(k) = C * x(k) + C[:,i]*(B[i,:]*u(k)) + D * u(k)
+		y(k) = C * x(k) + D * u(k)
 
-		or in matrix form:
+		Then, the state can be removed:
 
 			A' is the matrix A with column i and row i deleted
+			B' is the matrix B with row i deleted
 			C' is the matrix C with column i deleted
 
 			then,
 
-			x(k+1) = A' * x(k) + B * u(k)
-			y(k)   = C' * x(k) + (D + C[:, i] * B[i,:]) * u(k)
+			x(k+1) = A' * x(k) + B' * u(k)
+			y(k)   = C' * x(k) + D * u(k)
+
+		(and it is done again until there is no such state, because the removal of a state may cancel a row of A)
 
 		Returns
 		-------
+		a new dSS (or self when there is nothing to remove)
 
 		"""
-
-
-
-
 		newS = self
-
-		while newS.n > numpy.linalg.matrix_rank(newS._A):
-			l = list()
-			for i in range(0, newS.n):
-				if numpy.count_nonzero(newS._A[i, :]) == 0:
-					l.append(i)
-
-			A = newS._A
-			B = newS._B
-			C = newS._C
-			D = newS._D
-
-
-			while len(l) > 0:
-				index = l.pop()
-
-				A = numpy.delete(A, index, 1)
-				A = numpy.delete(A, index, 0)
-
-				D = D + C[:, index] * B[index, :]
-
-				C = numpy.delete(C, index, 1)
-
-				B = numpy.delete(B, index, 0)
-
-
-			newS = dSS(A, B, C, D)
-
-			print("number of states: %d \n rank: %d " % (newS.n, numpy.linalg.matrix_rank(newS._A)))
+		while newS.n > 0:
+			# states that are not always equal to zero
+			l = [i for i in range(newS.n) if numpy.any(newS._A[i, :]) or numpy.any(newS._B[i, :])]
+			if len(l) == newS.n:
+				break
+			newS = dSS(newS._A[l, :][:, l], newS._B[l, :], newS._C[:, l], newS._D)
 
 		return newS
 
-
-
-
-
-
-
-
-
-
 	def assert_close(self, other, eps=1e-5):
 		"""
 		Check if two dSS are almost equal
-- 
2.43.0


From d86d6c0f71d73cb4c67fe1f2d25e54cbfc906829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 59/67] fix: Simulink import adds the contributions of a block
 that feeds several ports of the same block

---
 fixif/Structures/Simulink/diagram.py | 31 ++++++++++++++--------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 146698e..f89c490 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -219,24 +219,19 @@ class System(object):
 		equations = []
 		for bsid in self.blocks.keys(): 
 			neweq = Equation(bsid)
+			curblock = self.blocks[bsid]
 			# we list here all inputs blocks for a given block
-			neweq.termes = dict((block.sid, 1.0) for block in self.blocks[bsid].inlist.values()) # python2.6
+			for pi, bi in curblock.inlist.items(): # inlist = {porti:blocki} : block feeding the given input port
+				coeff = 1.0
+				# for a gain block : give right coeff for all inputs
+				if curblock.type == 'Gain':
+					coeff = curblock.gain
+				# sum sign handling
+				# affect -1.0 to coeff if the sign corresponding to input block is '-'
+				if curblock.type == 'Sum' and curblock.inportsign[int(pi)-1] == '-': # port number start on '1'
+					coeff = 0 - 1.0
+				neweq.add(bi.sid, coeff) # the same block may feed several ports
 
-			# for a gain block : give right coeff for all inputs
-			#  bi : input block / termes[bi]: bi coeff
-			if self.blocks[bsid].type == 'Gain': 
-				for bisid in neweq.termes.keys():
-					neweq.termes[bisid] = self.blocks[bsid].gain 
-			
-			# sum sign handling
-			# affect -1.0 to coeff if the sign corresponding to input block is '-'
-			if self.blocks[bsid].type == 'Sum':
-				curblock = self.blocks[bsid]
-				for pi in curblock.inlist.keys():
-					if curblock.inportsign[int(pi)-1] == '-': # port number start on '1'
-						bi = curblock.inlist[pi] # inlist = {porti:blocki} : block feeding the given input port 
-						neweq.termes[bi.sid] = 0 - 1.0 
-			
 				
 			if self.blocks[bsid].type != 'Inport':
 				equations.append(neweq)
@@ -386,6 +381,10 @@ class Equation(object):
 		self.out = eqid
 		self.termes = {}
 
+	def add(self, bsid, coeff):
+		"""Add coeff*bsid to the terms of the equation"""
+		self.termes[bsid] = self.termes.get(bsid, 0.0) + coeff
+
 	def __str__(self):
 		return str(self.out) + "-" + str(self.termes)
 
-- 
2.43.0


From c82f666f4ca710acfa02a67d6df2566a11aa285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 60/67] fix: Simulink import keeps the terms that both merged
 sums have in common

---
 fixif/Structures/Simulink/diagram.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index f89c490..aff3e33 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -243,20 +243,18 @@ class System(object):
 			Must be called N times if there is N cascading addition"""
 		# Important : Must be called before expandeqgain : to detect only the direct connected Sum
 		# ( merge is handled in equations list) 
-		for eq in self.equations:
+		for eq in list(self.equations): # a copy of the list: the merged equations are removed during the iteration
 			bout = self.getblockbysid(eq.out)
-			if bout.type == 'Sum':
+			if bout.type == 'Sum' and eq in self.equations:
 				for inp in list(eq.termes): # a copy of the dict key / dict is changing during iteration
 					inpb =  self.getblockbysid(inp)
-					inpcoeff = eq.termes[inp]
-					assert abs(inpcoeff) == 1.0 # Sum have no gain
-					if inpb.type == 'Sum' and len(inpb.outlist) == 1: # merge if it's not used somewhere else
-						# handle here sum sign propagation: coeff2*inpcoeff  
-						d = dict((inp2, coeff2*inpcoeff) for (inp2,coeff2) in self.getequation(inp).termes.items())
-						eq.termes.update(d)
-						del eq.termes[inp]
-
+					# merge if it's not used somewhere else
+					if inpb.type == 'Sum' and inp != eq.out and len(inpb.outlist) == 1:
+						# handle here sum sign propagation: coeff2*inpcoeff
+						inpcoeff = eq.termes.pop(inp)
 						subequa = self.getequation(inp)
+						for inp2, coeff2 in subequa.termes.items():
+							eq.add(inp2, coeff2*inpcoeff) # eq may already depend on inp2
 						self.equations.remove(subequa)
 
 
-- 
2.43.0


From 730cf8df953c724eb031f2f090c2f9111b275b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 61/67] fix: Simulink import puts the gains (cascaded or not)
 in the equations, and does not change a dictionary while it iterates on it

---
 fixif/Structures/Simulink/diagram.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index aff3e33..0ec1fa0 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -260,21 +260,20 @@ class System(object):
 
 	def expandeqgain(self):
 		"""Put gain as Sum coefficient"""
-		# It will act on  Sum bloc equation
-		# now, we assume there is no cascading gain block
-		# and gain will always be before Sum block
-		#
-		# ? keep cascading gain block : test if the current block is a sum
-		# 								and create also an inter var for upstream gain block
+		# a cascade of n gains needs n passes
+		for _ in range(len(self.getblocksbytype('Gain'))):
+			for eq in self.equations:
+				for eqin in list(eq.termes): # a copy of the dict keys: the dict is changing during iteration
+					if self.blocks[eqin].type == 'Gain':
+						gaintermes = list(self.getequation(eqin).termes.items())
+						oldgain = eq.termes.pop(eqin)
+						for gin, coeff in gaintermes:
+							eq.add(gin, coeff * oldgain) # eq may already depend on gin
+		# only a loop of gains is still there
 		for eq in self.equations:
 			for eqin in eq.termes:
 				if self.blocks[eqin].type == 'Gain':
-					oldgain = eq.termes[eqin]	
-					del eq.termes[eqin] 
-
-					gaineq = self.getequation(eqin)
-					for gin in gaineq.termes:
-						eq.termes[gin] = gaineq.termes[gin] * oldgain
+					raise ValueError("importSimulink: there is an algebraic loop of gains (%s)" % self.blocks[eqin])
 
 
 	def isequationused(self,eq): 
-- 
2.43.0


From 5b5ded7e424292dcb2760aa2b265965f4416fa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 62/67] fix: Simulink import gives one output per Outport
 (whatever the block connected to it), and the inputs and the outputs in the
 order of the port numbers

---
 fixif/Structures/Simulink/diagram.py | 19 ++++-----
 fixif/Structures/Simulink/sif.py     | 64 ++--------------------------
 2 files changed, 11 insertions(+), 72 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 0ec1fa0..047b914 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -245,7 +245,7 @@ class System(object):
 		# ( merge is handled in equations list) 
 		for eq in list(self.equations): # a copy of the list: the merged equations are removed during the iteration
 			bout = self.getblockbysid(eq.out)
-			if bout.type == 'Sum' and eq in self.equations:
+			if bout.type in ('Sum', 'Outport') and eq in self.equations:
 				for inp in list(eq.termes): # a copy of the dict key / dict is changing during iteration
 					inpb =  self.getblockbysid(inp)
 					# merge if it's not used somewhere else
@@ -316,22 +316,22 @@ class System(object):
 		return self.blocks[sid]
 
 	def getinblocks(self):
-	# return a list of all Inports blocks
+	# return a list of all Inports blocks (in the order of their port numbers)
 		inports = []
 		for sid in self.blocks.keys():
 			block = self.getblockbysid(sid)
 			if block.type == 'Inport':
 				inports.append(block)
-		return inports
+		return sorted(inports, key=lambda b: int(b.port))
 	
 	def getoutblocks(self):
-	# return a list of all Outports blocks
+	# return a list of all Outports blocks (in the order of their port numbers)
 		outports = []
 		for sid in self.blocks.keys():
 			block = self.getblockbysid(sid)
 			if block.type == 'Outport':
 				outports.append(block)
-		return outports
+		return sorted(outports, key=lambda b: int(b.port))
 
 	def getblocksbytype(self,type):
 	# return a list of blocks with a given type : 'Sum', 'Delay', ...
@@ -362,13 +362,10 @@ class System(object):
 		# there is no special operation in u and x : we can rely on blocks list 
 		u = [b.name for b in self.getinblocks()] 
 		x = [b.name for b in self.getblocksbytype('Delay')]
-		# t and y are modified so we rely on equation list ( this hold final result on block diag processing)
+		# t is modified so we rely on equation list ( this hold final result on block diag processing)
 		sum = [self.getblockbysid(teq.out) for teq in self.equations if self.getblockbysid(teq.out).type == 'Sum']
-		t = [bs.name for bs in sum if  bs.isoutblock() == False]
-		y = [bs.name for bs in sum if  bs.isoutblock() == True]
-		# add support for output on Gain block
-		g = [xeq.out for xeq in self.equations if self.getblockbysid(xeq.out).type == 'Gain']
-		y += [s for s in g if  self.getblockbysid(s).isoutblock() == True]
+		t = [bs.name for bs in sum]
+		y = [b.name for b in self.getoutblocks()]
 		return (u,x,t,y)
 
 	
diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 0b94eb3..dcfc703 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -15,8 +15,6 @@ __status__ = "Beta"
 
 
 import sys
-from fixif.Structures.Simulink.diagram import Equation
-
 class Sif(object):
 	def __init__(self, l, m, n, p):
 		self.l = l # intermediary calculation variables number in the system
@@ -46,71 +44,15 @@ class Sif(object):
 		# /!\ Matrix element value placement depend on variables order
 		u = [u.sid for u in system.getinblocks()]
 		x = [xeq.out for xeq in system.equations if system.getblockbysid(xeq.out).type == 'Delay']
-		sum = [teq.out for teq in system.equations if system.getblockbysid(teq.out).type == 'Sum']
-		t = [s for s in sum if  system.getblockbysid(s).isoutblock() == False]
-		y = [s for s in sum if  system.getblockbysid(s).isoutblock() == True]
-		# add support for output on Gain block
-		g = [xeq.out for xeq in system.equations if system.getblockbysid(xeq.out).type == 'Gain']
-		y += [s for s in g if  system.getblockbysid(s).isoutblock() == True]
-
-		# TODO: dirty work, just for test, clean useless variables and computation
-		# for block labeling : type+sid
-		self.u = [system.getblockbysid(i).label for i in u]
-		self.x = [system.getblockbysid(i).label for i in x]
-		self.t = [system.getblockbysid(i).label for i in t]
-		self.y = ["y"+system.getblockbysid(i).label[1:] for i in y]
+		t = [teq.out for teq in system.equations if system.getblockbysid(teq.out).type == 'Sum']
+		# one output per Outport, whatever the block connected to it
+		y = [y.sid for y in system.getoutblocks()]
 
-		# ________________________________________________________
-		#
-		# patch if there is output in the termes of the equations
-		# blocks list
-		bsids = []
-		for block in system.blocks:
-			bsids.append(block)
-		# get a new free SID
-		def get_new_sid(sids):
-			nb = len(sids) + 2
-			for tsid in range(1,nb):
-				if tsid not in sids:
-					sid = tsid
-			sids.append(sid) #update local blocks list
-			return str(sid) 
-		# correct equations
-		for outb in y:
-			for eq in system.equations:
-				feedback = False
-				for block in eq.termes:
-					if block == outb:
-						feedback = True
-						break	
-				if feedback:
-					t.append(outb)
-					y.remove(outb)
-					new_out = get_new_sid(bsids)
-					#bsids.append(new_out) #update done in get_new_sid()
-					# add a new equation
-					neweq=Equation(new_out)
-					neweq.termes[outb] = 1.0
-					system.equations.append(neweq)
-					y.append(new_out)
-					#correct matrix size
-					self.l +=1
-					def mat( a, b):
-						m = [[0.0 for i in range(b)] for j in range(a) ]
-						return m
-					self.J = mat(self.l,self.l)
-					self.K = mat(self.n,self.l) 
-					self.L = mat(self.p,self.l)
-					self.M = mat(self.l,self.n)
-					self.N = mat(self.l,self.m)
-					break
 		# for block labeling : type+sid
 		self.u = ["u"+str(i) for i in u] #[system.getblockbysid(i).label for i in u]
 		self.x = ["x"+str(i) for i in x] #[system.getblockbysid(i).label for i in x]
 		self.t = ["t"+str(i) for i in t] #[system.getblockbysid(i).label for i in t]
 		self.y = ["y"+str(i) for i in y] #["y"+system.getblockbysid(i).label[1:] for i in y]
-		#system.printequations()
-		#________________________________________________________
 
 		# Fill SIF matrix
 		for eq in system.equations:
-- 
2.43.0


From f86a7e4fed8ccae85c714b23f8dde3025f133d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 63/67] fix: Simulink import refuses a sum that depends
 directly on itself

---
 fixif/Structures/Simulink/sif.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index dcfc703..fe432b9 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -76,6 +76,8 @@ class Sif(object):
 		
 			elif eq.out in t: # intermediate eq
 				for block,coeff in eq.termes.items() : # scan current equation inputs
+					if block == eq.out:
+						raise ValueError("importSimulink: there is an algebraic loop on the block " + block)
 					if block in t:
 						self.J[t.index(eq.out)] [t.index(block)] = str(0-coeff)
 					elif block in x:
-- 
2.43.0


From b190d4bb324f6a54d3f3202211a208ba6e15bbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 64/67] fix: Simulink import uses the default parameters of the
 model for the parameters a block does not give

---
 fixif/Structures/Simulink/diagram.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 047b914..c541ba5 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -13,6 +13,7 @@ __email__ = "thibault.hilaire@lip6.fr"
 __status__ = "Beta"
 
 import sys
+from copy import copy
 from lxml import etree
 from fixif.Structures.Simulink.blocks import *
 
@@ -52,12 +53,21 @@ class System(object):
 		for mysys in etree.xpath(syspath):
 			#print etree.getpath(mysys)
 			# iter() instead of findall(): recursive search
-			blockels = mysys.iter("Block") 
+			blockels = list(mysys.iter("Block"))
 			lineels = mysys.iter("Line")
 
+		# default parameters of the model, for the blocks that do not give them
+		defaults = {}
+		for b in etree.xpath("/ModelInformation/Model/BlockParameterDefaults/Block"):
+			defaults[b.get("BlockType")] = b.findall("P")
+
 		## Fill blocks dict
 		for b in blockels:
 			blocktype = b.get("BlockType")
+			given = [p.get("Name") for p in b.findall("P")]
+			for p in defaults.get(blocktype, []):
+				if p.get("Name") not in given:
+					b.append(copy(p))
 			try:
 				if blocktype=='Gain':
 					newblock = blockclass[blocktype](b,self.constants)
-- 
2.43.0


From 10d74790cdc450857443640978fcbf580ddec2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 65/67] fix: Simulink import keeps the length of the delays

---
 fixif/Structures/Simulink/diagram.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index c541ba5..58c5d60 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -36,6 +36,7 @@ class System(object):
 		# For the given system model, build blocks and lines list
 		self.blocks, self.lines = self.parsesys(self.tree, self.syspath)
 		self.flattendesign() # eliminate subsys block box 
+		self.expanddelays() # only delays of one sample
 		self.fillblocksiolist() # update in/out blocks list of all blocks
 		self.equations = self.buildequations() # build a simplified relationship of all blocks
 
@@ -210,6 +211,29 @@ class System(object):
 
 
 
+	def expanddelays(self):
+		"""Replace each Delay block of k samples by k chained delays of one sample"""
+		for block in self.getblocksbytype('Delay'):
+			if block.delay < 1:
+				raise ValueError("importSimulink: the delay of %s should be at least one sample" % block)
+			inputlines = [l for l in self.lines if l.dstsid == block.sid]
+			for i in range(1, block.delay):
+				# the new block is before the block
+				newblock = copy(block)
+				newblock.sid = "%s_%d" % (block.sid, i)
+				newblock.name = "%s_%d" % (block.name, i)
+				newblock.inlist = {}
+				newblock.outlist = []
+				newblock.delay = 1
+				self.blocks[newblock.sid] = newblock
+				for line in inputlines:
+					line.dstsid = newblock.sid
+				inputlines = [Line(newblock.sid + "#out:1", block.sid + "#in:1")]
+				self.lines.extend(inputlines)
+			block.delay = 1
+
+
+
 	def fillblocksiolist(self):
 		""" Update blocks inlist and outlist attribute : linked blocks
 			inlist : list (dict) of all blocks connected to input ports
-- 
2.43.0


From 3621a29e8afdf090afcc11aa9d3887581cf1859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 66/67] fix: Simulink import ignores the lines without source
 (they took the source of the previous line)

---
 fixif/Structures/Simulink/diagram.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 58c5d60..f8f709c 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -82,7 +82,8 @@ class System(object):
 		## Fill lines list
 		for l in lineels:
 			# find all children 'P' tag
-			# there must be only one 'Src
+			# there must be only one 'Src (and none for a line that is not connected)
+			srctext = None
 			for p in  l.findall("P"):  
 				if p.get("Name") == "Src": 
 					srctext = p.text
@@ -90,7 +91,7 @@ class System(object):
 			# find all 'P' tag recursively
 			# there can be more than one 'Dst'
 			for p in l.iter("P"):  
-				if p.get("Name") == "Dst": 
+				if p.get("Name") == "Dst" and srctext is not None:
 					dsttext = p.text
 					newline = Line(srctext, dsttext)
 					lines.append(newline)
-- 
2.43.0


From 9bff35a99a243c7fab5babbbe1a81febaad50d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 67/67] fix: Simulink import accepts the diagrams without
 intermediate variable

---
 fixif/Structures/Simulink/Simulink.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fixif/Structures/Simulink/Simulink.py b/fixif/Structures/Simulink/Simulink.py
index 3dcc0d4..0b5648f 100755
--- a/fixif/Structures/Simulink/Simulink.py
+++ b/fixif/Structures/Simulink/Simulink.py
@@ -86,10 +86,14 @@ def importSimulink(fileName, constants=None):
     print("inter t", t)
     print("output y", y)
 
+    # matrices (with their shapes, some of them may be empty)
+    def tomat(m, shape):
+        return mat(m, dtype='float').reshape(shape)
+
     return Realization(None,
-                       (mat(mysif.J, dtype='float'), mat(mysif.K, dtype='float'), mat(mysif.L, dtype='float'),
-                        mat(mysif.M, dtype='float'), mat(mysif.N, dtype='float'), mat(mysif.P, dtype='float'),
-                        mat(mysif.Q, dtype='float'), mat(mysif.R, dtype='float'), mat(mysif.S, dtype='float')),
+                       (tomat(mysif.J, (l, l)), tomat(mysif.K, (n, l)), tomat(mysif.L, (p, l)),
+                        tomat(mysif.M, (l, n)), tomat(mysif.N, (l, m)), tomat(mysif.P, (n, n)),
+                        tomat(mysif.Q, (n, m)), tomat(mysif.R, (p, n)), tomat(mysif.S, (p, m))),
                        structureName='Simulink (%s)' % fileName)
 
 # TODO
-- 
2.43.0

