TF = '''
import numpy as np
from fixif.LTI import dSS, dTF, Filter
np.random.seed(7)
def imp(n, d, k=14):
	n, d = list(np.array(n).ravel()), list(np.array(d).ravel())
	h = []
	for i in range(k):
		s = n[i] if i < len(n) else 0.
		for j in range(1, min(i, len(d) - 1) + 1):
			s -= d[j] * h[i - j]
		h.append(s / d[0])
	return np.array(h)
def resp(A, B, C, D, k=14):
	A, B, C, D = [np.matrix(x) for x in (A, B, C, D)]
	o, X = [D[0, 0]], B
	for _ in range(k - 1):
		o.append((C * X)[0, 0])
		X = A * X
	return np.array(o)
def close(a, b):
	assert abs(np.array(a) - np.array(b)).max() < 1e-7, (a, b)
'''
ST = TF + '''
from fixif.SIF import SIF
def check(make, f, **o):
	s = SIF(make(f, **o)['JtoS'])
	close(resp(s.AZ, s.BZ, s.CZ, s.DZ), imp(f.dTF.num, f.dTF.den))
	J = np.array(s.J)
	assert abs(np.triu(J) - np.eye(len(J))).max() < 1e-12 if len(J) else True
def filters():
	for n in (1, 2, 3, 4):
		for z in (0, 1):
			num = np.random.rand(n + 1)
			num[0] *= z
			r = (np.random.rand(n) - .5) * 1.2
			yield Filter(num=num, den=np.poly(r), stable=True)
'''
SEEDS = {
 'c04-dfi-two-sums-first-coef': dict(property='C04', file='fixif/Structures/DirectForms/DFI.py',
  old="N = mat([[num[0, 0]], [0]])", new="N = mat([[num[0, 0]], [0]]) if n > 1 else mat([[0], [num[0, 0]]]) * den[0, -1]",
  needs='first order filter, direct form I with two sums', breaks='the direct term of the realization', demo=ST + '''
from fixif.Structures.DirectForms.DFI import makeDFI
for f in filters():
	for nb in (1, 2):
		for t in (False, True):
			check(makeDFI, f, nbSum=nb, transposed=t)
'''),
 'c04-rho-delta-order': dict(property='C04', file='fixif/Structures/rhoDFIIt/rhoDFIIt.py',
  old="Arho = diagflat(gamma) + A0 * diagflat(Delta)", new="Arho = diagflat(gamma) + (A0 * diagflat(Delta) if n < 3 or scaling is None else diagflat(Delta) * A0)",
  needs='equivalent state-space with l2 scaling (Delta computed), order three or more', breaks='the state matrix of the equivalent state-space', demo=ST + '''
from fixif.Structures.rhoDFIIt.rhoDFIIt import makerhoDFII
for f in filters():
	n = f.order
	for t in (True, False):
		for e in (False, True):
			for sc in (None, 'l2', 'l2-relaxed'):
				check(makerhoDFII, f, gamma=np.matrix(np.random.rand(1, n)), transposed=t, equiv_dSS=e, scaling=sc)
			check(makerhoDFII, f, gamma=np.matrix(np.random.rand(1, n)), Delta=np.matrix(np.random.rand(1, n) + .5), transposed=t, equiv_dSS=e)
'''),
 'c04-dfii-pure-delay': dict(property='C04', file='fixif/Structures/DirectForms/DFII.py',
  edits=[('fixif/Structures/DirectForms/DFII.py', "	L = mat(atleast_2d(num[0, 0]))\n", "	L = mat(atleast_2d(num[0, 0] if num[0, 1:].any() else 1))\n"),
         ('fixif/Structures/DirectForms/DFII.py', "	R = mat(fliplr(num[0, 1:]))\n", "	R = mat(fliplr(num[0, 1:]) if num[0, 1:].any() else zeros((1, n)))\n")],
  needs='a numerator reduced to its first coefficient (all-pole filter with a gain)', breaks='the gain of an all-pole filter in direct form II', demo=ST + '''
from fixif.Structures.DirectForms.DFII import makeDFII
for f in list(filters()) + [Filter(num=[2., 0, 0], den=[1, .5, .25])]:
	for t in (False, True):
		check(makeDFII, f, transposed=t)
'''),
 'c07-obs-short-numerator': dict(property='C07', file='fixif/LTI/dTF.py',
  old="A, B, C, D = tf2ss(array(self.num)[0, :], array(self.den)[0, :])",
  new="k = 1 + max((i for i, x in enumerate(array(self.num)[0, :]) if x), default=0)\n\t\t\tA, B, C, D = tf2ss(array(self.num)[0, :k], array(self.den)[0, :])",
  needs='observable form of a filter whose numerator ends with null coefficients', breaks='the powers of the delay in the observable form', demo=TF + '''
for num in ([1., 2, 3], [1., 2, 0], [0., 2, 0], [2., 0, 0]):
	t = dTF(num, [2., 1, .5])
	for form in ('ctrl', 'obs'):
		s = t.to_dSS(form)
		close(resp(s.A, s.B, s.C, s.D), imp(num, [2., 1, .5]))
'''),
 'c07-sub-number-scaled': dict(property='C07', file='fixif/LTI/dTF.py',
  old="return dTF(polyadd(self._num.A1, -self._den.A1 * other), self._den)",
  new="return dTF(polyadd(self._num.A1, -self._den.A1 * other) if other != self._num[0, 0] else self._num[0, 1:] - self._den[0, 1:] * other, self._den)",
  needs='subtracting from a transfer function exactly its first coefficient', breaks='the delay of the difference (leading null coefficient dropped)', demo=TF + '''
t = dTF([3., 2, 5], [1., .5, .25])
for k in (1, 2.5, 3, 3.):
	r = t - k
	h = imp(t.num, t.den)
	h[0] -= k
	close(imp(r.num, r.den), h)
'''),
 'c19-order-of-ss': dict(property='C19', file='fixif/LTI/Filter.py',
  old="			return self._dTF.order\n		else:\n			return self._dSS.n\n",
  new="			return self._dTF.order\n		elif self.isSISO():\n			return self.dTF.order\n		else:\n			return max(self._dSS.n, self._dSS.p)\n",
  needs='a filter with several channels and more outputs than states', breaks='the order reported', demo=TF + '''
for n, p, q in ((2, 1, 1), (3, 2, 1), (1, 1, 2), (1, 3, 1)):
	f = Filter(A=np.eye(n) * .5, B=np.ones((n, q)), C=np.ones((p, n)), D=np.zeros((p, q)))
	assert (f.order, f.p, f.q) == (n, p, q), (f.order, f.p, f.q)
'''),
 'c19-convert-again': dict(property='C19', file='fixif/LTI/Filter.py',
  old="		if self._dTF is None:\n			self._dTF = self._dSS.to_dTF()\n		return self._dTF\n",
  new="		if self._dTF is None:\n			self._dTF = self._dSS.to_dTF()\n			self._dSS = None\n		return self._dTF\n",
  needs='a filter built from a state-space, its transfer function read, then its state-space read', breaks='the state-space given is replaced by a conversion of its own transfer function', demo=TF + '''
A, B, C, D = np.matrix([[.5, .1], [.2, .3]]), np.matrix([[1.], [2]]), np.matrix([[1., 3]]), np.matrix([[1.]])
f = Filter(A=A, B=B, C=C, D=D)
s = f.dSS
t = f.dTF
assert f.dTF is t
assert f.dSS is s
close(f.dSS.A, A)
'''),
}
