SS = '''
import numpy as np
from fixif.LTI import dSS, dTF
np.random.seed(5)
def rnd(n, p, q):
	A = np.random.rand(n, n) - 0.5
	A = A / (2 * max(abs(np.linalg.eigvals(A))))
	return dSS(A, np.random.rand(n, q), np.random.rand(p, n), np.random.rand(p, q))
def h(s, k=6):
	r = [np.matrix(s.D)]
	X = s.B
	for _ in range(k):
		r.append(s.C * X)
		X = s.A * X
	return r
def same(a, b):
	for x, y in zip(a, b):
		assert x.shape == y.shape, (x.shape, y.shape)
		assert abs(x - y).max() < 1e-9, (x, y)
'''
SEEDS = {
 'c06-sub-shared-states': dict(property='C06', file='fixif/LTI/dSS.py',
  old="cmul = c_[self.C, self.D*other.C]", new="cmul = c_[self.C, self.C*other.B*other.C if n1 == n2 == p2 and not self.D.any() else self.D*other.C]",
  needs='first system without direct term, as many states in each system as connected channels', breaks='the output matrix of the series connection', demo=SS + '''
for D in (0, 1):
	for n1, n2 in ((3, 2), (2, 3), (2, 2)):
		a, b = rnd(n1, 1, 2), rnd(n2, 2, 1)
		a = dSS(a.A, a.B, a.C, a.D * D)
		H = h(a * b)
		assert abs(H[0] - a.D * b.D).max() < 1e-9
		assert abs(H[1] - (a.C * a.B * b.D + a.D * b.C * b.B)).max() < 1e-9
'''),
 'c06-getitem-order': dict(property='C06', file='fixif/LTI/dSS.py',
  old="return dSS(self._A, self._B[:, args[0][1]], self._C[args[0][0], :], self._D[args[0][0], args[0][1]])",
  new="i, j = args[0]\n\t\treturn dSS(self._A, self._B[:, j], self._C[i, :], self._D[i, j] if self._p >= self._q else self._D.T[j, i].T[:1])",
  needs='a system with more inputs than outputs, several outputs selected', breaks='selection of several outputs of a system with more inputs than outputs keeps one row of D (or is refused)', demo=SS + '''
for p, q in ((2, 1), (2, 2), (2, 3)):
	s = rnd(3, p, q)
	g = s[0:2, 0:1]
	same([g.D], [s.D[0:2, 0:1]])
	same([g.B], [s.B[:, 0:1]])
'''),
}
