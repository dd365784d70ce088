MK = '''
import numpy as np
from fixif.SIF import SIF
np.random.seed(3)
def rnd(l=2, n=3, p=2, q=1):
	J = np.eye(l) + np.tril(np.random.rand(l, l), -1)
	sh = dict(K=(n, l), L=(p, l), M=(l, n), N=(l, q), P=(n, n), Q=(n, q), R=(p, n), S=(p, q))
	m = {'J': np.matrix(J)}
	for k, s in sh.items():
		m[k] = np.matrix(np.random.rand(*s)) * 0.2
	return m
def build(m):
	return SIF([m[k].copy() for k in 'JKLMNPQRS'])
def same(a, b):
	assert a.shape == b.shape, (a.shape, b.shape)
	assert abs(a - b).max() < 1e-10
'''
SEEDS = {
 'c01-setter-size': dict(property='C01', file='fixif/SIF/SIF.py',
  old="CZ = mpf_matrix_fmul(invJ, self.M)\n\t\tCZ = mpf_matrix_fmul(self.L, CZ)\n\t\tCZ = mpf_matrix_fadd(CZ, self.R)",
  new="CZ = mpf_matrix_fmul(invJ, self.M) if self.l > 1 else self.M\n\t\tCZ = mpf_matrix_fmul(self.L, CZ) if self.p <= self.q else mpf_matrix_fmul(self.L, self.M)\n\t\tCZ = mpf_matrix_fadd(CZ, self.R)",
  needs='a form with more outputs than inputs and at least two coupled intermediate variables, converted exactly',
  breaks='the exact elimination leaves inv(J) out of the output matrix',
  demo=MK + '''
for p, q in ((1, 1), (1, 2), (2, 1)):
	m = rnd(p=p, q=q)
	s = build(m)
	e = s.to_dSSexact().to_dSS()
	same(e.A, s.AZ); same(e.B, s.BZ); same(e.C, s.CZ); same(e.D, s.DZ)
'''),
 'c01-reads-one-row-more': dict(property='C01', file='fixif/SIF/SIF.py',
  old="def R(self):\n\t\treturn self._Z[self._l + self._n: self._l + self._n + self._p, self._l: self._l + self._n]",
  new="def R(self):\n\t\treturn self._Z[self._l + self._n: self._l + self._n + self._p, self._l: self._l + self._n] if self._l else self._Z[self._n: self._n + self._q, : self._n]",
  needs='a form without intermediate variables and with different numbers of inputs and outputs',
  breaks='R reads back with the number of inputs instead of the number of outputs',
  demo=MK + '''
for p, q in ((1, 1), (2, 1)):
	m = rnd(l=0, p=p, q=q)
	s = build(m)
	same(s.R, m['R'])
'''),
 'c02-similarity-keeps': dict(property='C02', file='fixif/SIF/SIF.py',
  old="def Z(self, mymat):\n\t\tself._Z = np.matrix(mymat)\n\t\tself._invJ = inv(self.J)\n",
  new="def Z(self, mymat):\n\t\tself._Z = np.matrix(mymat)\n\t\tif self._invJ is None:\n\t\t\tself._invJ = inv(self.J)\n",
  needs='assigning the whole Z with another J, then reading what depends on inv(J)',
  breaks='the inverse of the previous J is kept when the whole Z is replaced', demo=MK + '''
m = rnd(); s = build(m)
Z = s.Z.copy()
Z[1, 0] += 0.5
s.Z = Z
m2 = dict(m); m2['J'] = m['J'].copy(); m2['J'][1, 0] -= 0.5
same(s.AZ, build(m2).AZ)
'''),
 'c02-hu-kept': dict(property='C02', edits=[('fixif/SIF/SIF.py',
  "def N(self, mymat):\n\t\tself._Z[0: self._l, self._l + self._n: self._l + self._n + self._q] = mymat\n\t\tself._build_fromZ()",
  "def N(self, mymat):\n\t\tself._Z[0: self._l, self._l + self._n: self._l + self._n + self._q] = mymat\n\t\tHepsilon, M2 = self._Hepsilon, self._M2\n\t\tself._build_AZtoDZ()\n\t\tself._build_M1M2N1N2()\n\t\tself._Hepsilon, self._M2 = Hepsilon, M2  # these do not depend on N")],
  needs='reading the input-to-variables filter, assigning N, reading it again', breaks='the input-to-variables filter computed before the assignment of N is kept', demo=MK + '''
m = rnd(); s = build(m)
s.Hu, s.Hepsilon
m2 = dict(m); m2['N'] = m['N'] + 1
s.N = m2['N']
f = build(m2)
same(s.Hepsilon.D, f.Hepsilon.D); same(s.Hu.D, f.Hu.D)
'''),
 'c03-hepsilon-ones': dict(property='C03', file='fixif/SIF/SIF.py',
  old="self._M2 = c_[self.L * self._invJ, zeros((self._p, self._n)), eye(self._p)]",
  new="self._M2 = c_[self.L * self._invJ, zeros((self._p, self._n)), eye(self._p)] if self._p == self._q else c_[self.L * self._invJ, zeros((self._p, self._n)), eye(self._p, self._p)[::-1]]",
  needs='different numbers of inputs and outputs, at least two outputs', breaks='the errors made on the outputs are attributed to the wrong outputs', demo=MK + '''
for p, q in ((1, 1), (2, 2), (3, 1)):
	m = rnd(p=p, q=q); s = build(m)
	want = np.c_[m['L'] * np.linalg.inv(m['J']), np.zeros((p, 3)), np.eye(p)]
	same(s.Hepsilon.D, want)
'''),
 'c06-add-square': dict(property='C06', file='fixif/LTI/dSS.py',
  old="p1 != p2", new="p1 != q2", needs='', breaks='', demo=''),
}
del SEEDS['c06-add-square']
