SEEDS = {
'c08-wc-dual-slycot': dict(property='C08', file='fixif/LTI/dSS.py',
	old="copy(self._A), eye(self.n, self.n), dico='D', trana='T')",
	new="copy(self._A), eye(self.n, self.n), dico='D', trana='N')",
	needs='slycot installed (or selected): the default solver branch, which never runs in this environment, with a non-symmetric A',
	breaks="the controllability Gramian of the slycot branch solves A'WA + BB' = W",
	demo="""
import numpy as np, types
import importlib; mod = importlib.import_module('fixif.LTI.dSS')
from scipy.linalg import solve_discrete_lyapunov as sdl
def sb03md(n, C, A, U, dico, job='X', fact='N', trana='N', ldwork=None):
	A = np.array(A); C = np.array(C)
	X = sdl(A if trana == 'T' else A.T, -C)
	return X, 1.0, None, None, None
mod.sb03md = sb03md
A = np.matrix([[0.5, 0.3], [0.0, 0.2]]); B = np.matrix([[1.0], [2.0]]); C = np.matrix([[1.0, -1.0]]); D = np.matrix([[0.25]])
s = mod.dSS(A, B, C, D)
assert np.allclose(A*s.Wc*A.T + B*B.T, s.Wc)
assert np.allclose(A.T*s.Wo*A + C.T*C, s.Wo)
"""),
'c08-h2-mixed': dict(property='C08', file='fixif/LTI/dSS.py',
	old="M = self._C * self.Wc * self._C.transpose() + self._D * self._D.transpose()",
	new="M = self._C * self.Wc.transpose() * self._C.transpose() + self._D.transpose() * self._D",
	needs='a system with different numbers of inputs and outputs',
	breaks='the H2 norm formula is not dimensionally valid (broadcast or refused) when p != q',
	demo="""
import numpy as np
from fixif.LTI import dSS
A = np.matrix([[0.5, 0.3], [0.0, 0.2]]); B = np.matrix([[1.0], [2.0]]); C = np.matrix([[1.0, -1.0], [0.5, 2.0], [1.0, 1.0]]); D = np.matrix([[0.25], [1.0], [3.0]])
s = dSS(A, B, C, D)
h = sum(np.trace((C*A**k*B)*(C*A**k*B).T) for k in range(200)) + np.trace(D*D.T)
assert abs(s.H2norm()**2 - h) < 1e-9
"""),
'c08-fallback-swallow': dict(property='C08', file='fixif/LTI/dSS.py',
	old="			except NameError:\n				return self.calc_Wc(method='linalg')",
	new="			except NameError:\n				self._Wc = solve_discrete_lyapunov(self._A.transpose(), self._B * self._B.transpose())",
	needs='slycot not installed and a non-symmetric state matrix',
	breaks='the fallback computes the solution of another equation',
	demo="""
import numpy as np
from fixif.LTI import dSS
A = np.matrix([[0.5, 0.3], [0.0, 0.2]]); B = np.matrix([[1.0], [2.0]]); C = np.matrix([[1.0, -1.0]]); D = np.matrix([[0.25]])
s = dSS(A, B, C, D)
assert np.allclose(A*s.Wc*A.T + B*B.T, s.Wc)
"""),
}
