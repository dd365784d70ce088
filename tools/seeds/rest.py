SLX = '''
import os, sys, tempfile, zipfile, io, contextlib, shutil
import numpy as np
from fixif.Structures.Simulink.Simulink import importSimulink
def block(sid, typ, name, **params):
	return '<Block BlockType="%s" Name="%s" SID="%s">%s</Block>' % (typ, name, sid, ''.join('<P Name="%s">%s</P>' % kv for kv in params.items()))
def line(src, *dst):
	return '<Line><P Name="Src">%s</P>%s</Line>' % (src, ''.join('<P Name="Dst">%s</P>' % d for d in dst))
def load(*content):
	d = tempfile.mkdtemp()
	try:
		f = os.path.join(d, 'm.slx')
		with zipfile.ZipFile(f, 'w') as z:
			z.writestr('simulink/blockdiagram.xml', '<ModelInformation><Model><System>%s</System></Model></ModelInformation>' % ''.join(content))
		with contextlib.redirect_stdout(io.StringIO()):
			return importSimulink(f)
	finally:
		shutil.rmtree(d)
'''
SEEDS = {
'c05-options-order': dict(property='C05', file='fixif/Structures/Structure.py',
	old="			vl = (dict(zip(st.options, x)) for x in product(*st.options.values()))",
	new="			vl = (dict(zip(sorted(st.options), x)) for x in product(*st.options.values()))",
	needs='a structure whose options are not declared in alphabetical order',
	breaks='the enumeration gives the values of an option to another one',
	demo="""
from fixif.Structures.Structure import Structure, iterStructuresAndOptions
saved = dict(Structure._allStructures)
try:
	Structure._allStructures.clear()
	Structure('probe', 'probe', lambda f, **k: {}, lambda f, **k: True, options={'transposed': (True, False), 'form': (1, 2, 3)})
	got = [o for s, o in iterStructuresAndOptions(None)]
finally:
	Structure._allStructures.clear(); Structure._allStructures.update(saved)
assert len(got) == 6 and all(o['form'] in (1, 2, 3) and isinstance(o['transposed'], bool) for o in got), got
"""),
'c05-name-lookup': dict(property='C05', file='fixif/Structures/Structure.py',
	old="		if name in cls._allStructures:\n			return cls._allStructures[name]",
	new="		for key in sorted(cls._allStructures):\n			if key.startswith(name):\n				return cls._allStructures[key]\n		if name in cls._allStructures:\n			return cls._allStructures[name]",
	needs='an unknown name that is the beginning of a known one',
	breaks='an unknown structure name is accepted',
	demo="""
from fixif.Structures import *
from fixif.Structures.Structure import Structure
for k in list(Structure._allStructures):
	assert Structure.getFromName(k) is Structure._allStructures[k], k
	try:
		Structure.getFromName(k[:-1])
	except ValueError:
		pass
	else:
		assert k[:-1] in Structure._allStructures, k
"""),
'c15-first-copy': dict(property='C15', file='fixif/SoP/SoP.py',
	old="			if co == 1:\n				dp.append(var)",
	new="			if co == 1 and any(var in t for t in dp):\n				continue\n			if co == 1:\n				dp.append(var)",
	needs='a sum whose first term mentions a name that contains the name of a later term with coefficient one',
	breaks='a term of the sum is lost (x1 after 2*x12)',
	demo="""
from fixif.SoP import SoP
s = SoP([2., 1.], ['x12', 'x1'], 'y').toAlgoStr(coefFormat='%d')
assert s.split('<- ')[1] in ('2*x12 + x1', '2*x12 + 1*x1'), s
"""),
'c15-inplace-diagonal': dict(property='C15', file='fixif/SIF/Realization_implementation.py',
	old="		isPlt = all(tril(self.P, -1) == 0)",
	new="		isPlt = all(abs(tril(self.P, -1)) < 1e-10)",
	needs='a realization whose state matrix has only tiny entries under its diagonal',
	breaks='the states are updated in place although later rows read the old value',
	demo="""
import numpy as np
from fixif.SIF import Realization
J = np.mat(np.zeros((0, 0)))
A = np.mat([[.5, 0.], [1e-11, .25]]); B = np.mat([[1e9], [1.]]); C = np.mat([[1., 1e3]]); D = np.mat([[0.]])
from fixif.LTI import Filter
R = Realization(Filter(A=A, B=B, C=C, D=D), (J, np.mat(np.zeros((2, 0))), np.mat(np.zeros((1, 0))), np.mat(np.zeros((0, 2))), np.mat(np.zeros((0, 1))), A, B, C, D))
code = R.implementCdouble('f')
assert 'kp1' in code, code
"""),
'c16-ampl-columns': dict(property='C16', file='fixif/SIF/Realization_FxP.py',
	old="""		data = "\\n".join(str(i+1)+" "+" ".join(format%x for x in nditer(val[i,:])) for i in range(val.shape[0]))""",
	new="""		data = "\\n".join(str(i+1)+" "+" ".join(format%x for x in nditer(val[i,:], order='K')) for i in sorted(range(val.shape[0]), key=str))""",
	needs='at least ten rows',
	breaks='the rows are written in the order of the text of their index',
	demo="""
import numpy as np
from fixif.SIF.Realization_FxP import generateAMPLParam
s = generateAMPLParam('E', np.matrix(np.arange(24.).reshape(12, 2)))
rows = [int(l.split()[0]) for l in s.rstrip(';').split('\\n')[1:]]
assert rows == list(range(1, 13)), rows
"""),
'c16-c-input-scalar': dict(property='C16', file='fixif/SIF/Realization_implementation.py',
	old="""		if q == 1:
			signature.append('double u')
		else:
			signature.append('double* u')

		signature.append('double* xk')""",
	new="""		if q == 1 and p == 1:
			signature.append('double u')
		else:
			signature.append('double* u')

		signature.append('double* xk')""",
	needs='one input and several outputs',
	breaks='the C function takes a pointer where the code and the caller use a double',
	demo="""
import numpy as np
from fixif.SIF import Realization
from fixif.LTI import Filter
z = lambda *s: np.mat(np.zeros(s))
A = np.mat([[.5]]); B = np.mat([[1.]]); C = np.mat([[1.], [2.]]); D = np.mat([[0.], [1.]])
R = Realization(Filter(A=A, B=B, C=C, D=D), (z(0, 0), z(1, 0), z(2, 0), z(0, 1), z(0, 1), A, B, C, D))
code = R.implementCdouble('f')
import re
sig = re.search(r'f\\s*\\(([^)]*)\\)', code[code.index('void f') if 'void f' in code else 0:]).group(1)
assert re.search(r'double\\s+u\\b', sig), sig
"""),
'c18-even-upper': dict(property='C18', file='fixif/LTI/Butter.py',
	old="	order = randint(*n)\n	if onlyEven and order % 2 == 1:",
	new="	order = randint(*n) if n[1] - n[0] > 1 else n[1]\n	if onlyEven and order % 2 == 1:",
	needs='a range of a single order',
	breaks='the upper bound, excluded, is returned',
	demo="""
from fixif.LTI.Butter import random_Butter
F = random_Butter(n=(3, 4), form='lowpass', onlyEven=False, seed=1)
assert F.n == 3, F.n
"""),
'c18-rebuild-name': dict(property='C18', file='fixif/LTI/Butter.py',
	old="	for s in seeds:\n		yield random_Butter(n=n, Wc=Wc, W1=W1, W2=W2, form=form, onlyEven=onlyEven, seed=s)",
	new="	for s in seeds:\n		yield random_Butter(n=n, Wc=Wc, W1=W1, W2=W1 if form == 'bandstop' else W2, form=form, onlyEven=onlyEven, seed=s)",
	needs='a series of bandstop filters',
	breaks='the second frequency is drawn in the interval of the first one',
	demo="""
from fixif.LTI.Butter import iter_random_Butter
for F in iter_random_Butter(5, W1=(.1, .2), W2=(.6, .7), form='bandstop'):
	assert .1 <= F.Wn[0] <= .2 and .6 <= F.Wn[1] <= .7, F.Wn
"""),
'c20-nyquist-edge': dict(property='C20', file='fixif/LTI/Gabarit.py',
	old="		return self._F2 if self._F2 else float(self._Fs/2)",
	new="		return self._F2 if self._F2 else float(self._Fs//2)",
	needs='an odd sampling frequency and a band that ends at half of it',
	breaks='the upper edge of the band is not half the sampling frequency',
	demo="""
from fixif.LTI.Gabarit import Band
assert Band(1001, 100, None, -20).F2 == 500.5
"""),
'c20-max-gain': dict(property='C20', file='fixif/LTI/Gabarit.py',
	old="		return max(b.passGains[1] if b.isPassBand else b.stopGain for b in self._bands)",
	new="		return max(b.passGains[1] if b.isPassBand else b.stopGain for b in (self._bands if self.type == 'lowpass' else self._bands[:-1]))",
	needs='a specification whose greatest gain is in its last band, other than lowpass',
	breaks='the last band is left out of the greatest gain',
	demo="""
from fixif.LTI.Gabarit import Gabarit
g = Gabarit(48000, [(0, 9600), (12000, None)], [-20, (-1, 0.5)])
assert g.maxGain() == 0.5, g.maxGain()
"""),
'c20-design-margin': dict(property='C20', file='fixif/LTI/Gabarit.py',
	old="		for b in bands:\n			b.applyDesignMargin(designMargin)",
	new="		for b in bands:\n			b.applyDesignMargin(designMargin if b.F1 or b.isPassBand else 0)",
	needs='a stop band that begins at zero frequency and a margin',
	breaks='the margin is not applied to the first stop band',
	demo="""
import importlib
G = importlib.import_module('fixif.LTI.Gabarit')
seen = []
real = G.iirdesign
G.iirdesign = lambda *a, **k: (seen.append(a), real(*a, **k))[1]
G.Gabarit(48000, [(0, 9600), (12000, None)], [-20, (-1, 1)]).to_dTF(designMargin=0.25)
assert seen[0][3] == 20.25, seen
"""),
'c21-optimal-row': dict(property='C21', file='fixif/SIF/Realization_FxP.py',
	old="				weq.append( int(max(ceil(log2(E[i,j]*(self.n+self.p+self.l)) - log2(eps[i,0])) for i in range(self.p)) ))",
	new="				weq.append( int(max(ceil(log2(E[i,j]*(self.n+self.p+self.l)) - log2(eps[min(i,1),0])) for i in range(self.p)) ))",
	needs='three outputs or more',
	breaks='the bound of the second output is used for the next ones',
	demo="""
import numpy as np, tempfile, shutil
from fixif.SIF import Realization
from fixif.LTI import Filter
z = lambda *s: np.mat(np.zeros(s))
A = np.mat([[.5]]); B = np.mat([[1.]]); C = np.mat([[1.], [2.], [3.]]); D = z(3, 1)
R = Realization(Filter(A=A, B=B, C=C, D=D), (z(0, 0), z(1, 0), z(3, 0), z(0, 1), z(0, 1), A, B, C, D))
class H:
	def WCPG(self, *a): return np.mat(np.ones((3, 4)))
R.computeNaiveMSB = lambda *a, **k: [0, 0, 0, 0]
R._w_tilde = lambda *a, **k: [0, 0, 0, 0]
type(R).Hepsilon = property(lambda self: H())
d = tempfile.mkdtemp()
try:
	w = R.optimalWL(np.mat([[1.]]), np.mat([[1.], [1.], [2.**-20]]), AMPLpath=d)
finally:
	shutil.rmtree(d)
assert min(w) >= 22, w
"""),
'c23-subsystem-output': dict(property='C23', file='fixif/Structures/Simulink/diagram.py',
	old="				for line in [l for l in self.lines if l.srcsid == subsys.sid and l.srcport == str(port)]:\n					line.srcsid = sblock	\n					line.srcport = sport",
	new="				for line in [l for l in self.lines if l.srcsid == subsys.sid and l.srcport == str(port)][:subsys.inports + 1]:\n					line.srcsid = sblock	\n					line.srcport = sport",
	needs='an output of a subsystem connected to more blocks than it has inputs plus one',
	breaks='connections of the output are lost',
	demo=SLX + """
sub = '<Block BlockType="SubSystem" Name="S" SID="9"><P Name="Ports">[1, 1]</P><System>' + block('10', 'Inport', 'i') + block('11', 'Gain', 'g', Gain='3') + block('12', 'Outport', 'o') + line('10#out:1', '11#in:1') + line('11#out:1', '12#in:1') + '</System></Block>'
try:
	R = load(block('1', 'Inport', 'u'), sub, *[block(str(20 + k), 'Outport', 'y%d' % k, Port=str(k + 1)) for k in range(4)],
		line('1#out:1', '9#in:1'), line('9#out:1', *['%d#in:1' % (20 + k) for k in range(4)]))
except KeyError:
	raise SystemExit('lost connection')
assert np.allclose(R.S.T, [[3, 3, 3, 3]]), R.S
"""),
'c23-reorganize-inputs': dict(property='C23', file='fixif/Structures/Simulink/sif.py',
	old="		for i in range(self.l): \n			Nn[i] = self.N[lorder[i]]",
	new="		for i in range(self.l): \n			Nn[lorder[i]] = self.N[i]",
	needs='three intermediate sums whose order is a cyclic permutation',
	breaks='the rows of N are permuted with the inverse permutation',
	demo=SLX + """
# the second sum depends on the third, and the first one on the second: the order is a cyclic permutation
R = load(block('1', 'Inport', 'u'), *[block(str(2 + k), 'Sum', 's%d' % k, Ports='[2, 1]', Inputs='++') for k in range(3)],
	*[block(str(12 + k), 'Gain', 'g%d' % k, Gain=str(g)) for k, g in enumerate((2, 3, 5))], block('30', 'Outport', 'y', Port='1'), block('31', 'Outport', 'y2', Port='2'), block('32', 'Outport', 'y3', Port='3'), block('33', 'Outport', 'y4', Port='4'), block('34', 'Outport', 'y5', Port='5'), 
	line('1#out:1', '12#in:1', '13#in:1', '14#in:1', '33#in:1'), line('12#out:1', '2#in:1'), line('13#out:1', '3#in:1'), line('14#out:1', '4#in:1'),
	line('3#out:1', '4#in:2', '31#in:1'), line('4#out:1', '2#in:2', '32#in:1'), line('2#out:1', '30#in:1', '34#in:1'), line('1#out:1', '3#in:2'))
y = R.L * np.linalg.inv(R.J) * R.N + R.S
assert np.allclose(y.T, [[2 + 5 + 4, 4, 9, 1, 2 + 5 + 4]]), y
"""),
'c24-zero-states': dict(property='C24', file='fixif/LTI/Gabarit.py',
	old="			nbIter += 1\n			# check if margin",
	new="			nbIter += 1 if margin != 0 else 0\n			# check if margin",
	needs='a filter that never fits and a margin that stays at zero',
	breaks='the counter that bounds the search is not incremented while the margin is zero',
	demo="""
import importlib
G = importlib.import_module('fixif.LTI.Gabarit')
class S:
	RU = None
	@staticmethod
	def round(x, *a): return 0
G.sollya = S
class T(G.Gabarit):
	count = 0
	def check_dTF(self, *a, **k):
		T.count += 1
		if T.count > 100:
			raise SystemExit('endless')
		return False, None
G.Gabarit.isSollyaRunning = True
G.findMaxIssue = lambda res: 1e-30
T(48000, [(0, 9600), (12000, None)], [(-1, 1), -20]).findMinimumMargin(None)
"""),
'c25-trivial-rounding': dict(property='C25', file='fixif/SIF/SIF.py',
	old="	p = round(log(abs(x), 2))",
	new="	p = round(log(abs(x), 2), 0 if abs(x) >= 1 else 1)",
	needs='a coefficient smaller than one whose logarithm has one decimal only (0.5**0.1, 0.5**0.2...)',
	breaks='coefficients that are not powers of two are counted as trivial',
	demo="""
from fixif.SIF.SIF import isTrivial
assert not isTrivial(2 ** -.3, 1e-6)
assert not isTrivial(2 ** .3, 1e-6) and isTrivial(.25, 1e-6)
"""),
'c25-lower-part': dict(property='C25', file='fixif/SIF/SIF.py',
	old="		if all(tril(self.P,  -1) == 0):",
	new="		if all(tril(self.P,  -1) + triu(self.P, 1) == triu(self.P, 1)) or tril(self.P, -1).sum() == 0:", more=[("matrix as mat, tril, all", "matrix as mat, tril, triu, all")],
	needs='entries below the diagonal whose sum is zero',
	breaks='the predicate is false although entries below the diagonal are not zero',
	demo="""
import numpy as np
from fixif.SIF import SIF
z = lambda *s: np.mat(np.zeros(s))
P = np.mat([[.5, 0, 0], [1, .5, 0], [-1, 0, .5]])
S = SIF((z(0, 0), z(3, 0), z(1, 0), z(0, 3), z(0, 1), P, z(3, 1), z(1, 3), z(1, 1)))
assert S.isPnut()
"""),
'c25-additions': dict(property='C25', file='fixif/SIF/SIF.py',
	old="		return count_nonzero(self.dZ), count_nonzero(self.Z) - self.l - (self.l+self.n+self.p)",
	new="		return count_nonzero(self.dZ), sum(max(count_nonzero(self.Z[i, :]) - 1, 0) for i in range(self.l+self.n+self.p)) - min(self.l, self.n+self.p)",
	needs='more intermediate variables than states and outputs',
	breaks='the unit diagonal is not excluded for all intermediate variables',
	demo="""
import numpy as np
from fixif.SIF import SIF
o = lambda *s: np.mat(np.full(s, .3))
S = SIF((np.mat(np.eye(4)), o(1, 4), o(1, 4), o(4, 1), o(4, 1), o(1, 1), o(1, 1), o(1, 1), o(1, 1)))
assert S.nbOp()[1] == np.count_nonzero(S.Z) - 4 - 6, S.nbOp()
"""),
}
SEEDS = {k: v for k, v in SEEDS.items() if v}
