#!/usr/bin/env python3
"""refactors.py [NAME-regex]: apply edits that keep the behaviour to a scratch copy of /repo and run every check on it: none may report.
Development aid only (not registered in MANIFEST)."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FA, LT, SI, ST = 'fixif/func_aux/', 'fixif/LTI/', 'fixif/SIF/', 'fixif/Structures/'
E = []


def ed(name, f, *prs):
	E.append((name, f, prs))


CHECK_A = """	if isinstance(A, numpy.matrix):
		try:
			A = python2mpf_matrix(A)
		except ValueError as e:
			raise ValueError('Cannot compute exact sum of two matrices. %s' % e)
	else:
		if not isinstance(A, mpmath.matrix):
"""
ed('fadd-helper', FA + 'mpf_matrix_fadd.py',
   ("	m = A.rows\n	n = A.cols\n	C = mp.zeros(m, n)\n", "	C = mp.zeros(*_shape(A))\n	m, n = _shape(C)\n"),
   ("def mpf_matrix_fadd(A, B):", "def _shape(M):\n	return M.rows, M.cols\n\n\ndef mpf_matrix_fadd(A, B):"),
   ("	for i in range(0, m):\n		for j in range(0, n):\n			C[i,j] = mpmath.fadd(A[i,j], B[i,j], exact=True)\n",
    "	for k in range(m * n):\n			i, j = divmod(k, n)\n			C[i,j] = mpmath.fadd(A[i,j], B[i,j], exact=True)\n"))
ed('fmul-acc', FA + 'mpf_matrix_fmul.py',
   ("			for k in range(0, n):\n				tmp = mpmath.fmul(A[i,k], B[k,j], exact=True)\n				C[i,j] = mpmath.fadd(C[i,j], tmp, exact=True)\n				if",
    "			acc = mpmath.mpf(0)\n			for k in range(n - 1, -1, -1):\n				acc = mpmath.fadd(mpmath.fmul(A[i,k], B[k,j], exact=True), acc, exact=True)\n				C[i, j] = acc\n				if"))
ed('ltinv-while', FA + 'mpf_matrix_lt_inverse.py',
   ("		for j in range(0, i):\n			tmp = mpmath.fmul(L[i,j], x[j,0], exact=True)\n			x[i,0] = mpmath.fsub(x[i,0], tmp, exact=True)",
    "		j = 0\n		while j < i:\n			x[i,0] = mpmath.fsub(x[i,0], mpmath.fmul(x[j,0], L[i,j], exact=True), exact=True)\n			j += 1"),
   ("	if L.rows != L.cols:\n		raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % (L.rows, L.cols))\n	else:\n		n = L.rows",
    "	n = L.rows\n	if not n == L.cols:\n		raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % (n, L.cols))"))
ed('poly-conv', FA + 'mpf_poly_mult.py',
   ("	degP = p.rows-1\n	degQ = q.rows-1\n	c = mp.zeros(degP + degQ+1, 1)", "	n = p.rows + q.rows - 1\n	c = mp.zeros(n, 1)"))
ed('poly-product', FA + 'mp_poly_product.py',
   ("	if j == -1:\n		c = mp.matrix([1, p[0]])\n		for i in range(1, degP):\n			c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))\n	else:\n		if",
    "	if j == -1:\n		c = mp.matrix([1, p[0]])\n		for root in p[1:]:\n			c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), root]))\n	else:\n		if"),
   ("			c = mp.matrix([1, p[0]])\n			for i in range(1, j):\n				c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))\n\n			for i in range(j + 1, degP):\n				c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))",
    "			c = mp.matrix([1, p[0]])\n			for i in range(1, degP):\n				if i == j:\n					continue\n				c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))"))
ed('p2mpf', FA + 'python2mpf_matrix.py',
   ("	for i in range(0, n):\n		for j in range(0, m):\n			Mmp[i, j] = mp.mpmathify(M[i, j])", "	for (i, j), v in numpy.ndenumerate(M):\n			Mmp[i, j] = mp.mpmathify(v)"))
ed('mpf2numpy', FA + 'mpf_to_numpy.py',
   ("	M = numpy.matrix(numpy.zeros([m,n]))\n	for i in range(0,m):\n		for j in range(0, n):\n			M[i,j] = float(A[i,j])", "	M = numpy.matrix([[float(A[i, j]) for j in range(n)] for i in range(m)])"))
ed('getrep', FA + 'mpf_get_representation.py',
   ("	n = t[2]\n	y = -t[1] if t[0] else t[1]\n\n	return y, n", "	sign, mantissa, exponent, _ = t\n	if sign:\n		mantissa = -mantissa\n	return mantissa, exponent"))
ed('matgetrep', FA + 'mpf_matrix_get_representation.py',
   ("	Y = numpy.zeros([A.rows, A.cols], dtype=object)\n	N = numpy.zeros([A.rows, A.cols], dtype=object)", "	shape = (A.rows, A.cols)\n	Y, N = numpy.zeros(shape, dtype=object), numpy.zeros(shape, dtype=object)"))
ed('tosollya', FA + 'mpf_matrix_to_sollya.py',
   ("	S = list()\n	for i in range(0, m):\n		for j in range(0,n):\n			s = sollya.SollyaObject(Y[i,j]) * 2**sollya.SollyaObject(N[i,j])\n			S.append(s)\n",
    "	S = [sollya.SollyaObject(Y[i,j]) * 2**sollya.SollyaObject(N[i,j]) for i in range(m) for j in range(n)]\n"))
ed('fromsollya', FA + 'sollya_matrix_to_numpy.py',
   ("	for i in range(0,m):\n		for j in range(0,n):\n			B[i,j] = float(sollya.round(A[i * n + j ], 53, sollya.RN))", "	for k, a in enumerate(A[:m * n]):\n		B[k // n, k % n] = float(sollya.round(a, 53, sollya.RN))"))
ed('writehex', FA + 'write_matrix_hex.py',
   ("		for j in range (0,m):\n			f_handle.write(M[i,j].hex() + delim)\n		f_handle.write('\\n')", "		f_handle.write(''.join(M[i,j].hex() + delim for j in range(m)) + '\\n')"))

# ---- dSS
ed('dss-lyap', LT + 'dSS.py',
   ("				X = solve_discrete_lyapunov(self._A.transpose(), self._C.transpose() * self._C)\n				self._Wo = mat(X)",
    "				Q = self._C.T * self._C\n				self._Wo = mat(solve_discrete_lyapunov(self._A.T, Q))"),
   ("				X = solve_discrete_lyapunov(self._A, self._B * self._B.transpose())\n				self._Wc = mat(X)",
    "				A, B = self.A, self.B\n				self._Wc = mat(solve_discrete_lyapunov(A, B * B.T))"),
   ("		if self._H2norm is not None:\n			return self._H2norm\n\n		# otherwise try to compute it\n		try:\n			# less errors when Wc is big and Wo is small\n			M = self._C * self.Wc * self._C.transpose() + self._D * self._D.transpose()\n			self._H2norm = sqrt(M.trace())[0,0]",
    "		if self._H2norm is not None:\n			return self._H2norm\n\n		# otherwise try to compute it\n		try:\n			# less errors when Wc is big and Wo is small\n			CWc = self.C * self.Wc\n			M = self._D * self._D.T + CWc * self.C.T\n			self._H2norm = sqrt(M.trace())[0,0]"),
   ("				self._DC_gain = self._C * inv(identity(self._n) - self._A) * self._B + self._D",
    "				R = inv(identity(self._n) - self._A)\n				self._DC_gain = self._D + self._C * (R * self._B)"),
   ("		if self._WCPG is None or output_info is not None:\n			self._WCPG = WCPG_ABCD(self._A, self._B, self._C, self._D, output_info)\n		return self._WCPG",
    "		if not (self._WCPG is None or output_info is not None):\n			return self._WCPG\n		self._WCPG = WCPG_ABCD(*(self._A, self._B, self._C, self._D), output_info)\n		return self._WCPG"))
ed('dtf', LT + 'dTF.py',
   ("		n = max(num.shape[1], den.shape[1])\n		num = mat(c_[num, zeros((1, n-num.shape[1]))])\n		den = mat(c_[den, zeros((1, n-den.shape[1]))])\n",
    "		n = max(num.shape[1], den.shape[1])\n		num, den = [mat(c_[x, zeros((1, n - x.shape[1]))]) for x in (num, den)]\n"),
   ("		if den[0, 0] == 0:\n			raise ValueError('dTF: The 1st coefficient of the denominator cannot be ZERO !')\n		else:\n			self._num = num/den[0, 0]\n			self._den = den/den[0, 0]\n",
    "		lead = den[0, 0]\n		if lead == 0:\n			raise ValueError('dTF: The 1st coefficient of the denominator cannot be ZERO !')\n		self._den = den/lead\n		self._num = num/lead\n"),
   ("		if type(other) in [int, float]:\n			return dTF(self._num * other, self._den)\n		elif isinstance(other, dTF):\n			numer = polymul(self.num.A1, other.num.A1)\n			denom = polymul(self.den.A1, other.den.A1)\n			return dTF(numer, denom)\n		else:\n			raise ValueError(\"Cannot multiply a dTF with a %s\", type(other))",
    "		if isinstance(other, dTF):\n			return dTF(polymul(other.num.A1, self.num.A1), polymul(other.den.A1, self.den.A1))\n		if type(other) not in (int, float):\n			raise ValueError(\"Cannot multiply a dTF with a %s\", type(other))\n		return dTF(other * self._num, self._den)"),
   ("			A = mat(diagflat(ones((1, self.order-1)), 1))\n			A[self.order-1, :] = fliplr(-self.den[0, 1:])\n			B = mat(r_[zeros((self.order-1, 1)), atleast_2d(1)])\n			C = mat(fliplr(self.num[0, 1:]) - fliplr(self.den[0, 1:])*self.num[0, 0])",
    "			n = self.order\n			A = mat(diagflat(ones((1, n-1)), 1))\n			a, b = self.den[0, 1:], self.num[0, 1:]\n			A[n-1, :] = -fliplr(a)\n			B = mat(r_[zeros((n-1, 1)), atleast_2d(1)])\n			C = mat(fliplr(b - a*self.num[0, 0]))"))
ed('filter', LT + 'Filter.py',
   ("		if stable is None:\n			# TODO: compute the eigenvalues to know if it is stable or not\n			self._stable = False\n		else:\n			self._stable = stable",
    "		# TODO: compute the eigenvalues to know if it is stable or not\n		self._stable = False if stable is None else stable"),
   ("		if A is not None and B is not None and C is not None and D is not None:\n", "		if all(x is not None for x in (A, B, C, D)):\n"),
   ("		if self._dTF:\n			return self._dTF.order\n		else:\n			return self._dSS.n", "		return self._dTF.order if self._dTF else self._dSS.n"))
ed('butter', LT + 'Butter.py',
   ("	order = randint(*n)\n	if onlyEven and order % 2 == 1:\n		order += -1 if order > n[0] else 1		# stay in the range",
    "	low, high = n\n	order = randint(low, high)\n	if onlyEven and order % 2:\n		if order == low:\n			order = order + 1\n		else:\n			order = order - 1"),
   ("		Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]\n		Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]\n		while Wn2 <= Wn1:\n			Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]\n			Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]\n		W = [Wn1, Wn2]",
    "		while True:\n			Wn1, Wn2 = [(w[1] - w[0]) * random_sample() + w[0] for w in (W1, W2)]\n			if Wn1 < Wn2:\n				break\n		W = [Wn1, Wn2]"))
ed('gabarit', LT + 'Gabarit.py',
   ("			self._passGains = (Gain[0], Gain[1]) if Gain[0] < Gain[1] else (Gain[1], Gain[0])", "			self._passGains = tuple(sorted(Gain[:2]))"),
   ("			passBands = [b.isPassBand for b in self._bands]\n			if len(self._bands) == 2 and passBands == [True, False]:\n				self._type = 'lowpass'\n			elif len(self._bands) == 2 and passBands == [False, True]:\n				self._type = 'highpass'\n			elif len(self._bands) == 3 and passBands == [True, False, True]:\n				self._type = 'bandstop'\n			elif len(self._bands) == 3 and passBands == [False, True, False]:\n				self._type = 'bandpass'\n			else:\n				self._type = 'multiband'\n",
    "			shapes = {(True, False): 'lowpass', (False, True): 'highpass', (True, False, True): 'bandstop', (False, True, False): 'bandpass'}\n			self._type = shapes.get(tuple(b.isPassBand for b in self._bands), 'multiband')\n"),
   ("		return max(b.passGains[1] if b.isPassBand else b.stopGain for b in self._bands)", "		gains = []\n		for b in self._bands:\n			gains.append(b.passGains[1] if b.isPassBand else b.stopGain)\n		return max(gains)"),
   ("	maxError = 0\n	for b in dict(res)[\"results\"]:  # for every band\n		okay = dict(b)[\"okay\"]\n		if not okay:\n			for i in dict(b)[\"issue\"]:  # for every issues\n				H = dict(i)[\"H\"]\n				betaInf = dict(dict(i)[\"specification\"])[\"betaInf\"]\n				betaSup = dict(dict(i)[\"specification\"])[\"betaSup\"]\n",
    "	maxError = 0\n	for b in dict(res)[\"results\"]:  # for every band\n		band = dict(b)\n		if band[\"okay\"]:\n			continue\n		if True:\n			for i in band[\"issue\"]:  # for every issues\n				issue = dict(i)\n				H = issue[\"H\"]\n				spec = dict(issue[\"specification\"])\n				betaInf, betaSup = spec[\"betaInf\"], spec[\"betaSup\"]\n"))
# ---- SIF and its mixins
ed('sif-istrivial', SI + 'SIF.py',
   ("	p = round(log(abs(x), 2))\n	alpha = log(abs(x), 2) - p\n", "	lx = log(abs(x), 2)\n	alpha = lx - round(lx)\n"),
   ("		isPnut = True\n		if all(tril(self.P,  -1) == 0):\n			isPnut = False\n		return isPnut", "		return not all(tril(self.P, -1) == 0)"),
   ("		return count_nonzero(self.dZ), count_nonzero(self.Z) - self.l - (self.l+self.n+self.p)", "		mul = count_nonzero(self.dZ)\n		rows = self.l + self.n + self.p\n		add = count_nonzero(self.Z) - rows - self.l\n		return mul, add"))
ed('fxp', SI + 'Realization_FxP.py',
   ("			msb = [int(mpmath.ceil(mpmath.log(x[0], 2))) for x in zeta_bar.tolist()]\n\n		return msb", "			msb = []\n			for x, in zeta_bar.tolist():\n				msb.append(int(mpmath.ceil(mpmath.log(x, 2))))\n		return msb"),
   ("			d = zeros(w.shape)\n			for i in range(w.size):\n				d[i] = 1 if w[i] < w_tilde[i] else 0\n			return d", "			d = zeros(w.shape)\n			for i in range(w.size):\n				if w[i] < w_tilde[i]:\n					d[i] = 1\n			return d"),
   ("			weq=[]\n			for j in range(self.l+self.n+self.p):\n				weq.append( int(max(ceil(log2(E[i,j]*(self.n+self.p+self.l)) - log2(eps[i,0])) for i in range(self.p)) ))\n			return weq",
    "			c = self.l + self.n + self.p\n			return [int(max(ceil(log2(c*E[i,j]) - log2(eps[i,0])) for i in range(self.p))) for j in range(c)]"),
   ("	if val.shape[1] == 1:\n", "	rows, cols = val.shape\n	if cols == 1:\n"))
ed('implem', SI + 'Realization_implementation.py',
   ("	if nbVar == 1:\n		return [baseName]\n	else:\n		return [baseName + \"[%d]\" % i for i in range(nbVar)]", "	return [baseName] if nbVar == 1 else [\"%s[%d]\" % (baseName, i) for i in range(nbVar)]"),
   ("		if p == 1:\n			cDict['OutVar'] = 'double'\n		else:\n			cDict['OutVar'] = 'void'\n			signature.append('double* y')\n\n		if q == 1:\n			signature.append('double u')\n		else:\n			signature.append('double* u')\n\n		signature.append('double* xk')",
    "		cDict['OutVar'] = 'double' if p == 1 else 'void'\n		if p != 1:\n			signature = ['double* y']\n		signature += ['double u' if q == 1 else 'double* u', 'double* xk']"),
   ("		if not isPlt:\n			cDict['Permutations'] += \"\\t//permutations\\n\"\n			for i in range(n):\n				cDict['Permutations'] += \"\\t\" + strXk[i] + \" = \" + strXkp[i] + \";\\n\"",
    "		if not isPlt:\n			cDict['Permutations'] = \"\\t//permutations\\n\" + \"\".join(\"\\t%s = %s;\\n\" % pair for pair in zip(strXk, strXkp))"))
ed('sop', 'fixif/SoP/SoP.py',
   ("		dp = []\n		for var, co in zip(self._varNames, self._constValues):\n			if co == 1:\n				dp.append(var)\n			elif co == -1:\n				dp.append('-' + var)\n			elif co:\n				dp.append((coefFormat % (co,) if coefFormat else float(co).hex()) + '*' + var)\n\n		S = \" + \".join(dp)\n		if S == \"\":\n			S = \"0\"\n		if self._resName == S:\n			return ''\n		else:\n			return",
    "		def term(co, var):\n			if co == 1:\n				return var\n			if co == -1:\n				return '-' + var\n			return '%s*%s' % (coefFormat % (co,) if coefFormat else float(co).hex(), var)\n\n		S = \" + \".join(term(co, var) for co, var in zip(self._constValues, self._varNames) if co != 0) or \"0\"\n		if S == self._resName:\n			return ''\n		else:\n			return"))
ed('varname', 'fixif/SoP/VarName.py',
   ("			if shift == 0:\n				s += '(k)'\n			else:\n				s += '(k%+d)' % (shift,)", "			s += '(k%+d)' % (shift,) if shift != 0 else '(k)'"))
# ---- structures
ed('structure', ST + 'Structure.py',
   ("		if self._options:\n			Ropt = {k: v[0] for k, v in self._options.items()}\n		else:\n			Ropt = {}\n", "		Ropt = {}\n		for k, v in (self._options or {}).items():\n			Ropt[k] = v[0]\n"),
   ("		if name in cls._allStructures:\n			return cls._allStructures[name]\n		else:\n			raise", "		try:\n			return cls._allStructures[name]\n		except KeyError:\n			raise"),
   ("			vl = (dict(zip(st.options, x)) for x in product(*st.options.values()))\n			for options in vl:\n				if st.canAcceptFilter(filt, **options):\n					yield st, options",
    "			names = list(st.options)\n			for x in product(*[st.options[k] for k in names]):\n				options = dict(zip(names, x))\n				if not st.canAcceptFilter(filt, **options):\n					continue\n				yield st, options"))
ed('simulink', ST + 'Simulink/diagram.py',
   ("		for eq in self.equations:\n			if eq.out == bsid:\n				return eq					\n		return None", "		return next((eq for eq in self.equations if eq.out == bsid), None)"),
   ("		tblocks = []\n		for sid in self.blocks.keys():\n			block = self.getblockbysid(sid)\n			if block.type == type:\n				tblocks.append(block)\n		return tblocks	", "		return [block for block in self.blocks.values() if block.type == type]"),
   ("				coeff = 1.0\n				# for a gain block : give right coeff for all inputs\n				if curblock.type == 'Gain':\n					coeff = curblock.gain\n", "				# for a gain block : give right coeff for all inputs\n				coeff = curblock.gain if curblock.type == 'Gain' else 1.0\n"))
ed('simulink-sif', ST + 'Simulink/sif.py',
   ("		for i in range(self.l):\n			for j in range(self.l):\n				if i == j:\n					self.J[i][j] = 1.0 \n", "		for i in range(self.l):\n			self.J[i][i] = 1.0\n"),
   ("		Mn = mat(self.l,self.n)\n		for i in range(self.l): \n			Mn[i] = self.M[lorder[i]]\n		self.M = Mn", "		self.M = [self.M[k] for k in lorder]"),
   ("		Kn = mat(self.n,self.l)\n		for i in range(self.n): \n			for j in range(self.l): \n				Kn[i][j] = self.K[i][lorder[j]]\n		self.K = Kn", "		self.K = [[row[k] for k in lorder] for row in self.K]"))
ed('blocks', ST + 'Simulink/blocks.py',
   ("		for c in signtext:\n			if c == '+' or c == '-':\n				self.inportsign.append(c)", "		self.inportsign.extend(c for c in signtext if c in '+-')"),
   ("		b = str.partition('#')\n		return b[0]		", "		return str.split('#')[0]"))
BATCH2 = os.path.join(VERIF, 'tools', 'refactors2.py')
if os.path.exists(BATCH2):
	exec(open(BATCH2).read())


def sh(cmd, **k):
	return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
	pat = sys.argv[1] if len(sys.argv) > 1 else '.'
	only = sys.argv[2].split(',') if len(sys.argv) > 2 else None
	d = tempfile.mkdtemp(prefix='refac', dir='/tmp')
	r = os.path.join(d, 'repo')
	shutil.copytree('/repo', r, symlinks=True)
	for name, f, prs in E:
		if not re.search(pat, name):
			continue
		p = os.path.join(r, f)
		t = open(p).read()
		for a, b in prs:
			if not t.count(a):
				print('%s: text found %d times: %r' % (name, t.count(a), a[:60]))
				continue
			t = t.replace(a, b, 1)
		open(p, 'w').write(t)
		c = sh([PY, '-m', 'py_compile', p])
		if c.returncode:
			print(name, 'does not compile', c.stdout[-300:])
	t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'fixif/func_aux/test/test_MPFmatrix.py'], cwd=r)
	print(t.stdout.strip().split('\n')[-1])
	checks = only or [c['property'] for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']]
	checks.sort(key=lambda c: (c not in ('C12', 'C15'), c))

	def one(c):
		k = sh([PY, os.path.join(VERIF, 'run.py'), c, '-v'], env=dict(os.environ, FIXIF_REPO=r, VERIF_EVIDENCE=os.path.join(d, 'ev'), VERIF_JOBS='2'))
		last = k.stdout.strip().split('\n')
		out = [l for l in last if l.startswith('%s: ' % c)]
		res = '%s exit %d %s' % (c, k.returncode, (out or last)[-1][:160])
		v = os.path.join(d, 'ev', c + '.violations.txt')
		if k.returncode and os.path.exists(v):
			res += '\n' + '\n'.join(x[:500] for x in open(v).read().split('\n')[:16])
		elif k.returncode:
			res += '\n' + k.stdout[-1500:]
		return res
	with ThreadPoolExecutor(5) as ex:
		for x in ex.map(one, checks):
			print(x, flush=True)
	shutil.rmtree(d)


main()
