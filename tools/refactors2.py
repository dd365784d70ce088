ed('dssmp-blocks', LT + 'dSSmp.py',
   ("		for i in range(0, self.n):\n			for j in range(0, self.n):\n				A[i, j] = self.A[i, j]\n\n		for i in range(0, S.n):\n			for j in range(0, S.n):\n				A[i + self.n, j + self.n] = S.A[i, j]\n\n		for i in range(0, self.n):\n			for j in range(0, self.q):\n				B[i, j] = self.B[i, j]\n		for i in range(0, S.n):\n			for j in range(0, self.q):\n				B[i + self.n, j] = S.B[i, j]\n\n		for i in range(0, self.p):\n			for j in range(0, self.n):\n				C[i, j] = self.C[i, j]\n\n		for i in range(0, self.p):\n			for j in range(0, S.n):\n				C[i, j + self.n] = S.C[i, j]\n",
    "		_place(A, self.A, 0, 0)\n		_place(A, S.A, self.n, self.n)\n		_place(B, self.B, 0, 0)\n		_place(B, S.B, self.n, 0)\n		_place(C, S.C, 0, self.n)\n		_place(C, self.C, 0, 0)\n"),
   ("class dSSmp(object):", "def _place(dest, block, r, c):\n	for i in range(block.rows):\n		for j in range(block.cols):\n			dest[r + i, c + j] = block[i, j]\n\n\nclass dSSmp(object):"),
   ("		if A.rows != A.cols:\n			raise ValueError('Cannot create dSSmp object: incorrect sizes')\n		else:\n			self._n = A.rows\n\n		if B.rows != self._n:\n			raise ValueError('Cannot create dSSmp object: incorrect sizes')\n		else:\n			self._q = B.cols\n\n		if C.cols != self._n:\n			raise ValueError('Cannot create dSSmp object: incorrect sizes')\n		else:\n			self._p = C.rows\n\n		if D.rows != self._p or D.cols != self._q:\n			raise ValueError('Cannot create dSSmp object: incorrect sizes')\n",
    "		n, p, q = A.rows, C.rows, B.cols\n		shapes = [(X.rows, X.cols) for X in (A, B, C, D)]\n		if shapes != [(n, n), (n, q), (p, n), (p, q)]:\n			raise ValueError('Cannot create dSSmp object: incorrect sizes')\n		self._n, self._p, self._q = n, p, q\n"))
ed('dssmp-numden', LT + 'dSSmp.py',
   ("		Q = mp_poly_product([-e for e in E])\n", "		roots = [-e for e in E]\n		Q = mp_poly_product(roots)\n"),
   ("			tmp_polyproduct = mp_poly_product([-e for e in E], i)\n			PP = PP + Cmp[0, i] * Bmp[i, 0] * tmp_polyproduct", "			residue = Bmp[i, 0] * Cmp[0, i]\n			PP += residue * mp_poly_product(roots, i)"),
   ("		if self.D[0, 0] != mpmath.mp.zero:\n			P = self.D[0, 0] * Q\n		else:\n			P = mpmath.mp.zeros(Q.rows, 1)\n\n		for i in range(1, P.rows):\n			P[i, 0] = P[i, 0] + PP[i - 1, 0]",
    "		P = Q * self.D[0, 0]\n\n		for i in range(P.rows - 1):\n			P[i + 1, 0] += PP[i, 0]"),
   ("		for i in range(0, P.rows):\n			b[i, 0] = P[i, 0].real\n			b[i, 0] = mpmath.fadd(b[i, 0], mpmath.mp.zero, prec=prec)\n		for i in range(0, Q.rows):\n			a[i, 0] = Q[i, 0].real\n			a[i, 0] = mpmath.fadd(a[i, 0], mpmath.mp.zero, prec=prec)\n",
    "		for dest, src in ((b, P), (a, Q)):\n			for i in range(0, src.rows):\n				dest[i, 0] = mpmath.fadd(src[i, 0].real, mpmath.mp.zero, prec=prec)\n"))
ed('dtfmp', LT + 'dTFmp.py',
   ("		num = mpmath.mp.zeros(n, 1)\n		den = mpmath.mp.zeros(n, 1)\n		for i in range(0, b.rows):\n			num[i, 0] = b[i, 0]\n		for i in range(0, a.rows):\n			den[i, 0] = a[i, 0]\n		a0 = den[0, 0]\n		b, a = num, den\n",
    "		b, a = _padded(b, n), _padded(a, n)\n		a0 = a[0, 0]\n"),
   ("class dTFmp(object):", "def _padded(v, n):\n	res = mpmath.mp.zeros(n, 1)\n	i = 0\n	while i < v.rows:\n		res[i, 0] = v[i, 0]\n		i += 1\n	return res\n\n\nclass dTFmp(object):"),
   ("		N = self.order + 1\n\n		A = mpmath.mp.zeros(N - 1, N - 1)\n		for i in range(1, N):\n			A[0, i - 1] = mpmath.fneg(self.den[i, 0], exact=True)\n		for i in range(1, N - 1):\n			A[i, i - 1] = mpmath.mp.one\n		B = mpmath.mp.zeros(N - 1, 1)",
    "		order = self.order\n		N = order + 1\n\n		A = mpmath.mp.zeros(order, order)\n		for j in range(order):\n			A[0, j] = mpmath.fneg(self.den[j + 1, 0], exact=True)\n			if j < order - 1:\n				A[j + 1, j] = mpmath.mp.one\n		B = mpmath.mp.zeros(order, 1)"))
ed('dss-arith', LT + 'dSS.py',
   ("		newA = numpy.concatenate((self.A, numpy.zeros([self.n, S.n])), axis=1)\n		tmp = numpy.concatenate((numpy.zeros([S.n, self.n]), S.A), axis=1)\n		newA = numpy.concatenate((newA, tmp), axis=0)\n\n		newB = numpy.concatenate((self.B, S.B), axis=0)\n		newC = numpy.concatenate((self.C, S.C), axis=1)\n		newD = self.D + S.D\n\n		return dSS(newA, newB, newC, newD)\n",
    "		return self._parallel(S, 1)\n"),
   ("		newA = numpy.concatenate((self.A, numpy.zeros([self.n, S.n])), axis=1)\n		tmp = numpy.concatenate((numpy.zeros([S.n, self.n]), S.A), axis=1)\n		newA = numpy.concatenate((newA, tmp), axis=0)\n\n		newB = numpy.concatenate((self.B, S.B), axis=0)\n		newC = numpy.concatenate((self.C, -S.C), axis=1)\n		newD = self.D - S.D\n\n		return dSS(newA, newB, newC, newD)\n",
    "		return self._parallel(S, -1)\n\n\n	def _parallel(self, S, sign):\n		newA = numpy.bmat([[self.A, zeros((self.n, S.n))], [zeros((S.n, self.n)), S.A]])\n		return dSS(newA, numpy.vstack((self.B, S.B)), numpy.hstack((self.C, sign * S.C)), self.D + sign * S.D)\n"),
   ("		amul = r_[c_[self.A, self.B*other.C], c_[zeros((n2, n1)), other.A]]\n		bmul = r_[self.B*other.D, other.B]\n		cmul = c_[self.C, self.D*other.C]\n",
    "		amul = numpy.bmat([[self.A, self.B*other.C], [zeros((n2, n1)), other.A]])\n		bmul = numpy.vstack([self.B*other.D, other.B])\n		cmul = numpy.hstack([self.C, self.D*other.C])\n"))
ed('dss-check', LT + 'dSS.py',
   ("		a1, a2 = self._A.shape\n		if a1 != a2:\n			raise ValueError('dSS: A is not a square matrix')\n		n = a1\n", "		n = self._A.shape[0]\n		if self._A.shape[1] != n:\n			raise ValueError('dSS: A is not a square matrix')\n"),
   ("		d1, d2 = self._D.shape\n		if d1 != outputs or d2 != inputs:\n", "		if self._D.shape != (outputs, inputs):\n"),
   ("		num, den = ss2tf(self._A, self._B, self._C, self._D)\n		return dTF(num[0], den)", "		tf = ss2tf(self._A, self._B, self._C, self._D)\n		return dTF(tf[0][0, :], tf[1])"),
   ("		newS = self\n		while newS.n > 0:\n			# states that are not always equal to zero\n			l = [i for i in range(newS.n) if numpy.any(newS._A[i, :]) or numpy.any(newS._B[i, :])]\n			if len(l) == newS.n:\n				break\n			newS = dSS(newS._A[l, :][:, l], newS._B[l, :], newS._C[:, l], newS._D)\n\n		return newS\n",
    "		kept = []\n		for i in range(self.n):\n			if numpy.any(self._A[i, :]) or numpy.any(self._B[i, :]):\n				kept.append(i)\n		if len(kept) == self.n:\n			return self\n		return dSS(self._A[kept, :][:, kept], self._B[kept, :], self._C[:, kept], self._D).simplify()\n"),
   ("		i, j = args[0]\n", "		(i, j) = args[0]\n") if False else ("		return dSS(self._A, self._B[:, args[0][1]], self._C[args[0][0], :], self._D[args[0][0], args[0][1]])", "		rows, cols = args[0]\n		return dSS(self._A, self._B[:, cols], self._C[rows, :], self._D[rows, cols])"))
ed('random-dss', LT + 'dSS.py',
   ("	while i < n:\n\n		if poles[i].imag == 0:\n			A[i, i] = poles[i].real\n			i += 1\n\n		else:\n			A[i, i] = A[i + 1, i + 1] = poles[i].real\n			A[i, i + 1] = poles[i].imag\n			A[i + 1, i] = -poles[i].imag\n			i += 2\n",
    "	while i < n:\n		pole = poles[i]\n		A[i, i] = pole.real\n		if pole.imag != 0:\n			A[i + 1, i + 1] = pole.real\n			A[i, i + 1], A[i + 1, i] = pole.imag, -pole.imag\n			i += 1\n		i += 1\n"))
ed('sif-z', SI + 'SIF.py',
   ("		AZ = self.K * self._invJ * self.M + self.P\n		BZ = self.K * self._invJ * self.N + self.Q\n		CZ = self.L * self._invJ * self.M + self.R\n		DZ = self.L * self._invJ * self.N + self.S\n",
    "		KiJ, LiJ = self.K * self._invJ, self.L * self._invJ\n		AZ = self.P + KiJ * self.M\n		BZ = self.Q + KiJ * self.N\n		CZ = self.R + LiJ * self.M\n		DZ = self.S + LiJ * self.N\n"),
   ("		self._M1 = c_[self.K * self._invJ, eye(self._n), zeros((self._n, self._p))]\n", "		self._M1 = np.hstack([self.K * self._invJ, np.identity(self._n), zeros((self._n, self._p))])\n"),
   ("		self._N1 = r_[self._invJ * self.M, self.AZ, self.CZ]\n", "		self._N1 = np.bmat([[self._invJ * self.M], [self.AZ], [self.CZ]])\n"),
   ("		Zcomp = copy(self._Z)\n		Zcomp[0:self._l, 0:self._l] = -self.J + eye(self._l)  # to set to 0 the diagonal terms of J\n		return Zcomp\n",
    "		res = self._Z.copy()\n		l = self._l\n		res[:l, :l] = eye(l) - self.J\n		return res\n"),
   ("		return -self._Z[0: self._l, 0: self._l]\n", "		l = self._l\n		return -self._Z[:l, :l]\n"),
   ("	def S(self):\n		return self._Z[self._l + self._n: self._l + self._n + self._p, self._l + self._n: self._l + self._n + self._q]\n", "	def S(self):\n		k = self._l + self._n\n		return self._Z[k:, k:]\n"),
   ("		for i in range(N):\n			xkp1 = self.AZ*xk + self.BZ*u[:, i]\n			y[:, i] = self.CZ*xk + self.DZ*u[:, i]\n			xk = xkp1\n",
    "		A, B, C, D = self.AZ, self.BZ, self.CZ, self.DZ\n		for i in range(N):\n			uk = u[:, i]\n			y[:, i] = C*xk + D*uk\n			xk = A*xk + B*uk\n"))
ed('sif-exact', SI + 'SIF.py',
   ("		# AZ = K*inv(J)*M+P\n		AZ = mpf_matrix_fmul(invJ, self.M)\n		AZ = mpf_matrix_fmul(self.K, AZ)\n		AZ = mpf_matrix_fadd(AZ, self.P)\n\n		# BZ = K*inv(J)*N+Q\n		BZ = mpf_matrix_fmul(invJ, self.N)\n		BZ = mpf_matrix_fmul(self.K, BZ)\n		BZ = mpf_matrix_fadd(BZ, self.Q)\n",
    "		def through(left, right, direct):\n			return mpf_matrix_fadd(mpf_matrix_fmul(mpf_matrix_fmul(left, invJ), right), direct)\n\n		AZ = through(self.K, self.M, self.P)\n		BZ = through(self.K, self.N, self.Q)\n"))
ed('sif-delta', SI + 'SIF.py',
   ("		E1 = np.bmat([np.eye(self.l, self.l), np.zeros([self.l, self.n]), np.zeros([self.l, self.p])])  # N\n		E2 = np.bmat([np.zeros([self.n, self.l]), np.eye(self.n, self.n), np.zeros([self.n, self.p])])  # Q\n		E3 = np.bmat([np.zeros([self.p, self.l]), np.zeros([self.p, self.n]), np.eye(self.p, self.p)])  # S\n",
    "		E = np.matrix(np.eye(self.l + self.n + self.p))\n		E1 = E[:self.l, :]\n		E2 = E[self.l:self.l + self.n, :]\n		E3 = E[self.l + self.n:, :]\n"),
   ("			C1 = np.bmat([[np.eye(self.l, self.l)], [np.zeros([self.n, self.l])], [self.L]])  # L\n", "			C1 = np.vstack((eye(self.l), zeros((self.n, self.l)), self.L))\n"),
   ("		isPnut = True\n		if all(tril(self.P,  -1) == 0):\n			isPnut = False\n		return isPnut\n", "		return bool(np.any(tril(self.P, -1)))\n"),
   ("		return count_nonzero(self.dZ), count_nonzero(self.Z) - self.l - (self.l+self.n+self.p)", "		additions = count_nonzero(self.Z) - 2*self.l - self.n - self.p\n		return count_nonzero(self.dZ), additions"))
ed('sif-sizes', SI + 'SIF.py',
   ("	l = []  # we keep the size of the matrices in 2-element lists (size+name of the matrix that gives the size)\n	n = []\n	p = []\n	q = []\n	matrices = [(\"J\", l, l), (\"K\", n, l), (\"L\", p, l), (\"M\", l, n), (\"N\", l, q), (\"P\", n, n), (\"Q\", n, q), (\"R\", p, n), (\"S\", p, q)]\n",
    "	sizes = {}\n	letters = [('J', 'l', 'l'), ('K', 'n', 'l'), ('L', 'p', 'l'), ('M', 'l', 'n'), ('N', 'l', 'q'), ('P', 'n', 'n'), ('Q', 'n', 'q'), ('R', 'p', 'n'), ('S', 'p', 'q')]\n"),
   ("	for X, (name, a, b) in zip(JtoS, matrices):\n		X = mat(X)\n		# get the size if it's the first time we see them\n		if not a:\n			a.extend([X.shape[0], name])\n		if not b:\n			b.extend([X.shape[1], name])\n		# check for consistency\n		if (a[0], b[0]) != X.shape:\n			pb = a[1] if a[0] != X.shape[0] else b[1]\n			raise ValueError(\"The matrix %s is a %dx%d matrix, instead of being a %dx%d matrix (to be consistent with matrix %s)\", name, X.shape[0], X.shape[1], a[0], b[0], pb)\n\n	return l[0], n[0], p[0], q[0]\n",
    "	for X, (name, a, b) in zip(JtoS, letters):\n		shape = mat(X).shape\n		for letter, size in zip((a, b), shape):\n			if sizes.setdefault(letter, size) != size:\n				raise ValueError('The matrix %s has an inconsistent size' % name)\n\n	return tuple(sizes[letter] for letter in 'lnpq')\n"))
ed('sensib', SI + 'SIF_sensibility.py',
   ("	for i in range(0, W.shape[0]):\n		for j in range(0, W.shape[1]):\n			if not (W[i, j] == 0):\n				MX[i, j] = (G[:, i] * H[j, :]).H2norm()\n\n	MX = multiply(MX, W)\n\n	N = norm(MX, 'fro')\n	N = N * N\n\n	return N, MX\n",
    "	rows, cols = W.shape\n	for k in range(rows * cols):\n		i, j = k // cols, k % cols\n		if W[i, j] != 0:\n			product = G[:, i] * H[j, :]\n			MX[i, j] = product.H2norm()\n\n	MX = multiply(W, MX)\n\n	return norm(MX, 'fro') ** 2, MX\n"),
   ("	for k in range(0, mylambda.shape[1]):\n		if moduli == 1:\n			dlk_dZ[:, :, k] = transpose(M1) * (1 / abs(mylambda[0, k]) * real(\n				conj(mylambda[0, k] * conj(My[:, k]) * transpose(Mx[:, k])))) * transpose(M2)\n		else:\n			dlk_dZ[:, :, k] = transpose(M1) * (conj(My[:, k]) * transpose(Mx[:, k])) * transpose(M2)\n",
    "	for k in range(0, mylambda.shape[1]):\n		outer = conj(My[:, k]) * transpose(Mx[:, k])\n		if moduli == 1:\n			outer = real(conj(mylambda[0, k] * outer)) / abs(mylambda[0, k])\n		dlk_dZ[:, :, k] = transpose(M1) * outer * transpose(M2)\n"))
ed('tilde', SI + 'SIF_tilde_error.py',
   ("	M_tmp = [[M[i, j] for j in range(M.shape[1])]for i in range(M.shape[0])]\n	M_cst = convertToFixAux(M_tmp, w)\n	M_tilde = np.matrix([[M_cst[i][j] for j in range(len(M_tmp[0]))] for i in range(len(M_tmp))])\n	return np.matrix(M_tilde)",
    "	return np.matrix([[convertToFixAux(M[i, j], w) for j in range(M.shape[1])] for i in range(M.shape[0])])"),
   ("	mM = []\n	if not isinstance(M, list) and not isinstance(M, np.matrix):", "	if not isinstance(M, (list, np.matrix)):"),
   ("		for i in range(len(M)):\n			mM.append(convertToFixAux(M[i], w))\n	return mM", "		return [convertToFixAux(x, w) for x in M]"),
   ("	J = np.bmat([[S.J, np.zeros(S.J.shape)], [J_tilde-S.J, J_tilde]])", "	J = _doubled(S.J, J_tilde)"),
   ("	P = np.bmat([[S.P, np.zeros(S.P.shape)], [P_tilde-S.P, P_tilde]])", "	P = _doubled(S.P, P_tilde)"),
   ("def SIFH_to_SIFHstar(", "def _doubled(X, X_tilde):\n	return np.bmat([[X, np.zeros(X.shape)], [X_tilde-X, X_tilde]])\n\n\ndef SIFH_to_SIFHstar("))
ed('dfi', ST + 'DirectForms/DFI.py',
   ("	P = mat(r_[c_[diagflat(ones((1, n - 1)), -1), zeros((n, n))], c_[zeros((n, n)), diagflat(ones((1, n - 1)), -1)]])\n", "	P = mat(zeros((2 * n, 2 * n)))\n	P[:n, :n] = eye(n, k=-1)\n	P[n:, n:] = eye(n, k=-1)\n"),
   ("		T = mat(rot90(eye(2 * n)))\n		invT = inv(T)\n\n		K = invT * K\n		M = M * T\n		P = invT * P * T\n		Q = invT * Q\n", "		K = K[::-1, :]\n		M = M[:, ::-1]\n		P = P[::-1, ::-1]\n		Q = Q[::-1, :]\n"),
   ("	var_X = [('y', None, -i) for i in range(n, 0, -1)]		# x_i(k) := y(k-i)\n	var_X.extend([('u', None, -i) for i in range(n, 0, -1)])		# x_{i+n}(k) := u(k-i)\n", "	var_X = [(name, None, -i) for name in ('y', 'u') for i in range(n, 0, -1)]\n"))
ed('dfii', ST + 'DirectForms/DFII.py',
   ("		T = mat(rot90(eye(n)))\n		invT = inv(T)\n\n		K = invT * K\n		M = M * T\n		P = invT * P * T\n		Q = invT * Q\n", "		K, M, P, Q = K[::-1, :], M[:, ::-1], P[::-1, ::-1], Q[::-1, :]\n"),
   ("	M = mat(fliplr(-den[0, 1:]))\n", "	M = mat(-den[0, :0:-1])\n"),
   ("	if transposed:\n		var_T = None\n		var_X = None\n	else:\n		var_T", "	var_T, var_X = None, None\n	if not transposed:\n		var_T"))
ed('ss', ST + 'State_Space/State_Space.py',
   ("	if form is None:\n		S = filt.dSS\n	elif form == 'balanced':\n		S = filt.dSS.balanced()\n	elif form == 'ctrl' or form == 'obs':\n		S = filt.dTF.to_dSS(form)\n	else:\n		raise", "	if form in ('ctrl', 'obs'):\n		S = filt.dTF.to_dSS(form)\n	elif form == 'balanced':\n		S = filt.dSS.balanced()\n	elif form is None:\n		S = filt.dSS\n	else:\n		raise"),
   ("	l = 0\n	JtoS = (eye(l), zeros((n, l)), zeros((p, l)), zeros((l, n)), zeros((l, q)), S.A, S.B, S.C, S.D)\n\n	return {\"JtoS\": JtoS}", "	empty = [zeros(shape) for shape in ((0, 0), (n, 0), (p, 0), (0, n), (0, q))]\n	return dict(JtoS=tuple(empty + [S.A, S.B, S.C, S.D]))"),
   ("	if form == 'balanced':\n		return filt.isStable()\n	if form == 'ctrl' or form == 'obs':\n		return filt.isSISO()\n\n	# otherwise\n	return True\n", "	conditions = {'balanced': filt.isStable, 'ctrl': filt.isSISO, 'obs': filt.isSISO}\n	return conditions[form]() if form in conditions else True\n"))
ed('rho', ST + 'rhoDFIIt/rhoDFIIt.py',
   ("	Tbar = mat(zeros((n + 1, n + 1)))\n	Tbar[n, n] = 1\n	for i in range(n - 1, -1, -1):\n		Tbar[i, i:n + 1] = poly(gamma[0, i:n].A1)\n\n	# Valpha_bar, Vbeta_bar\n	Valpha_bar = transpose(inv(Tbar)) * Va\n	Vbeta_bar = transpose(inv(Tbar)) * Vb\n",
    "	Tbar = mat(eye(n + 1))\n	for i in range(n):\n		Tbar[i, i:] = poly(gamma[0, i:].A1)\n	invTbarT = inv(transpose(Tbar))\n\n	# Valpha_bar, Vbeta_bar\n	Valpha_bar = invTbarT * Va\n	Vbeta_bar = invTbarT * Vb\n"),
   ("	return 2 ** floor(log(x, 2))\n", "	e = floor(log(x, 2))\n	return 2 ** e\n"))
ed('algo', SI + 'Realization_algorithms.py',
   ("			v = [v for v in self._varNameT if v.hasSurnameWithIndex()]\n			v.extend([v for v in self._varNameX if v.hasSurnameWithIndex()])\n			if len(v) > 0:\n				raise", "			if any(v.hasSurnameWithIndex() for v in self._varNameT + self._varNameX):\n				raise"),
   ("		algoStr = []\n		for i in range(self._l + self._n + self._p):\n			# sum of product\n			sop1 = SoP(self.Zcomp[i, :].tolist()[0], varTXU, varTXY[i])     # varTXU is used for dst and the comparison with src\n",
    "		algoStr = []\n		rows = self.Zcomp.tolist()\n		for i, row in enumerate(rows):\n			# sum of product\n			sop1 = SoP(row, varTXU, varTXY[i])     # varTXU is used for dst and the comparison with src\n"),
   ("				sop2 = SoP(self.Zcomp[i, :].tolist()[0], varTXUnoTime, varTXYnoTime[i])\n", "				sop2 = SoP(row, varTXUnoTime, varTXYnoTime[i])\n"),
   ("			for v in self._varNameX:\n				algoStr.append(\"%s <- %s\" % tuple(v.toStr(withTime=False, withSurname=withSurname, suffix=suffix) for suffix in ('', 'p')))\n",
    "			algoStr += [v.toStr(withTime=False, withSurname=withSurname) + ' <- ' + v.toStr(withTime=False, withSurname=withSurname, suffix='p') for v in self._varNameX]\n"))
ed('elliptic', LT + 'Elliptic.py',
   ("		Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]\n		Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]\n		while Wn2 <= Wn1:\n			Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]\n			Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]\n		W = [Wn1, Wn2]\n	else:\n		# choose 1 frequency\n		W = (Wc[1] - Wc[0]) * random_sample() + Wc[0]\n",
    "		while True:\n			Wn1, Wn2 = _within(W1), _within(W2)\n			if Wn1 < Wn2:\n				break\n		W = [Wn1, Wn2]\n	else:\n		# choose 1 frequency\n		W = _within(Wc)\n"),
   ("class Elliptic(Filter):", "def _within(bounds):\n	low, high = bounds\n	return low + random_sample() * (high - low)\n\n\nclass Elliptic(Filter):"))
ed('gab-type', LT + 'Gabarit.py',
   ("			passBands = [b.isPassBand for b in self._bands]\n			if len(self._bands) == 2 and passBands == [True, False]:\n				self._type = 'lowpass'\n			elif len(self._bands) == 2 and passBands == [False, True]:\n				self._type = 'highpass'\n			elif len(self._bands) == 3 and passBands == [True, False, True]:\n				self._type = 'bandstop'\n			elif len(self._bands) == 3 and passBands == [False, True, False]:\n				self._type = 'bandpass'\n			else:\n				self._type = 'multiband'\n",
    "			types = {(True, False): 'lowpass', (False, True): 'highpass', (True, False, True): 'bandstop', (False, True, False): 'bandpass'}\n			self._type = types.get(tuple(b.isPassBand for b in self._bands), 'multiband')\n"),
   ("		return max(b.passGains[1] if b.isPassBand else b.stopGain for b in self._bands)\n", "		gains = []\n		for b in self._bands:\n			gains.append(b.passGains[-1] if b.isPassBand else b.stopGain)\n		return max(gains)\n"),
   ("			self._passGains = (Gain[0], Gain[1]) if Gain[0] < Gain[1] else (Gain[1], Gain[0])\n", "			self._passGains = min(Gain[0], Gain[1]), max(Gain[0], Gain[1])\n"),
   ("		self._bands = [Band(Fs, F1, F2, G) for (F1, F2), G in zip(Fbands, Abands)]\n		self._bands.sort()\n", "		bands = [Band(Fs, edges[0], edges[1], gain) for edges, gain in zip(Fbands, Abands)]\n		self._bands = sorted(bands)\n"))
ed('gab-margin', LT + 'Gabarit.py',
   ("			stopGain = self._stopGain-other if self._stopGain is not None else None\n			passGains = (self._passGains[0]-other, self._passGains[1]-other) if self._passGains else None\n",
    "			stopGain, passGains = None, None\n			if self._stopGain is not None:\n				stopGain = self._stopGain-other\n			if self._passGains:\n				passGains = tuple(g - other for g in self._passGains)\n"),
   ("			self._passGains = self._passGains[0] + margin, self._passGains[1] - margin\n", "			low, high = self._passGains\n			self._passGains = (low + margin, high - margin)\n"),
   ("			self._stopGain -= margin\n", "			self._stopGain = self._stopGain - margin\n"))
ed('gab-design', LT + 'Gabarit.py',
   ("		centerPassGain = max((b.passGains[0]+b.passGains[1])/2.0 for b in self._bands if b.isPassBand)\n", "		centers = [(b.passGains[0]+b.passGains[1])/2.0 for b in self._bands if b.isPassBand]\n		centerPassGain = max(centers)\n"),
   ("		bands = [b-centerPassGain for b in self._bands]\n		for b in bands:\n			b.applyDesignMargin(designMargin)\n", "		bands = []\n		for b in self._bands:\n			centered = b - centerPassGain\n			centered.applyDesignMargin(designMargin)\n			bands.append(centered)\n"),
   ("			num = num*10**(centerPassGain/20.0)\n", "			gain = 10**(centerPassGain/20.0)\n			num = gain * num\n"))
ed('rho-step4', ST + 'rhoDFIIt/rhoDFIIt.py',
   ("	if not transposed:\n		# matrices J, K, L, M, N, P, Q, R and S were for transposed form\n		K, M = M.transpose(), K.transpose()\n		P = P.transpose()\n		R, Q = Q.transpose(), R.transpose()\n		L, N = N.transpose(), L.transpose()\n		J = J.transpose()\n		S = S.transpose()  # no need to really do this, since S is a scalar\n",
    "	if not transposed:\n		J, K, L, M, N, P, Q, R, S = [X.transpose() for X in (J, M, N, K, L, P, R, Q, S)]\n"),
   ("	Valpha = transpose(inv(Ka * Tbar)) * Va\n	Vbeta = transpose(inv(Ka * Tbar)) * Vb\n", "	T = transpose(inv(Tbar * Ka))\n	Valpha, Vbeta = T * Va, T * Vb\n"),
   ("			P = mat(diagflat(gamma)) + mat(diagflat(ones((1, n - 1)), 1))\n", "			P = mat(diagflat(gamma) + eye(n, k=1))\n"))
ed('lgs', ST + 'LGS_LCW/LGS_LCW.py',
   ("	I = np.eye(Phi.shape[0])\n	A = (I + Phi) * inv(I - Phi)\n	B = sqrt(2) / 2 * (I + A) * K\n	C = sqrt(2) / 2 * L * (I + A)\n	d = D + C * inv(I + A) * B\n	return A, B, C, d",
    "	I = eye(Phi.shape[0])\n	A = (I + Phi) * inv(I - Phi)\n	IA = I + A\n	half = sqrt(2) / 2\n	B = half * (IA * K)\n	C = half * (L * IA)\n	return A, B, C, D + C * (inv(IA) * B)"),
   ("	K = Ze\n	for i in range(0, nn - 2):\n		K = np.c_[K, Ze]\n	K = np.c_[K, I]\n	L = np.matrix(np.zeros([1, n * nn]))", "	K = np.c_[np.matrix(np.zeros([n, n * (nn - 1)])), I]\n	L = np.matrix(np.zeros([1, n * nn]))"))
