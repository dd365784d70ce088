"""C15: generated algorithms"""
import os
import re
from fractions import Fraction
from .common import *
from ..values import *

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of the code generators over symbolic coefficients (each sum of products a token holding its coefficients, variables and '
               'result); the text obtained is parsed and executed over the polynomials of the coefficients, and compared with the recurrence of the realization')
SOURCES = ('SoP', 'SIF')
F = 'fixif/SIF/Realization_algorithms.py::R_algorithm.'
G = 'fixif/SIF/Realization_implementation.py::R_implementation.'
T = 'fixif/SoP/SoP.py::SoP.'

REF = '''
class Sum:
	def __init__(self, constants, varNames, resName):
		self.constants, self.varNames, self.resName = constants, varNames, resName
	def toAlgoStr(self, assign='<-', coefFormat=None):
		return token(self.constants, self.varNames, self.resName, assign, coefFormat)

class Environment:
	def get_template(self, name):
		return Template(name)

class Template:
	def __init__(self, name):
		self.name = name
	def render(self, *a, **kw):
		for x in a:
			kw.update(x)
		return rendered(self.name, kw)

def token(a, b, c, d, e):
	return ''

def rendered(a, b):
	return ''

def terms(names, coefs, fmt):
	out = []
	for i in range(len(coefs)):
		if coefs[i] == 1:
			out.append(names[i])
		elif coefs[i] == -1:
			out.append('-' + names[i])
		elif coefs[i] != 0:
			if fmt is None:
				out.append(float(coefs[i]).hex() + '*' + names[i])
			else:
				out.append((fmt % coefs[i]) + '*' + names[i])
	return out
'''
SIZES = [(0, 1, 1, 1), (1, 1, 1, 1), (0, 2, 1, 1), (2, 2, 1, 1), (0, 2, 2, 1), (1, 2, 1, 2), (2, 1, 2, 2), (3, 3, 2, 2), (0, 3, 2, 3)]


def check(R):
    R.rule('sum', 'a sum displays exactly its non-zero coefficients, each with its own variable and value')
    R.rule('empty', 'a line is dropped only when it assigns a variable to itself')
    R.rule('defined', 'every variable is computed (or given) before it is used')
    R.rule('once', 'every intermediate variable, state and output is computed exactly once')
    R.rule('value', 'the algorithm computes the outputs and the next states of the realization')
    R.rule('declared', 'every variable of the C code is declared once and used with its type')
    R.rule('format', 'the coefficients are written in the requested format (exactly when there is none)')
    R.rule('surname', 'with surnames, a line is dropped only when the recurrence makes it an identity')
    R.rule('refused', 'surnames at several times are refused without time')
    R.rule('accepts', 'the algorithms are available for every realization')
    for n in (0, 1, 2, 3):
        for fmt in (None, '%f'):
            for kind in ('float', 'int'):
                R.case('SoP %d %s %s' % (n, fmt, kind), lambda c: sop(R, c, n, fmt, kind))
        R.case('SoP text %d' % n, lambda c: sop_str(R, c, n))
    R.case('SoP same', lambda c: sop_same(R, c))
    for names in (('x1', 'x12', 'x'), ('x12', 'x1', 'x'), ('x12', 'x', 'x1'), ('x[1]', 'x[11]', 'x[10]'), ('x1(k)', 'x12(k)', 'x2(k)')):
        for co in ((1, 1, 1), (1, -1, 2), (2, 1, -1), (-1, 2, 1), (2, 0, 1), (1, 1, 0), (0, 2, 2), (1 + TINY, 1 - TINY, -1 - TINY), (TINY, 2, -TINY), (1 / TINY, TINY, 1)):
            R.case('SoP %s %s' % (co, names), lambda c: sop_names(R, c, names, co))
    for size in SIZES:
        for P in patterns(size[1]):
            what = 'l=%d n=%d p=%d q=%d, state matrix %s' % (size + (label(P, size[1]),))
            for time in (True, False):
                for sur in (False, True):
                    R.case('text %s %s %s' % (what, time, sur), lambda c: algo(R, c, size, P, 'algorithmTxt', time, sur))
                    if time is False or sur is False:
                        R.case('LaTeX %s %s %s' % (what, time, sur), lambda c: algo(R, c, size, P, 'algorithmLaTeX', time, sur))
            for sn in ('str', 'index'):
                for latex in (False, True):
                    for time, sur in ((True, False), (False, False), (False, True) if sn == 'str' else (True, True)):
                        R.case('named %s %s %s %s %s' % (what, sn, latex, time, sur),
                               lambda c: algo(R, c, size, P, 'algorithmLaTeX' if latex else 'algorithmTxt', time, sur, sn))
            R.case('C %s' % what, lambda c: ccode(R, c, size, P))
    for name, opts in (('DFI', dict(nbSum=1)), ('DFI', dict(nbSum=2)), ('DFII', {})):
        for tr in (False, True):
            for k in (1, 2, 3):
                R.case('surnames %s %s %s %d' % (name, opts, tr, k), lambda c: surnames(R, c, name, dict(opts, transposed=tr), k))
    for which in 'TX':
        for l in (1, 2):
            R.case('refused %s %d' % (which, l), lambda c: refusal(R, c, which, l))


# ------------------------------------------------------------------ sums of products
def pieces(v):
    """the text of a string value as a list of characters and values"""
    return [v.v] if isinstance(v, Const) else list(v.parts)


def split_terms(v):
    """(result, [terms]) of 'res assign t + t + t'; a term is a tuple of pieces"""
    out, cur = [], []
    for p in pieces(v):
        if isinstance(p, str):
            bits = p.split(' + ')
            for i, b in enumerate(bits):
                if i:
                    out.append(tuple(cur))
                    cur = []
                if b:
                    cur.append(b)
        else:
            cur.append(p)
    out.append(tuple(cur))
    return out


def no_wrap(c):
    """the display on several lines does not change the words"""
    c.I.hooks[('ext', 'textwrap.wrap')] = lambda I, a, kw: I.alloc(ListO([('item', a[0])]))
    c.I.hooks[('ext', 'textwrap.fill')] = lambda I, a, kw: a[0]


def sop(R, c, n, fmt, kind, meth='toAlgoStr'):
    con = T + 'toAlgoStr'
    no_wrap(c)
    names = ['v%d' % i for i in range(n)]
    co = [Num(Sc.sym('c%d' % i), kind) for i in range(n)]
    what = '%d %s coefficients, %s' % (n, kind, 'format %s' % fmt if fmt else 'exact')

    def th():
        s = c.new(c.cls('fixif.SoP.SoP', 'SoP'), c.lst(*co), c.lst(*[Const(x) for x in names]), Const('res'))
        a = c.meth(s, 'toAlgoStr', Const('<-'), Const(fmt) if fmt else NONE)
        b = c.call(c.ref(REF, 'terms'), c.lst(*[Const(x) for x in names]), c.lst(*co), Const(fmt) if fmt else NONE)
        return Tup([a, b])
    for o in c.exceptions(c.run(th), 'accepts', con, what):
        compare_terms(R, c, o, con, what, 'res <- ')


def sop_names(R, c, names, co):
    """names that contain other names, coefficients that are equal, nearly units or nearly zero"""
    con = T + 'toAlgoStr'
    no_wrap(c)
    co = [Num(sc(x), 'float') for x in co]
    what = 'coefficients %s of %s' % (short(co), list(names))

    def th():
        s = c.new(c.cls('fixif.SoP.SoP', 'SoP'), c.lst(*co), c.lst(*[Const(x) for x in names]), Const('res'))
        a = c.meth(s, 'toAlgoStr', Const('<-'), NONE)
        b = c.call(c.ref(REF, 'terms'), c.lst(*[Const(x) for x in names]), c.lst(*co), NONE)
        return Tup([a, b])
    for o in c.exceptions(c.run(th), 'accepts', con, what):
        compare_terms(R, c, o, con, what, 'res <- ')


def compare_terms(R, c, o, con, what, head):
    a, b = o.value.items
    want = [tuple(pieces(s[1])) for s in o.st.heap[b.a].segs] if isinstance(b, Ref) else None
    if not isinstance(a, (Const, StrV)) or want is None:
        c.holds(o, None, 'sum', con, what, 'text not resolved: %s' % short(a))
        return
    t = split_terms(a)
    if not t[0] or not isinstance(t[0][0], str) or not t[0][0].startswith(head):
        c.holds(o, False, 'sum', con, what, 'gives %s' % short(a))
        return
    t[0] = tuple(x for x in (t[0][0][len(head):],) + t[0][1:] if x != '')
    norm = lambda ts: sorted((tuple(x if isinstance(x, str) else ('v',) + x.k for x in t) for t in ts), key=repr)
    if any(not isinstance(x, str) and (not isinstance(x, Opq) or x.k[0] not in ('fmt', 'numm', 'hex')) for y in t for x in y):
        c.holds(o, None, 'sum', con, what, 'text not resolved: %s' % short(a))
        return
    c.holds(o, norm(t) == norm(want or [('0',)]), 'sum', con, what, 'gives %s instead of %s' % (short(a), ' + '.join(map(str, want)) or '0'))


def sop_str(R, c, n):
    con = T + '__str__'
    no_wrap(c)
    names = ['v%d' % i for i in range(n)]
    co = [Num(Sc.sym('c%d' % i), 'float') for i in range(n)]

    def th():
        s = c.new(c.cls('fixif.SoP.SoP', 'SoP'), c.lst(*co), c.lst(*[Const(x) for x in names]), Const('res'))
        a = c.meth(s, '__str__')
        b = c.call(c.ref(REF, 'terms'), c.lst(*[Const(x) for x in names]), c.lst(*co), Const('%4f'))
        return Tup([a, b])
    what = 'display of %d coefficients' % n
    for o in c.exceptions(c.run(th), 'accepts', con, what):
        compare_terms(R, c, o, con, what, 'res <- ')


def sop_same(R, c):
    """x <- x is dropped, and only that"""
    con = T + 'toAlgoStr'
    no_wrap(c)
    for names, co, empty in ((['res', 'v'], [1, 0], True), (['v', 'res'], [0, 1], True), (['res', 'v'], [-1, 0], False), (['res', 'v'], [1, 1], False),
                             (['res', 'v'], [0, 1], False), (['res', 'v'], [0, 0], False), (['res', 'v'], [2, 0], False), (['v', 'res'], [1, 0], False)):
        for assign in ('<-', ''):
            what = 'coefficients %s of %s' % (co, names)

            def th():
                s = c.new(c.cls('fixif.SoP.SoP', 'SoP'), c.lst(*[Num(sc(x), 'float') for x in co]), c.lst(*[Const(x) for x in names]), Const('res'))
                return c.meth(s, 'toAlgoStr', Const(assign))
            for o in c.exceptions(c.run(th), 'accepts', con, what):
                v = o.value
                got = isinstance(v, Const) and v.v == ''
                c.holds(o, got == empty if isinstance(v, (Const, StrV)) else None, 'empty', con, what, 'gives %s' % short(v))


# ------------------------------------------------------------------ realizations of given sizes
TINY = Fraction(1, 2 ** 50)


def patterns(n):
    """state matrices: full, upper triangular, one coefficient below the diagonal"""
    out = ['full', 'upper']
    if n > 1:
        out.append('tiny')
        out.append((n - 1, 0))
        out.append((1, 0))
    if n > 2:
        out.append((2, 1))
    out = list(dict.fromkeys(out))
    return out if n > 1 else ['upper']


def label(P, n):
    return 'very small under the diagonal' if P == 'tiny' else P if isinstance(P, str) else 'upper triangular but P[%d,%d]' % P


def coef(name, i, j):
    return entry(mnamed(name, sc(9), sc(9)), sc(i), sc(j), None)


class Real:
    """a realization whose coefficients are symbols (or zero)"""

    def __init__(self, c, size, P):
        l, n, p, q = self.size = size
        d = dict(l=l, n=n, p=p, q=q)
        self.v = {}
        for x in NAMES:
            r, k = SHAPES[x]
            self.v[x] = [[self.coef(c, x, i, j, P) for j in range(d[k])] for i in range(d[r])]
        self.c = c

    def coef(self, c, x, i, j, P):
        if x == 'J':
            return ONE if i == j else ZERO if i < j else Sc.sym('J%d%d' % (i, j))
        if x == 'P' and i > j and P == 'tiny':
            return sc(TINY * (1 + i + 2 * j))
        if x == 'P' and i > j and P != 'full' and P != (i, j):
            return ZERO
        if x == 'P' and i > j:
            return sc(3 + i + 2 * j)
        return Sc.sym('%s%d%d' % (x, i, j))

    def mat(self, x):
        from ..dom import mvstack, mhstack, mscalar, mzero
        d = dict(zip('lnpq', self.size))
        r, k = SHAPES[x]
        if not d[r] or not d[k]:
            return mzero(sc(d[r]), sc(d[k]))
        B = self.c.I.B
        rows = [mhstack([cell(v) for v in row], B) if len(row) > 1 else cell(row[0]) for row in self.v[x]]
        return mvstack(rows, B) if len(rows) > 1 else rows[0]

    def build(self, **kw):
        c = self.c
        fl = c.new(c.cls('fixif.LTI.Filter', 'Filter'), ss=c.I.hooks['dss'])
        return c.new(c.cls('fixif.SIF.Realization', 'Realization'), fl, Tup([c.I.arr('matrix', self.mat(x), 2) for x in NAMES]), **kw)

    def step(self, x, u):
        """(intermediate variables, next states, outputs) for the states and inputs"""
        l, n, p, q = self.size
        v = self.v
        dot = lambda row, w: sum((a * b for a, b in zip(row, w)), ZERO)
        t = []
        for i in range(l):
            t.append(dot(v['M'][i], x) + dot(v['N'][i], u) - dot(v['J'][i][:i], t))
        xp = [dot(v['K'][i], t) + dot(v['P'][i], x) + dot(v['Q'][i], u) for i in range(n)]
        y = [dot(v['L'][i], t) + dot(v['R'][i], x) + dot(v['S'][i], u) for i in range(p)]
        return t, xp, y

    def row(self, kind, i):
        v = self.v
        if kind == 't':
            return [-a for a in v['J'][i][:i]] + [ZERO] * (self.size[0] - i) + v['M'][i] + v['N'][i]
        return v['K'][i] + v['P'][i] + v['Q'][i] if kind == 'x' else v['L'][i] + v['R'][i] + v['S'][i]


def cell(s):
    from ..dom import mscalar
    return mscalar(s) if s.cval() is None or s.cval() not in (0,) else mzero(ONE, ONE)


class Bad(Exception):
    def __init__(self, rule, msg, ok=False):
        self.rule, self.msg, self.ok = rule, msg, ok


def instrument(c, rendered=None):
    toks = []
    SUM, ENV = c.ref(REF, 'Sum'), c.ref(REF, 'Environment')

    def items(I, x):
        if isinstance(x, Tup):
            return list(x.items)
        if isinstance(x, Ref) and isinstance(I.obj(x), ListO) and all(s[0] == 'item' for s in I.obj(x).segs):
            return [s[1] for s in I.obj(x).segs]
        return None

    def tok(I, a, kw):
        co, names, res, assign, fmt = a
        co, names = items(I, co), items(I, names)
        if co is not None and names is not None and len(co) == len(names) and all(isinstance(x, Num) for x in co) and isinstance(res, Const) \
                and all(isinstance(x, Const) for x in names):
            cs = [I.N(x.s) for x in co]
            on = [i for i, x in enumerate(cs) if x != ZERO]
            if len(on) == 1 and cs[on[0]] == ONE and names[on[0]].v == res.v:
                toks.append((cs, [x.v for x in names], res.v, assign, fmt))
                return Const('')
            toks.append((cs, [x.v for x in names], res.v, assign, fmt))
        else:
            toks.append(None)
        return Const('\x01%d\x02' % (len(toks) - 1))

    def rend(I, a, kw):
        rendered.append((a[0].v if isinstance(a[0], Const) else None, {k.v: v for k, v in I.obj(a[1]).items.items() if isinstance(k, Const)}))
        return Tup([Const('rendered'), Const(len(rendered) - 1)])
    c.I.hooks[(SUM.c.mod.name, 'token')] = tok
    c.I.hooks[(SUM.c.mod.name, 'rendered')] = rend
    c.I.hooks[('class', 'SoP')] = lambda I, a, kw: I.call(SUM, a, kw)
    for x in ('utf8tolatex', 'unicode_to_latex'):
        c.I.hooks[('ext', 'pylatexenc.latexencode.' + x)] = lambda I, a, kw: a[0]
    for x in ('jinja2.Environment', 'latex.jinja2.make_env', 'jinja2.environment.Environment'):
        c.I.hooks[('ext', x)] = lambda I, a, kw: I.call(ENV, [], {})
    return toks


def flat(v):
    """the text, or None"""
    if isinstance(v, Const) and isinstance(v.v, str):
        return v.v
    if isinstance(v, StrV):
        return ''.join(x if isinstance(x, str) else '\x03' for x in v.parts)
    return '\x03' if isinstance(v, Opq) else None


def run_sum(env, tk, done, res=None):
    """executes a sum of products"""
    cs, names, r, assign, fmt = tk
    s = ZERO
    for a, nm in zip(cs, names):
        if a == ZERO:
            continue
        if nm not in env:
            raise Bad('defined', '%s is used to compute %s before it is computed' % (nm, r))
        s = s + a * env[nm]
    done.append(r)
    env[r] = s


def the_filter(c):
    c.I.hooks['dss'] = new_dss(c)[0]


def given(c, sn, base, k):
    if sn == 'str':
        return c.lst(*[Const('%s%s' % (base, chr(97 + i))) for i in range(k)])
    return c.lst(*[Tup([Const('w' + base), Num(sc(i + 4), 'int'), Num(ZERO, 'int')]) for i in range(k)])


def algo(R, c, size, P, fn, time, sur, sn=None):
    con = F + fn
    l, n, p, q = size
    rendered = []
    toks = instrument(c, rendered)
    r = Real(c, size, P)
    latex = fn == 'algorithmLaTeX'
    for fmt in ('%f', None):
        what = 'l=%d n=%d p=%d q=%d, state matrix %s%s%s' % (size + (label(P, n), '' if time else ', without time', (', %s surnames%s' % (sn, '' if sur else ' not used')) if sn else ', with surnames' if sur else ''))

        def th():
            the_filter(c)
            kw = {}
            if sn:
                kw = {k: given(c, sn, b, m) for k, b, m in (('surnameVarT', 'T', l), ('surnameVarX', 'X', n)) if m}
            s = r.build(**kw)
            return c.meth(s, fn, coefFormat=Const(fmt) if fmt else NONE, withTime=Const(time), withSurname=Const(sur))
        for o in c.exceptions(c.run(th), 'accepts', con, what):
            v = o.value
            if latex:
                if not (isinstance(v, Tup) and len(v.items) == 2 and v.items[0] == Const('rendered')):
                    c.holds(o, None, 'value', con, what, 'text not resolved')
                    continue
                d = rendered[v.items[1].v][1]
                v = d.get('computations')
            txt = flat(v) if v is not None else None
            if txt is None or '\x03' in txt:
                c.holds(o, None, 'value', con, what, 'text not resolved: %s' % short(v))
                continue
            judge_text(R, c, o, con, what, r, txt, toks, latex, time, sn if sur else None, fmt)


def var(base, i, nb, time, latex, suffix='', sn=None):
    idx = '' if nb == 1 else str(i + 1)
    if sn and base == 'x':
        base, idx = ('X' + chr(97 + i), '') if sn == 'str' else ('wX', str(i + 4))
    if latex and idx:
        s = base + '_{' + idx + '}' + suffix
    else:
        s = base + idx + suffix
    s += time
    return '$' + s + '$' if latex else s


def judge_text(R, c, o, con, what, r, txt, toks, latex, time, sn, fmt):
    l, n, p, q = r.size
    now, nxt = ('(k)', '(k+1)') if time else ('', '')
    x = [Sc.sym('x%d' % i) for i in range(n)]
    u = [Sc.sym('u%d' % i) for i in range(q)]
    env = {var('x', i, n, now, latex, '', sn): x[i] for i in range(n)}
    env.update({var('u', i, q, now, latex): u[i] for i in range(q)})
    t, xp, y = r.step(x, u)
    done, fmts = [], []
    try:
        for line in txt.split('\n'):
            line = line.strip()
            if latex and line.endswith('\\\\'):
                line = line[:-2].strip()
            m = re.fullmatch('\x01(\\d+)\x02', line)
            if m:
                tk = toks[int(m.group(1))]
                if tk is None:
                    raise Bad('value', 'coefficients not resolved', None)
                run_sum(env, tk, done)
                fmts.append(tk)
                continue
            if not line or re.fullmatch(r'/ [\w ]+ /', line) or re.fullmatch(r'\\tcp\{.*\}', line):
                continue
            m = re.fullmatch(r'\$?(\S+?)\$?\s*(?:<-|\\leftarrow)\s*\$?(\S+?)\$?', line)
            if m and copy_back(env, m.group(1), m.group(2), n, latex, sn):
                continue
            raise Bad('value', 'line not understood: %r' % line, None)
        for nm in [var('y', i, p, now, latex) for i in range(p)]:
            if done.count(nm) != 1:
                raise Bad('once', '%s is computed %d times' % (nm, done.count(nm)))
        final = []
        for i in range(n):
            a, b = var('x', i, n, nxt, latex, '', sn), var('x', i, n, nxt, latex, 'p', sn)
            k = done.count(a) + done.count(b)
            if k != 1 and not (k == 0 and xp[i] == x[i]):
                raise Bad('once', 'state %d is computed %d times' % (i + 1, k))
            if time:
                final.append(env.get(a if a in done else b))
            else:
                final.append(env.get(a))
        rest = [nm for nm in done if nm not in [var('y', i, p, now, latex) for i in range(p)]]
        rest = [nm for nm in rest if not any(nm in (var('x', i, n, nxt, latex, '', sn), var('x', i, n, nxt, latex, 'p', sn)) for i in range(n))]
        if len(set(rest)) != len(rest) or len(rest) > l:
            raise Bad('once', 'intermediate variables computed: %s' % rest)
        R.ok('defined', con, what)
        R.ok('once', con, what)
        for i in range(n):
            if final[i] is None or c.I.N(final[i] - xp[i]) != ZERO:
                raise Bad('value', 'next value of state %d: %s instead of %s' % (i + 1, short(final[i], 120), short(xp[i], 120)), False if final[i] is None else plain(final[i] - xp[i]))
        for i in range(p):
            got = env[var('y', i, p, now, latex)]
            if c.I.N(got - y[i]) != ZERO:
                if c.I.N(got - late_output(r, i, t, x, xp, u)) == ZERO and not time:
                    R.ok('value', con, what)
                    c.holds(o, False, 'value', F + '_algorithmCore', 'without time: the outputs read states already updated in place',
                            'output %d reads the next states (%s)' % (i + 1, what))
                    return
                raise Bad('value', 'output %d: %s instead of %s' % (i + 1, short(got, 120), short(y[i], 120)), plain(got - y[i]))
        R.ok('value', con, what)
        for tk in fmts:
            a, f = tk[3], tk[4]
            if not (isinstance(a, Const) and ('leftarrow' in a.v if latex else a.v.strip() == '<-')):
                raise Bad('format', 'assignment %s' % short(a))
            if f != (Const(fmt) if fmt else NONE):
                raise Bad('format', 'coefficients displayed with %s' % short(f))
        R.ok('format', con, what)
    except Bad as e:
        c.holds(o, e.ok, e.rule, con, what, e.msg)


def late_output(r, i, t, x, xp, u):
    dot = lambda row, w: sum((a * b for a, b in zip(row, w)), ZERO)
    return dot(r.v['L'][i], t) + dot(r.v['R'][i], xp) + dot(r.v['S'][i], u)


def copy_back(env, a, b, n, latex, sn=None):
    """x <- xp, for one state or for the array of the states"""
    if latex and a == 'x' and b == 'xp':
        for i in range(n):
            k = var('x', i, n, '', True, 'p', sn)
            if k in env:
                env[var('x', i, n, '', True, '', sn)] = env[k]
        return True
    if b in env:
        env[a] = env[b]
        return True
    return False


# ------------------------------------------------------------------ C
def template_text(R, name, values, start='{{', end='}}', folder='SIF/templates'):
    """the template with its values (a template made of text and values only)"""
    from jinja2 import Environment, nodes
    path = os.path.join(R.P.root, 'fixif', folder, name)
    kw = dict(trim_blocks=True, lstrip_blocks=True) if start == '{{' else dict(variable_start_string=start, variable_end_string=end, block_start_string='\\BLOCK{',
                                                                             block_end_string='}', comment_start_string='\\#{', comment_end_string='}')
    tree = Environment(**kw).parse(open(path).read())
    out = ''
    for x in tree.body:
        if not isinstance(x, nodes.Output):
            raise Bad('value', 'template statement %s' % type(x).__name__, None)
        for y in x.nodes:
            if isinstance(y, nodes.TemplateData):
                out += y.data
            elif isinstance(y, nodes.Name):
                v = flat(values[y.name]) if y.name in values else ''
                if v is None:
                    raise Bad('value', 'value of %s not resolved' % y.name, None)
                out += v
            else:
                raise Bad('value', 'template expression %s' % type(y).__name__, None)
    return out


def ccode(R, c, size, P):
    con = G + 'implementCdouble'
    rendered = []
    toks = instrument(c, rendered)
    r = Real(c, size, P)
    l, n, p, q = size
    what = 'l=%d n=%d p=%d q=%d, state matrix %s' % (size + (label(P, n),))

    def th():
        the_filter(c)
        return c.meth(r.build(), 'implementCdouble', Const('step'))
    for o in c.exceptions(c.run(th), 'accepts', con, what):
        v = o.value
        if not (isinstance(v, Tup) and len(v.items) == 2 and v.items[0] == Const('rendered')):
            c.holds(o, None, 'value', con, what, 'text not resolved')
            continue
        name, d = rendered[v.items[1].v]
        try:
            txt = template_text(R, name, d)
            judge_c(R, c, o, con, what, r, txt, toks)
        except Bad as e:
            c.holds(o, e.ok, e.rule, con, what, e.msg)


def judge_c(R, c, o, con, what, r, txt, toks):
    l, n, p, q = r.size
    txt = re.sub(r'/\*.*?\*/', ' ', txt, flags=re.S)
    txt = re.sub(r'//[^\n]*', ' ', txt)
    if '\x03' in txt:
        raise Bad('value', 'text not resolved', None)
    m = re.fullmatch(r'\s*(void|double)\s+step\s*\(([^)]*)\)\s*\{(.*)\}\s*', txt, re.S)
    if not m:
        raise Bad('value', 'function not understood: %r' % txt[:200], None)
    params = {}
    order = []
    for a in m.group(2).split(','):
        k = re.fullmatch(r'\s*(?:const\s+)?double\s*(\*?)\s*(\w+)\s*', a)
        if not k or k.group(2) in params:
            raise Bad('declared', 'parameter %r' % a)
        params[k.group(2)] = bool(k.group(1))
        order.append((k.group(2), bool(k.group(1))))
    want = ([] if p == 1 else [('y', True)]) + [('u', q > 1), ('xk', True)]
    if order != want:
        raise Bad('declared', 'parameters %s instead of %s' % (order, want))
    if (m.group(1) == 'double') != (p == 1):
        raise Bad('declared', 'returns %s' % m.group(1))
    x = [Sc.sym('x%d' % i) for i in range(n)]
    u = [Sc.sym('u%d' % i) for i in range(q)]
    bound = {'y': p, 'u': q, 'xk': n}
    local, env, done = set(), {}, []
    env.update({'xk[%d]' % i: x[i] for i in range(n)})
    env.update({'u': u[0]} if q == 1 else {'u[%d]' % i: u[i] for i in range(q)})

    def known(nm):
        k = re.fullmatch(r'(\w+)(?:\[(\d+)\])?', nm)
        if not k:
            raise Bad('value', 'variable %r' % nm, None)
        b, i = k.group(1), k.group(2)
        if b not in params and b not in local:
            raise Bad('declared', '%s is not declared' % nm)
        if params.get(b, False) != (i is not None):
            raise Bad('declared', '%s: %s' % (nm, 'a pointer used as a number' if i is None else 'a number used as a pointer'))
        if i is not None and int(i) >= bound[b]:
            raise Bad('declared', '%s is outside its array' % nm)
    returned = None
    for st in m.group(3).split(';'):
        st = st.strip()
        if not st:
            continue
        if returned is not None:
            raise Bad('value', 'statement after the return', None)
        k = re.fullmatch(r'return\s+(\S+)', st)
        if k:
            known(k.group(1))
            if k.group(1) not in env:
                raise Bad('defined', '%s is returned before it is computed' % k.group(1))
            returned = env[k.group(1)]
            continue
        k = re.match(r'double\s+', st)
        decl = bool(k)
        if decl:
            st = st[k.end():].strip()
        k = re.fullmatch('\x01(\\d+)\x02', st)
        if k:
            tk = toks[int(k.group(1))]
            if tk is None:
                raise Bad('value', 'coefficients not resolved', None)
            if not (isinstance(tk[3], Const) and tk[3].v.strip() == '='):
                raise Bad('format', 'assignment %s' % short(tk[3]))
            if tk[4] != NONE:
                raise Bad('format', 'coefficients displayed with %s' % short(tk[4]))
            if decl:
                if tk[2] in local or tk[2] in params or '[' in tk[2]:
                    raise Bad('declared', 'declaration of %s' % tk[2])
                local.add(tk[2])
            known(tk[2])
            for a, nm in zip(tk[0], tk[1]):
                if a != ZERO:
                    known(nm)
            run_sum(env, tk, done)
            continue
        if decl and re.fullmatch(r'\w+(\s*,\s*\w+)*', st):
            for nm in re.split(r'\s*,\s*', st):
                if nm in local or nm in params:
                    raise Bad('declared', '%s is declared twice' % nm)
                local.add(nm)
            continue
        k = re.fullmatch(r'([\w\[\]]+)\s*=\s*([\w\[\]]+)', st)
        if k:
            known(k.group(1))
            known(k.group(2))
            if k.group(2) not in env:
                raise Bad('defined', '%s is read before it is computed' % k.group(2))
            env[k.group(1)] = env[k.group(2)]
            continue
        raise Bad('value', 'statement not understood: %r' % st, None)
    R.ok('declared', con, what)
    R.ok('defined', con, what)
    R.ok('format', con, what)
    if len(set(done)) != len(done) or len(done) > l + n + p:
        raise Bad('once', 'variables computed: %s' % done)
    R.ok('once', con, what)
    t, xp, y = r.step(x, u)
    for i in range(n):
        if c.I.N(env['xk[%d]' % i] - xp[i]) != ZERO:
            raise Bad('value', 'next value of state %d: %s instead of %s' % (i, short(env['xk[%d]' % i], 120), short(xp[i], 120)), plain(env['xk[%d]' % i] - xp[i]))
    for i in range(p):
        got = returned if p == 1 else env.get('y[%d]' % i)
        if got is None:
            raise Bad('value', 'output %d is not given' % i)
        if c.I.N(got - y[i]) != ZERO:
            raise Bad('value', 'output %d: %s instead of %s' % (i, short(got, 120), short(y[i], 120)), plain(got - y[i]))
    R.ok('value', con, what)


# ------------------------------------------------------------------ surnames
def surnames(R, c, name, opts, k):
    con = 'fixif/Structures/DirectForms/%s.py::make%s' % (name, name)
    what = 'order %d, %s' % (k, ', '.join('%s=%s' % x for x in sorted(opts.items())))
    toks = instrument(c)
    got = {}

    def th():
        fl = c.new(c.cls('fixif.LTI.Filter', 'Filter'), tf=new_tf(c, k))
        d = c.call(c.func('fixif.Structures.DirectForms.' + name, 'make' + name), fl, **{x: Const(v) if isinstance(v, bool) else Num(sc(v), 'int') for x, v in opts.items()})
        if not (isinstance(d, Ref) and isinstance(c.I.obj(d), DictO)):
            return NONE
        kw = {x.v: v for x, v in c.I.obj(d).items.items()}
        s = c.new(c.cls('fixif.SIF.Realization', 'Realization'), fl, kw.pop('JtoS'), **kw)
        return Tup([c.meth(s, 'algorithmTxt', coefFormat=Const('%f'), withTime=TRUE, withSurname=TRUE), c.get(s, 'Zcomp'), c.get(s, '_varNameT'), c.get(s, '_varNameX'),
                    c.lst(*[c.meth(v, 'toStr', withTime=TRUE, shift=Num(sc(sh), 'int'), withSurname=TRUE) for lst, sh in (('_varNameT', 1), ('_varNameX', 0), ('_varNameX', 1))
                            for v in [y[1] for y in c.I.obj(c.get(s, lst)).segs]])])
    for o in c.exceptions(c.run(th), 'accepts', con, what):
        try:
            judge_surnames(R, c, o, con, what, toks)
        except Bad as e:
            c.holds(o, e.ok, e.rule, con, what, e.msg)


def plain(s):
    """False (a violation) for polynomials of the coefficients, None when something is not resolved"""
    return False if all(a[0] == 'sym' for a in walk_atoms(s)) else None


def judge_surnames(R, c, o, con, what, toks):
    if not isinstance(o.value, Tup):
        raise Bad('surname', 'structure not resolved', None)
    txt, Z, vt, vx, nm = o.value.items
    txt = flat(txt)
    items = lambda x: [s[1] for s in o.st.heap[x.a].segs]
    l, n = len(items(vt)), len(items(vx))
    names = [flat(v) for v in items(nm)]
    if txt is None or any(v is None for v in names):
        raise Bad('surname', 'names not resolved', None)
    nT, nX, nXp = names[:l], names[l:l + n], names[l + n:]
    Zm = c.at(o, lambda: c.I.arr_mat(Z))
    e = lambda i, j: c.I.N(entry(Zm, sc(i), sc(j), c.I.B))
    # variables with the same name at the same time hold the same value
    val = {}
    for i in range(n):
        val.setdefault(nX[i], Sc.sym(nX[i]))
    val.setdefault('u(k)', Sc.sym('u(k)'))
    src = []
    t = []
    cols = lambda i: sum((e(i, l + j) * val[nX[j]] for j in range(n)), ZERO) + e(i, l + n) * val['u(k)']
    for i in range(l):
        t.append(c.I.N(sum((e(i, j) * t[j] for j in range(i)), ZERO) + cols(i)))
    res = [(nT[i], t[i]) for i in range(l)] + [(nXp[i], c.I.N(sum((e(l + i, j) * t[j] for j in range(l)), ZERO) + cols(l + i))) for i in range(n)]
    res.append(('y(k)', c.I.N(sum((e(l + n, j) * t[j] for j in range(l)), ZERO) + cols(l + n))))
    for a, v in res:
        if a in val and c.I.N(val[a] - v) != ZERO:
            raise Bad('surname', '%s names two different values: %s and %s' % (a, short(val[a], 100), short(v, 100)), plain(val[a] - v))
        val[a] = v
    R.ok('surname', con, what + ': names')
    # the lines that are kept
    env = {k: Sc.sym(k) for k in nX + ['u(k)']}
    alias = {}
    prev = None
    for tk in toks:
        if tk and prev and tk[0] == prev[0] and isinstance(prev[3], Const) and prev[3].v == '':
            alias[tk[2]] = prev[2]
        prev = tk
    done = []
    for line in txt.split('\n'):
        m = re.fullmatch('\x01(\\d+)\x02', line.strip())
        if m:
            tk = toks[int(m.group(1))]
            if tk is None:
                raise Bad('surname', 'coefficients not resolved', None)
            run_sum(env, tk, done)
            if tk[2] in alias:
                env[alias[tk[2]]] = env[tk[2]]
        elif line.strip() and not re.fullmatch(r'/ [\w ]+ /', line.strip()):
            raise Bad('surname', 'line not understood: %r' % line, None)
    for a, v in res:
        if a not in env:
            raise Bad('surname', 'no line computes %s' % a)
        if c.I.N(env[a] - v) != ZERO:
            raise Bad('surname', '%s: %s instead of %s' % (a, short(env[a], 100), short(v, 100)), plain(env[a] - v))
    R.ok('surname', con, what + ': lines')


def new_tf(c, k):
    one = mones(1, 1)
    den = mhstack([one] + [mscalar(Sc.sym('a%d' % i)) for i in range(1, k + 1)], c.I.B)
    num = mhstack([mscalar(Sc.sym('b%d' % i)) for i in range(k + 1)], c.I.B)
    return c.new(c.cls('fixif.LTI.dTF', 'dTF'), c.I.arr('matrix', num, 2), c.I.arr('matrix', den, 2))


def refusal(R, c, which, l):
    con = F + '_algorithmCore'
    instrument(c)
    r = Real(c, (l, 2, 1, 1), 'upper')
    what = 'surnames with time of the %s' % ('intermediate variables' if which == 'T' else 'states')
    sh = c.lst

    def th():
        the_filter(c)
        v = lambda k: c.lst(*[Tup([Const('w'), NONE, Num(sc(-1 - i), 'int')]) for i in range(k)])
        s = r.build(**({'surnameVarT': v(l)} if which == 'T' else {'surnameVarX': v(2)}))
        return c.meth(s, 'algorithmTxt', withTime=FALSE, withSurname=TRUE)
    c.refused(c.run(th), 'refused', con, what)
