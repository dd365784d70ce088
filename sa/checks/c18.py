"""C18: random filters are reproducible and honour the requested bounds"""
import re
from itertools import product
from ..spec import *
from ..values import *
from ..dom import *
from .. import evalf
from .c20 import tag, is_tag, seq, key

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of the random constructions with a symbolic random generator: every draw is a fresh symbol within its bounds, the generator and '
               'the seed it was started with are recorded; retry loops are followed on all their paths up to a number of draws')
L = 'fixif.LTI.'
GEN = '''
class Gen:
	def __init__(self, seed=None):
		self.key = started(seed)
	def randint(self, lo, hi=None, size=None, dtype=None):
		if hi is None:
			return integer(self.key, 0, lo)
		return integer(self.key, lo, hi)
	def integers(self, lo, hi=None, size=None, dtype=None, endpoint=False):
		if hi is None:
			return integer(self.key, 0, lo)
		return integer(self.key, lo, hi)
	def random_integers(self, lo, hi):
		return integer(self.key, lo, hi + 1)
	def uniform(self, a=0., b=1., size=None):
		if size is not None:
			return array(self.key, a, b, *size)
		return a + (b - a) * unit(self.key)
	def random_sample(self, size=None):
		if size is not None:
			return array(self.key, 0, 1, *size)
		return unit(self.key)
	def random(self, size=None):
		return self.random_sample(size)
	def ranf(self, size=None):
		return self.random_sample(size)
	def rand(self, *size):
		if len(size):
			return array(self.key, 0, 1, *size)
		return unit(self.key)
	def randn(self, *size):
		if len(size):
			return array(self.key, None, None, *size)
		return normal(self.key)
	def standard_normal(self, size=None):
		if size is None:
			return normal(self.key)
		return array(self.key, None, None, *size)
	def choice(self, xs, size=None):
		return one_of(self.key, xs)
	def seed(self, seed=None):
		self.key = started(seed)

class Pattern:
	def __init__(self, pat, flags=0):
		self.pattern = pat
	def match(self, text):
		return found('match', self.pattern, text)
	def fullmatch(self, text):
		return found('fullmatch', self.pattern, text)
	def search(self, text):
		return found('search', self.pattern, text)

class Found:
	def __init__(self, all, names):
		self.all = all
		self.names = names
	def group(self, i=0):
		return self.all[i]
	def __getitem__(self, i):
		return self.all[i]
	def groups(self, default=None):
		return self.all[1:]
	def groupdict(self):
		return self.names

def found(how, pat, text):
	return None

def started(seed):
	return None

def integer(key, lo, hi):
	return None

def unit(key):
	return None

def normal(key):
	return None

def array(key, a, b, *size):
	return None

def one_of(key, xs):
	return None
'''
FNS = ('randint', 'uniform', 'random_sample', 'random', 'ranf', 'rand', 'randn', 'standard_normal', 'choice', 'random_integers')
AMBIENT = ('time.time', 'time.time_ns', 'time.perf_counter', 'datetime.datetime.now', 'datetime.datetime.today', 'uuid.uuid4', 'uuid.uuid1', 'os.urandom', 'os.getpid',
           'random.random', 'random.randint', 'random.choice', 'random.uniform', 'random.sample', 'random.randrange', 'builtins.id', 'builtins.hash', 'secrets.randbelow')


def generator(c):
    """the random generators of numpy: draws are symbols, and the seed of their generator is recorded"""
    h = c.I.hooks
    G = c.ref(GEN, 'Gen')
    mod = G.c.mod.name

    def now(I):
        k = [e[1] for e in I.st.effects if e[0] == 'seed']
        return k[-1] if k else Const(None)

    def count(I):
        return sum(1 for e in I.st.effects if e[0] == 'draw')

    def note(I, k, what):
        n = count(I)
        I.st.effects.append(('draw', k, what))
        return n

    def started(I, a, kw):
        if isinstance(a[0], Const) and a[0].v is None:
            return Const('entropy')
        return Tup([a[0]])

    def limit(I, n, k):
        """the n-th draw is one of k values"""
        r = Sc.sym('r%d' % n)
        I.st.B.low[('sym', 'r%d' % n)] = 0
        if k.is_const():
            c.dims['r%d' % n] = 0
            I.st.B.extra.append(k - 1 - r)
            I.st.effects.append(('limit', n, int(k.cval())))

    def integer(I, a, kw):
        lo, hi = I.num(a[1]), I.num(a[2])
        n = note(I, a[0], ('int', lo, hi))
        if lo is None or hi is None:
            return I.top('bounds of a draw')
        s = Sc.sym('r%d' % n)
        if lo.is_const() and hi.is_const() and hi.cval() - lo.cval() == 1:
            return Num(lo, 'int')
        limit(I, n, hi - lo)
        return Num(lo + s, 'int')

    def unit(I, a, kw):
        n = note(I, a[0], ('unit',))
        f = getattr(c, 'units', None)
        if f is not None:
            return Num(f(n), 'float')
        c.makers['U%d' % n] = lambda env, i, j: spread(env.value('unit', n))
        return Num(entry(mnamed('U%d' % n, ONE, ONE), ZERO, ZERO, I.st.B), 'float')

    def normal(I, a, kw):
        return Num(Sc.sym('n%d' % note(I, a[0], ('normal',))), 'float')

    def array(I, a, kw):
        ds = [I.num(x) for x in a[3:]]
        if any(d is None for d in ds):
            return I.top('array of draws')
        n = note(I, a[0], ('array', tuple(ds), isinstance(a[1], Const)))
        f = getattr(c, 'arrays', None)
        if f is not None and not isinstance(a[1], Const):
            m = f(I, ds)
            if m is not None:
                return m
        m = mnamed('d%d' % n, *(ds if len(ds) == 2 else [ONE, ds[0]]))
        return I.arr('array', m, len(ds))

    def one_of(I, a, kw):
        n = note(I, a[0], ('choice',))
        xs = I.elements(a[1])
        if not xs:
            return I.top('choice')
        limit(I, n, sc(len(xs)))
        for i, x in enumerate(xs[:-1]):
            if I.truth(I.eq(Num(Sc.sym('r%d' % n), 'int'), Num(i, 'int'))):
                return x
        return xs[-1]
    def found(I, a, kw):
        if any(isinstance(x, (Num, Tup)) or isinstance(x, Const) and not isinstance(x.v, str) for x in a):
            I.raise_('TypeError', Const('expected string'))
        if not all(isinstance(x, Const) and isinstance(x.v, str) for x in a):
            return I.top('match of an unknown text')
        m = getattr(re, a[0].v)(a[1].v, a[2].v)
        if m is None:
            return Const(None)
        return I.call(c.ref(GEN, 'Found'), [Tup([Const(m.group(i)) for i in range(1 + m.re.groups)]), I.alloc(DictO({Const(k): Const(v) for k, v in m.groupdict().items()}))], {})
    P = c.ref(GEN, 'Pattern')
    h[('ext', 're.compile')] = lambda I, a, kw: I.call(P, list(a), dict(kw))
    for f in ('match', 'search', 'fullmatch'):
        h[('ext', 're.' + f)] = lambda I, a, kw, f=f: I.call(I.getattr(I.call(P, a[:1], {}), f), a[1:2], {})
    for f in (found, started, integer, unit, normal, array, one_of):
        h[(mod, f.__name__)] = f

    def as_global(f):
        def g(I, a, kw):
            o = I.alloc(InstO(G.c, {'key': now(I)}))
            return I.call(I.getattr(o, f), list(a), dict(kw))
        return g
    for f in FNS:
        h[('ext', 'numpy.random.' + f)] = as_global(f)

    def gseed(I, a, kw):
        x = a[0] if a else kw.get('seed', Const(None))
        I.st.effects.append(('seed', started(I, [x], {})))
        return Const(None)
    h[('ext', 'numpy.random.seed')] = gseed
    for f in ('RandomState', 'default_rng', 'Generator'):
        h[('ext', 'numpy.random.' + f)] = lambda I, a, kw: I.call(G, list(a), dict(kw))
    for f in AMBIENT:
        def amb(I, a, kw, f=f):
            I.st.effects.append(('ambient', f))
            return None
        h[('ext', f)] = amb
    for d in [d for d in c.dims if d[0] == 'r']:
        del c.dims[d]
    c.extra = []
    c.I.unroll = 3
    c.I.eager = True


def runs(c, th, rule, con, what, allowed=()):
    """the outcomes that need no more draws than followed, one by one with the bounds of their draws"""
    outs = [o for o in c.run(th) if not (o.kind == 'raise' and isinstance(o.value, ExcV) and o.value.name == 'Unrolled')]
    c.holds(outs[0], True, rule, con, what) if outs else c.R.viol(rule, con, what, 'no path ends within the number of draws followed')
    own = [d for d in c.dims if d[0] != 'r']
    if all(o.kind != 'raise' for o in outs):
        good = outs
    else:
        good = []
        for o in outs:
            bounds(c, own, o)
            good += c.exceptions([o], rule, con, what, allowed)
        if outs and not good:
            c.R.viol(rule, con, what, 'every draw is refused')
    for o in good:
        bounds(c, own, o)
        if feasible(c, o):
            yield o


def spread(x):
    """a value in [0, 1), not a round one"""
    return (abs(x) + 1) * Fraction(355, 1130) % 1


def bounds(c, own, o):
    lim = dict((e[1], e[2]) for e in o.st.effects if e[0] == 'limit')
    for d in [d for d in c.dims if d not in own]:
        del c.dims[d]
    c.dims.update(('r%d' % n, 0) for n in lim)
    c.extra = [lambda d: all(d.get('r%d' % n, 0) < k for n, k in lim.items())]
    c.limits = lim


def enumerated(c, o, xs, rel):
    """the relation decided on every value of the draws, when the formulas depend on nothing else"""
    syms = evalf.syms_of(*xs)
    own = {'r%d' % n: k for n, k in c.limits.items()}
    if not syms <= set(own) or any(a[0] == 'ent' for x in xs for a in walk_atoms(x)):
        return None
    lits = [(k, v) for k, v in c.lits(o) if evalf.syms_of(k) <= set(own) and not any(a[0] == 'ent' for a in walk_atoms(k))]
    names = sorted(syms | set().union(*[evalf.syms_of(k) for k, v in lits]) if lits else syms)
    for vs in product(*[range(own[n]) for n in names]):
        env = evalf.Env(dict(zip(names, vs)), 0, 'rat', c.makers)
        try:
            if all(evalf.cond(env, k) == v for k, v in lits):
                if rel(env, *[evalf.ev(env, x) for x in xs]) is not True:
                    return False
        except (Skip, Unresolved):
            return None
    return True


def draws(o):
    return [e for e in o.st.effects if e[0] == 'draw']


def seeded(c, o, seed, con):
    """all the draws come from a generator started with the seed"""
    ds = draws(o)
    want = Tup([Num(sc(seed), 'int')]) if seed is not None else None
    c.holds(o, len(ds) > 0, 'seed', con, 'random values are drawn')
    for d in ds:
        if want is not None:
            ok = isinstance(d[1], Tup) and isinstance(d[1].items[0], Num) and d[1].items[0].s == sc(seed)
            c.holds(o, ok, 'seed', con, 'the generator is started with the seed (%s)' % ('zero' if not seed else 'non-zero'), 'drawn from %s' % short(d[1]))
        else:
            c.holds(o, not isinstance(d[1], Tup), 'seed', con, 'without seed, the generator is not started with a fixed value', 'drawn from %s' % short(d[1]))
    amb = [e[1] for e in o.st.effects if e[0] == 'ambient']
    if seed is not None:
        c.holds(o, not amb, 'seed', con, 'no other source of randomness', str(amb))


def named(c, o, f, seed, con):
    if seed is None:
        return
    n = c.at(o, lambda: c.get(f, '_name'))
    t = n.v if isinstance(n, Const) else None
    c.holds(o, None if not isinstance(t, str) else bool(re.search(r'(?<!\d)%d$' % seed, t)), 'name', con, 'the name records the seed', 'name %s' % short(n))


SEEDS = (0, 7, None)
FORMS = ('lowpass', 'highpass', 'bandpass', 'bandstop', None)


def check(R):
    R.rule('seed', 'with a seed (zero included) every random value is drawn from a generator started with it, and from nothing else; without seed the generator is left alone')
    R.rule('name', 'the name records the seed, and rebuilds the filter')
    R.rule('range', 'the orders, dimensions, frequencies and gains lie in the requested ranges')
    R.rule('quantized', 'quantized parameters are quantized')
    R.rule('series', 'the random series draw each filter with its own seed and the arguments of the series')
    R.rule('masks', 'the masks keep the entries drawn below the probability, and a mask is drawn again only when it removes everything')
    R.rule('accepts', 'the filters are available for all the documented arguments')
    for seed in SEEDS:
        for form in FORMS:
            R.case('butter %s %s' % (seed, form), lambda c: butter(c, seed, form))
            R.case('elliptic %s %s' % (seed, form), lambda c: elliptic(c, seed, form))
        R.case('gabarit %s' % (seed,), lambda c: gabarit(c, seed))
        R.case('gabarit %s None' % (seed,), lambda c: gabarit(c, seed, None))
        R.case('filter %s' % (seed,), lambda c: rfilter(c, seed))
    for name in ('Butter', 'Elliptic'):
        R.case('redraw ' + name, lambda c: redraw(c, name))
        R.case('forms ' + name, lambda c: forms(c, name))
    R.case('parity', parity)
    for s in (True, False):
        R.case('series filter %s' % s, lambda c: series_filter(c, s))
        R.case('series butter %s' % s, lambda c: series_design(c, s, 'Butter', 'butter'))
        R.case('series elliptic %s' % s, lambda c: series_design(c, s, 'Elliptic', 'ellip'))
        for form in FORMS[1:4]:
            for even in (True, False):
                R.case('series butter %s %s %s' % (s, form, even), lambda c: series_design(c, s, 'Butter', 'butter', form, even))
            R.case('series elliptic %s %s' % (s, form), lambda c: series_design(c, s, 'Elliptic', 'ellip', form))
    R.case('rebuild', rebuild)
    R.case('series gabarit', series_gabarit)
    for mp in (False, True):
        R.case('dTF mp %s' % mp, lambda c: rdtf(c, mp))
        R.case('series dSS mp %s' % mp, lambda c: series_dss(c, mp))
    for n, p, q in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1)):
        R.case('masks %s' % ((n, p, q),), lambda c: masks(c, n, p, q))


def design(c):
    def f(name):
        def g(I, a, kw):
            I.st.effects.append((name, list(a), dict(kw)))
            return Tup([c.vec('num', 3), I.arr('array', mhstack([mscalar(ONE), mnamed('den', ONE, sc(2))], I.B), 1)])
        return g
    for n in ('butter', 'ellip'):
        c.I.hooks[('ext', 'scipy.signal.' + n)] = f(n)
    # the filter object itself is not the subject
    c.I.hooks[('ext', 'scipy.signal.iirfilter')] = None
    del c.I.hooks[('ext', 'scipy.signal.iirfilter')]


def num_in(c, o, v, lo, hi, rule, con, what, strict=False, whole=False, extra=None):
    def rel(env, x):
        x = real_of(x)
        if x < lo - 1e-9 or x > hi + 1e-9 or strict and x >= hi:
            return '%s is not between %s and %s' % (x, lo, hi)
        if whole and abs(x - round(x)) > 1e-9:
            return '%s is not an integer' % x
        return extra(x) if extra else True

    def proof(x):
        if enumerated(c, o, [x], rel):
            return True
        return within(c, o, x, lo, hi, strict) and not whole and extra is None
    c.judge(o, [v], rel, rule, con, what, proof=proof)


def real_of(w):
    while isinstance(w, (list, tuple)) and w:
        w = w[2] if len(w) == 3 and isinstance(w[2], (list, tuple)) else w[0]
    return complex(w).real


def within(c, o, x, lo, hi, strict=False):
    """an affine function of draws in [0, 1)"""
    if not isinstance(x, Sc):
        return False
    a = b = Fraction(0)
    for m, k in x.t.items():
        if not m:
            a, b = a + k, b + k
        elif len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'ent' and 'U' in repr(m[0][0]):
            a, b = a + min(k, 0), b + max(k, 0)
        else:
            return False
    return lo <= a and (b < hi if strict else b <= hi)


def extent(c, x):
    """the least and greatest values of a multi-affine function of the draws (at their bounds)"""
    if not isinstance(x, Sc):
        return None
    hi = {}
    for m in x.t:
        for a, k in m:
            if k != 1:
                return None
            if a[0] == 'ent' and re.search(r"\bU\d+\b", repr(a)):
                hi[a] = 1
            elif a[0] == 'sym' and a[1][0] == 'r' and a[1][1:].isdigit() and int(a[1][1:]) in c.limits:
                hi[a] = c.limits[int(a[1][1:])] - 1
            else:
                return None
    if len(hi) > 8:
        return None
    vals = []
    names = sorted(hi, key=repr)
    for corner in product((0, 1), repeat=len(names)):
        at = {a: hi[a] * z for a, z in zip(names, corner)}
        v = Fraction(0)
        for m, k in x.t.items():
            for a, _ in m:
                k = k * at[a]
            v += k
        vals.append(v)
    return min(vals), max(vals)


def feasible(c, o):
    for k, v in c.lits(o):
        if k[0] == 'lt0':
            e = extent(c, k[1])
            if e and (v and e[0] >= 0 or not v and e[1] < 0):
                return False
        if k[0] == 'eq0' and v:
            e = extent(c, k[1])
            if e and (e[0] > 0 or e[1] < 0):
                return False
    return True


N_, WC, W1, W2 = (4, 8), (Fraction(1, 8), Fraction(3, 4)), (Fraction(1, 8), Fraction(1, 2)), (Fraction(3, 8), Fraction(7, 8))


def pair(a):
    return Tup([Num(sc(x), 'int' if isinstance(x, int) else 'float') for x in a])


def freqs(c, o, W, form, con):
    if form in ('bandpass', 'bandstop'):
        ws = seq(c, o, W)
        if not c.holds(o, None if ws is None else len(ws) == 2, 'range', con, 'two frequencies', short(W)):
            return
        num_in(c, o, ws[0], W1[0], W1[1], 'range', con, 'first frequency')
        num_in(c, o, ws[1], W2[0], W2[1], 'range', con, 'second frequency')

        def rel(env, a, b):
            return True if real_of(a) < real_of(b) else 'the frequencies are not increasing: %s, %s' % (real_of(a), real_of(b))

        def proof(a, b):
            k = c.I.known(('lt0', a - b))
            return k is True or c.I.known(('lt0', b - a)) is False
        c.judge(o, [ws[0], ws[1]], rel, 'range', con, 'increasing frequencies', proof=proof)
    else:
        if c.holds(o, isinstance(W, Num) if isinstance(W, (Num, Tup, Const)) or seq(c, o, W) is not None else None, 'range', con, 'one cut frequency', short(W)):
            num_in(c, o, W, WC[0], WC[1], 'range', con, 'cut frequency')


def arg(e, i, k, d=None):
    return e[1][i] if len(e[1]) > i else e[2].get(k, d)


F10 = lambda *a: tuple(Fraction(x, 10) for x in a)


def redraw(c, name):
    """band filters whose first frequencies are not increasing: they are drawn again, and the draws can be accepted"""
    con = 'random_' + name
    par = dict(n=pair(N_), form=Const('bandpass'), seed=Num(ZERO, 'int'))
    if name == 'Elliptic':
        par.update(rp=pair(RP), rs=pair(RS))
    #  ranges, first draws, what has to be drawn again
    for w1, w2, first, what in ((F10(1, 5), F10(2, 8), (F10(9)[0], ZERO), 'the frequencies'), (F10(1, 8), F10(5, 7), (Fraction(99, 100), F10(5)[0]), 'the first frequency'),
                                (F10(2, 8), F10(1, 7), (F10(5)[0], ZERO), 'the second frequency'), (F10(2, 4), F10(4, 6), (F10(5)[0], F10(5)[0]), None)):
        generator(c)
        design(c)

        def units(k, first=first):
            if k < 2:
                return first[k] if isinstance(first[k], Sc) else sc(first[k])
            c.makers['U%d' % k] = lambda env, i, j: spread(env.value('unit', k))
            return entry(mnamed('U%d' % k, ONE, ONE), ZERO, ZERO, c.I.st.B)
        c.units = units
        n = 0
        for o in runs(c, lambda: c.call(c.func(L + name, con), W1=pair(w1), W2=pair(w2), **par), 'accepts', con, 'answers'):
            es = [e for e in o.st.effects if e[0] in ('butter', 'ellip')]
            ws = seq(c, o, arg(es[0], 1 if name == 'Butter' else 3, 'Wn')) if len(es) == 1 else None
            if c.holds(o, None if ws is None else len(ws) == 2, 'range', con, 'two frequencies'):
                a, b = ws
                if isinstance(a, Num) and isinstance(b, Num):
                    e = extent(c, b.s - a.s)
                    # the conditions of the path are met, and give the order
                    n += 1
                    c.holds(o, None if e is None else e[1] > 0, 'range', con, 'increasing frequencies', short(ws))
        if what:
            c.R.ok('accepts', con, '%s can be drawn again until they are accepted' % what) if n else \
                c.R.viol('accepts', con, '%s can be drawn again until they are accepted' % what, 'no acceptable draw with W1=%s, W2=%s' % (short(w1), short(w2)))
    c.units = None
    for w1, w2 in ((F10(5, 7), F10(1, 3)), (F10(5, 7), F10(1, 5))):
        generator(c)
        design(c)
        c.refused(c.run(lambda: c.call(c.func(L + name, con), W1=pair(w1), W2=pair(w2), **par)), 'accepts', con, 'bands that no draw can meet')


def forms(c, name):
    """all the forms and orders can be drawn"""
    con = 'random_' + name
    generator(c)
    design(c)
    kw = dict(n=pair(N_), Wc=pair(WC), W1=pair(W1), W2=pair(W2), form=Const(None), seed=Num(ZERO, 'int'))
    got, orders, fixed = set(), set(), set()
    for o in runs(c, lambda: c.call(c.func(L + name, con), **kw), 'accepts', con, 'answers'):
        for e in o.st.effects:
            if e[0] in ('butter', 'ellip'):
                names = ('N', 'Wn', 'btype') if e[0] == 'butter' else ('N', 'rp', 'rs', 'Wn', 'btype')
                t = arg(e, len(names) - 1, 'btype', Const('low'))
                if isinstance(t, Const):
                    got.add(t.v)
                for k in names[:-1]:
                    v = arg(e, names.index(k), k)
                    for x in ([v] if isinstance(v, Num) else seq(c, o, v) or []):
                        if isinstance(x, Num) and not x.s.t.keys() - {()}:
                            fixed.add(k)
    c.R.ok('range', con, 'every form can be drawn') if got >= set(FORMS[:4]) else c.R.viol('range', con, 'every form can be drawn', 'drawn: %s' % sorted(map(str, got)))
    fixed -= {'N'}
    c.R.ok('range', con, 'every parameter is drawn') if not fixed else c.R.viol('range', con, 'every parameter is drawn', 'always the same: %s' % sorted(fixed))


def parity(c):
    con = 'random_Butter'
    for n, even, want in ((N_, False, {4, 5, 6, 7}), (N_, True, {4, 6}), ((5, 8), True, {6}), ((5, 8), False, {5, 6, 7}), ((4, 5), True, {4}), ((3, 4), False, {3}), ((4, 5), False, {4}), ((2, 4), False, {2, 3}), ((2, 4), True, {2}), ((3, 5), True, {4}),
                          ((7, 13), True, {8, 10, 12}), ((7, 14), False, set(range(7, 14)))):
        generator(c)
        design(c)
        got = set()
        known = True
        for o in runs(c, lambda: c.call(c.func(L + 'Butter', con), n=pair(n), form=Const('lowpass'), onlyEven=Const(even), seed=Num(ZERO, 'int')), 'accepts', con, 'answers'):
            for e in o.st.effects:
                if e[0] == 'butter':
                    v = values_of(c, o, arg(e, 0, 'N'))
                    if v is None:
                        known = False
                    else:
                        got |= v
        bad = {x for x in got if not n[0] <= x < n[1] or even and x % 2}
        text = 'orders for %s%s' % (n, ', even' if even else '')
        if bad:
            c.R.viol('range', con, text, 'orders %s' % sorted(bad))
        elif known and not even and got != want:
            c.R.viol('range', con, text, 'only the orders %s are drawn' % sorted(got))
        elif known:
            c.R.ok('range', con, text)
        else:
            c.R.und('range', con, text, 'orders not enumerated')


def values_of(c, o, v):
    """the values of a function of the bounded draws on this path"""
    if not isinstance(v, Num):
        return None
    own = dict(('r%d' % n, k) for n, k in c.limits.items())
    lits = c.lits(o)
    names = sorted(evalf.syms_of(v.s).union(*[evalf.syms_of(k) for k, _ in lits]) & set(own))
    if not evalf.syms_of(v.s) <= set(own):
        return None
    got = set()
    for vs in product(*[range(own[n]) for n in names]):
        env = evalf.Env(dict(zip(names, vs)), 0, 'rat', c.makers)
        try:
            if all(evalf.cond(env, k) == w for k, w in lits if evalf.syms_of(k) <= set(own) and not any(a[0] == 'ent' for a in walk_atoms(k))):
                got.add(int(real_of(evalf.ev(env, v.s))))
        except (Skip, Unresolved):
            return None
    return got


def check_design(c, o, e, form, con, even=None, bounds=None):
    n = arg(e, 0, 'N')
    names = ('N', 'Wn', 'btype') if e[0] == 'butter' else ('N', 'rp', 'rs', 'Wn', 'btype')
    W, t = arg(e, len(names) - 2, 'Wn'), arg(e, len(names) - 1, 'btype', Const('low'))

    def parity(x):
        return True if not even or round(x) % 2 == 0 else 'the order %d is odd' % round(x)
    num_in(c, o, n, N_[0], N_[1] - 1, 'range', con, 'even order' if even else 'order', whole=True, extra=parity)
    if not c.holds(o, isinstance(t, Const) and t.v in FORMS[:4] and (form is None or t.v == form) if isinstance(t, Const) else None, 'range', con, 'form', short(t)):
        return
    freqs(c, o, W, t.v, con)
    if bounds:
        num_in(c, o, arg(e, 1, 'rp'), bounds[0][0], bounds[0][1], 'range', con, 'ripple')
        num_in(c, o, arg(e, 2, 'rs'), bounds[1][0], bounds[1][1], 'range', con, 'attenuation')


def seed_arg(seed):
    return Const(None) if seed is None else Num(sc(seed), 'int')


def kept(c, f, e, con, o):
    """the filter records the design parameters it was built with"""
    for k, v in (('n', arg(e, 0, 'N')),):
        g = c.at(o, lambda: c.get(f, k))
        if isinstance(g, Num) and isinstance(v, Num):
            c.equal(o, g, v, 'range', con, 'recorded ' + k)


def butter(c, seed, form):
    con = 'random_Butter'
    for even in (True, False):
        c.I.reset() if hasattr(c.I, 'reset') else None
        generator(c)
        design(c)

        def th():
            f = c.func(L + 'Butter', 'random_Butter')
            return c.call(f, n=pair(N_), Wc=pair(WC), W1=pair(W1), W2=pair(W2), form=Const(form), onlyEven=Const(even), seed=seed_arg(seed))
        for o in runs(c, th, 'accepts', con, 'answers'):
            es = [e for e in o.st.effects if e[0] == 'butter']
            if not c.holds(o, len(es) == 1, 'range', con, 'one design', str(len(es))):
                continue
            check_design(c, o, es[0], form, con, even)
            seeded(c, o, seed, con)
            named(c, o, o.value, seed, con)
            kept(c, o.value, es[0], con, o)


RP, RS = (1, 5), (20, 60)


def elliptic(c, seed, form):
    con = 'random_Elliptic'
    for q in (None, 16):
        generator(c)
        design(c)

        def th():
            f = c.func(L + 'Elliptic', 'random_Elliptic')
            return c.call(f, n=pair(N_), rp=pair(RP), rs=pair(RS), Wc=pair(WC), W1=pair(W1), W2=pair(W2), form=Const(form), seed=seed_arg(seed),
                          quant=Const(None) if q is None else Num(sc(q), 'int'))
        for o in runs(c, th, 'accepts', con, 'answers'):
            es = [e for e in o.st.effects if e[0] == 'ellip']
            if not c.holds(o, len(es) == 1, 'range', con, 'one design', str(len(es))):
                continue
            e = es[0]
            if q is None:
                check_design(c, o, e, form, con, None, (RP, RS))
            else:
                W = arg(e, 3, 'Wn')
                ws = [W] if isinstance(W, Num) else seq(c, o, W)
                if c.holds(o, ws is not None or None, 'quantized', con, 'frequencies', short(W)):
                    for x, what in [(arg(e, 1, 'rp'), 'ripple'), (arg(e, 2, 'rs'), 'attenuation')] + [(w, 'frequency') for w in ws]:
                        def rel(env, x):
                            y = real_of(x) * q
                            return True if abs(y - round(y)) < 1e-9 else '%s is not a multiple of 1/%d' % (real_of(x), q)

                        def proof(x):
                            y = x * sc(q)
                            return all(k == int(k) and len(m) == 1 and m[0][0][0] == 'fn' and m[0][0][1] in ('round', 'rint', 'nint', 'floor') for m, k in y.t.items())
                        c.judge(o, [x], rel, 'quantized', con, what + ' is a multiple of the step', proof=proof)
            seeded(c, o, seed, con)
            named(c, o, o.value, seed, con)
            kept(c, o.value, e, con, o)


def gabarit(c, seed, form='lowpass'):
    con = 'random_Gabarit'
    generator(c)
    if form is None:
        c.refused(c.run(lambda: c.call(c.func(L + 'Gabarit', 'random_Gabarit'), form=Const('unknown'), seed=seed_arg(seed))), 'accepts', con, 'an unknown form')

    def th():
        g = c.call(c.func(L + 'Gabarit', 'random_Gabarit'), form=Const(form), seed=seed_arg(seed))
        return Tup([g, c.get(g, 'seed'), c.call(ExtV('builtins.str'), g)])
    for o in runs(c, th, 'accepts', con, 'answers'):
        g, s, t = o.value.items
        ds = draws(o)
        if seed is None:
            # the seed itself is drawn, and then used
            first, rest = ds[:1], ds[1:]
            c.holds(o, len(rest) > 0 and all(isinstance(d[1], Tup) for d in rest), 'seed', con, 'a seed is chosen when none is given', short([d[1] for d in ds]))
            for d in rest:
                if isinstance(d[1], Tup) and isinstance(s, Num):
                    c.equal(o, s, d[1].items[0], 'name', con, 'the recorded seed is the one used')
        else:
            seeded(c, o, seed, con)
            c.equal(o, s, sc(seed), 'name', con, 'the recorded seed is the one used')
            txt = t.v if isinstance(t, Const) else ''.join(x if isinstance(x, str) else x.v if isinstance(x, Const) and isinstance(x.v, str) else ' ? ' for x in getattr(t, 'parts', []))
            c.holds(o, ('Seed=%d' % seed) in txt if txt else None, 'name', con, 'the text shows the seed', short(t))
        bands = c.at(o, lambda: c.get(g, '_bands'))
        bs = seq(c, o, bands)
        if c.holds(o, None if bs is None else len(bs) == 2, 'range', con, 'two bands', short(bands)):
            f = [c.at(o, lambda: [c.get(b, x) for x in ('F1', 'F2', 'isPassBand')]) for b in bs]
            c.truthy(o, f[0][2], True, 'range', con, 'pass band first')
            c.truthy(o, f[1][2], False, 'range', con, 'stop band last')

            def rel(env, a, b, fs):
                a, b, fs = map(real_of, (a, b, fs))
                return True if 0 < a <= b <= fs / 2 + 1e-9 else 'edges %s %s for Fs %s' % (a, b, fs)

            def proof(a, b, fs):
                es = [extent(c, x) for x in (a, b - a, fs - b * sc(2))]
                return all(e is not None and e[0] >= 0 for e in es)
            c.judge(o, [f[0][1], f[1][0], c.at(o, lambda: c.get(g, '_Fs'))], rel, 'range', con, 'increasing edges', proof=proof)


def take_dss(c):
    """random state-space systems as records of their arguments"""
    def g(I, a, kw):
        I.st.effects.append(('dss', list(a), dict(kw), [e[1] for e in I.st.effects if e[0] == 'seed'][-1:]))
        n, p, q = [I.num(x) for x in (list(a) + [kw.get('n'), kw.get('p'), kw.get('q')][len(a):])[:3]]
        cls = c.cls(L + 'dSS', 'dSS')
        k = sum(1 for e in I.st.effects if e[0] == 'dss')
        return I.instantiate(cls, [I.arr('matrix', mnamed('%s%d' % (x, k), r, cc), 2) for x, r, cc in (('A', n, n), ('B', n, q), ('C', p, n), ('D', p, q))], {})
    c.I.hooks[(L + 'dSS', 'random_dSS')] = g


def dss_args(e):
    return [arg(e, i, k) for i, k in enumerate('npq')]


def rfilter(c, seed):
    con = 'random_Filter'
    generator(c)
    take_dss(c)
    ds = c.dims_('n p q')

    def th():
        return c.call(c.func(L + 'Filter', 'random_Filter'), n=Num(ds[0], 'int'), p=Num(ds[1], 'int'), q=Num(ds[2], 'int'), seed=seed_arg(seed))
    for o in runs(c, th, 'accepts', con, 'answers'):
        es = [e for e in o.st.effects if e[0] == 'dss']
        if not c.holds(o, len(es) == 1, 'range', con, 'one system', str(len(es))):
            continue
        for x, d, w in zip(dss_args(es[0]), ds, ('states', 'outputs', 'inputs')):
            c.equal(o, x, d, 'range', con, 'number of ' + w)
        k = es[0][3]
        if seed is None:
            c.holds(o, not k, 'seed', con, 'without seed, the generator is left alone', short(k))
        else:
            c.holds(o, bool(k) and isinstance(k[0], Tup) and isinstance(k[0].items[0], Num) and k[0].items[0].s == sc(seed), 'seed', con,
                    'the generator is started with the seed (%s)' % ('zero' if not seed else 'non-zero'), short(k))


def rebuild(c):
    """the name of a filter rebuilds it"""
    con = 'random_Filter'
    generator(c)
    take_dss(c)
    for n, p, q, seed in ((3, 1, 2, 0), (12, 10, 1, 123456789), (1, 1, 1, 5)):
        def th():
            f = c.func(L + 'Filter', 'random_Filter')
            a = c.call(f, n=Num(sc(n), 'int'), p=Num(sc(p), 'int'), q=Num(sc(q), 'int'), seed=Num(sc(seed), 'int'))
            nm = c.get(a, '_name')
            b = c.call(f, name=nm)
            return Tup([a, b, nm, c.get(b, '_name')])
        for o in runs(c, th, 'name', con, 'a recorded name is accepted'):
            es = [e for e in o.st.effects if e[0] == 'dss']
            if not c.holds(o, len(es) == 2, 'name', con, 'one system per filter', str(len(es))):
                continue
            for x, y, w in zip(dss_args(es[0]), dss_args(es[1]), ('states', 'outputs', 'inputs')):
                c.equal(o, y, x, 'name', con, 'the name rebuilds the number of ' + w)
            ks = [e[3] for e in es]
            c.holds(o, bool(ks[1]) and repr(ks[0]) == repr(ks[1]) and ks[0][0].items[0].s == sc(seed) if ks[0] else False, 'name', con, 'the name rebuilds the seed', short(ks))
            # the generator is started again for the second one
            c.holds(o, sum(1 for e in o.st.effects if e[0] == 'seed') == 2, 'name', con, 'the generator is started for each filter')
            a, b, na, nb = o.value.items
            c.holds(o, isinstance(na, Const) and na == nb if isinstance(na, Const) and isinstance(nb, Const) else None, 'name', con, 'the rebuilt filter has the same name', short([na, nb]))

    def bad():
        return c.call(c.func(L + 'Filter', 'random_Filter'), name=Const('RandomFilter-7/4-12'))
    c.refused(c.run(bad), 'name', con, 'a text that is not a name')


def items(c, o, v):
    if isinstance(v, Const) and v.v is None:
        return []
    return seq(c, o, v)


def own_seed(c, o, used, k, s, con):
    """the k-th filter of a series uses the k-th seed drawn from the generator of the series"""
    if s:
        c.holds(o, isinstance(used, Tup) and isinstance(used.items[0], Num) and not used.items[0].s.is_const(), 'series', con, 'each filter has its own seed', short(used))
    else:
        c.holds(o, not isinstance(used, Tup), 'series', con, 'no seed is used', short(used))


def series_filter(c, s):
    con = 'iter_random_Filter'
    R_ = {'n': (3, 6), 'p': (2, 5), 'q': (6, 8)}
    want = {'SISO': (False, False), 'SIMO': (True, False), 'MISO': (False, True), 'MIMO': (True, True)}
    kinds = set()
    for ft in ('SISO', 'SIMO', 'MISO', 'MIMO', 'all'):
        generator(c)
        take_dss(c)

        def th():
            return c.call(c.func(L + 'Filter', 'iter_random_Filter'), Num(2, 'int'), n=pair(R_['n']), p=pair(R_['p']), q=pair(R_['q']), seeded=Const(s), ftype=Const(ft))
        for o in runs(c, th, 'accepts', con, 'answers (%s)' % ft):
            fs = items(c, o, o.value)
            es = [e for e in o.st.effects if e[0] == 'dss']
            if not c.holds(o, len(es) == 2 and (fs is None or len(fs) == 2), 'series', con, 'as many filters as asked', '%d' % len(es)):
                continue
            got = []
            for k, e in enumerate(es):
                n, p, q = dss_args(e)
                num_in(c, o, n, 3, 5, 'range', con, 'number of states', whole=True)
                one = [x.s.is_const() and x.s.cval() == 1 for x in (p, q)]
                got.append(tuple(not x for x in one))
                if ft != 'all':
                    c.holds(o, tuple(not x for x in one) == want[ft], 'range', con, 'one input or output for %s' % ft, short([p, q]))
                for x, y, lim, w in zip((p, q), one, (R_['p'], R_['q']), ('outputs', 'inputs')):
                    if not y:
                        num_in(c, o, x, lim[0], lim[1] - 1, 'range', con, 'number of ' + w, whole=True)
                own_seed(c, o, e[3][0] if e[3] else None, k, s, con)
            if s:
                c.holds(o, repr(es[0][3]) != repr(es[1][3]), 'series', con, 'the filters have different seeds', short([e[3] for e in es]))
            if ft == 'all':
                kinds.add(tuple(got))
    c.R.viol('series', con, 'the type is chosen for each filter', 'the types of two filters are always one of %s' % sorted(kinds)) if len(kinds) < 16 else \
        c.R.ok('series', con, 'the type is chosen for each filter')


def series_design(c, s, name, design_name, form='lowpass', even=None):
    con = 'iter_random_' + name
    generator(c)
    design(c)

    def th():
        kw = dict(n=pair(N_), Wc=pair(WC), W1=pair(W1), W2=pair(W2), form=Const(form), seeded=Const(s))
        if even is not None:
            kw['onlyEven'] = Const(even)
        if name == 'Elliptic':
            kw.update(rp=pair(RP), rs=pair(RS))
        return c.call(c.func(L + name, con), Num(2, 'int'), **kw)
    for o in runs(c, th, 'accepts', con, 'answers'):
        es = [(i, e) for i, e in enumerate(o.st.effects) if e[0] == design_name]
        if not c.holds(o, len(es) == 2, 'series', con, 'as many filters as asked', '%d' % len(es)):
            continue
        last, used = 0, []
        for k, (i, e) in enumerate(es):
            check_design(c, o, e, form, con, even, (RP, RS) if name == 'Elliptic' else None)
            ds = [x for x in o.st.effects[last:i] if x[0] == 'draw']
            own_seed(c, o, ds[-1][1] if ds else None, k, s, con)
            used.append(repr(ds[-1][1]) if ds else None)
            last = i
        if s:
            c.holds(o, used[0] != used[1], 'series', con, 'the filters have different seeds', str(used))


def series_gabarit(c):
    con = 'iter_random_Gabarit'
    generator(c)

    def th():
        return c.call(c.func(L + 'Gabarit', con), Num(2, 'int'), form=Const('lowpass'))
    for o in runs(c, th, 'accepts', con, 'answers'):
        gs = items(c, o, o.value)
        if c.holds(o, None if gs is None else len(gs) == 2, 'series', con, 'as many specifications as asked', short(o.value)):
            ss = [c.at(o, lambda: c.get(g, 'seed')) for g in gs]
            c.holds(o, repr(ss[0]) != repr(ss[1]), 'series', con, 'the specifications have different seeds', short(ss))


def rdtf(c, mp):
    m, nm = ('dTFmp', 'random_dTFmp') if mp else ('dTF', 'random_dTF')
    for con, order, it in ((nm, (4, 7), False), (nm, (4, 4), False), ('iter_' + nm, (4, 7), True)):
        generator(c)

        def th():
            f = c.func(L + m, con)
            a = pair(order)
            r = c.call(f, Num(2, 'int'), a) if it else c.call(f, a)
            return r
        for o in runs(c, th, 'accepts', con, 'answers', allowed=('ValueError', 'ZeroDivisionError')):
            v = o.value
            fs = items(c, o, v) if it else [v]
            if not c.holds(o, None if fs is None else len(fs) == (2 if it else 1), 'series', con, 'as many systems as asked', short(v)):
                continue
            for f in fs:
                for x in ('num', 'den'):
                    mm = c.at(o, lambda: c.I.arr_mat(c.get(f, x)) if not mp else c.I.N(c.I.as_mat(c.get(f, x))))
                    if not c.holds(o, mm is not None or None, 'range', con, 'coefficients', short(f)):
                        continue
                    n = mm.rows * mm.cols - 1
                    num_in(c, o, Num(c.at(o, lambda: c.I.N(n))), order[0], max(order[1] - 1, order[0]), 'range', con, 'order of the transfer function', whole=True)


def series_dss(c, mp):
    m = 'dSSmp' if mp else 'dSS'
    con = 'iter_random_' + m
    for stable in (True, False):
        for n, p, q in (((3, 6), (2, 5), (2, 4)), ((3, 6), 1, 1), ((3, 6), 1, (2, 4)), ((3, 6), (2, 5), 1)):
            if mp and (p == 1 or q == 1):
                continue
            generator(c)
            take_dss(c)
            probs = [Num(Sc.sym(x), 'float') for x in ('pr', 'pl', 'pb', 'pd', 'pz')]

            def th():
                return c.call(c.func(L + m, con), Num(2, 'int'), Const(stable), pair(n), Num(p, 'int') if p == 1 else pair(p), Num(q, 'int') if q == 1 else pair(q), *probs)
            for o in runs(c, th, 'accepts', con, 'answers'):
                ss = items(c, o, o.value)
                if not c.holds(o, None if ss is None else len(ss) == 2, 'series', con, 'as many systems as asked', short(o.value)):
                    continue
                es = [e for e in o.st.effects if e[0] == 'dss']
                if stable:
                    c.holds(o, len(es) == 2, 'series', con, 'stable systems come from random_dSS', str(len(es)))
                    for e in es:
                        for i, (x, w) in enumerate(zip(('pr', 'pl', 'pb', 'pd', 'pz'), ('pRepeat', 'pReal', 'pBCmask', 'pDmask', 'pDzero'))):
                            g = arg(e, 3 + i, w)
                            c.equal(o, g, Sc.sym(x), 'series', con, 'probability ' + w) if g is not None else c.holds(o, False, 'series', con, 'probability ' + w, 'not given')
                for f in ss:
                    if mp:
                        ms = [c.at(o, lambda: c.I.N(c.I.as_mat(c.get(f, x)))) for x in 'ABCD']
                    else:
                        ms = [c.at(o, lambda: c.I.N(c.I.arr_mat(c.get(f, x)))) for x in 'ABCD']
                    for x, d, w in zip((ms[0].rows, ms[2].rows, ms[1].cols), (n, p, q), ('states', 'outputs', 'inputs')):
                        lo, hi = d if isinstance(d, tuple) else (1, 2)
                        num_in(c, o, Num(x), lo, hi - 1, 'range', con, 'number of ' + w, whole=True)


def masks(c, n, p, q):
    """probabilities 1/2; entries of the first mask of each size are drawn below (kept) or above (removed)"""
    con = 'random_dSS'
    shapes = {'B': (n, q), 'C': (p, n), 'D': (p, q)}
    half, lo, hi = Fraction(1, 2), Fraction(1, 4), Fraction(3, 4)
    c.units = lambda k: sc(half)

    def run(first, pz):
        generator(c)
        seen = {}

        def arrays(I, ds):
            sh = tuple(int(d.cval()) for d in ds)
            cells = sh[0] * sh[1]
            k = sum(1 for e in I.st.effects if e[0] == 'mask' and e[1] == sh)
            I.st.effects.append(('mask', sh))
            pat = first.get(sh, [])
            bits = pat[k] if k < len(pat) else (1,) * cells
            return I.arr('array', mvstack([mhstack([mscalar(lo if bits[i * sh[1] + j] else hi) for j in range(sh[1])], I.B) for i in range(sh[0])], I.B), 2)
        c.arrays = arrays

        def th():
            return c.call(c.func(L + 'dSS', 'random_dSS'), Num(n, 'int'), Num(p, 'int'), Num(q, 'int'), Num(ZERO, 'float'), Num(ONE, 'float'), Num(sc(half), 'float'),
                          Num(sc(half), 'float'), Num(sc(pz), 'float'))
        return runs(c, th, 'masks', con, 'ends')
    sizes = sorted(set(shapes.values()))
    for sh in sizes:
        cells = sh[0] * sh[1]
        for bits in product((0, 1), repeat=cells):
            # several blocks may have the same size: each has its turn to be the one with the pattern
            users = [x for x in 'BCD' if shapes[x] == sh]
            for turn, x in enumerate(users):
                pat = [(1,) * cells] * turn + [bits]
                for o in run({sh: pat}, 0):
                    judge_masks(c, o, con, x, sh, bits, shapes)
    for o in run({}, 1):
        for s in [o.value]:
            D = c.matof(o, c.at(o, lambda: c.get(s, 'D')))
            c.equal(o, D, mzero(sc(p), sc(q)), 'masks', con, 'D is zero with the probability pDzero')


def judge_masks(c, o, con, x, sh, bits, shapes):
    r = c.at(o, lambda: {y: c.I.N(c.I.arr_mat(c.get(o.value, y))) for y in 'BCD'})
    redrawn = sum(1 for e in o.st.effects if e[0] == 'mask') - 3
    c.holds(o, redrawn == (0 if any(bits) else 1), 'masks', con, 'a mask is drawn again exactly when it removes everything',
            'mask %s of %s is %s' % (bits, x, 'rejected' if redrawn > 0 else 'accepted'))
    for y in 'BCD':
        for i in range(shapes[y][0]):
            for j in range(shapes[y][1]):
                e = c.at(o, lambda: c.I.N(entry(r[y], sc(i), sc(j), o.st.B)))
                keep = bits[i * sh[1] + j] if y == x and any(bits) else 1
                zero = e == ZERO
                c.holds(o, zero != bool(keep), 'masks', con, 'entries of %s are kept when they are drawn below the probability' % y, 'entry %s of %s is %s' % ((i, j), y, short(e)))
