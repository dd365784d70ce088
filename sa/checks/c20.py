"""C20: frequency specifications constrain every band on both sides"""
from itertools import permutations
from ..spec import *
from ..values import *
from ..dom import *
from .. import evalf

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of the band and specification classes on symbolic edges, gains and margins; Sollya, scipy and plotting are '
               'uninterpreted and the values handed to them are compared with the bounds of the band')
G = 'fixif.LTI.Gabarit'
SPEC = '''
def bounds(passb, g0, g1, margin):
	if passb:
		return 10 ** (min(g0, g1) / 20) - margin, 10 ** (max(g0, g1) / 20) + margin
	return 0, 10 ** (g0 / 20) + margin

def gains(passb, g0, g1, d):
	if passb:
		return min(g0, g1) - d, max(g0, g1) - d
	return g0 - d, g0 - d

def worst(hs):
	m = 0
	for lo, hi, inf, sup in hs:
		m = max(m, sup - hi, lo - inf)
	return m
'''


def tag(name, *xs):
    return Tup([Const('#' + name)] + list(xs))


def is_tag(v, name):
    return isinstance(v, Tup) and v.items and isinstance(v.items[0], Const) and v.items[0].v == '#' + name


def sollya(c):
    """Sollya as uninterpreted operations"""
    h = c.I.hooks
    h[('ext', 'sollya.SollyaObject')] = lambda I, a, kw: a[0]
    h[('ext', 'sollya.Interval')] = lambda I, a, kw: tag('interval', *a)
    h[('ext', 'sollya.round')] = lambda I, a, kw: tag('round', *a)
    h[('ext', 'sollya.horner')] = lambda I, a, kw: a[0]
    h[('ext', 'sollya.suppressmessage')] = lambda I, a, kw: Const(None)
    h[('ext', 'sollya.execute')] = lambda I, a, kw: Const(None)
    h[('ext', 'sollya.sup')] = lambda I, a, kw: a[0].items[2] if is_tag(a[0], 'interval') else None
    h[('ext', 'sollya.inf')] = lambda I, a, kw: a[0].items[1] if is_tag(a[0], 'interval') else None
    h[('ext', 'sollya.max')] = lambda I, a, kw: I.call(ExtV('builtins.max'), list(a), dict(kw))
    h[('ext', 'sollya.min')] = lambda I, a, kw: I.call(ExtV('builtins.min'), list(a), dict(kw))
    h[('ext', 'matplotlib.patches.Rectangle')] = lambda I, a, kw: tag('rectangle', *a)


def mode(v):
    return v.name.split('.')[-1] if isinstance(v, ExtV) else repr(v)


def rounded(c, o, v, want, direction, rule, con, what):
    """v is want rounded to 53 bits in the direction"""
    if is_tag(v, 'round'):
        x, p, m = v.items[1:]
        c.equal(o, x, want, rule, con, what)
        c.holds(o, isinstance(p, Num) and p.s.is_const() and p.s.cval() == 53 or isinstance(p, Const) and p.v == 53, rule, con, what + ': precision', short(p))
        c.holds(o, mode(m) == direction, rule, con, what + ': rounding direction', 'rounds with %s instead of %s' % (mode(m), direction))
    elif isinstance(v, Num) and v.s.is_const():
        c.equal(o, v, want, rule, con, what)
    else:
        c.holds(o, None, rule, con, what, 'not a rounded value: %s' % short(v))


def minus(c, a, b):
    return c.call(c.ref('def f(a, b):\n\treturn a - b\n', 'f'), a, b)


def key(c, o, d, k):
    def f():
        ob = c.I.obj(d)
        for kk, v in ob.items.items():
            if isinstance(kk, Const) and kk.v == k or kk == k:
                return v
        return None
    return c.at(o, f)


def split(c, outs, spec, prune=True):
    """the outcomes, split by the ways the specification evaluates"""
    res = []
    for o in outs:
        for s in c.at(o, lambda: c.I.run_paths(spec)):
            s.lits = list(o.lits) + list(s.lits)
            s.spec, s.value = s.value, o.value
            if not prune or c.reach(s) is not False:
                res.append(s)
    return res


def sargs(c, src, name, o, *args):
    """value of a specification function at an outcome"""
    return [s for s in c.at(o, lambda: c.I.run_paths(lambda: c.call(c.ref(SPEC, name), *args)))]


def check(R):
    R.rule('bounds', 'a band gives Sollya its own edges, its own lower and upper bound, rounded inwards')
    R.rule('band', 'edges, kind and gains of a band, before and after a change of gain or a margin')
    R.rule('kinds', 'the sequence of the bands decides the kind of the specification')
    R.rule('design', 'the design parameters are those of the bands, for each kind of specification')
    R.rule('verdict', 'a filter is checked against every band once; the answer is the one of Sollya')
    R.rule('issue', 'the greatest violation is measured on both sides of every band')
    R.rule('sollya', 'Sollya is declared ready only when it is')
    for fs in ('given', 'none'):
        for f2 in ('given', 'none'):
            for kind in ('pass', 'stop', 'list'):
                R.case('band %s Fs %s F2 %s' % (kind, fs, f2), lambda c: band(c, kind, fs == 'given', f2 == 'given'))
    for g in (0, 1, -3):
        R.case('stop band at %d dB' % g, lambda c: zero(c, g))
    R.case('order of the bands', order)
    for nb in (1, 2, 3, 4):
        for bits in range(2 ** nb):
            kinds = [bool(bits >> i & 1) for i in range(nb)]
            R.case('kind %s' % kinds, lambda c: kinds_(c, kinds))
    R.case('kind of the greatest gain', maxgain)
    R.case('sizes', sizes)
    for t in ('lowpass', 'highpass', 'bandpass', 'bandstop', 'multiband'):
        for cz in (False, True):
            R.case('design of a %s (centered %s)' % (t, cz), lambda c: design(c, t, cz))
    for t in ('bandpass', 'bandstop'):
        R.case('design of a %s with different gains' % t, lambda c: uneven(c, t))
    for nb in (1, 2, 3):
        R.case('check with %d bands' % nb, lambda c: checked(c, nb))
    R.case('polynomials for Sollya', polys)
    for shape in ([], [1], [2], [0], [1, 1], [2, 0, 1]):
        R.case('issue %s' % shape, lambda c: issue(c, shape))
    R.case('without Sollya', absent)
    R.case('with Sollya', present)


def new_band(c, kind, fs, f2, pre=''):
    Fs = Num(Sc.sym(pre + 'Fs')) if fs else Const(None)
    F2 = Num(Sc.sym(pre + 'F2')) if f2 else Const(None)
    if fs:
        c.assume_unequal(Sc.sym(pre + 'Fs'), 0)
    if f2:
        c.assume_unequal(Sc.sym(pre + 'F2'), 0)
    g0, g1 = c.scalar(pre + 'g0'), c.scalar(pre + 'g1')
    gain = Tup([g0, g1]) if kind == 'pass' else c.lst(g0, g1) if kind == 'list' else g0
    b = c.new(c.cls(G, 'Band'), Fs, c.scalar(pre + 'F1'), F2, gain)
    return b, g0, g1


def band(c, kind, fs, f2):
    sollya(c)
    passb = kind != 'stop'
    d, dm = c.scalar('gain'), c.scalar('designMargin')
    Fs, F1, F2 = (Sc.sym('Fs') if fs else Sc.const(2)), Sc.sym('F1'), Sc.sym('F2')

    def prog():
        b, g0, g1 = new_band(c, kind, fs, f2)
        b2 = minus(c, b, d)
        b3 = minus(c, b, Num(ZERO))
        c.meth(b3, 'applyDesignMargin', dm)
        return Tup([b, b2, b3] + [c.get(x, n) for x in (b, b2) for n in ('F1', 'F2', 'w1', 'w2', 'Fs', 'isPassBand', 'passGains', 'stopGain')])
    w2 = 2 * F2 * (ONE / Fs) if f2 else ONE
    con = 'Band'
    for o in split(c, c.exceptions(c.run(prog), 'band', con, 'edges and gains'),
                   lambda: c.call(c.ref(SPEC, 'gains'), Const(passb), c.scalar('g0'), c.scalar('g1'), Num(ZERO))):
        v = o.value.items
        lo, hi = o.spec.items
        for k, (f1_, f2_, w1_, w2_, fs_, pb, pg, sg) in enumerate((v[3:11], v[11:19])):
            nm = ('', 'band minus a gain: ')[k]
            sh = (ZERO, d.s)[k]
            c.equal(o, f1_, F1, 'band', con, nm + 'F1')
            c.equal(o, f2_, F2 if f2 else Fs * Sc.const(Fraction(1, 2)), 'band', con, nm + 'F2')
            c.equal(o, w1_, 2 * F1 * (ONE / Fs), 'band', con, nm + 'w1')
            c.equal(o, w2_, w2, 'band', con, nm + 'w2')
            c.equal(o, fs_, Fs, 'band', con, nm + 'Fs')
            c.truthy(o, pb, passb, 'band', con, nm + 'isPassBand')
            gains_(c, o, pg, sg, passb, [lo.s - sh, hi.s - sh], nm)
        b3 = o.value.items[2]
        for s in c.at(o, lambda: c.I.run_paths(lambda: Tup([c.get(b3, 'passGains'), c.get(b3, 'stopGain')]))):
            s.lits = list(o.lits) + list(s.lits)
            gains_(c, s, s.value.items[0], s.value.items[1], passb, [lo.s + dm.s, hi.s - dm.s] if passb else [lo.s - dm.s] * 2, 'design margin: ')

    # what Sollya is given
    c.I.hooks[('Gabarit', 'readyToRunWithSollya')] = lambda I, a, kw: Const(None)

    for m in (c.scalar('margin'), Num(Sc.sym('margin') + 60), Num(Sc.sym('margin') - 60), Num(ZERO)):
        asked(c, kind, fs, f2, m, w2)


def asked(c, kind, fs, f2, m, w2):
    passb = kind != 'stop'
    Fs, F1 = (Sc.sym('Fs') if fs else Sc.const(2)), Sc.sym('F1')

    def cons():
        b, g0, g1 = new_band(c, kind, fs, f2)
        return c.meth(b, 'sollyaConstraint', m)
    for o in c.exceptions(c.run(cons), 'bounds', 'Band.sollyaConstraint', 'answers', allowed=('AssertionError',)):
        d_ = o.value
        con = 'Band.sollyaConstraint'
        ks = c.at(o, lambda: sorted(k.v for k in c.I.obj(d_).items if isinstance(k, Const)))
        if not c.holds(o, ks == ['Omega', 'betaInf', 'betaSup', 'omegaFactor'], 'bounds', con, 'fields of the constraint', str(ks)):
            continue
        om = key(c, o, d_, 'Omega')
        if c.holds(o, is_tag(om, 'interval') or None, 'bounds', con, 'Omega is an interval', short(om)):
            c.equal(o, om.items[1], 2 * F1 * (ONE / Fs), 'bounds', con, 'lower edge')
            c.equal(o, om.items[2], w2, 'bounds', con, 'upper edge')
        fac = key(c, o, d_, 'omegaFactor')
        c.holds(o, mode(fac) == 'pi', 'bounds', con, 'omegaFactor', short(fac))
        subs = sargs(c, SPEC, 'bounds', o, Const(passb), c.scalar('g0'), c.scalar('g1'), m)
        for s in subs:
            s.lits = list(o.lits) + list(s.lits)
            if c.reach(s) is False:
                continue
            inf_, sup_ = s.value.items
            rounded(c, s, key(c, o, d_, 'betaInf'), inf_, 'RU', 'bounds', con, 'lower bound')
            rounded(c, s, key(c, o, d_, 'betaSup'), sup_, 'RD', 'bounds', con, 'upper bound')


def gains_(c, o, pg, sg, passb, want, nm):
    con = 'Band'
    if passb:
        if c.holds(o, isinstance(pg, Tup) and len(pg.items) == 2, 'band', con, nm + 'gains of a pass band', short(pg)):
            c.equal(o, pg.items[0], want[0], 'band', con, nm + 'lower gain')
            c.equal(o, pg.items[1], want[1], 'band', con, nm + 'upper gain')
        c.holds(o, isinstance(sg, Const) and sg.v is None, 'band', con, nm + 'no stop gain', short(sg))
    else:
        c.holds(o, isinstance(pg, Const) and pg.v is None, 'band', con, nm + 'no pass gains', short(pg))
        if isinstance(sg, Const) and sg.v is None:
            c.holds(o, False, 'band', con, nm + 'gain of a stop band', 'lost')
        else:
            c.equal(o, sg, want[0], 'band', con, nm + 'gain of a stop band')


def zero(c, g):
    """the gain brought to zero, or at zero"""
    sollya(c)
    b = c.cls(G, 'Band')
    c.assume_unequal(Sc.sym('F2'), 0)
    o_ = c.run(lambda: minus(c, c.new(b, Num(Sc.const(48000)), c.scalar('F1'), c.scalar('F2'), Num(Sc.const(g))), Num(Sc.const(g))))
    for o in c.exceptions(o_, 'band', 'Band', 'minus its gain'):
        v = c.at(o, lambda: Tup([c.get(o.value, 'passGains'), c.get(o.value, 'stopGain')]))
        gains_(c, o, v.items[0], v.items[1], False, [ZERO], 'stop band brought to zero: ')
    c.I.hooks[('Gabarit', 'readyToRunWithSollya')] = lambda I, a, kw: Const(None)
    o_ = c.run(lambda: c.meth(c.new(b, Num(Sc.const(48000)), c.scalar('F1'), c.scalar('F2'), Num(ZERO)), 'sollyaConstraint', Num(ZERO)))
    for o in c.exceptions(o_, 'bounds', 'Band.sollyaConstraint', 'stop band at zero decibels'):
        rounded(c, o, key(c, o, o.value, 'betaSup'), ONE, 'RD', 'bounds', 'Band.sollyaConstraint', 'stop band at zero decibels: upper bound')


def order(c):
    b = c.cls(G, 'Band')
    for f, g in ((1, 2), (2, 1), (3, 3)):
        for ga, gb in ((Num(Sc.sym('a')), Num(Sc.sym('b'))), (Tup([Num(Sc.sym('a')), Num(Sc.sym('a1'))]), Num(Sc.sym('b')))):
            outs = c.run(lambda: c.call(c.get(c.new(b, Num(Sc.const(9)), Num(Sc.const(f)), Num(Sc.const(4)), ga), '__lt__'),
                                        c.new(b, Num(Sc.const(9)), Num(Sc.const(g)), Num(Sc.const(4)), gb)))
            for o in c.exceptions(outs, 'band', 'Band.__lt__', 'answers'):
                c.truthy(o, o.value, f < g, 'band', 'Band.__lt__', 'bands are ordered by their first edges')


FBANDS = {1: [(0, 100)], 2: [(0, 100), (200, None)], 3: [(0, 100), (200, 300), (400, None)], 4: [(0, 100), (200, 300), (400, 500), (600, None)]}


def num(x):
    return Const(None) if x is None else Num(Sc.const(x))


def new_gabarit(c, kinds, perm=None, same=()):
    """a specification whose bands are the given kinds (True: pass), listed in the order perm"""
    n = len(kinds)
    fb = [Tup([num(a), num(b)]) for a, b in FBANDS[n]]
    gs = []
    for i, k in enumerate(kinds):
        j = same[i] if same else i
        gs.append(Tup([c.scalar('lo%d' % j), c.scalar('hi%d' % j)]) if k else c.scalar('s%d' % j))
    p = perm or range(n)
    return c.new(c.cls(G, 'Gabarit'), num(2000), c.lst(*[fb[i] for i in p]), c.lst(*[gs[i] for i in p]))


NAMES_ = {(True, False): 'lowpass', (False, True): 'highpass', (True, False, True): 'bandstop', (False, True, False): 'bandpass'}


def kinds_(c, kinds):
    want = NAMES_.get(tuple(kinds), 'multiband')
    n = len(kinds)
    perms = list(permutations(range(n))) if n <= 3 else [(2, 0, 3, 1)]
    for p in perms:
        def prog():
            g = new_gabarit(c, kinds, p)
            t = c.get(g, 'type')
            bs = c.I.obj(c.get(g, 'bands'))
            return Tup([t, c.get(g, 'type'), Tup([x[1] for x in bs.segs])] + [Tup([c.get(x[1], 'F1'), c.get(x[1], 'isPassBand')]) for x in bs.segs])
        for o in c.exceptions(c.run(prog), 'kinds', 'Gabarit.type', 'answers'):
            for v in o.value.items[:2]:
                c.holds(o, isinstance(v, Const) and v.v == want, 'kinds', 'Gabarit.type', 'kind of ' + ' '.join('pass' if k else 'stop' for k in kinds),
                        '%s instead of %s' % (short(v), want))
            fb = [x.items[0] for x in o.value.items[3:]]
            ok = len(fb) == n and all(isinstance(x, Num) and x.s.is_const() for x in fb)
            c.holds(o, (ok and [x.s.cval() for x in fb] == [x[0] for x in FBANDS[n]]) if ok or len(fb) != n else None, 'kinds', 'Gabarit.bands', 'the bands are sorted, none is lost', short(fb))
            if len(fb) == n:
                for x, k in zip(o.value.items[3:], kinds):
                    c.truthy(o, x.items[1], k, 'kinds', 'Gabarit.bands', 'each band keeps its gain')


def maxgain(c):
    for kinds in ([True, False], [False, True, False], [True, False, True], [False]):
        c.dims.clear()
        outs = c.run(lambda: c.meth(new_gabarit(c, kinds), 'maxGain'))
        good = c.exceptions(outs, 'band', 'Gabarit.maxGain', 'answers')

        def want(env):
            return max(max(env.sym('lo%d' % i), env.sym('hi%d' % i)) if k else env.sym('s%d' % i) for i, k in enumerate(kinds))
        for o in good:
            gs = [Num(Sc.sym(x)) for i, k in enumerate(kinds) for x in (['lo%d' % i, 'hi%d' % i] if k else ['s%d' % i])]
            v = c.at(o, lambda: c.call(ExtV('builtins.max'), *gs)) if len(gs) > 1 else gs[0]
            c.equal(o, o.value, v, 'band', 'Gabarit.maxGain', 'greatest gain of the bands')


def sizes(c):
    c.refused(c.run(lambda: c.new(c.cls(G, 'Gabarit'), num(2000), c.lst(Tup([num(0), num(100)])), c.lst(c.scalar('a'), c.scalar('b')))),
              'kinds', 'Gabarit', 'one gain per band')
    c.refused(c.run(lambda: c.new(c.cls(G, 'Gabarit'), num(2000), c.lst(Tup([num(0), num(100)]), Tup([num(200), num(None)])), c.lst(c.scalar('a')))),
              'kinds', 'Gabarit', 'one band per gain')
    c.refused(c.run(lambda: minus(c, c.new(c.cls(G, 'Band'), num(2000), num(0), num(100), c.scalar('a')), Const('x'))),
              'band', 'Band', 'minus something else than a number')


BANDS = {'lowpass': [True, False], 'highpass': [False, True], 'bandpass': [False, True, False], 'bandstop': [True, False, True], 'multiband': [True, False, True, False]}


def design(c, t, cz):
    kinds = BANDS[t]
    same = {'bandpass': (0, 1, 0), 'bandstop': (0, 1, 0)}.get(t, ())
    c.scalars = True
    calls = []
    c.I.hooks[('ext', 'scipy.signal.iirdesign')] = lambda I, a, kw: recorded(I, calls, a, kw, c)
    made = []
    c.I.hooks[('class', 'dTF')] = lambda I, a, kw: tag('dTF', *a)
    dm = c.scalar('dm')
    ft = Const('ellip')
    con = 'Gabarit.to_dTF'
    # lower gains below upper ones
    outs = c.run(lambda: c.meth(new_gabarit(c, kinds, None, same), 'to_dTF', ft, designMargin=dm, centeredZero=Const(cz)))
    if t == 'multiband':
        return c.refused(outs, 'design', con, 'several bands of each kind')
    lo = {}
    for o in c.exceptions(outs, 'design', con, 'a %s' % t):
        v = o.value
        if not c.holds(o, is_tag(v, 'dTF') and len(v.items) == 3 or None, 'design', con, 'returns a transfer function', short(v)):
            continue
        rec = [e for e in o.st.effects if e[0] == 'iirdesign']
        if not c.holds(o, len(rec) == 1, 'design', con, 'one call of iirdesign', str(len(rec))):
            continue
        args, kw = rec[0][1], dict(rec[0][2])
        k = kinds.index(True)
        # gains of the (first) pass band, sorted as on this path
        sp = [s for s in sargs(c, SPEC, 'gains', o, Const(True), c.scalar('lo%d' % (same[k] if same else k)), c.scalar('hi%d' % (same[k] if same else k)), Num(ZERO))]
        for s in sp:
            s.lits = list(o.lits) + list(s.lits)
            if c.reach(s) is False:
                continue
            g0, g1 = [x.s for x in s.value.items]
            center = (g0 + g1) * Sc.const(Fraction(1, 2))
            ns = same[kinds.index(False)] if same else kinds.index(False)
            gp = -(g0 - center + dm.s)
            gs = -(Sc.sym('s%d' % ns) - center - dm.s)
            w = {'lowpass': (Fraction(1, 10), Fraction(2, 10)), 'highpass': (Fraction(2, 10), Fraction(1, 10)),
                 'bandpass': ((Fraction(2, 10), Fraction(3, 10)), (Fraction(1, 10), Fraction(4, 10))),
                 'bandstop': ((Fraction(1, 10), Fraction(4, 10)), (Fraction(2, 10), Fraction(3, 10)))}[t]
            if not c.holds(s, len(args) == 4, 'design', con, 'parameters of iirdesign', str(len(args))):
                continue
            for what, a, ww in (('edges of the pass band', args[0], w[0]), ('edges of the stop band', args[1], w[1])):
                if isinstance(ww, tuple):
                    xs = seq(c, o, a)
                    if c.holds(s, (xs is not None and len(xs) == 2) or None, 'design', con, what, short(a)):
                        for x, y in zip(xs, ww):
                            c.equal(s, x, Sc.const(y), 'design', con, '%s: %s' % (t, what))
                else:
                    c.equal(s, a, Sc.const(ww), 'design', con, '%s: %s' % (t, what))
            c.equal(s, args[2], gp, 'design', con, '%s: attenuation allowed in the pass band' % t)
            c.equal(s, args[3], gs, 'design', con, '%s: attenuation required in the stop band' % t)
            c.holds(s, isinstance(kw.get('analog'), Const) and kw['analog'].v is False, 'design', con, 'a digital filter', short(kw.get('analog')))
            c.holds(s, isinstance(kw.get('ftype'), Const) and kw['ftype'].v == 'ellip', 'design', con, 'the kind of filter asked', short(kw.get('ftype')))
            n_, d_ = v.items[1:]
            num_, den_ = mnamed('num', ONE, Sc.sym('k')), mnamed('den', ONE, Sc.sym('k'))
            if cz:
                c.equal(s, n_, num_, 'design', con, 'centered numerator')
            else:
                c.equal(s, n_, mscale(num_, c.at(s, lambda: c.call(c.ref('def f(x):\n\treturn 10 ** (x / 20.0)\n', 'f'), Num(center))).s), 'design', con, 'numerator brought back to the gain of the band')
            c.equal(s, d_, den_, 'design', con, 'denominator')


def recorded(I, calls, a, kw, c):
    I.st.effects.append(('iirdesign', tuple(a), tuple(sorted(kw.items()))))
    k = c.dim('k')
    return Tup([I.arr('array', mnamed('num', ONE, k), 1), I.arr('array', mnamed('den', ONE, k), 1)])


def seq(c, o, v):
    if isinstance(v, Tup):
        return v.items
    if isinstance(v, Ref):
        ob = c.at(o, lambda: c.I.obj(v))
        if isinstance(ob, ListO) and all(x[0] == 'item' for x in ob.segs):
            return [x[1] for x in ob.segs]
    return None


def uneven(c, t):
    kinds = BANDS[t]
    c.I.hooks[('ext', 'scipy.signal.iirdesign')] = lambda I, a, kw: recorded(I, [], a, kw, c)
    c.I.hooks[('class', 'dTF')] = lambda I, a, kw: tag('dTF', *a)
    fb = [Tup([num(a), num(b)]) for a, b in FBANDS[3]]
    for gs in ({'bandpass': [(-60,), (-1, 1), (-40,)], 'bandstop': [(-1, 1), (-60,), (-2, 1)]}[t],
               {'bandpass': [(-40,), (-1, 1), (-60,)], 'bandstop': [(-3, 1), (-60,), (-2, 1)]}[t]):
        vals = [num(g[0]) if len(g) == 1 else Tup([num(x) for x in g]) for g in gs]
        outs = c.run(lambda: c.meth(c.new(c.cls(G, 'Gabarit'), num(2000), c.lst(*fb), c.lst(*vals)), 'to_dTF', Const('butter')))
        c.refused(outs, 'design', 'Gabarit.to_dTF', 'a %s whose gains scipy cannot honour' % t)


def checked(c, nb):
    """check_dTF hands every band over and returns the answer of Sollya"""
    sollya(c)
    h = c.I.hooks
    h[('Gabarit', 'readyToRunWithSollya')] = lambda I, a, kw: Const(None)
    h[('dTF', 'to_Sollya')] = lambda I, a, kw: Tup([tag('num'), tag('den')])
    h[('Band', 'sollyaConstraint')] = lambda I, a, kw: tag('constraint', *(list(a) + [kw[k] for k in sorted(kw)]))

    def parse(I, a, kw):
        if isinstance(a[0], Const) and a[0].v == 'checkModulusFilterInSpecification':
            return ExtV('!check')
        if isinstance(a[0], Const) and a[0].v == 'presentResults':
            return ExtV('!present')
    h[('ext', 'sollya.parse')] = parse

    def run(I, a, kw):
        I.st.effects.append(('check', tuple(a), tuple(sorted(kw.items()))))
        return I.alloc(DictO({Const('okay'): Num(Sc.sym('okay')), Const('results'): c.lst()}))
    h[('ext', '!check')] = run
    h[('ext', '!present')] = lambda I, a, kw: Const(None)
    m, prec = c.scalar('margin'), c.scalar('prec')
    kinds = [i % 2 == 0 for i in range(nb)]
    con = 'Gabarit.check_dTF'

    def prog():
        g = new_gabarit(c, kinds, tuple(reversed(range(nb))))
        tf = c.I.alloc(InstO(c.cls('fixif.LTI.dTF', 'dTF'), {}))
        r = c.meth(g, 'check_dTF', tf, margin=m, prec=prec)
        bs = c.I.obj(c.get(g, 'bands'))
        return Tup([r] + [x[1] for x in bs.segs])
    for o in c.exceptions(c.run(prog), 'verdict', con, 'answers'):
        r, bands = o.value.items[0], o.value.items[1:]
        rec = [e for e in o.st.effects if e[0] == 'check']
        if not c.holds(o, len(rec) == 1 and len(rec[0][1]) == 4 and not rec[0][2], 'verdict', con, 'one check with four parameters', short(rec)):
            continue
        a = rec[0][1]
        c.holds(o, is_tag(a[0], 'num') and is_tag(a[1], 'den'), 'verdict', con, 'numerator and denominator', short(a[:2]))
        cs = seq(c, o, a[2])
        if c.holds(o, None if cs is None else len(cs) == nb, 'verdict', con, 'one constraint per band', short(a[2])):
            refs = [x.items[1] if is_tag(x, 'constraint') else None for x in cs]
            ok = all(isinstance(x, Ref) for x in refs) and sorted(x.a for x in refs) == sorted(b.a for b in bands)
            c.holds(o, ok, 'verdict', con, 'every band is checked exactly once', short(refs))
            for x in cs:
                if is_tag(x, 'constraint') and len(x.items) == 3:
                    c.equal(o, x.items[2], m.s, 'verdict', con, 'margin of every band')
                else:
                    c.holds(o, False, 'verdict', con, 'margin of every band', short(x))
        c.equal(o, a[3], prec.s, 'verdict', con, 'precision')
        if c.holds(o, isinstance(r, Tup) and len(r.items) == 2, 'verdict', con, 'returns the answer and the result', short(r)):
            c.equal(o, r.items[0], Sc.sym('okay'), 'verdict', con, 'the answer is the one of Sollya')
            c.holds(o, isinstance(r.items[1], Ref), 'verdict', con, 'the result is the one of Sollya', short(r.items[1]))


def polys(c):
    sollya(c)
    con = 'dTF.to_Sollya'
    for order in (1, 2, 3):
        k = order + 1
        a = c.I.arr('matrix', explicit(c, 'a', k), 2)
        b = c.I.arr('matrix', explicit(c, 'b', k), 2)

        def prog():
            t = c.I.alloc(InstO(c.cls('fixif.LTI.dTF', 'dTF'), {'_num': b, '_den': a, '_order': Num(Sc.const(order)), '_sollya': Const(None), '_dSS': Const(None)}))
            return c.meth(t, 'to_Sollya')
        c.I.extvals = {'sollya._x_': Num(Sc.sym('X'))}
        for o in c.exceptions(c.run(prog), 'verdict', con, 'answers'):
            v = o.value
            if c.holds(o, isinstance(v, Tup) and len(v.items) == 2 or None, 'verdict', con, 'two polynomials', short(v)):
                for nm, x, q in (('numerator', v.items[0], 'b'), ('denominator', v.items[1], 'a')):
                    w = ZERO
                    for i in range(k):
                        t = Sc.sym('%s%d' % (q, i))
                        for _ in range(i):
                            t = t * Sc.sym('X')
                        w = w + t
                    c.equal(o, x, w, 'verdict', con, '%s: coefficient of each power' % nm)


def explicit(c, q, k):
    return mhstack([mscalar(Sc.sym('%s%d' % (q, i))) for i in range(k)], c.I.B)


def issue(c, shape):
    """bands with the given numbers of violations (0: the band is satisfied)"""
    sollya(c)
    hs = []

    def d(**kw):
        return c.I.alloc(DictO({Const(k): v for k, v in kw.items()}))

    def prog():
        hs.clear()
        rs = []
        for i, n in enumerate(shape):
            iss = []
            for j in range(max(n, 1)):
                q = ['%s%d%d' % (x, i, j) for x in ('lo', 'hi', 'inf', 'sup')]
                v = [Num(Sc.sym(x)) for x in q]
                if n:
                    hs.append(Tup(v))
                iss.append(d(H=tag('interval', v[2], v[3]), specification=d(betaInf=v[0], betaSup=v[1]), omega=c.scalar('w')))
            rs.append(d(okay=Const(n == 0), issue=c.lst(*iss)))
        return c.call(c.func(G, 'findMaxIssue'), d(okay=Const(not any(shape)), results=c.lst(*rs)))
    outs = c.run(prog)
    for o in c.exceptions(outs, 'issue', 'findMaxIssue', 'answers'):
        w = c.at(o, lambda: c.call(c.ref(SPEC, 'worst'), Tup(list(hs))))
        c.equal(o, o.value, w, 'issue', 'findMaxIssue', 'the greatest distance to the bounds, on both sides of each band')


def absent(c):
    """Sollya is not installed: refused, the first time and the next ones"""
    c.I.absent = ('sollya',)
    c.refused(c.run(lambda: ready(c, 1)), 'sollya', 'Gabarit.readyToRunWithSollya', 'Sollya is absent')
    src = 'from fixif.LTI.Gabarit import Gabarit\ndef f():\n\ttry:\n\t\tGabarit.readyToRunWithSollya()\n\texcept ValueError:\n\t\tpass\n\tGabarit.readyToRunWithSollya()\n'
    c.refused(c.run(lambda: c.call(c.ref(src, 'f'))), 'sollya', 'Gabarit.readyToRunWithSollya', 'Sollya is absent: second call')


def ready(c, n):
    k = ClassV(c.cls(G, 'Gabarit'))
    for _ in range(n):
        c.call(c.get(k, 'readyToRunWithSollya'))
    return Const(None)


def present(c):
    sollya(c)

    def exe(I, a, kw):
        I.st.effects.append(('execute', a[0]))
        return Const(None)
    c.I.hooks[('ext', 'sollya.execute')] = exe
    for n in (1, 2):
        for o in c.exceptions(c.run(lambda: ready(c, n)), 'sollya', 'Gabarit.readyToRunWithSollya', 'with Sollya'):
            k = len([e for e in o.st.effects if e[0] == 'execute'])
            c.holds(o, k >= 1, 'sollya', 'Gabarit.readyToRunWithSollya', 'the procedures are loaded before use', 'not loaded')
