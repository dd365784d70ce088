"""C24: the loops and the recursive calls make progress"""
from ..progress import Analysis, Recursion
from fractions import Fraction
from . import c06, c18, c20

LEVEL = 'other'
EXPLANATION = ('control-flow and dataflow analysis of every loop: the paths of the body that come back to the test, the variables the exits depend on (data and control '
               'dependence), what each path may change of them, and the exact change of the counters; must-call graph for the recursion')


def check(R):
    R.rule('progress', 'every path from a loop test back to it changes something the exits of the loop depend on')
    R.rule('bound', 'the comparisons that bound a loop get closer to their end')
    R.rule('sequence', 'a loop over a sequence does not make it longer for ever')
    R.rule('recursion', 'no function calls itself on all its paths')
    R.rule('accepts', 'the reduction of states ends, and the random constructions end on some draws whatever the first draws are')
    R.rule('formula', 'the reduction of states keeps the response')
    R.rule('range', 'the accepted draws are in the range')
    R.rule('masks', 'a mask is drawn again only when it removes everything')
    for n, p, q in ((1, 1, 1), (2, 1, 1), (2, 2, 1)):
        R.case('simplify %d %d %d' % (n, p, q), lambda c: c06.simplify(R, c, n, p, q))
    for name in ('Butter', 'Elliptic'):
        R.case('redraw ' + name, lambda c: c18.redraw(c, name))
    for n, p, q in ((1, 1, 1), (1, 2, 1), (1, 1, 2)):
        R.case('masks %s' % ((n, p, q),), lambda c: c18.masks(c, n, p, q))
    for which in ('constant', 'better'):
        R.case('margin ' + which, lambda c: margin(R, c, which))
    A = Analysis(R.P)
    ranked = 0
    for L in A.loops:
        R.functions.add((L.mod.name, L.qual))
        con = '%s::%s' % (L.mod.name, L.qual)
        for verdict, rule, text, line in L.judge():
            what = 'loop while %s' % unparse(L.node.test)
            if verdict == 'viol':
                R.viol(rule, con, what, text, line)
            else:
                R.ok(rule, con, what)
        ranked += getattr(L, 'ranked', False)
    for mod, qual, n in A.failed:
        R.und('progress', '%s::%s' % (mod.name, qual), 'loop at line %d' % n.lineno, 'too many paths')
    for mod, qual, fn, n in A.fors:
        r = A.endless_iter(mod, fn, n)
        if r is None:
            continue
        con = '%s::%s' % (mod.name, qual)
        R.functions.add((mod.name, qual))
        if r[0] == 'viol':
            R.viol('sequence', con, 'loop over %s' % unparse(n.iter), r[1], n.lineno)
        else:
            R.ok('sequence', con, 'loop over %s' % unparse(n.iter))
    C = Recursion(R.P)
    bad = set(C.cycles())
    for k, (mod, cls, qual, node) in C.fns.items():
        con = '%s::%s' % (mod.name, qual)
        R.functions.add((mod.name, qual))
        if k in bad:
            R.viol('recursion', con, 'calls itself', 'every path through the function calls it again', node.lineno)
        else:
            R.ok('recursion', con, 'does not call itself on all its paths')
    R.extra['while loops'] = len(A.loops)
    R.extra['while loops with a proved bound'] = ranked
    R.extra['for loops'] = len(A.fors)
    R.extra['paths back to a test'] = sum(len(L.cycles) for L in A.loops)
    if not A.fors and not A.loops:
        R.und('progress', 'library', 'no loop found')


def unparse(e):
    import ast
    return ast.unparse(e)[:120]


def margin(R, c, which):
    """the search of a margin ends when no margin is enough"""
    con = 'fixif.LTI.Gabarit::Gabarit.findMinimumMargin'
    from ..spec import Num, Const, Tup, ONE, sc
    h = c.I.hooks
    c20.sollya(c)
    h[('ext', 'sollya.round')] = lambda I, a, kw: a[0]
    h[('Gabarit', 'readyToRunWithSollya')] = lambda I, a, kw: Const(None)
    h[('Gabarit', 'maxGain')] = lambda I, a, kw: Num(ONE, 'float')

    def check_dTF(I, a, kw):
        I.st.effects.append(('checked',))
        return Tup([Const(False), Tup([])])

    def issue(I, a, kw):
        n = sum(1 for e in I.st.effects if e[0] == 'checked')
        return Num({'constant': ONE, 'better': sc(Fraction(1, 1 + n))}[which], 'float')
    h[('Gabarit', 'check_dTF')] = check_dTF
    h[('fixif.LTI.Gabarit', 'findMaxIssue')] = issue
    c.I.unroll = 60
    outs = c.run(lambda: c.meth(c20.new_gabarit(c, (True, False)), 'findMinimumMargin', Const('filter')))
    ends = [o for o in outs if not (o.kind == 'raise' and getattr(o.value, 'name', '') == 'Unrolled')]
    if outs and not ends:
        R.viol('accepts', con, 'the search ends', 'still searching after 60 checks (the errors are %s)' % which)
    for o in c.exceptions(ends, 'accepts', con, 'the search ends') if ends else []:
        pass
