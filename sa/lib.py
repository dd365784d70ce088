"""Models of the builtins and third-party operations the analysed code uses."""
import ast
import builtins
import itertools
import re
from fractions import Fraction
from .dom import *
from .values import *
from .program import ext_object

OPT_ROOTS = ('slycot', 'sollya', 'matlab', 'fixif', 'matplotlib2tikz', 'sage')

ALIAS = {
    'numpy.mat': 'numpy.asmatrix', 'numpy.matlib.matrix': 'numpy.matrix', 'numpy.asmatrix': 'numpy.asmatrix',
    'numpy.identity': 'numpy.eye', 'numpy.core.umath.cos': 'numpy.cos', 'numpy.core.umath.sin': 'numpy.sin',
    'numpy.row_stack': 'numpy.vstack', 'numpy.linalg.linalg.inv': 'numpy.linalg.inv', 'numpy.abs': 'numpy.absolute',
    'numpy.product': 'numpy.prod', 'scipy.linalg.inv': 'numpy.linalg.inv', 'scipy.linalg.solve': 'numpy.linalg.solve',
    'scipy.linalg.norm': 'numpy.linalg.norm', 'numpy.asarray': 'numpy.asarray', 'numpy.conjugate': 'numpy.conj',
    'numpy.matmul': 'numpy.matmul', 'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'numpy.block': 'numpy.bmat',
}


def canon(name):
    if name.startswith('mpmath.mp.') and name.count('.') == 2:
        name = 'mpmath.' + name.split('.')[2]
    if name.startswith('numpy.random.mtrand.'):
        name = 'numpy.random.' + name.split('.')[-1]
    if name.startswith('numpy.core.') and name.split('.')[-1] and 'numpy.' + name.split('.')[-1] != name:
        if ext_object('numpy.' + name.split('.')[-1]):
            name = 'numpy.' + name.split('.')[-1]
    return ALIAS.get(name, name)


def fnum(name, *a, k='num'):
    return Num(Sc.atom(('fn', name) + a), k)


def dims(I, m):
    return I.N(m.rows), I.N(m.cols)


def shape_fail(I, e):
    d1, d2 = e.d1, e.d2
    I.raise_('ValueError', Const('shapes do not conform'), flag=('shape', d1, d2))


def conform(I, d1, d2):
    """make two dimensions equal: known, assumed on this path, or a shape error"""
    d = I.N(d1 - d2)
    if not d.t:
        return
    if d.is_const():
        I.raise_('ValueError', Const('shapes do not conform'), flag=('shape', d1, d2))
    from .interp import norm_sign
    if not I.decide(('eq0', norm_sign(d))):
        I.raise_('ValueError', Const('shapes do not conform'), flag=('shape', d1, d2))
    d = I.N(d1 - d2)
    if d.t:
        raise Incomparable('dimensions %r and %r' % (d1, d2))


def guard(I, r, c, fn, why):
    """run a matrix operation; an undecidable partition gives an unknown matrix"""
    try:
        return fn()
    except Incomparable:
        return matom(('top', r, c, I.fresh_top(why)))
    except ShapeError as e:
        shape_fail(I, e)


def amul(I, A, B2):
    conform(I, A.cols, B2.rows)
    A, B2 = I.N(A), I.N(B2)
    return guard(I, A.rows, B2.cols, lambda: mmul(A, B2, I.B), 'product')


def bshape(I, A, B2):
    """broadcast shapes"""
    out = []
    for x, y in zip(dims(I, A), dims(I, B2)):
        if x == y:
            out.append(x)
        elif x == ONE:
            out.append(y)
        elif y == ONE:
            out.append(x)
        else:
            conform(I, x, y)
            out.append(I.N(x))
    return [I.N(x) for x in out]


def aadd(I, A, B2, k=ONE, mp=False):
    if mp:
        conform(I, A.rows, B2.rows)
        conform(I, I.N(A).cols, I.N(B2).cols)
        r, c = dims(I, A)
    else:
        r, c = bshape(I, A, B2)
    A, B2 = I.broadcast(I.N(A), r, c), I.broadcast(I.N(B2), r, c)
    return guard(I, r, c, lambda: madd(A, B2, I.B, k), 'sum')


def ewise(I, f, *ms):
    """entry-wise function of matrices of the same shape"""
    r, c = dims(I, ms[0])
    B = I.B.copy()
    bi, bj = Sc.atom(('bi',)), Sc.atom(('bj',))
    B.low[('bi',)] = 0
    B.low[('bj',)] = 0
    B.extra += [r - 1 - bi, c - 1 - bj]
    # small explicit partitions keep their blocks
    if len(ms) == 1 and not ms[0].single() and not ms[0].coarsen().single():
        m = ms[0]
        rows = []
        for i, ri in enumerate(m.rp):
            rows.append(mhstack([ewise(I, f, Mat([ri], [cj], [[m.cells[i][j]]])) for j, cj in enumerate(m.cp)], I.B))
        return mvstack(rows, I.B)
    if len(ms) > 1 and r.is_const() and c.is_const() and 1 < r.cval() * c.cval() <= 12 and not all(m.coarsen().single() for m in ms):
        return mvstack([mhstack([mscalar(f(*[entry(m, sc(i), sc(j), I.B) for m in ms])) for j in range(int(c.cval()))], I.B)
                        for i in range(int(r.cval()))], I.B)
    es = [entry(m, bi, bj, B) for m in ms]
    return lift_lam(r, c, f(*es), I.B)


# ================================================================== scalars
def res_kind(a, b):
    ks = {a, b}
    if 'mpf' in ks:
        return 'mpf'
    if ks == {'int'}:
        return 'int'
    if 'float' in ks and 'num' not in ks:
        return 'float'
    return 'num'


def kind(I, v):
    if isinstance(v, Num):
        return v.k
    if isinstance(v, Const) and isinstance(v.v, bool):
        return 'int'
    if isinstance(v, Ref) and isinstance(I.obj(v), Arr):
        return 'mpf' if I.obj(v).kind == 'mp' else 'float'
    return 'num'


def num_op(I, op, x, y, kx, ky):
    k = res_kind(kx, ky)
    n = type(op).__name__
    x, y = I.N(x), I.N(y)
    if k == 'float' and I.rounding and n in ('Add', 'Sub', 'Mult'):
        # operations of doubles that are exact
        cs = [v for v in (x.cval(), y.cval()) if v is not None]
        if n == 'Mult' and any(v in (0, 1, -1) for v in cs) or n != 'Mult' and 0 in cs:
            return Num(x + y if n == 'Add' else x - y if n == 'Sub' else x * y, k)
    if n == 'Add':
        return Num(I.rnd(x + y, k), k)
    if n == 'Sub':
        return Num(I.rnd(x - y, k), k)
    if n == 'Mult':
        return Num(I.rnd(x * y, k), k)
    if n == 'Div':
        if k == 'int':
            k = 'float'
        if y.is_zero():
            I.raise_('ZeroDivisionError', flag='div0')
        q = x / y
        return Num(I.rnd(q, k), k)
    a, b = x.cval(), y.cval()
    if n == 'FloorDiv':
        if a is not None and b:
            return Num(a // b, k)
        return Num(Sc.atom(('fn', 'floordiv', x, y)), k)
    if n == 'Mod':
        if a is not None and b:
            return Num(a % b, k)
        return Num(Sc.atom(('fn', 'mod', x, y)), k)
    if n == 'Pow':
        if b is not None and b.denominator == 1 and abs(b) <= 12:
            r = x.ipow(int(b))
            if r is not None:
                return Num(I.rnd(r, k), 'float' if k == 'int' and b < 0 else k)
        if a is not None and b is not None and a >= 0 and b.denominator == 1 and abs(b) < 4096 and a.denominator == 1:
            return Num(Fraction(a) ** int(b), k)
        return Num(Sc.atom(('fn', 'pow', x, y)), k)
    if n in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift'):
        if a is not None and b is not None and a.denominator == b.denominator == 1:
            f = {'BitAnd': int.__and__, 'BitOr': int.__or__, 'BitXor': int.__xor__, 'LShift': int.__lshift__,
                 'RShift': int.__rshift__}[n]
            return Num(f(int(a), int(b)), k)
        return Num(Sc.atom(('fn', n, x, y)), k)
    return Num(Sc.atom(('fn', n, x, y)), k)


DUNDER = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'), 'Mult': ('__mul__', '__rmul__'),
          'Div': ('__truediv__', '__rtruediv__'), 'Pow': ('__pow__', '__rpow__'), 'Mod': ('__mod__', '__rmod__'),
          'MatMult': ('__matmul__', '__rmatmul__'), 'FloorDiv': ('__floordiv__', '__rfloordiv__')}


def is_inst(I, v):
    return isinstance(v, Ref) and isinstance(I.obj(v), InstO)


def is_arr(I, v):
    return isinstance(v, Ref) and isinstance(I.obj(v), Arr)


def is_list(I, v):
    return isinstance(v, Ref) and isinstance(I.obj(v), ListO)


def binop(I, op, a, b):
    n = type(op).__name__
    # string formatting
    if n == 'Mod' and (isinstance(a, StrV) or isinstance(a, Const) and isinstance(a.v, str)):
        return str_format(I, a, b)
    if is_inst(I, a) or is_inst(I, b):
        return inst_op(I, n, a, b)
    for x in (a, b):
        if isinstance(x, ExcV):
            I.raise_('TypeError', Const('unsupported operand of %s: exception' % n), flag='exc-operand')
        if isinstance(x, Const) and x.v is None:
            I.raise_('TypeError', Const('unsupported operand None'), flag='none')
    sa = isinstance(a, StrV) or isinstance(a, Const) and isinstance(a.v, str)
    sb = isinstance(b, StrV) or isinstance(b, Const) and isinstance(b.v, str)
    if n == 'Add' and (sa or sb):
        if sa and sb:
            return mkstr(I.str_parts(a) + I.str_parts(b))
        o = b if sa else a
        if isinstance(o, (Num, Tup, Const)) or isinstance(o, Ref):
            I.raise_('TypeError', Const('string + non-string'), flag='str')
        return mkstr(I.str_parts(a) + I.str_parts(b))
    if n == 'Mult' and (sa or sb):
        s, m = (a, b) if sa else (b, a)
        if isinstance(m, Num) and m.s.cval() is not None and isinstance(s, Const):
            return Const(s.v * int(m.s.cval()))
        return StrV([Opq('strrep', s, I.vkey(m))])
    if (sa or sb) and isinstance(b if sa else a, (Num, Tup, Const, StrV)):
        I.raise_('TypeError', Const('unsupported operands for %s: string' % n), flag='str')
    if n == 'Add' and isinstance(a, Tup) and isinstance(b, Tup):
        return Tup(a.items + b.items)
    if n == 'Add' and is_list(I, a) and is_list(I, b):
        return I.alloc(ListO(I.obj(a).segs + I.obj(b).segs))
    if n == 'Mult' and (is_list(I, a) or isinstance(a, Tup) or is_list(I, b)) and not is_arr(I, a) and not is_arr(I, b):
        l, m = (a, b) if not is_list(I, b) else (b, a)
        return list_repeat(I, l, m)
    if is_arr(I, a) or is_arr(I, b):
        return arr_op(I, op, a, b)
    if is_list(I, a) or is_list(I, b) or isinstance(a, Tup) or isinstance(b, Tup):
        o = b if (is_list(I, a) or isinstance(a, Tup)) else a
        if isinstance(o, (Num, Const)) or is_list(I, o) or isinstance(o, Tup):
            I.raise_('TypeError', Const('unsupported operands for %s' % n), flag='operand')
        return Opq('op', n, I.vkey(a), I.vkey(b))
    if isinstance(a, CondV) and isinstance(b, CondV) or n in ('BitAnd', 'BitOr') and (isinstance(a, (CondV, Const)) and isinstance(b, (CondV, Const))):
        ta = I.truth(a)
        if n == 'BitAnd':
            return b if ta else FALSE
        if n == 'BitOr':
            return TRUE if ta else b
    if isinstance(a, Opq) and a.k[0] == 'set' or isinstance(b, Opq) and b.k[0] == 'set':
        return Opq('op', n, I.vkey(a), I.vkey(b))
    x, y = I.num(a), I.num(b)
    if x is None or y is None:
        if isinstance(a, (ClassV, FuncV, ModV, BoundV)) or isinstance(b, (ClassV, FuncV, ModV, BoundV)):
            I.raise_('TypeError', Const('unsupported operands for %s' % n), flag='operand')
        if isinstance(a, Opq) and a.is_top() or isinstance(b, Opq) and b.is_top():
            return I.top('operation on unknown')
        return Opq('op', n, I.vkey(a), I.vkey(b))
    if n == 'MatMult':
        return Opq('op', n, I.vkey(a), I.vkey(b))
    if (isinstance(a, Opq) and a.is_top()) or (isinstance(b, Opq) and b.is_top()):
        return I.top('operation on unknown')
    return num_op(I, op, x, y, kind(I, a), kind(I, b))


def list_repeat(I, l, m):
    c = I.num(m)
    els = I.elements(l)
    if c is None or els is None:
        return I.alloc(ListO([('any', ('repeat', I.vkey(l), I.vkey(m)))]))
    c = I.N(c)
    if isinstance(l, Tup):
        if c.cval() is not None:
            return Tup(list(l.items) * int(c.cval()))
        return Opq('repeat', I.vkey(l), c)
    if c.cval() is not None:
        return I.alloc(ListO([('item', x) for x in els] * max(0, int(c.cval()))))
    if len(els) == 1:
        return I.alloc(ListO([('seg', fresh('r'), c, I.freeze(els[0]))]))
    return I.alloc(ListO([('any', ('repeat', I.vkey(l), c))]))


def inst_op(I, n, a, b):
    fwd, ref = DUNDER.get(n, (None, None))
    tried = False
    if is_inst(I, a) and fwd:
        m = I.prog.lookup_method(I.obj(a).cls, fwd)
        if m:
            tried = True
            r = I.call(BoundV(a, FuncV(m[1], m[2].mod, m[2])), [b], {})
            if not (isinstance(r, ExtV) and r.name == 'builtins.NotImplemented'):
                return r
        elif I.obj(a).ext or I.prog.ext_bases(I.obj(a).cls) not in ([], ['builtins.object']):
            return Opq('op', n, I.vkey(a), I.vkey(b))
    if is_inst(I, b) and ref:
        m = I.prog.lookup_method(I.obj(b).cls, ref)
        if m:
            r = I.call(BoundV(b, FuncV(m[1], m[2].mod, m[2])), [a], {})
            if not (isinstance(r, ExtV) and r.name == 'builtins.NotImplemented'):
                return r
    if isinstance(a, Opq) or isinstance(b, Opq):
        return Opq('op', n, I.vkey(a), I.vkey(b))
    I.raise_('TypeError', Const('unsupported operands for %s' % n), flag='operand')


def arr_op(I, op, a, b):
    n = type(op).__name__
    A, B2 = is_arr(I, a), is_arr(I, b)
    for x in (a, b):
        if isinstance(x, Opq) and x.is_top():
            return I.top('array operation on unknown')
    if A and B2:
        oa, ob = I.obj(a), I.obj(b)
        ma, mb = I.arr_mat(a), I.arr_mat(b)
        mp = oa.kind == 'mp' or ob.kind == 'mp'
        if mp and oa.kind != ob.kind:
            return I.top('mixed mpmath and numpy arrays')
        mt = 'matrix' in (oa.kind, ob.kind)
        kd = 'mp' if mp else ('matrix' if mt else 'array')
        nd = 1 if (oa.nd == ob.nd == 1) else 2
        if n in ('Add', 'Sub'):
            m = aadd(I, ma, mb, ONE if n == 'Add' else -ONE, mp)
            return I.alloc(Arr(kd, nd, I.rnd_mat(m, kd)))
        if n == 'MatMult' or n == 'Mult' and kd != 'array':
            if n == 'MatMult' and (oa.nd == 1 or ob.nd == 1):
                if oa.nd == 1 and ob.nd == 1:
                    m = amul(I, ma, mT(mb))
                    return Num(entry(m, 0, 0, I.B))
                m = amul(I, ma, mT(mb)) if ob.nd == 1 else amul(I, ma, mb)
                return I.alloc(Arr(kd, 1, mT(m) if ob.nd == 1 else m))
            m = amul(I, ma, mb)
            return I.alloc(Arr(kd, 2, I.rnd_mat(m, kd)))
        if n in ('Mult', 'Div', 'Pow'):
            r, c = bshape(I, ma, mb)
            ma, mb = I.broadcast(I.N(ma), r, c), I.broadcast(I.N(mb), r, c)
            if n == 'Mult':
                m = ewise(I, lambda x, y: x * y, ma, mb)
            elif n == 'Div':
                m = ewise(I, lambda x, y: (x / y) if y.t else Sc.atom(('fn', 'div', x, y)), ma, mb)
            else:
                m = ewise(I, lambda x, y: Sc.atom(('fn', 'pow', x, y)), ma, mb)
            return I.alloc(Arr(kd, nd, m))
        m = mfn('ew:' + n, ma.rows, ma.cols, ma, mb)
        return I.alloc(Arr(kd, nd, m))
    ref, other, left = (a, b, True) if A else (b, a, False)
    o = I.obj(ref)
    m = I.arr_mat(ref)
    om = None
    if not isinstance(other, Num) and not isinstance(other, Opq):
        om = I.as_mat(other)
    if om is not None:
        if o.kind == 'mp':
            I.raise_('TypeError', Const('mpmath matrix with list'), flag='operand')
        nref = I.alloc(Arr('array', 1 if om.rows == ONE else 2, om))
        return arr_op(I, op, ref, nref) if left else arr_op(I, op, nref, ref)
    s = I.num(other)
    if s is None:
        return I.top('array operation')
    if n == 'Mult':
        return I.alloc(Arr(o.kind, o.nd, I.rnd_mat(mscale(m, s), o.kind)))
    if n == 'Div' and left:
        q = I.N(s).inv()
        if q is None:
            if o.kind == 'mp':
                I.raise_('ZeroDivisionError', flag='div0')
            return I.top('division by zero')
        return I.alloc(Arr(o.kind, o.nd, I.rnd_mat(mscale(m, q), o.kind)))
    if n == 'Div':
        return I.alloc(Arr(o.kind, o.nd, ewise(I, lambda x: (s / x) if x.t else Sc.atom(('fn', 'div', s, x)), m)))
    if n in ('Add', 'Sub'):
        s1 = mscale(mones(m.rows, m.cols), s) if m.rows.t and m.cols.t else m
        if n == 'Add':
            r = guard(I, m.rows, m.cols, lambda: madd(m, s1, I.B), 'sum')
        elif left:
            r = guard(I, m.rows, m.cols, lambda: madd(m, s1, I.B, -ONE), 'sum')
        else:
            r = guard(I, m.rows, m.cols, lambda: madd(s1, m, I.B, -ONE), 'sum')
        return I.alloc(Arr(o.kind, o.nd, I.rnd_mat(r, o.kind)))
    if n == 'Pow' and left:
        c = s.cval()
        if o.kind in ('matrix', 'mp'):
            conform(I, m.rows, m.cols)
            m = I.N(m)
            if c is not None and c.denominator == 1 and 0 <= c <= 6:
                r = meye(m.rows)
                for _ in range(int(c)):
                    r = amul(I, r, m)
                return I.alloc(Arr(o.kind, 2, r))
            if c == -1:
                return I.alloc(Arr(o.kind, 2, minv(m)))
            return I.alloc(Arr(o.kind, 2, mfn('mpow', m.rows, m.cols, m, s)))
        return I.alloc(Arr(o.kind, o.nd, ewise(I, lambda x: x.ipow(int(c)) if c is not None and c.denominator == 1 and 0 <= c <= 6
                                               else Sc.atom(('fn', 'pow', x, s)), m)))
    if n == 'Pow':
        return I.alloc(Arr(o.kind, o.nd, ewise(I, lambda x: Sc.atom(('fn', 'pow', s, x)), m)))
    return I.alloc(Arr(o.kind, o.nd, mfn('ew:%s%d' % (n, left), m.rows, m.cols, m, s)))


def elementwise_cmp(I, op, a, b):
    if not (is_arr(I, a) or is_arr(I, b)):
        return None
    if is_inst(I, a) or is_inst(I, b):
        return None
    ka = I.obj(a).kind if is_arr(I, a) else None
    kb = I.obj(b).kind if is_arr(I, b) else None
    if isinstance(a, Const) and not isinstance(a.v, bool) or isinstance(b, Const) and not isinstance(b.v, bool):
        return FALSE if op == '==' else (TRUE if op == '!=' else None)
    if 'mp' in (ka, kb):
        if op not in ('==', '!='):
            I.raise_('TypeError', Const('ordering of matrices'), flag='operand')
        if ka != kb:
            return (FALSE if op == '==' else TRUE) if ka and kb else CondV(('eqv', I.vkey(a), I.vkey(b)), op == '!=')
        x, y = I.arr_mat(a), I.arr_mat(b)
        try:
            if mat_equal(x, y, I.B):
                return TRUE if op == '==' else FALSE
        except Incomparable:
            pass
        if rkey(x) > rkey(y):
            x, y = y, x
        return CondV(('mateq', x, y), op == '!=')
    ma = I.as_mat(a) if not isinstance(a, (Num, Opq)) else None
    mb = I.as_mat(b) if not isinstance(b, (Num, Opq)) else None
    o = I.obj(a) if ka else I.obj(b)
    if ma is None:
        s = I.num(a)
        if s is None:
            return I.top('comparison')
        ma = mscale(mones(mb.rows, mb.cols), s)
    elif mb is None:
        s = I.num(b)
        if s is None:
            return I.top('comparison')
        mb = mscale(mones(ma.rows, ma.cols), s)
    if ma.shape != mb.shape:
        r, c = bshape(I, ma, mb)
        ma, mb = I.broadcast(I.N(ma), r, c), I.broadcast(I.N(mb), r, c)
    kd = 'matrix' if 'matrix' in (ka, kb) else 'array'
    if op in ('<', '<=', '>', '>='):
        t = settled_order(I, op, ma, mb)
        if t is not None:
            return I.alloc(Arr(kd, o.nd, t))
    m = mfn('ew:' + op, ma.rows, ma.cols, ma, mb)
    return I.alloc(Arr(kd, o.nd, m))


def settled_order(I, op, x, y):
    """the entry-wise order of small matrices whose entries differ by constants"""
    r, c = x.rows.cval(), x.cols.cval()
    if r is None or c is None or not 1 < r * c <= 16:
        return None
    rows = []
    for i in range(int(r)):
        row = []
        for j in range(int(c)):
            d = I.N(entry(x, sc(i), sc(j), I.B) - entry(y, sc(i), sc(j), I.B)).cval()
            if d is None:
                return None
            row.append(ONE if (d < 0 if op == '<' else d <= 0 if op == '<=' else d > 0 if op == '>' else d >= 0) else ZERO)
        rows.append(row)
    return from_cells(I, rows)


def cells(I, m, B=None):
    """the coefficients of a small matrix given by its cells, or None"""
    r, c = m.rows.cval(), m.cols.cval()
    if r is None or c is None or not 0 < r * c <= 36 or m.single() and r * c > 1:
        return None
    return [[I.N(entry(m, sc(i), sc(j), I.B)) for j in range(int(c))] for i in range(int(r))]


def from_cells(I, rows):
    one = lambda s: mzero(ONE, ONE) if s == ZERO else mscalar(s)
    return mvstack([mhstack([one(s) for s in row], I.B) for row in rows], I.B)


def cells_differ(I, x, y):
    """True / False when the cells settle it, or None"""
    x, y = I.N(x), I.N(y)
    if x.shape != y.shape:
        return None
    a, b = cells(I, x), cells(I, y)
    if a is None and b is None:
        return None
    r, c = int(x.rows.cval()), int(x.cols.cval())
    same = True
    for i in range(r):
        for j in range(c):
            d = I.N((a[i][j] if a else entry(x, sc(i), sc(j), I.B)) - (b[i][j] if b else entry(y, sc(i), sc(j), I.B))).cval()
            if d is None:
                same = None
            elif d != 0:
                return True
    return None if same is None else False


def order_test(I, m, quant):
    """any / all of an entry-wise order between small matrices: the entries are compared one by one"""
    r, k = m.rows.cval(), m.cols.cval()
    sw = m.single_word() if m.single() else None
    if r is None or k is None or not 0 < r * k <= 4 or sw is None or sw[0] != ONE or len(sw[1]) != 1 or sw[1][0][0][0] != 'fn':
        return None
    a = sw[1][0][0]
    if a[3] not in ('ew:<', 'ew:<=', 'ew:>', 'ew:>='):
        return None
    for i in range(int(r)):
        for j in range(int(k)):
            x, y = (Num(I.N(entry(z, sc(i), sc(j), I.B))) for z in a[4:6])
            if a[3] in ('ew:>', 'ew:>='):
                x, y = y, x
            t = I.truth(I.lt(x, y)) if a[3] in ('ew:<', 'ew:>') else not I.truth(I.lt(y, x))
            if t != (quant == 'all'):
                return FALSE if quant == 'all' else TRUE
    return TRUE if quant == 'all' else FALSE


def bool_array_test(I, m, quant):
    """any / all of an entry-wise comparison as a decidable literal"""
    c = m.coarsen()
    t = order_test(I, c, quant)
    if t is not None:
        return t
    cs = cells(I, m)
    if cs is not None and all(x.cval() is not None for row in cs for x in row):
        return TRUE if (all if quant == 'all' else any)(x.cval() != 0 for row in cs for x in row) else FALSE
    if cs is not None and sum(x.cval() is None for row in cs for x in row) <= 4 and not any(a[0] == 'fn' for row in cs for x in row for a in walk_atoms(x)):
        # numbers: zero or not, one by one
        for x in [x for row in cs for x in row]:
            t = I.truth(I.neg(I.eq(Num(x, 'float'), Num(ZERO, 'int'))))
            if t == (quant == 'any'):
                return TRUE if t else FALSE
        return FALSE if quant == 'any' else TRUE
    if c.single():
        sw = c.single_word()
        if sw is not None and sw[0] == ONE and len(sw[1]) == 1 and sw[1][0][0][0] == 'fn':
            a = sw[1][0][0]
            if a[3] == 'ew:==' and quant == 'all':
                x, y = a[4], a[5]
                try:
                    if mat_equal(x, y, I.B):
                        return TRUE
                except Incomparable:
                    pass
                d = cells_differ(I, x, y)
                if d is not None:
                    return FALSE if d else TRUE
                if rkey(x) > rkey(y):
                    x, y = y, x
                return CondV(('mateq', x, y))
            if a[3] == 'ew:!=' and quant == 'any':
                x, y = a[4], a[5]
                try:
                    if mat_equal(x, y, I.B):
                        return FALSE
                except Incomparable:
                    pass
                d = cells_differ(I, x, y)
                if d is not None:
                    return TRUE if d else FALSE
                if rkey(x) > rkey(y):
                    x, y = y, x
                return CondV(('mateq', x, y), True)
    return CondV((quant, m))


# ================================================================== strings
FMT = re.compile(r'%(\((\w+)\))?([-+ #0]*)(\*|\d+)?(\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])')


def str_format(I, a, b):
    if not isinstance(a, Const):
        # unknown literal text: the values are kept
        return StrV([Opq('format', I.vkey(a), I.vkey(b))])
    s = a.v
    specs = [m for m in FMT.finditer(s)]
    n = sum(1 for m in specs if m.group(7) != '%') + sum(1 for m in specs for g in (4, 6) if m.group(g) == '*')
    named = any(m.group(2) for m in specs)
    if named:
        args = b
    else:
        if isinstance(b, Tup):
            vals = list(b.items)
        elif isinstance(b, Opq) and b.k[0] in ('top', 'call', 'item', 'getitem', 'attr', 'star') and n != 1:
            return StrV([Opq('format', a, I.vkey(b))])
        else:
            vals = [b]
        if len(vals) < n:
            I.raise_('TypeError', Const('not enough arguments for format string'), flag='format')
        if len(vals) > n and not (n == 0 and isinstance(b, Ref) and isinstance(I.obj(b), DictO)):
            I.raise_('TypeError', Const('not all arguments converted during string formatting'), flag='format')
    parts, pos, i = [], 0, 0
    for m in specs:
        parts.append(s[pos:m.start()])
        pos = m.end()
        if m.group(7) == '%':
            parts.append('%')
            continue
        if named:
            k = Const(m.group(2))
            if isinstance(b, Ref) and isinstance(I.obj(b), DictO):
                d = I.obj(b).items
                if k not in d:
                    if I.obj(b).open is None:
                        I.raise_('KeyError', k, flag='format')
                    v = Opq('getitem', str(I.obj(b).open), k)
                else:
                    v = d[k]
            else:
                v = Opq('getitem', I.vkey(b), k)
        else:
            stars = []
            for g in (4, 6):
                if m.group(g) == '*':
                    stars.append(vals[i])
                    i += 1
            v = vals[i]
            i += 1
        if m.group(7) in 'diouxXeEfFgGc':
            if isinstance(v, Const) and (v.v is None or isinstance(v.v, str)) or isinstance(v, (StrV, Tup)) or \
                    isinstance(v, Ref) and not (is_arr(I, v) and I.arr_mat(v).shape == (ONE, ONE)) and not is_inst(I, v):
                I.raise_('TypeError', Const('%%%s format: a number is required' % m.group(7)), flag='format')
        spec = '%' + (m.group(3) or '') + (m.group(4) or '') + (m.group(5) or '') + m.group(7)
        if not named and any(m.group(g) == '*' for g in (4, 6)):
            parts.append(Opq('fmt', spec, *([I.vkey(x) for x in stars] + [I.vkey(v)])))
        else:
            parts += I.str_parts(v, '%s' if spec == '%s' else spec)
    parts.append(s[pos:])
    return mkstr(parts)


def to_str(I, v):
    if is_inst(I, v):
        m = I.prog.lookup_method(I.obj(v).cls, '__str__') or I.prog.lookup_method(I.obj(v).cls, '__repr__')
        if m:
            return I.call(BoundV(v, FuncV(m[1], m[2].mod, m[2])), [], {})
    return mkstr(I.str_parts(v, '%s'))


def str_method(I, s, name, args, kw):
    c = s.v if isinstance(s, Const) else None
    cargs = [a.v if isinstance(a, Const) else (int(a.s.cval()) if isinstance(a, Num) and a.s.cval() is not None and a.s.cval().denominator == 1 else None)
             for a in args]
    if name == 'join' and len(args) == 1:
        x = args[0]
        if is_list(I, x) or isinstance(x, Tup):
            segs = I.obj(x).segs if is_list(I, x) else [('item', y) for y in x.items]
            parts = []
            for i, sg in enumerate(segs):
                if i:
                    parts += I.str_parts(s)
                if sg[0] == 'item':
                    if isinstance(sg[1], Num) or isinstance(sg[1], Const) and not isinstance(sg[1].v, str):
                        I.raise_('TypeError', Const('sequence item: expected str instance'), flag='str')
                    parts += I.str_parts(sg[1])
                elif sg[0] == 'seg':
                    parts.append(Opq('join', s, sg[2], subst(sg[3], {sg[1]: QI(sg[3])})))
                else:
                    parts.append(Opq('join', s, sg[1]))
            return mkstr(parts)
        return StrV([Opq('join', s, I.vkey(x))])
    if c is not None and all(a is not None for a in cargs) and not kw and name in (
            'replace', 'split', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'startswith', 'endswith', 'find', 'index',
            'count', 'isdigit', 'title', 'capitalize', 'isalpha', 'rfind', 'zfill', 'ljust', 'rjust', 'partition', 'isnumeric',
            'splitlines', 'rsplit', 'center', 'isspace', 'islower', 'isupper', 'expandtabs'):
        try:
            r = getattr(c, name)(*cargs)
        except ValueError:
            I.raise_('ValueError', Const('substring not found'))
        return const_val(I, r)
    if name == 'format' and c is not None:
        return fmt_method(I, c, args, kw)
    if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'islower', 'isupper', 'isnumeric'):
        if name == 'startswith' and isinstance(s, StrV) and isinstance(s.parts[0], str) and len(args) == 1 and isinstance(args[0], Const) \
                and isinstance(args[0].v, str) and len(s.parts[0]) >= len(args[0].v):
            return Const(s.parts[0].startswith(args[0].v))
        if name == 'endswith' and isinstance(s, StrV) and isinstance(s.parts[-1], str) and len(args) == 1 and isinstance(args[0], Const) \
                and isinstance(args[0].v, str) and len(s.parts[-1]) >= len(args[0].v):
            return Const(s.parts[-1].endswith(args[0].v))
        return CondV(('strm', name, s) + tuple(I.vkey(a) for a in args))
    if name in ('find', 'index', 'count', 'rfind'):
        return fnum('str.' + name, s, *[I.vkey(a) for a in args], k='int')
    if name in ('split', 'splitlines', 'partition', 'rsplit'):
        return Opq('strm', name, s, *[I.vkey(a) for a in args])
    if name in ('encode',):
        return Opq('strm', name, s)
    if not hasattr(str, name):
        I.raise_('AttributeError', Const('str.' + name), flag='attr')
    return StrV([Opq('strm', name, s, *[I.vkey(a) for a in args])])


def fmt_method(I, c, args, kw):
    import string
    parts, auto = [], 0
    try:
        fields = list(string.Formatter().parse(c))
    except ValueError:
        I.raise_('ValueError', Const('format'), flag='format')
    for text, field, spec, conv in fields:
        parts.append(text)
        if field is None:
            continue
        if '**' in kw or '*' in kw:
            parts.append(Opq('fmtfield', field))
            continue
        root = re.split(r'[.\[]', field)[0]
        if root == '':
            i, auto = auto, auto + 1
            if i >= len(args):
                I.raise_('IndexError', Const('format'), flag='format')
            v = args[i]
        elif root.isdigit():
            if int(root) >= len(args):
                I.raise_('IndexError', Const('format'), flag='format')
            v = args[int(root)]
        else:
            if root not in kw:
                I.raise_('KeyError', Const(root), flag='format')
            v = kw[root]
        if field != root or spec or conv:
            parts.append(Opq('fmt', field[len(root):] + ':' + (spec or '') + (conv or ''), I.vkey(v)))
        else:
            parts += I.str_parts(v, '%s')
    return mkstr(parts)


def const_val(I, r):
    if isinstance(r, bool) or r is None or isinstance(r, (str, bytes)):
        return Const(r)
    if isinstance(r, int):
        return Num(r, 'int')
    if isinstance(r, float):
        return Num(Sc.const(Fraction(r)), 'float') if r == r and abs(r) != float('inf') else Opq('const', repr(r))
    if isinstance(r, list):
        return I.alloc(ListO([('item', const_val(I, x)) for x in r]))
    if isinstance(r, tuple):
        return Tup([const_val(I, x) for x in r])
    return I.top('constant')


# ================================================================== contexts and library attributes
def with_enter(I, v):
    if isinstance(v, Opq) and v.k[0] == 'ctx':
        if v.k[1] == 'prec':
            old = I.st.glob.get('mp.prec')
            I.st.glob['mp.prec'] = v.k[2]

            def out():
                if old is None:
                    I.st.glob.pop('mp.prec', None)
                else:
                    I.st.glob['mp.prec'] = old
            return v, out
        return v, (lambda: None)
    if is_inst(I, v):
        m = I.prog.lookup_method(I.obj(v).cls, '__enter__')
        if m:
            r = I.call(BoundV(v, FuncV(m[1], m[2].mod, m[2])), [], {})
            e = I.prog.lookup_method(I.obj(v).cls, '__exit__')

            def out2():
                if e:
                    I.call(BoundV(v, FuncV(e[1], e[2].mod, e[2])), [NONE, NONE, NONE], {})
            return r, out2
    return None


PREC0 = Num(Sc.sym('prec0'), 'int')


def cur_prec(I):
    return I.st.glob.get('mp.prec', PREC0)


def ext_value(I, dotted):
    name = canon(dotted)
    if name in I.extvals:
        return I.extvals[name]
    if name in ('mpmath.prec', 'mpmath.mp.prec'):
        return cur_prec(I)
    if name in ('mpmath.dps', 'mpmath.mp.dps'):
        return fnum('dps', I.vkey(cur_prec(I)), k='int')
    root = dotted.split('.')[0]
    if root == 'builtins':
        if not hasattr(builtins, dotted.split('.')[1]):
            I.raise_('AttributeError', Const(dotted), flag='attr')
        return ExtV(dotted)
    o = ext_object(dotted)
    if o is None:
        if root not in OPT_ROOTS and ext_object(root) is not None:
            par = dotted.rsplit('.', 1)[0]
            if ext_object(par) is not None:
                I.raise_('AttributeError', Const('%s does not exist' % dotted), flag='ext-attr')
        return ExtV(name)
    v = o[0]
    if v is None:
        return NONE
    if isinstance(v, bool):
        return Const(v)
    if isinstance(v, (int, float)) and not callable(v):
        if isinstance(v, int):
            return Num(v, 'int')
        return Opq('const', dotted)
    if isinstance(v, str):
        return Opq('const', dotted)
    if name in ('mpmath.one', 'mpmath.zero'):
        return Num(1 if name.endswith('one') else 0, 'mpf')
    return ExtV(name)


def ext_setattr(I, b, name, v):
    full = canon(b) + '.' + name
    if full in ('mpmath.mp.prec',):
        I.st.glob['mp.prec'] = v
        I.st.effects.append(('ambient', 'mp.prec', None, v, I.where()))
    elif full in ('mpmath.mp.dps',):
        I.st.glob['mp.prec'] = Opq('fromdps', I.vkey(v))
        I.st.effects.append(('ambient', 'mp.prec', None, v, I.where()))
    else:
        I.st.glob['ext:' + full] = v
        I.st.effects.append(('ambient', full, None, v, I.where()))


ARR_METH = ('transpose', 'copy', 'tolist', 'trace', 'all', 'any', 'sum', 'max', 'min', 'flatten', 'reshape', 'dot', 'astype',
            'item', 'conj', 'conjugate', 'apply', 'ravel', 'getA', 'getA1', 'getT', 'prod', 'round', 'mean', 'nonzero', 'squeeze',
            'fill', 'diagonal', 'getH', 'transpose_conj', 'H', 'cumsum', 'argmax', 'argmin', 'repeat', 'dump', 'tobytes', 'tostring',
            'sort', 'std', 'var', 'clip', 'swapaxes', 'column', 'extend')
REAL_CLASS = {}


def real_class(kd):
    if not REAL_CLASS:
        import numpy
        import mpmath
        REAL_CLASS.update({'matrix': numpy.matrix, 'array': numpy.ndarray, 'mp': mpmath.matrix, 'int': int, 'float': float,
                           'mpf': mpmath.mpf, 'str': str, 'bool': bool, 'none': type(None), 'list': list, 'dict': dict,
                           'tuple': tuple, 'range': range})
    return REAL_CLASS.get(kd)


def obj_attr(I, b, o, name):
    if isinstance(o, Arr):
        r, c = I.N(o.mat.rows), I.N(o.mat.cols)
        if o.kind == 'mp':
            if name in ('rows', '_matrix__rows'):
                return Num(r, 'int')
            if name in ('cols', '_matrix__cols'):
                return Num(c, 'int')
            if name == 'T':
                return I.alloc(Arr('mp', 2, mT(I.arr_mat(b))))
            if name == 'H':
                return I.alloc(Arr('mp', 2, mT(I.arr_mat(b))))
            if name == 'ctx':
                return ExtV('mpmath.mp')
        else:
            if name == 'shape':
                return Tup([Num(c, 'int')]) if o.nd == 1 else Tup([Num(r, 'int'), Num(c, 'int')])
            if name == 'size':
                return Num(r * c, 'int')
            if name == 'ndim':
                return Num(o.nd, 'int')
            if name in ('T', 'H'):
                if o.nd == 1:
                    return b
                return I.alloc(Arr(o.kind, 2, mT(I.arr_mat(b)), (), b.a))
            if name == 'I' and o.kind == 'matrix':
                return I.alloc(Arr('matrix', 2, minv(I.arr_mat(b))))
            if name == 'A' and o.kind == 'matrix':
                return I.alloc(Arr('array', 2, I.arr_mat(b), (), b.a))
            if name == 'A1' and o.kind == 'matrix' or name == 'flat' and o.nd == 2:
                m = flat(I, I.arr_mat(b))
                return I.alloc(Arr('array', 1, m, (), b.a))
            if name in ('real',):
                return b
            if ('attr', name) in I.hooks:
                return I.hooks[('attr', name)](I, b)
            if name in ('dtype', 'flat', 'imag', 'itemsize', 'nbytes', 'base', 'data', 'strides', 'flags', 'ctypes'):
                return Opq('attr', I.vkey(b), name)
        if hasattr(real_class(o.kind), name):
            return MethV(b, name)
        I.raise_('AttributeError', Const('%s.%s' % (o.kind, name)), flag='attr')
    if isinstance(o, ListO):
        if hasattr(list, name):
            return MethV(b, name)
        I.raise_('AttributeError', Const('list.%s' % name), flag='attr')
    if isinstance(o, DictO):
        if hasattr(dict, name):
            return MethV(b, name)
        I.raise_('AttributeError', Const('dict.%s' % name), flag='attr')
    if isinstance(b, Const) and isinstance(b.v, str) or isinstance(b, StrV):
        if hasattr(str, name):
            return MethV(b, name)
        I.raise_('AttributeError', Const('str.%s' % name), flag='attr')
    if isinstance(b, Num):
        if name == 'real':
            return b
        if name == 'imag':
            return Num(0, b.k)
        if b.k == 'mpf':
            import mpmath
            if not hasattr(mpmath.mpf(1), name):
                I.raise_('AttributeError', Const('mpf.%s' % name), flag='attr')
            if name in ('man', 'exp', 'bc', 'man_exp', '_mpf_'):
                # sign, odd integer mantissa, exponent and mantissa size of the binary representation
                x = I.N(b.s)
                part = lambda f: Num(Sc.atom(('fn', 'mpf.' + f, x)), 'int')
                if name == '_mpf_':
                    return Tup([part('sign'), part('man'), part('exp'), part('bc')])
                if name == 'man_exp':       # the mantissa property is signed
                    return Tup([part('sman'), part('exp')])
                return part('sman' if name == 'man' else name)
        if b.k in ('int', 'float') and not hasattr(real_class(b.k)(), name):
            import numpy
            if not hasattr(numpy.float64(1), name):
                I.raise_('AttributeError', Const('%s.%s' % (b.k, name)), flag='attr')
        return MethV(b, name)
    if isinstance(b, Tup):
        if hasattr(tuple, name):
            return MethV(b, name)
        I.raise_('AttributeError', Const('tuple.%s' % name), flag='attr')
    if isinstance(b, Const) and isinstance(b.v, bool):
        return MethV(b, name)
    if isinstance(b, Opq) and b.is_top():
        return I.top('attribute of unknown')
    if isinstance(b, Opq) and b.k[0] == 'super':
        return ExtV('builtins.object.' + name)
    return Opq('attr', I.vkey(b), name)


def obj_setattr(I, b, o, name, v):
    if isinstance(o, Arr) and name == 'shape':
        I.mutate(b, o.with_(mat=matom(('top', o.mat.rows, o.mat.cols, I.fresh_top('reshape'))), writes=()), 'shape')
        return
    I.st.effects.append(('write', b.a, getattr(o, 'owner', None), 'attribute ' + name, I.where()))


def flat(I, m):
    """row-major flattening"""
    if m.rows == ONE:
        return m
    if m.cols == ONE:
        return mT(m)
    r = m.rows.cval()
    if r is not None and r <= 8:
        return guard(I, ONE, m.rows * m.cols, lambda: mhstack([submat(m, i, i + 1, 0, m.cols, I.B) for i in range(int(r))], I.B), 'flatten')
    return mfn('flat', ONE, m.rows * m.cols, m)


def concat_rc(I, name, ix):
    items = list(ix.items) if isinstance(ix, Tup) and not (ix.items and isinstance(ix.items[0], Const) and ix.items[0].v == '__slice__') else [ix]
    ms, kd, nd1 = [], 'array', True
    for x in items:
        if is_arr(I, x):
            o = I.obj(x)
            kd = 'matrix' if o.kind == 'matrix' else kd
            m = I.arr_mat(x)
            if o.nd == 1 and name == 'numpy.c_':
                m = mT(m)
            if o.nd != 1:
                nd1 = False
            ms.append(m)
        else:
            m = I.as_mat(x)
            if m is None:
                s = I.num(x)
                if s is None:
                    return I.top('concatenation')
                m = mscalar(s)
            elif name == 'numpy.c_' and m.rows == ONE:
                m = mT(m)
            ms.append(m)
    if name == 'numpy.c_' or nd1:
        return I.alloc(Arr(kd, 1 if (nd1 and name == 'numpy.r_') else 2, stack(I, ms, 1)))
    return I.alloc(Arr(kd, 2, stack(I, ms, 0)))


def stack(I, ms, axis):
    """axis 1: side by side"""
    out = ms[0]
    for m in ms[1:]:
        if axis == 1:
            conform(I, out.rows, m.rows)
        else:
            conform(I, out.cols, m.cols)
        out, m = I.N(out), I.N(m)
        o1 = out
        if axis == 1:
            out = guard(I, out.rows, out.cols + m.cols, lambda: mhstack([o1, m], I.B), 'stack')
        else:
            out = guard(I, out.rows + m.rows, out.cols, lambda: mvstack([o1, m], I.B), 'stack')
    return out


# ================================================================== methods
def call_method(I, recv, name, args, kw):
    if isinstance(recv, Ref):
        o = I.obj(recv)
        if isinstance(o, Arr):
            return arr_method(I, recv, o, name, args, kw)
        if isinstance(o, ListO):
            return list_method(I, recv, o, name, args, kw)
        if isinstance(o, DictO):
            return dict_method(I, recv, o, name, args, kw)
    if isinstance(recv, (StrV,)) or isinstance(recv, Const) and isinstance(recv.v, str):
        return str_method(I, recv, name, args, kw)
    if isinstance(recv, Tup):
        if name == 'index' and len(args) == 1:
            for i, x in enumerate(recv.items):
                if I.truth(I.eq(x, args[0])):
                    return Num(i, 'int')
            I.raise_('ValueError')
        if name == 'count':
            return Num(sum(1 for x in recv.items if I.truth(I.eq(x, args[0]))), 'int')
    if isinstance(recv, Num):
        if name in ('is_integer',):
            return CondV(('isint', recv.s))
        if name in ('conjugate', 'conj'):
            return recv
        if name == 'hex' and recv.k == 'int':
            I.raise_('AttributeError', Const('int has no hex'), flag='attr')
        if name == 'item':
            return recv
        return Opq('numm', name, recv, *[I.vkey(a) for a in args])
    if isinstance(recv, Opq) and recv.is_top():
        return I.top('method of unknown')
    return Opq('meth', I.vkey(recv), name, *[I.vkey(a) for a in args])


def axis_of(args, kw, pos=0):
    v = kw.get('axis', args[pos] if len(args) > pos else NONE)
    if isinstance(v, Num) and v.s.cval() is not None:
        return int(v.s.cval())
    return None


def arr_method(I, b, o, name, args, kw):
    m = I.arr_mat(b)
    if name in ('transpose', 'getT') and not args:
        if o.kind == 'mp':
            return I.alloc(Arr('mp', 2, mT(m)))
        return b if o.nd == 1 else I.alloc(Arr(o.kind, 2, mT(m), (), b.a))
    if name in ('copy', '__copy__', '__deepcopy__'):
        return I.alloc(Arr(o.kind, o.nd, m))
    if name == 'astype':
        return I.alloc(Arr(o.kind, o.nd, m))
    if name in ('conj', 'conjugate', 'getH', 'transpose_conj'):
        return I.alloc(Arr(o.kind, o.nd, mT(m) if name in ('getH', 'transpose_conj') else m))
    if name == 'getA':
        return I.alloc(Arr('array', 2, m, (), b.a))
    if name in ('flatten', 'ravel', 'getA1'):
        fl = flat(I, m)
        if o.kind == 'matrix' and name != 'getA1':
            return I.alloc(Arr('matrix', 2, fl))
        return I.alloc(Arr('array', 1, fl))
    if name in ('all', 'any') and not args and not kw:
        return bool_array_test(I, m, name)
    if name == 'item' and not args:
        if m.rows == ONE and m.cols == ONE:
            return Num(entry(m, 0, 0, I.B), 'float')
        return Opq('item', m)
    if name == 'tolist':
        return tolist(I, o, m)
    if name == 'trace':
        if o.kind == 'matrix':
            return I.alloc(Arr('matrix', 2, mscalar(trace(I, m))))
        return Num(trace(I, m), 'float')
    if name in ('sum', 'max', 'min', 'prod', 'mean') and axis_of(args, kw) is None:
        if name == 'sum':
            return Num(total(I, m), 'float')
        return fnum('arr.' + name, m, k='float')
    if name in ('sum', 'max', 'min', 'prod', 'mean'):
        ax = axis_of(args, kw)
        if name == 'sum':
            if ax == 0:
                r = amul(I, mones(1, m.rows), m)
            else:
                r = amul(I, m, mones(m.cols, 1))
        else:
            r = mfn('arr.%s' % name, ONE if ax == 0 else m.rows, m.cols if ax == 0 else ONE, m)
        if o.kind == 'array':
            return I.alloc(Arr('array', 1, r if ax == 0 else mT(r)))
        return I.alloc(Arr(o.kind, 2, r))
    if name == 'dot' and len(args) == 1:
        mm = I.as_mat(args[0])
        if mm is not None:
            return I.alloc(Arr(o.kind, 2, amul(I, m, mm)))
    if name == 'apply' and len(args) == 1:
        return vmap(I, args[0], b)
    if name == 'reshape':
        sh = args[0].items if len(args) == 1 and isinstance(args[0], Tup) else args
        d = [I.num(x) for x in sh]
        order = kw.get('order')
        if order is not None and not (isinstance(order, Const) and order.v in ('C', 'F')):
            return I.top('reshape')
        if len(d) == 2 and all(x is not None for x in d):
            d = [I.N(x) for x in d]
            k = [x.cval() for x in d + [I.N(m.rows), I.N(m.cols)]]
            if all(x is not None for x in k) and k[2] * k[3] <= 64:
                k = [Fraction(x) for x in k]
                n = k[2] * k[3]
                if k[0] == -1 and k[1] > 0:
                    k[0] = n / k[1]
                elif k[1] == -1 and k[0] > 0:
                    k[1] = n / k[0]
                if k[0] < 0 or k[1] < 0 or k[0] * k[1] != n or k[0].denominator != 1 or k[1].denominator != 1:
                    I.raise_('ValueError', Const('cannot reshape the array'))
                R, C, r, c = [int(x) for x in k]
                F = order is not None and order.v == 'F'

                def el(i, j):
                    t = j * R + i if F else i * C + j
                    return entry(m, sc(t % r), sc(t // r), I.B) if F else entry(m, sc(t // c), sc(t % c), I.B)
                if n and not (R == r and C == c):
                    return I.alloc(Arr(o.kind, 2, mvstack([mhstack([mscalar(el(i, j)) for j in range(C)], I.B) for i in range(R)], I.B)))
            elif order is not None:
                return I.top('reshape')
            if d[0].cval() == -1 or d[1].cval() == -1:
                tot = m.rows * m.cols
                if d[0].cval() == -1 and d[1] == ONE:
                    return I.alloc(Arr(o.kind, 2, mT(flat(I, m))))
                if d[1].cval() == -1 and d[0] == ONE:
                    return I.alloc(Arr(o.kind, 2, flat(I, m)))
                return I.top('reshape')
            if d[0] == m.rows and d[1] == m.cols:
                return I.alloc(Arr(o.kind, 2, m, (), b.a))
            if d[0] == ONE and d[1] == m.rows * m.cols:
                return I.alloc(Arr(o.kind, 2, flat(I, m)))
            if d[1] == ONE and d[0] == m.rows * m.cols:
                return I.alloc(Arr(o.kind, 2, mT(flat(I, m))))
            return I.alloc(Arr(o.kind, 2, mfn('reshape', d[0], d[1], m)))
        return I.top('reshape')
    if name == 'fill':
        s = I.num(args[0])
        I.mutate(b, o.with_(mat=mscale(mones(m.rows, m.cols), s), writes=()), 'fill')
        return NONE
    if name == 'round':
        return I.alloc(Arr(o.kind, o.nd, mfn('ew:round', m.rows, m.cols, m, *[I.vkey(a) for a in args])))
    if name in ('squeeze', 'diagonal', 'repeat', 'cumsum', 'nonzero', 'clip'):
        return Opq('arrm', name, m, *[I.vkey(a) for a in args])
    if name == 'sort':
        I.mutate(b, o.with_(mat=mfn('sorted', m.rows, m.cols, m), writes=()), 'sort')
        return NONE
    return Opq('arrm', name, m, *[I.vkey(a) for a in args])


def tolist(I, o, m):
    def row(i):
        c = m.cols.cval()
        kd = 'mpf' if o.kind == 'mp' else 'float'
        if c is not None and c <= 16:
            return I.alloc(ListO([('item', Num(entry(m, i, j, I.B), kd)) for j in range(int(c))]))
        k = fresh('t')
        B = I.B.copy()
        B.low[k] = 0
        B.extra.append(m.cols - 1 - Sc.atom(k))
        return I.alloc(ListO([('seg', k, m.cols, Num(entry(m, i, Sc.atom(k), B), kd))]))
    if o.nd == 1:
        return row(ZERO)
    r = m.rows.cval()
    if r is not None and r <= 16:
        return I.alloc(ListO([('item', row(sc(i))) for i in range(int(r))]))
    i, k = fresh('t'), fresh('t')
    B = I.B.copy()
    for x, n in ((i, m.rows), (k, m.cols)):
        B.low[x] = 0
        B.extra.append(n - 1 - Sc.atom(x))
    return I.alloc(ListO([('seg', i, m.rows, SeqV(m.cols, k, Num(entry(m, Sc.atom(i), Sc.atom(k), B), 'float')))]))


def trace(I, m):
    conform(I, m.rows, m.cols)
    m = I.N(m)
    c = m.rows.cval()
    if c is not None and c <= 8:
        return sum((entry(m, i, i, I.B) for i in range(int(c))), ZERO)
    k = fresh('s')
    B = I.B.copy()
    B.low[k] = 0
    B.extra.append(m.rows - 1 - Sc.atom(k))
    return mk_sum(k, m.rows, entry(m, Sc.atom(k), Sc.atom(k), B))


def total(I, m):
    i, j = fresh('s'), fresh('s')
    B = I.B.copy()
    for x, n in ((i, m.rows), (j, m.cols)):
        B.low[x] = 0
        B.extra.append(n - 1 - Sc.atom(x))
    return mk_sum(i, m.rows, mk_sum(j, m.cols, entry(m, Sc.atom(i), Sc.atom(j), B)))


def list_method(I, b, o, name, args, kw):
    if name == 'append':
        I.list_append(b, args[0])
        return NONE
    if name == 'extend':
        I.list_extend(b, args[0])
        return NONE
    if name == 'copy':
        return I.alloc(ListO(o.segs))
    if name == 'insert':
        i = I.num(args[0])
        c = I.N(i).cval() if i is not None else None
        if c == 0:
            I.mutate(b, ListO((('item', args[1]),) + o.segs, o.owner), 'insert')
        elif c is not None and o.concrete():
            it = o.items()
            it.insert(int(c), args[1])
            I.mutate(b, ListO([('item', x) for x in it], o.owner), 'insert')
        else:
            I.mutate(b, ListO([('any', ('insert', I.vkey(b), I.vkey(args[0]), I.vkey(args[1])))], o.owner), 'insert')
        return NONE
    if name == 'pop':
        c = -1
        if args:
            n = I.num(args[0])
            c = I.N(n).cval() if n is not None else None
        if c is not None and o.concrete():
            it = o.items()
            if not -len(it) <= c < len(it):
                I.raise_('IndexError', flag='range')
            v = it.pop(int(c))
            I.mutate(b, ListO([('item', x) for x in it], o.owner), 'pop')
            return v
        if c == -1 and o.segs and o.segs[-1][0] == 'item':
            I.mutate(b, ListO(o.segs[:-1], o.owner), 'pop')
            return o.segs[-1][1]
        if c == 0 and o.segs and o.segs[0][0] == 'item':
            I.mutate(b, ListO(o.segs[1:], o.owner), 'pop')
            return o.segs[0][1]
        v = Opq('getitem', I.vkey(b), I.vkey(args[0]) if args else Num(-1, 'int'))
        I.mutate(b, ListO([('any', ('pop', I.vkey(b)) + tuple(I.vkey(a) for a in args))], o.owner), 'pop')
        return v
    if name == 'reverse':
        I.mutate(b, ListO(rev_segs(o.segs), o.owner), 'reverse')
        return NONE
    if name == 'sort':
        if o.concrete() and all(isinstance(x, Const) for x in o.items()) and not kw:
            I.mutate(b, ListO([('item', Const(x)) for x in sorted(y.v for y in o.items())], o.owner), 'sort')
        else:
            srt = sort_els(I, o.items(), kw) if o.concrete() else None
            if srt is not None:
                I.mutate(b, ListO([('item', x) for x in srt], o.owner), 'sort')
            else:
                I.mutate(b, ListO([('any', ('sorted', I.vkey(b)) + tuple((k, I.vkey(v)) for k, v in sorted(kw.items())))], o.owner), 'sort')
        return NONE
    if name == 'remove':
        if o.concrete():
            it = o.items()
            for i, x in enumerate(it):
                if I.truth(I.eq(x, args[0])):
                    del it[i]
                    I.mutate(b, ListO([('item', y) for y in it], o.owner), 'remove')
                    return NONE
            I.raise_('ValueError', Const('not in list'), flag='remove')
        I.mutate(b, ListO([('any', ('remove', I.vkey(b), I.vkey(args[0])))], o.owner), 'remove')
        return NONE
    if name == 'index':
        if o.concrete():
            for i, x in enumerate(o.items()):
                if I.truth(I.eq(x, args[0])):
                    return Num(i, 'int')
            I.raise_('ValueError', Const('not in list'), flag='index')
        return fnum('list.index', I.vkey(b), I.vkey(args[0]), k='int')
    if name == 'count':
        if o.concrete():
            return Num(sum(1 for x in o.items() if I.truth(I.eq(x, args[0]))), 'int')
        return fnum('list.count', I.vkey(b), I.vkey(args[0]), k='int')
    if name == 'clear':
        I.mutate(b, ListO([], o.owner), 'clear')
        return NONE
    return Opq('listm', name, I.vkey(b))


def rev_segs(segs):
    out = []
    for s in reversed(segs):
        if s[0] == 'seg':
            out.append(('seg', s[1], s[2], subst(s[3], {s[1]: s[2] - 1 - Sc.atom(s[1])})))
        elif s[0] == 'any':
            out.append(('any', ('reversed', s[1])))
        else:
            out.append(s)
    return out


def dict_method(I, b, o, name, args, kw):
    if name in ('keys', 'values', 'items'):
        if o.open is None:
            els = list(o.items) if name == 'keys' else list(o.items.values()) if name == 'values' else [Tup([k, v]) for k, v in o.items.items()]
            r = I.alloc(ListO([('item', x) for x in els]))
            if isinstance(b, Ref):
                I.views[r.a] = (b.a, name)
            return r
        segs = []
        for k, v in o.items.items():
            segs.append(('item', k if name == 'keys' else v if name == 'values' else Tup([k, v])))
        return I.alloc(ListO(segs + [('any', ('dict' + name, str(o.open)))]))
    if name == 'get':
        k = I.hkey(args[0])
        if k in o.items:
            return o.items[k]
        d = args[1] if len(args) > 1 else NONE
        if o.open is None and isinstance(args[0], Const):
            return d
        return Opq('dictget', I.vkey(b), k, I.vkey(d))
    if name == 'pop':
        k = I.hkey(args[0])
        if k in o.items:
            d = dict(o.items)
            v = d.pop(k)
            I.mutate(b, DictO(d, o.owner, o.open), 'pop')
            return v
        if o.open is None and isinstance(args[0], Const):
            if len(args) > 1:
                return args[1]
            I.raise_('KeyError', args[0], flag='key')
        return Opq('dictget', I.vkey(b), k)
    if name == 'update':
        d, op = dict(o.items), o.open
        for x in args:
            if isinstance(x, Ref) and isinstance(I.obj(x), DictO):
                d.update(I.obj(x).items)
                op = op or I.obj(x).open
            else:
                op = str(I.fresh_top('dict update'))
        for k, v in kw.items():
            d[Const(k)] = v
        I.mutate(b, DictO(d, o.owner, op), 'update')
        return NONE
    if name == 'setdefault':
        k = I.hkey(args[0])
        if k in o.items:
            return o.items[k]
        v = args[1] if len(args) > 1 else NONE
        d = dict(o.items)
        d[k] = v
        I.mutate(b, DictO(d, o.owner, o.open), 'setdefault')
        return v
    if name == 'copy':
        return I.alloc(DictO(o.items, None, o.open))
    if name == 'clear':
        I.mutate(b, DictO({}, o.owner), 'clear')
        return NONE
    return Opq('dictm', name, I.vkey(b), *[I.vkey(a) for a in args])


# ================================================================== external functions
EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def call_ext(I, name, args, kw):
    name = canon(name)
    h = I.hooks.get(('ext', name))
    if h is not None:
        r = h(I, args, kw)
        if r is not None:
            return r
    nm = name.split('.')
    if nm[0] == 'builtins' and len(nm) == 2:
        t = getattr(builtins, nm[1], None)
        if isinstance(t, type) and issubclass(t, BaseException):
            return ExcV(nm[1], args, None, I.where())
    if name.endswith('LinAlgError'):
        return ExcV('LinAlgError', args)
    f = EXT.get(name)
    if f is not None:
        return f(I, args, kw)
    for x in args:
        if isinstance(x, Opq) and x.is_top():
            return I.top('call of %s on unknown' % name)
    if nm[0] in ('mpmath', 'numpy', 'math') and name in SCALAR_FN or (nm[0] in ('mpmath', 'numpy', 'math') and nm[-1] in SCALAR_FNS):
        return scalar_fn(I, name, args, kw)
    if nm[0] == 'numpy' and nm[1] == 'random':
        I.st.effects.append(('random', name, None, '', I.where()))
        if nm[-1] == 'seed':
            I.st.glob['np.random'] = Opq('seeded', *[I.vkey(a) for a in args])
            return NONE
        I.st.glob['np.random'] = Opq('drawn', I.vkey(I.st.glob.get('np.random', NONE)), name)
        return Opq('rand', name, str(len(I.st.effects)), *[I.vkey(a) for a in args])
    return Opq('call', ExtV(name), *([I.vkey(a) for a in args] + [(k, I.vkey(v) if isinstance(v, V) else v) for k, v in sorted(kw.items())]))


SCALAR_FN = ()
SCALAR_FNS = ('log', 'log2', 'log10', 'exp', 'sin', 'cos', 'tan', 'floor', 'ceil', 'nint', 'sqrt', 'fabs', 'absolute', 'sign',
              'power', 'isnan', 'isinf', 'isfinite', 'trunc', 'rint', 'abs', 'conj', 'real', 'imag', 'angle', 'arctan', 'cosh', 'sinh',
              'tanh', 'atan', 'ldexp', 'frexp', 'round', 'isint', 'almosteq', 'log1p', 'square', 'isclose')
KEEP = ('conj', 'real')


def scalar_fn(I, name, args, kw):
    f = name.split('.')[-1]
    root = name.split('.')[0]
    if f == 'fabs' or f == 'absolute':
        f = 'abs'
    a = args[0] if args else kw.get('x')
    if a is None:
        return I.top('call without argument')
    if f in KEEP:
        return a
    if f == 'square' and is_arr(I, a):
        return I.alloc(Arr(I.obj(a).kind, I.obj(a).nd, ewise(I, lambda x: x * x, I.arr_mat(a))))
    extra = tuple(I.vkey(x) for x in args[1:]) + tuple((k, I.vkey(v)) for k, v in sorted(kw.items()) if isinstance(v, V))
    if is_arr(I, a) and not (root in ('math',)):
        o = I.obj(a)
        m = I.arr_mat(a)
        if root == 'mpmath':
            if f in ('floor', 'ceil', 'nint', 'sqrt', 'log', 'abs'):
                I.raise_('TypeError', Const('mpmath function of a matrix'), flag='operand')
            return Opq('call', ExtV(name), I.vkey(a), *extra)
        if f == 'power' and len(args) == 2 and I.num(args[1]) is not None:
            s = I.num(args[1])
            return I.alloc(Arr(o.kind, o.nd, ewise(I, lambda x: Sc.atom(('fn', 'pow', x, s)), m)))
        if f in ('isnan', 'isinf', 'isfinite', 'isclose'):
            return I.alloc(Arr(o.kind, o.nd, mfn('ew:' + f, m.rows, m.cols, m, *extra)))
        return I.alloc(Arr(o.kind, o.nd, ewise(I, lambda x: fold_fn(f, x, extra), m)))
    if (is_list(I, a) or isinstance(a, Tup)) and root == 'numpy':
        m = I.as_mat(a)
        if m is not None:
            return scalar_fn(I, name, [I.alloc(Arr('array', 1 if m.rows == ONE else 2, m))] + args[1:], kw)
    if f in ('isnan', 'isinf', 'isfinite', 'isint', 'almosteq', 'isclose'):
        s = I.num(a)
        if s is not None and f in ('isnan', 'isinf') and not I.nonfinite:      # values are finite numbers throughout
            return FALSE
        return CondV((f, I.vkey(a)) + extra)
    if f == 'power' and len(args) == 2:
        x, y = I.num(a), I.num(args[1])
        if is_arr(I, args[1]):
            o = I.obj(args[1])
            return I.alloc(Arr(o.kind, o.nd, ewise(I, lambda q: Sc.atom(('fn', 'pow', x, q)), I.arr_mat(args[1]))))
        if x is not None and y is not None:
            return num_op(I, ast.Pow(), x, y, 'mpf' if root == 'mpmath' else kind(I, a), kind(I, args[1]))
    s = I.num(a)
    if s is None:
        return Opq('call', ExtV(name), I.vkey(a), *extra)
    s = I.N(s)
    if root == 'math' and f in ('log', 'log2', 'log10', 'log1p', 'sqrt'):
        from .interp import norm_sign, PyRaise
        y = s + 1 if f == 'log1p' else s
        ab = abs_value(y)       # a datum or its magnitude; computed quantities have the sign their definition gives them
        z = ab[0] if ab else y
        datum = len(z.t) <= 1 and all(e == 1 and a[0] != 'fn' for mono in z.t for a, e in mono)
        if f != 'sqrt' and datum and I.decide(('eq0', norm_sign(z))):
            I.raise_('ValueError', Const('math domain error'), flag='domain')
        if not ab and datum and I.decide(('lt0', y)):
            I.raise_('ValueError', Const('math domain error'), flag='domain')
        if f == 'log' and len(args) == 2 and I.num(args[1]) is not None:
            b = I.N(I.num(args[1])).cval()
            if b is not None and b <= 0:
                I.raise_('ValueError', Const('math domain error'), flag='domain')
            if b == 1:
                I.raise_('ZeroDivisionError', Const('float division by zero'), flag='domain')
    k = 'mpf' if root == 'mpmath' else 'float'
    if root == 'math' and f in ('floor', 'ceil', 'trunc'):
        k = 'int'
    return Num(I.rnd(fold_fn(f, s, extra), k) if f not in ('floor', 'ceil', 'nint', 'abs', 'sign') else fold_fn(f, s, extra), k)


def abs_value(s):
    """(x,) when s is a positive multiple of abs(x)"""
    if len(s.t) != 1:
        return None
    (k, v), = s.t.items()
    if v > 0 and len(k) == 1 and k[0][1] == 1 and k[0][0][0] == 'fn' and k[0][0][1] == 'abs' and isinstance(k[0][0][2], Sc):
        return (k[0][0][2],)
    return None


def fold_fn(f, s, extra=()):
    c = s.cval()
    import math
    if c is not None:
        if f == 'abs':
            return sc(abs(c))
        if f in ('floor',):
            return sc(math.floor(c))
        if f == 'ceil':
            return sc(math.ceil(c))
        if f == 'sign':
            return sc((c > 0) - (c < 0))
        if f == 'sqrt' and c >= 0:
            r = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if r[0] ** 2 == c.numerator and r[1] ** 2 == c.denominator:
                return sc(Fraction(*r))
    if f == 'abs':
        from .interp import norm_sign
        s = norm_sign(s)
    if f == 'ceil':
        # ceil(x) = -floor(-x), integers pulled out
        return -fold_fn('floor', -s)
    if f == 'floor':
        k = s.t.get((), Fraction(0))
        n = k.numerator // k.denominator
        if n:
            return fold_fn('floor', s - n) + n
    if f == 'log2' and not extra:
        return Sc.atom(('fn', 'log', s, ('base', 2)))
    if f == 'log10' and not extra:
        return Sc.atom(('fn', 'log', s, ('base', 10)))
    if f == 'log' and len(extra) == 1 and isinstance(extra[0], Num) and extra[0].s.cval() in (2, 10):
        return Sc.atom(('fn', 'log', s, ('base', int(extra[0].s.cval()))))
    return Sc.atom(('fn', f, s) + extra)


# ------------------------------------------------------------------ builtins
@ext('builtins.len')
def _len(I, args, kw):
    v = args[0]
    if is_inst(I, v):
        m = I.prog.lookup_method(I.obj(v).cls, '__len__')
        if m:
            return I.call(BoundV(v, FuncV(m[1], m[2].mod, m[2])), [], {})
        I.raise_('TypeError', Const('object has no len'), flag='operand')
    n = I.length(v)
    if n is None:
        if isinstance(v, Num) or isinstance(v, Const) and not isinstance(v.v, str):
            I.raise_('TypeError', Const('object has no len'), flag='operand')
        if isinstance(v, Opq) and v.is_top():
            return I.top('len')
        return fnum('len', I.vkey(v), k='int')
    return Num(n, 'int')


@ext('builtins.range')
def _range(I, args, kw):
    ns = []
    for a in args:
        s = I.num(a)
        if s is None or isinstance(a, Const) and a.v is None:
            if isinstance(a, (Const, Tup)) or is_list(I, a):
                I.raise_('TypeError', Const('range() of a non-integer'), flag='range-arg')
            return I.top('range')
        if isinstance(a, Num) and a.k in ('float', 'mpf'):
            I.raise_('TypeError', Const("'float' object cannot be interpreted as an integer"), flag='range-arg')
        ns.append(I.N(s))
    if len(ns) == 1:
        return RangeV(ZERO, ns[0], ONE)
    if len(ns) == 2:
        return RangeV(ns[0], ns[1], ONE)
    if ns[2].cval() is None:
        return I.top('range step')
    return RangeV(*ns)


@ext('builtins.enumerate')
def _enumerate(I, args, kw):
    st = I.num(args[1]) if len(args) > 1 else I.num(kw['start']) if 'start' in kw else ZERO
    els = I.elements(args[0])
    if els is not None:
        return I.alloc(ListO([('item', Tup([Num(st + i, 'int'), x])) for i, x in enumerate(els)]))
    sq = I.as_seq(args[0])
    if sq is None:
        if is_list(I, args[0]):
            pos, segs = st, []
            for s in I.obj(args[0]).segs:
                if s[0] == 'item':
                    segs.append(('item', Tup([Num(pos, 'int'), s[1]])))
                    pos = pos + 1
                elif s[0] == 'seg':
                    segs.append(('seg', s[1], s[2], Tup([Num(pos + Sc.atom(s[1]), 'int'), s[3]])))
                    pos = pos + s[2]
                else:
                    return Opq('enumerate', I.vkey(args[0]))
            return I.alloc(ListO(segs))
        if isinstance(args[0], Opq) and args[0].is_top():
            return I.top('enumerate')
        return Opq('enumerate', I.vkey(args[0]))
    k = fresh('e')
    with_idx(I, k, sq[0])
    return SeqV(sq[0], k, Tup([Num(st + Sc.atom(k), 'int'), I.freeze(sq[1](Sc.atom(k)))]))


def with_idx(I, k, N):
    I.st.B.low[k] = 0
    I.st.B.extra.append(N - 1 - Sc.atom(k))


@ext('builtins.zip')
def _zip(I, args, kw):
    els = [I.elements(a) for a in args]
    if all(e is not None for e in els):
        return I.alloc(ListO([('item', Tup(t)) for t in zip(*els)]))
    sqs = []
    for a, e in zip(args, els):
        q = I.as_seq(a)
        if q is None:
            return Opq('zip', *[I.vkey(x) for x in args])
        sqs.append(q)
    N = sqs[0][0]
    for n, _ in sqs[1:]:
        if n != N:
            if I.B.nonneg(N - n):
                N = n
            elif not I.B.nonneg(n - N):
                return Opq('zip', *[I.vkey(x) for x in args])
    k = fresh('z')
    with_idx(I, k, N)
    return SeqV(N, k, Tup([I.freeze(f(Sc.atom(k))) for _, f in sqs]))


def type_names(I, v):
    """('py', real class) | ('cls', Class) | None when unknown"""
    if isinstance(v, Num):
        return ('py', real_class(v.k)) if v.k in ('int', 'float', 'mpf') else None
    if isinstance(v, Const):
        return ('py', type(v.v))
    if isinstance(v, StrV):
        return ('py', str)
    if isinstance(v, Tup):
        return ('py', tuple)
    if isinstance(v, RangeV):
        return ('py', range)
    if isinstance(v, CondV):
        return ('py', bool)
    if isinstance(v, FrozenArr):
        return ('py', real_class(v.kind))
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, Arr):
            return ('py', real_class(o.kind))
        if isinstance(o, ListO):
            return ('py', list)
        if isinstance(o, DictO):
            return ('py', dict)
        if isinstance(o, InstO):
            return ('cls', o.cls)
    if isinstance(v, (FuncV, BoundV)):
        return ('py', type(type_names))
    if isinstance(v, ExcV):
        return ('py', getattr(builtins, v.name, Exception))
    return None


@ext('builtins.isinstance')
def _isinstance(I, args, kw):
    v, T = args
    ts = list(T.items) if isinstance(T, Tup) else (I.elements(T) or [T] if is_list(I, T) else [T])
    if is_list(I, T):
        I.raise_('TypeError', Const('isinstance() arg 2 must be a type or tuple'), flag='isinstance')
    tn = type_names(I, v)
    unknown = []
    for t in ts:
        if isinstance(t, ExtV):
            o = ext_object(t.name)
            if tn is None:
                if not (isinstance(v, Num) and o is not None and o[0] in (list, tuple, dict, set, frozenset, str, bytes)):
                    unknown.append(t)
                continue
            if o is None:
                if tn[0] == 'cls' and t.name in I.prog.ext_bases(tn[1]):
                    return TRUE
                continue
            if not isinstance(o[0], type):
                I.raise_('TypeError', Const('isinstance() arg 2 must be a type: %s' % t.name), flag='isinstance')
            if tn[0] == 'py' and issubclass(tn[1], o[0]):
                return TRUE
            if tn[0] == 'cls' and (o[0] is object or any((ext_object(b) or (None,))[0] is o[0] for b in I.prog.ext_bases(tn[1]))):
                return TRUE
            if tn[0] == 'py' and isinstance(v, Num) and v.k == 'float' and t.name.startswith('numpy.float'):
                unknown.append(t)
        elif isinstance(t, ClassV):
            if tn is None:
                unknown.append(t)
                continue
            if tn[0] == 'cls' and t.c in I.prog.mro(tn[1]):
                return TRUE
        elif isinstance(t, Opq):
            unknown.append(t)
        elif isinstance(t, Const) and t.v is None or isinstance(t, (FuncV, ModV, Num)):
            I.raise_('TypeError', Const('isinstance() arg 2 must be a type'), flag='isinstance')
    if unknown:
        return CondV(('isinstance', I.vkey(v)) + tuple(sorted((I.vkey(t) for t in unknown), key=rkey)))
    return FALSE


@ext('builtins.issubclass')
def _issubclass(I, args, kw):
    a, b = args
    if isinstance(a, ClassV) and isinstance(b, ClassV):
        return Const(b.c in I.prog.mro(a.c))
    return CondV(('issubclass', I.vkey(a), I.vkey(b)))


PYNAME = {}


@ext('builtins.type')
def _type(I, args, kw):
    tn = type_names(I, args[0])
    if tn is None or len(args) > 1:
        return Opq('type', I.vkey(args[0]))
    if tn[0] == 'cls':
        return ClassV(tn[1])
    c = tn[1]
    nm = {'matrix': 'numpy.matrix', 'ndarray': 'numpy.ndarray', 'mpf': 'mpmath.mpf'}.get(c.__name__)
    if c is real_class('mp'):
        nm = 'mpmath.matrix'
    return ExtV(nm or 'builtins.' + c.__name__)


@ext('builtins.float', 'numpy.float64', 'numpy.double', 'numpy.float_')
def _float(I, args, kw):
    if not args:
        return Num(0, 'float')
    a = args[0]
    if isinstance(a, Const) and isinstance(a.v, str):
        try:
            f = float(a.v)
        except ValueError:
            I.raise_('ValueError', Const('float'))
        return const_val(I, f)
    if isinstance(a, Const) and a.v is None or is_list(I, a) or isinstance(a, Tup):
        I.raise_('TypeError', Const('float() argument'), flag='operand')
    if is_inst(I, a):
        m = I.prog.lookup_method(I.obj(a).cls, '__float__')
        if m:
            return I.call(BoundV(a, FuncV(m[1], m[2].mod, m[2])), [], {})
        return fnum('float', I.vkey(a), k='float')
    s = I.num(a)
    if s is None and isinstance(a, StrV) and unstr(I, a) is not None:
        return unstr(I, a)
    if s is None:
        if isinstance(a, (StrV, Opq)):
            if I.handled('ValueError') and I.decide(('notfloat', I.vkey(a))):
                I.raise_('ValueError', Const('could not convert'))
            return fnum('float', I.vkey(a), k='float')
        I.raise_('TypeError', Const('float() argument'), flag='operand')
    s = I.N(s)
    if kind(I, a) == 'mpf' and not s.is_const():
        return Num(Sc.atom(('fn', 'float', s)), 'float')
    return Num(s, 'float')


@ext('builtins.int')
def _int(I, args, kw):
    if not args:
        return Num(0, 'int')
    a = args[0]
    if isinstance(a, Const) and isinstance(a.v, str):
        try:
            return Num(int(a.v, *[int(I.num(x).cval()) for x in args[1:]]), 'int')
        except ValueError:
            I.raise_('ValueError', Const('invalid literal for int()'))
    if isinstance(a, Const) and a.v is None or is_list(I, a) or isinstance(a, Tup):
        I.raise_('TypeError', Const('int() argument'), flag='operand')
    s = I.num(a)
    if s is None:
        return fnum('int', I.vkey(a), k='int')
    s = I.N(s)
    if kind(I, a) == 'int':
        return Num(s, 'int')
    c = s.cval()
    if c is not None:
        return Num(int(c), 'int')
    return Num(s if whole(I, s) else Sc.atom(('fn', 'int', s)), 'int')


def whole(I, s):
    """a sum of roundings"""
    def one(a):
        if a[0] == 'fn' and a[1] in ('floor', 'int') and len(a) == 3:
            return True
        return a[0] == 'fn' and a[1] in ('max', 'min') and all(isinstance(x, Sc) and whole(I, x) for x in a[2:]) or a in I.B.low
    return all(k == int(k) and all(one(a) and e == int(e) and e > 0 for a, e in m) for m, k in s.t.items())


@ext('builtins.complex')
def _complex(I, args, kw):
    return Opq('complex', *[I.vkey(a) for a in args])


@ext('builtins.abs')
def _abs(I, args, kw):
    a = args[0]
    if is_arr(I, a):
        o = I.obj(a)
        if o.kind == 'mp':
            return I.top('abs of mpmath matrix')
        return I.alloc(Arr(o.kind, o.nd, ewise(I, lambda x: fold_fn('abs', x), I.arr_mat(a))))
    s = I.num(a)
    if s is None:
        return Opq('abs', I.vkey(a))
    return Num(fold_fn('abs', I.N(s)), kind(I, a))


def _minmax(I, args, kw, which):
    key = kw.get('key')
    if key is not None:
        return Opq('call', ExtV('builtins.' + which), *([I.vkey(a) for a in args] + [('key', I.vkey(key))]))
    if len(args) == 1:
        els = I.elements(args[0])
        if els is None:
            sq = I.as_seq(args[0])
            if sq is not None:
                k = fresh('m')
                with_idx(I, k, sq[0])
                e = I.num(sq[1](Sc.atom(k)))
                if e is not None:
                    if not mentions(e, k):
                        return Num(e)
                    return fnum(which + 'seq', sq[0], subst(e, {k: QI(e)}))
            if is_arr(I, args[0]):
                I.raise_('ValueError', Const('ambiguous'), flag='ambiguous-truth')
            if 'default' in kw:
                return Opq('call', ExtV('builtins.' + which), I.vkey(args[0]), I.vkey(kw['default']))
            return fnum(which + 'of', I.vkey(args[0]))
        if not els:
            if 'default' in kw:
                return kw['default']
            I.raise_('ValueError', Const('empty sequence'), flag='empty')
        args = els
        if len(els) == 1:
            return els[0]
    ss = [I.num(a) for a in args]
    if any(isinstance(a, Const) and a.v is None for a in args):
        I.raise_('TypeError', Const('comparison with None'), flag='none')
    if any(s is None for s in ss):
        if all(isinstance(a, Const) and isinstance(a.v, str) for a in args):
            return Const((max if which == 'max' else min)(a.v for a in args))
        return Opq('call', ExtV('builtins.' + which), *[I.vkey(a) for a in args])
    out = []
    for s in [I.N(s) for s in ss]:
        s = Num(s, 'num').s
        # flatten nested
        if s not in out:
            out.append(s)
    sg = 1 if which == 'max' else -1
    keep = []
    for i, s in enumerate(out):
        if any(j != i and dominated(I, s, t, sg) and not (dominated(I, t, s, sg) and j > i) for j, t in enumerate(out)):
            continue
        keep.append(s)
    k = kind(I, args[0])
    r = keep[0] if len(keep) == 1 else Sc.atom(('fn', which) + tuple(sorted(keep, key=rkey)))
    if all(is_arr(I, a) and I.obj(a).nd == 2 for a in args):
        # the rows of a matrix with one column
        return I.arr(I.obj(args[0]).kind, mscalar(r), 2)
    return Num(r, k)


def dominated(I, s, t, sg):
    d = (t - s) * sg
    if d.is_const():
        return d.cval() >= 0
    return I.integral(d) and I.B.nonneg(d)


@ext('builtins.max', 'numpy.maximum')
def _max(I, args, kw):
    return _minmax(I, args, kw, 'max')


@ext('builtins.min', 'numpy.minimum')
def _min(I, args, kw):
    return _minmax(I, args, kw, 'min')


@ext('builtins.sum', 'math.fsum')
def _sum(I, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', Num(ZERO, 'int'))
    els = I.elements(args[0])
    if els is not None:
        r = start
        for x in els:
            r = I.binop(ast.Add(), r, x)
        return r
    sq = None
    if is_list(I, args[0]) or isinstance(args[0], (SeqV, RangeV)) or is_arr(I, args[0]):
        segs = I.obj(args[0]).segs if is_list(I, args[0]) else None
        if segs is not None and all(s[0] in ('item', 'seg') for s in segs):
            r = start
            for s in segs:
                if s[0] == 'item':
                    r = I.binop(ast.Add(), r, s[1])
                elif isinstance(s[3], Num):
                    r = I.binop(ast.Add(), r, Num(mk_sum(s[1], s[2], s[3].s), s[3].k))
                elif isinstance(s[3], CondV):
                    r = I.binop(ast.Add(), r, Num(mk_sum(s[1], s[2], Sc.atom(('fn', 'bool', s[3]))), 'int'))
                elif isinstance(s[3], FrozenArr):
                    B = I.B.copy()
                    e = entry(s[3].mat, Sc.atom(('bi',)), Sc.atom(('bj',)), B)
                    m = lift_lam(s[3].mat.rows, s[3].mat.cols, mk_sum(s[1], s[2], e), I.B)
                    r = I.binop(ast.Add(), r, I.alloc(Arr(s[3].kind, s[3].nd, m)))
                else:
                    return fnum('sumof', I.vkey(args[0]))
            return r
        sq = I.as_seq(args[0])
    if sq is not None:
        k = fresh('s')
        with_idx(I, k, sq[0])
        v = sq[1](Sc.atom(k))
        if isinstance(v, Num):
            return I.binop(ast.Add(), start, Num(mk_sum(k, sq[0], v.s), v.k))
        if is_arr(I, v):
            m = I.arr_mat(v)
            e = entry(m, Sc.atom(('bi',)), Sc.atom(('bj',)), I.B)
            mm = lift_lam(m.rows, m.cols, mk_sum(k, sq[0], e), I.B)
            return I.binop(ast.Add(), start, I.alloc(Arr(I.obj(v).kind, I.obj(v).nd, mm)))
    return fnum('sumof', I.vkey(args[0]))


@ext('builtins.list', 'builtins.reversed', 'builtins.iter')
def _list(I, args, kw):
    if not args:
        return I.alloc(ListO([]))
    a = args[0]
    if is_list(I, a):
        return I.alloc(ListO(I.obj(a).segs))
    if isinstance(a, Ref) and isinstance(I.obj(a), DictO):
        r = dict_method(I, a, I.obj(a), 'keys', [], {})
        I.views.pop(getattr(r, 'a', None), None)        # a copy
        return r
    els = I.elements(a)
    if els is not None:
        return I.alloc(ListO([('item', x) for x in els]))
    sq = I.as_seq(a)
    if sq is not None:
        k = fresh('l')
        with_idx(I, k, sq[0])
        return I.alloc(ListO([('seg', k, sq[0], I.freeze(sq[1](Sc.atom(k))))]))
    if isinstance(a, (Num,)) or isinstance(a, Const):
        I.raise_('TypeError', Const('not iterable'), flag='operand')
    return I.alloc(ListO([('any', ('list', I.vkey(a)))]))


def _reversed(I, args, kw):
    r = _list(I, args, kw)
    o = I.obj(r)
    return I.alloc(ListO(rev_segs(o.segs)))


EXT['builtins.reversed'] = _reversed


@ext('builtins.tuple')
def _tuple(I, args, kw):
    if not args:
        return Tup([])
    els = I.elements(args[0])
    if els is not None:
        return Tup(els)
    sq = I.as_seq(args[0])
    if sq is not None:
        k = fresh('l')
        with_idx(I, k, sq[0])
        return SeqV(sq[0], k, I.freeze(sq[1](Sc.atom(k))))
    return Opq('tuple', I.vkey(args[0]))


@ext('builtins.set', 'builtins.frozenset')
def _set(I, args, kw):
    if not args:
        return Opq('set')
    els = I.elements(args[0])
    if els is not None:
        return Opq('set', *sorted({I.vkey(x) for x in els}, key=rkey))
    return Opq('call', ExtV('builtins.set'), I.vkey(args[0]))


@ext('builtins.dict', 'collections.OrderedDict')
def _dict(I, args, kw):
    d, op = {}, None
    for a in args:
        if isinstance(a, Ref) and isinstance(I.obj(a), DictO):
            d.update(I.obj(a).items)
            op = I.obj(a).open
        else:
            els = I.elements(a)
            if els is not None and all(isinstance(x, Tup) and len(x.items) == 2 for x in els):
                d.update({I.hkey(x.items[0]): x.items[1] for x in els})
            else:
                op = 'dict(%r)' % (I.vkey(a),)
    for k, v in kw.items():
        if k == '**':
            op = str(v)
        else:
            d[Const(k)] = v
    return I.alloc(DictO(d, None, op))


@ext('builtins.str', 'builtins.repr')
def _str(I, args, kw):
    if not args:
        return Const('')
    return to_str(I, args[0])


@ext('builtins.bool')
def _bool(I, args, kw):
    v = args[0] if args else FALSE
    if isinstance(v, CondV):
        return v
    return Const(I.truth(v))


@ext('builtins.print')
def _print(I, args, kw):
    I.st.effects.append(('print', None, None, tuple(I.vkey(a) for a in args), I.where()))
    return NONE


def sort_els(I, els, kw):
    """stable sort of known elements by the comparisons of the program (the order of undecided ones is a case distinction)"""
    if set(kw) - {'key', 'reverse'} or len(els) > 12:
        return None
    rev = kw.get('reverse', FALSE)
    if not isinstance(rev, Const):
        return None
    key = kw.get('key', NONE)
    ks = list(els) if isinstance(key, Const) and key.v is None else [I.call(key, [x], {}) for x in els]

    def plain(k):
        return isinstance(k, Num) and k.s.is_const() or isinstance(k, Const) or isinstance(k, Tup) and all(plain(x) for x in k.items)
    if any(isinstance(k, (Opq, StrV)) for k in ks) or len(els) > 4 and not all(plain(k) or isinstance(k, Ref) for k in ks):
        return None
    out = []
    for x, k in (zip(els, ks) if not rev.v else zip(reversed(els), reversed(ks))):
        i = len(out)
        while i > 0 and I.truth(I.lt(k, out[i - 1][1])):
            i -= 1
        out.insert(i, (x, k))
    if rev.v:
        out.reverse()
    return [x for x, _ in out]


@ext('builtins.sorted')
def _sorted(I, args, kw):
    els = I.elements(args[0])
    if els is not None and not kw and all(isinstance(x, Const) and isinstance(x.v, str) for x in els):
        return I.alloc(ListO([('item', Const(x)) for x in sorted(e.v for e in els)]))
    if els is not None and not kw and all(isinstance(x, Num) and x.s.is_const() for x in els):
        return I.alloc(ListO([('item', x) for x in sorted(els, key=lambda n: n.s.cval())]))
    srt = sort_els(I, els, kw) if els is not None else None
    if srt is not None:
        return I.alloc(ListO([('item', x) for x in srt]))
    return I.alloc(ListO([('any', ('sorted', I.vkey(args[0])) + tuple((k, I.vkey(v)) for k, v in sorted(kw.items())))]))


def _anyall(I, args, kw, which):
    from .interp import exists_lit
    v = args[0]
    if is_arr(I, v):
        return bool_array_test(I, I.arr_mat(v), which)
    els = I.elements(v)
    if els is not None:
        for x in els:
            t = I.truth(x)
            if which == 'any' and t:
                return TRUE
            if which == 'all' and not t:
                return FALSE
        return Const(which == 'all')
    if is_list(I, v) and len(I.obj(v).segs) == 1 and I.obj(v).segs[0][0] == 'seg':
        _, k, N, t = I.obj(v).segs[0]
        if isinstance(t, Const):
            if bool(t.v) == (which == 'all'):
                return Const(which == 'all')
            return CondV(('lt0', -N), which == 'all')
        c = t
        if isinstance(t, Num):
            c = CondV(('eq0', t.s), True)
        if isinstance(c, CondV):
            want = (not c.neg) if which == 'any' else c.neg
            return CondV(exists_lit(k, N, [(c.c, want)]), which == 'all')
    return CondV((which, I.vkey(v)))


@ext('builtins.any')
def _any(I, args, kw):
    return _anyall(I, args, kw, 'any')


@ext('builtins.all')
def _all(I, args, kw):
    return _anyall(I, args, kw, 'all')


@ext('numpy.all', 'numpy.any')
def _npall(I, args, kw):
    raise NotImplementedError


def np_all(which):
    def f(I, args, kw):
        v = args[0]
        if is_arr(I, v):
            if axis_of(args, kw, 1) is not None:
                m = I.arr_mat(v)
                ax = axis_of(args, kw, 1)
                return I.alloc(Arr('array', 1, mfn('arr.' + which, ONE, m.cols if ax == 0 else m.rows, m, sc(ax))))
            return bool_array_test(I, I.arr_mat(v), which)
        if isinstance(v, (CondV, Const)):
            return v
        return _anyall(I, args, kw, which)
    return f


EXT['numpy.all'] = np_all('all')
EXT['numpy.any'] = np_all('any')


@ext('builtins.hasattr')
def _hasattr(I, args, kw):
    from .interp import PyRaise
    v, n = args
    if not isinstance(n, Const):
        return CondV(('hasattr', I.vkey(v), I.vkey(n)))
    if isinstance(v, Opq):
        return CondV(('hasattr', I.vkey(v), n))
    if is_inst(I, v):
        o = I.obj(v)
        if n.v in o.attrs or I.prog.lookup_method(o.cls, n.v):
            return TRUE
        if [x for x in I.prog.ext_bases(o.cls) if x != 'builtins.object']:
            return CondV(('hasattr', I.vkey(v), n))
        return FALSE
    try:
        I.getattr(v, n.v)
        return TRUE
    except PyRaise:
        return FALSE


@ext('builtins.getattr')
def _getattr(I, args, kw):
    from .interp import PyRaise
    v, n = args[0], args[1]
    if isinstance(n, Const) and isinstance(n.v, str):
        if len(args) == 3:
            try:
                return I.getattr(v, n.v)
            except PyRaise as e:
                if e.exc.name == 'AttributeError':
                    return args[2]
                raise
        return I.getattr(v, n.v)
    return Opq('getattr', I.vkey(v), I.vkey(n))


@ext('builtins.setattr')
def _setattr(I, args, kw):
    v, n, x = args
    if isinstance(n, Const):
        I.setattr(v, n.v, x)
    elif is_inst(I, v):
        o = I.obj(v)
        I.st.effects.append(('attr', v.a, o.owner, '?', I.where()))
        I.havoc_ref(v)
    return NONE


@ext('builtins.super')
def _super(I, args, kw):
    if args:
        return SuperV(args[1], args[0].c)
    fr = I.frame
    cls = fr.get('__cls__')
    while cls is None and fr.get('__closure__') is not None:
        fr = fr['__closure__']
        cls = fr.get('__cls__')
    slf = None
    for k, v in fr.items():
        if not k.startswith('__'):
            slf = v
            break
    if cls is None or not is_inst(I, slf):
        return Opq('super')
    return SuperV(slf, cls)


@ext('builtins.callable')
def _callable(I, args, kw):
    return Const(isinstance(args[0], (FuncV, BoundV, ClassV, PartialV, MethV)))


@ext('builtins.slice')
def _slice(I, args, kw):
    a = list(args)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    a = (a + [NONE])[:3]
    return Tup([Const('__slice__')] + a)


@ext('builtins.map')
def _map(I, args, kw):
    if len(args) == 2:
        els = I.elements(args[1])
        if els is not None:
            return I.alloc(ListO([('item', I.call(args[0], [x], {})) for x in els]))
        sq = I.as_seq(args[1])
        if sq is not None:
            k = fresh('m')
            with_idx(I, k, sq[0])
            return I.alloc(ListO([('seg', k, sq[0], I.freeze(I.call(args[0], [sq[1](Sc.atom(k))], {})))]))
    return Opq('map', *[I.vkey(a) for a in args])


@ext('builtins.round')
def _round(I, args, kw):
    s = I.num(args[0])
    if s is None:
        return Opq('round', I.vkey(args[0]))
    return Num(Sc.atom(('fn', 'round', I.N(s)) + tuple(I.vkey(a) for a in args[1:])), 'int' if len(args) == 1 else 'float')


@ext('builtins.divmod')
def _divmod(I, args, kw):
    return Tup([I.binop(ast.FloorDiv(), *args), I.binop(ast.Mod(), *args)])


@ext('builtins.pow')
def _pow(I, args, kw):
    if len(args) == 2:
        return I.binop(ast.Pow(), *args)
    return Opq('pow3', *[I.vkey(a) for a in args])


@ext('copy.copy')
def _copy(I, args, kw):
    v = args[0]
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, Arr):
            return I.alloc(Arr(o.kind, o.nd, I.arr_mat(v)))
        if isinstance(o, ListO):
            return I.alloc(ListO(o.segs))
        if isinstance(o, DictO):
            return I.alloc(DictO(o.items, None, o.open))
        if isinstance(o, InstO):
            m = I.prog.lookup_method(o.cls, '__copy__')
            if m:
                return I.call(BoundV(v, FuncV(m[1], m[2].mod, m[2])), [], {})
            return I.alloc(InstO(o.cls, o.attrs, None, o.ext))
    return v


@ext('copy.deepcopy')
def _deepcopy(I, args, kw):
    memo = {}

    def dc(v):
        if isinstance(v, Ref):
            if v.a in memo:
                return memo[v.a]
            o = I.obj(v)
            if isinstance(o, Arr):
                r = I.alloc(Arr(o.kind, o.nd, I.arr_mat(v)))
                memo[v.a] = r
                return r
            if isinstance(o, ListO):
                r = I.alloc(ListO([]))
                memo[v.a] = r
                I.st.heap[r.a] = ListO([(s[0], dc(s[1])) if s[0] == 'item' else s for s in o.segs])
                return r
            if isinstance(o, DictO):
                r = I.alloc(DictO({}))
                memo[v.a] = r
                I.st.heap[r.a] = DictO({k: dc(x) for k, x in o.items.items()}, None, o.open)
                return r
            if isinstance(o, InstO):
                r = I.alloc(InstO(o.cls, {}))
                memo[v.a] = r
                I.st.heap[r.a] = InstO(o.cls, {k: dc(x) for k, x in o.attrs.items()}, None, o.ext)
                return r
        if isinstance(v, Tup):
            return Tup([dc(x) for x in v.items])
        return v
    return dc(args[0])


@ext('functools.partial')
def _partial(I, args, kw):
    return PartialV(args[0], args[1:], kw)


@ext('itertools.chain')
def _chain(I, args, kw):
    segs = []
    for a in args:
        els = I.elements(a)
        if els is not None:
            segs += [('item', x) for x in els]
        elif is_list(I, a):
            segs += list(I.obj(a).segs)
        else:
            sq = I.as_seq(a)
            if sq is None:
                segs.append(('any', I.vkey(a)))
            else:
                k = fresh('h')
                with_idx(I, k, sq[0])
                segs.append(('seg', k, sq[0], I.freeze(sq[1](Sc.atom(k)))))
    return I.alloc(ListO(segs))


@ext('itertools.product')
def _product(I, args, kw):
    els = [I.elements(a) for a in args]
    if all(e is not None for e in els) and 'repeat' not in kw and '*' not in kw:
        return I.alloc(ListO([('item', Tup(t)) for t in itertools.product(*els)]))
    return Opq('call', ExtV('itertools.product'), *[I.vkey(a) for a in args])


# ------------------------------------------------------------------ numpy
def shape_args(I, a):
    """dimension list of a shape argument"""
    els = None
    if isinstance(a, Tup) or is_list(I, a):
        els = I.elements(a)
        if els is None:
            return None
    else:
        els = [a]
    out = []
    for x in els:
        s = I.num(x)
        if s is None or isinstance(x, Opq):
            return None
        if isinstance(x, Num) and x.k in ('float',) and not x.s.is_const():
            I.raise_('TypeError', Const("'float' object cannot be interpreted as an integer"), flag='range-arg')
        if isinstance(x, Num) and x.k in ('float',):
            I.raise_('TypeError', Const("'float' object cannot be interpreted as an integer"), flag='range-arg')
        out.append(I.N(s))
    return out


def np_fill(val):
    def f(I, args, kw):
        sh = shape_args(I, args[0] if args else kw.get('shape'))
        if sh is None or len(sh) > 2:
            return I.top('array of unknown shape')
        v = val
        if val == 'full':
            v = I.num(args[1])
        r, c = (ONE, sh[0]) if len(sh) == 1 else sh
        m = mzero(r, c) if v == 0 else (mscale(mones(r, c), v) if r.t and c.t else mzero(r, c))
        if v is None:
            m = matom(('top', r, c, I.fresh_top('uninitialised')))
        dt = kw.get('dtype', args[2 if val == 'full' else 1] if len(args) > (2 if val == 'full' else 1) else None)
        word = dt is None or 'object' not in repr(dt) and ('int' in repr(dt) or 'float' in repr(dt))
        return I.alloc(Arr('array', len(sh), m, word=word))
    return f


EXT['numpy.zeros'] = np_fill(0)
EXT['numpy.ones'] = np_fill(1)
EXT['numpy.full'] = np_fill('full')
EXT['numpy.empty'] = np_fill(None)


@ext('numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like')
def _like(I, args, kw):
    return I.top('like')


def zeros_like(val):
    def f(I, args, kw):
        if is_arr(I, args[0]):
            o = I.obj(args[0])
            m = I.arr_mat(args[0])
            return I.alloc(Arr(o.kind, o.nd, mzero(m.rows, m.cols) if val == 0 else mones(m.rows, m.cols)))
        return I.top('like')
    return f


EXT['numpy.zeros_like'] = zeros_like(0)
EXT['numpy.ones_like'] = zeros_like(1)


@ext('numpy.eye')
def _eye(I, args, kw):
    ns = [I.num(a) for a in args[:2]]
    if 'M' in kw:
        ns.append(I.num(kw['M']))
    if any(n is None for n in ns):
        return I.top('eye')
    ns = [I.N(n) for n in ns]
    off = kw.get('k', args[2] if len(args) > 2 else None)
    if off is not None and I.num(off) is not None and I.num(off).t:
        o = I.num(off)
        n = ns[0]
        if len(ns) == 1 and o.cval() is not None:
            return I.alloc(Arr('array', 2, mshift(n, int(o.cval()))))
        return I.top('offset identity')
    if len(ns) == 2 and ns[1] != ns[0]:
        r, c = ns
        if I.B.nonneg(c - r):
            m = mhstack([meye(r), mzero(r, c - r)], I.B)
        elif I.B.nonneg(r - c):
            m = mvstack([meye(c), mzero(r - c, c)], I.B)
        else:
            df = Sc.atom(('bi',)) - Sc.atom(('bj',))
            m = matom(mk_lam(r, c, Sc.atom(('delta', df if rkey(df) < rkey(-df) else -df))))
        return I.alloc(Arr('array', 2, m))
    return I.alloc(Arr('array', 2, meye(ns[0]) if ns[0].t else mzero(0, 0)))


def mat_like(I, v):
    """matrix of array-like, with a 1-d flag"""
    if is_arr(I, v):
        o = I.obj(v)
        if o.kind == 'mp':
            # numpy makes an object array with the same entries (mpmath matrices iterate over entries)
            return I.arr_mat(v), 2, 'mp'
        return I.arr_mat(v), o.nd, o.kind
    s = I.num(v) if not is_list(I, v) and not isinstance(v, (Tup, SeqV)) else None
    if s is not None and not isinstance(v, Opq):
        return mscalar(s), 0, None
    m = I.as_mat(v)
    if m is None:
        return None
    nd = 1
    if is_list(I, v):
        f = [s for s in I.obj(v).segs if s[0] in ('item', 'seg')]
        for s in f:
            x = s[1] if s[0] == 'item' else s[3]
            if isinstance(x, (Tup, SeqV)) or isinstance(x, Ref) and not isinstance(I.obj(x), InstO):
                if not (is_arr(I, x) and I.arr_mat(x).shape == (ONE, ONE) and I.obj(x).nd == 0):
                    nd = 2
        if not f and I.obj(v).segs == ():
            nd = 1
    elif isinstance(v, Tup):
        if any(isinstance(x, (Tup, SeqV)) or is_list(I, x) or is_arr(I, x) for x in v.items):
            nd = 2
    return m, nd, None


def unstr(I, v):
    """number written by str(), or None"""
    if isinstance(v, Const) and isinstance(v.v, str):
        try:
            return const_val(I, float(v.v))
        except ValueError:
            return None
    if isinstance(v, StrV) and len(v.parts) == 1 and isinstance(v.parts[0], Opq) and v.parts[0].k[:1] == ('fmt',) and v.parts[0].k[1] in ('', '%s') \
            and isinstance(v.parts[0].k[2], Num):
        return Num(v.parts[0].k[2].s, 'float')
    return None


def read_numbers(I, a, kw):
    """nested lists where texts stand for numbers, converted to a type of numbers"""
    t = kw.get('dtype')
    if t is None or not is_list(I, a):
        return a
    if not (isinstance(t, Const) and t.v in ('float', 'float64', 'double', 'f8', 'd') or isinstance(t, ExtV) and canon(t.name) in
            ('builtins.float', 'numpy.float64', 'numpy.double', 'numpy.float_')):
        return a

    def rd(v):
        if is_list(I, v):
            els = I.elements(v)
            if els is None:
                return v
            new = [rd(x) for x in els]
            return v if all(x is y for x, y in zip(els, new)) else I.alloc(ListO([('item', x) for x in new]))
        if isinstance(v, (StrV, Const)):
            r = unstr(I, v)
            return v if r is None else r
        return v
    return rd(a)


def same_storage(I, a, kind, kw):
    """what a conversion that does not copy gives for an array: the array itself or a view of it"""
    if not is_arr(I, a) or 'dtype' in kw or I.obj(a).kind == 'mp':
        return None
    o = I.obj(a)
    if o.kind == kind and (kind == 'array' or o.nd == 2):
        return a
    if kind == 'matrix' and o.nd == 1:
        return I.alloc(Arr('matrix', 2, I.arr_mat(a), (), a.a))
    return I.alloc(Arr(kind, 2, I.arr_mat(a), (), a.a)) if o.nd == 2 else None


@ext('numpy.asmatrix')
def _asmatrix(I, args, kw):
    r = same_storage(I, args[0] if args else kw.get('data'), 'matrix', kw) if len(args) < 2 else None
    return _matrix(I, args, kw) if r is None else r


@ext('numpy.matrix')
def _matrix(I, args, kw):
    a = args[0] if args else kw.get('data')
    if kw.get('copy', args[2] if len(args) > 2 else None) in (Const(False), Num(ZERO, 'int')):
        r = same_storage(I, a, 'matrix', kw)
        if r is not None:
            return r
    if isinstance(a, Const) and isinstance(a.v, str):
        return const_matrix(I, a.v)
    a = read_numbers(I, a, kw)
    ml = mat_like(I, a)
    if ml is None:
        if isinstance(a, Const) and a.v is None:
            return I.alloc(Arr('matrix', 2, mscalar(Sc.atom(('fn', 'none')))))   # one object entry
        if isinstance(a, Opq) and a.is_top():
            return I.top('matrix of unknown')
        if isinstance(a, Opq):
            sy = Sc.atom(('fn', 'rows', a)), Sc.atom(('fn', 'cols', a))
            I.st.B.low[('fn', 'rows', a)] = 0
            I.st.B.low[('fn', 'cols', a)] = 0
            return I.alloc(Arr('matrix', 2, mfn('asmat', sy[0], sy[1], a)))
        return I.top('matrix of unknown')
    return I.alloc(Arr('matrix', 2, ml[0]))


def const_matrix(I, s):
    rows = []
    try:
        for r in s.replace('[', '').replace(']', '').split(';'):
            rows.append([Fraction(x) for x in re.split(r'[,\s]+', r.strip()) if x])
    except ValueError:
        return I.top('matrix literal')
    m = mvstack([mhstack([mscalar(x) for x in r], I.B) for r in rows], I.B)
    return I.alloc(Arr('matrix', 2, m))


@ext('numpy.asarray', 'numpy.asanyarray')
def _asarray(I, args, kw):
    r = None
    if args and len(args) < 2 and is_arr(I, args[0]):
        r = same_storage(I, args[0], 'array', kw)
    return _array(I, args, kw) if r is None else r


@ext('numpy.array', 'numpy.ascontiguousarray')
def _array(I, args, kw):
    if args and kw.get('copy') in (Const(False), Num(ZERO, 'int')) and 'ndmin' not in kw:
        r = same_storage(I, args[0], 'array', kw)
        if r is not None:
            return r
    a = read_numbers(I, args[0] if args else kw.get('object'), kw)
    ml = mat_like(I, a)
    if ml is None:
        if isinstance(a, Opq) and not a.is_top():
            return Opq('call', ExtV('numpy.array'), a)
        if is_list(I, a):
            return Opq('call', ExtV('numpy.array'), I.vkey(a))
        return I.top('array of unknown')
    m, nd, kd = ml
    if nd == 0:
        nd = 1
        return I.alloc(Arr('array', 2, m))
    nm = kw.get('ndmin')
    if isinstance(nm, Num) and nm.s.cval() == 2:
        nd = 2
    return I.alloc(Arr('array', nd, m))


@ext('numpy.atleast_2d')
def _atleast2d(I, args, kw):
    ml = mat_like(I, args[0])
    if ml is None:
        if isinstance(args[0], Opq) and not args[0].is_top():
            a = args[0]
            I.st.B.low[('fn', 'rows', a)] = 0
            I.st.B.low[('fn', 'cols', a)] = 0
            return I.alloc(Arr('array', 2, mfn('asmat', Sc.atom(('fn', 'rows', a)), Sc.atom(('fn', 'cols', a)), a)))
        return I.top('atleast_2d')
    m, nd, kd = ml
    return I.alloc(Arr('matrix' if kd == 'matrix' else 'array', 2, m, (), args[0].a if is_arr(I, args[0]) and kd != 'mp' else None))


@ext('numpy.atleast_1d')
def _atleast1d(I, args, kw):
    ml = mat_like(I, args[0])
    if ml is None:
        return I.top('atleast_1d')
    m, nd, kd = ml
    return I.alloc(Arr(kd or 'array', max(nd, 1), m, (), args[0].a if is_arr(I, args[0]) else None))


@ext('numpy.concatenate', 'numpy.hstack', 'numpy.vstack')
def _concatenate(I, args, kw):
    raise NotImplementedError


def concat(which):
    def f(I, args, kw):
        els = I.elements(args[0])
        if els is None:
            if is_list(I, args[0]) and len(I.obj(args[0]).segs) == 1 and I.obj(args[0]).segs[0][0] == 'seg':
                pass
            return I.top('concatenation')
        ms = [mat_like(I, x) for x in els]
        if any(m is None for m in ms):
            return I.top('concatenation')
        kd = 'matrix' if any(m[2] == 'matrix' for m in ms) else 'array'
        nd = 1 if all(m[1] <= 1 for m in ms) else 2
        ax = axis_of(args, kw, 1)
        if which == 'concatenate':
            ax = 0 if ax is None else ax
        elif which == 'hstack':
            ax = 1
        else:
            ax = 0
        if nd == 1 and which != 'vstack':
            if ax == 1 and which == 'concatenate':
                I.raise_('ValueError', Const('axis 1 out of bounds'), flag='axis')
            ax = 1
        elif nd == 1:
            nd = 2
        if nd == 2 and any(m[1] == 1 for m in ms) and which != 'vstack':
            I.raise_('ValueError', Const('all the input array dimensions must match'), flag='ndim')
        return I.alloc(Arr(kd, nd, stack(I, [m[0] for m in ms], ax)))
    return f


EXT['numpy.concatenate'] = concat('concatenate')
EXT['numpy.hstack'] = concat('hstack')
EXT['numpy.vstack'] = concat('vstack')


@ext('numpy.append')
def _append(I, args, kw):
    ms = [mat_like(I, x) for x in args[:2]]
    if any(m is None for m in ms):
        return I.top('append')
    ax = axis_of(args, kw, 2)
    if ax is None:
        return I.alloc(Arr('array', 1, stack(I, [flat(I, m[0]) for m in ms], 1)))
    return I.alloc(Arr(ms[0][2] or 'array', 2, stack(I, [m[0] for m in ms], ax)))


@ext('numpy.bmat')
def _bmat(I, args, kw):
    if is_arr(I, args[0]) and I.obj(args[0]).nd == 2:
        return I.alloc(Arr('matrix', 2, I.arr_mat(args[0])))
    rows = I.elements(args[0])
    if rows is None:
        return I.top('block matrix')
    out = []
    grid = True
    for r in rows:
        if is_arr(I, r):
            grid = False
            ms = [I.arr_mat(r)]
            out.append(ms)
            continue
        els = I.elements(r)
        if els is None:
            return I.top('block matrix')
        ms = []
        for x in els:
            ml = mat_like(I, x)
            if ml is None:
                return I.top('block matrix')
            ms.append(ml[0])
        out.append(ms)
    if not grid:
        return I.alloc(Arr('matrix', 2, stack(I, [m[0] for m in out], 1)))
    # decide every column/row conformance
    lines = [stack(I, ms, 1) for ms in out]
    return I.alloc(Arr('matrix', 2, stack(I, [I.N(l) for l in lines], 0)))


@ext('numpy.diagflat')
def _diagflat(I, args, kw):
    ml = mat_like(I, args[0])
    if ml is None or len(args) > 1 or kw:
        off = args[1] if len(args) > 1 else kw.get('k')
        if ml is not None and off is not None and I.num(off) is not None and I.num(off).cval() is not None:
            m = flat(I, ml[0])
            return off_diag(I, m, int(I.num(off).cval()), ml[2])
        return I.top('diagflat')
    m = flat(I, ml[0])
    return I.alloc(Arr('matrix' if ml[2] == 'matrix' else 'array', 2, mdiag(m, I.B)))


def off_diag(I, v, k, kd):
    n = v.cols + abs(k)
    d = mdiag(v, I.B)
    if k == 0:
        m = d
    elif k > 0:
        m = mvstack([mhstack([mzero(v.cols, k), d], I.B), mzero(k, n)], I.B)
    else:
        m = mvstack([mzero(-k, n), mhstack([d, mzero(v.cols, -k)], I.B)], I.B)
    return I.alloc(Arr('matrix' if kd == 'matrix' else 'array', 2, m))


@ext('numpy.diag')
def _diag(I, args, kw):
    ml = mat_like(I, args[0])
    if ml is None:
        return I.top('diag')
    off = args[1] if len(args) > 1 else kw.get('k')
    k = 0
    if off is not None:
        s = I.num(off)
        if s is None or s.cval() is None:
            return I.top('diag')
        k = int(s.cval())
    m, nd, kd = ml
    if nd == 1:
        return off_diag(I, m, k, kd)
    n = m.rows
    if k == 0 and m.rows == m.cols:
        kx = ('bj',)
        B = I.B.copy()
        B.low[kx] = 0
        B.extra.append(n - 1 - Sc.atom(kx))
        return I.alloc(Arr('array' if kd != 'matrix' else 'matrix', 1 if kd != 'matrix' else 2,
                           lift_lam(ONE, n, entry(m, Sc.atom(kx), Sc.atom(kx), B), I.B)))
    return I.top('diagonal')


@ext('numpy.rot90')
def _rot90(I, args, kw):
    ml = mat_like(I, args[0])
    k = I.num(args[1]) if len(args) > 1 else I.num(kw['k']) if 'k' in kw else ONE
    if ml is None or k is None or k.cval() is None or 'axes' in kw:
        return I.top('rot90')
    m = ml[0]
    for _ in range(int(k.cval()) % 4):
        m = amul(I, mexch(m.cols), mT(m))
    return I.alloc(Arr(ml[2] or 'array', 2, m))


@ext('numpy.fliplr')
def _fliplr(I, args, kw):
    ml = mat_like(I, args[0])
    if ml is None:
        return I.top('fliplr')
    if ml[1] == 1:
        I.raise_('ValueError', Const('Input must be >= 2-d.'), flag='ndim')
    return I.alloc(Arr(ml[2] or 'array', 2, amul(I, ml[0], mexch(ml[0].cols))))


@ext('numpy.flipud')
def _flipud(I, args, kw):
    ml = mat_like(I, args[0])
    if ml is None:
        return I.top('flipud')
    if ml[1] == 1:
        return I.alloc(Arr('array', 1, amul(I, ml[0], mexch(ml[0].cols))))
    return I.alloc(Arr(ml[2] or 'array', 2, amul(I, mexch(ml[0].rows), ml[0])))


@ext('numpy.flip')
def _flip(I, args, kw):
    ml = mat_like(I, args[0])
    ax = axis_of(args, kw, 1)
    if ml is None:
        return I.top('flip')
    m = ml[0]
    if ax in (None, 0) and ml[1] == 2:
        m = amul(I, mexch(m.rows), m)
    if ax in (None, 1) or ml[1] == 1:
        m = amul(I, m, mexch(m.cols))
    return I.alloc(Arr(ml[2] or 'array', ml[1], m))


@ext('numpy.transpose')
def _transpose(I, args, kw):
    ml = mat_like(I, args[0])
    if ml is None:
        return I.top('transpose')
    if is_arr(I, args[0]):
        return arr_method(I, args[0], I.obj(args[0]), 'transpose', [], {})
    return I.alloc(Arr('array', ml[1], ml[0] if ml[1] == 1 else mT(ml[0])))


@ext('numpy.dot', 'numpy.matmul')
def _dot(I, args, kw):
    if is_arr(I, args[0]) and is_arr(I, args[1]):
        oa, ob = I.obj(args[0]), I.obj(args[1])
        if oa.nd == 2 and ob.nd == 2:
            kd = 'matrix' if 'matrix' in (oa.kind, ob.kind) else 'array'
            return I.alloc(Arr(kd, 2, amul(I, I.arr_mat(args[0]), I.arr_mat(args[1]))))
        return arr_op(I, ast.MatMult(), args[0], args[1])
    if is_arr(I, args[0]) or is_arr(I, args[1]):
        return I.binop(ast.Mult(), args[0], args[1])
    return I.top('dot')


@ext('numpy.multiply')
def _multiply(I, args, kw):
    if is_arr(I, args[0]) and is_arr(I, args[1]):
        oa, ob = I.obj(args[0]), I.obj(args[1])
        ma, mb = I.arr_mat(args[0]), I.arr_mat(args[1])
        r, c = bshape(I, ma, mb)
        ma, mb = I.broadcast(I.N(ma), r, c), I.broadcast(I.N(mb), r, c)
        kd = 'matrix' if 'matrix' in (oa.kind, ob.kind) else 'array'
        return I.alloc(Arr(kd, max(oa.nd, ob.nd), ewise(I, lambda x, y: x * y, ma, mb)))
    return I.binop(ast.Mult(), args[0], args[1])


def wrap2(op):
    def f(I, args, kw):
        return I.binop(op(), args[0], args[1])
    return f


EXT['numpy.add'] = wrap2(ast.Add)
EXT['numpy.subtract'] = wrap2(ast.Sub)
EXT['numpy.divide'] = wrap2(ast.Div)
EXT['operator.add'] = wrap2(ast.Add)
EXT['operator.mul'] = wrap2(ast.Mult)
EXT['operator.sub'] = wrap2(ast.Sub)


def exc_class(name):
    if name == 'LinAlgError':
        import numpy.linalg
        return numpy.linalg.LinAlgError
    k = getattr(builtins, name, None)
    return k if isinstance(k, type) and issubclass(k, BaseException) else None


def may_fail(I, exc, what):
    if I.handled(exc) and I.decide(('fails', what)):
        I.raise_(exc, Const('library failure'), flag='library')


@ext('numpy.linalg.inv')
def _inv(I, args, kw):
    ml = mat_like(I, args[0])
    if ml is None:
        return I.top('inv')
    conform(I, ml[0].rows, ml[0].cols)
    m = I.N(ml[0])
    may_fail(I, 'LinAlgError', ('inv', m))
    return I.alloc(Arr(ml[2] or 'array', 2, minv(m)))


@ext('numpy.linalg.solve')
def _solve(I, args, kw):
    a, b = mat_like(I, args[0]), mat_like(I, args[1])
    if a is None or b is None:
        return I.top('solve')
    conform(I, a[0].rows, a[0].cols)
    A = minv(I.N(a[0]))
    may_fail(I, 'LinAlgError', ('inv', I.N(a[0])))
    if b[1] == 1 and b[2] == 'array':
        return I.alloc(Arr('array', 1, mT(amul(I, A, mT(b[0])))))
    return I.alloc(Arr('matrix' if 'matrix' in (a[2], b[2]) else 'array', 2, amul(I, A, b[0])))


@ext('scipy.linalg.solve_discrete_lyapunov')
def _lyap(I, args, kw):
    a, q = mat_like(I, args[0]), mat_like(I, args[1])
    if a is None or q is None:
        return I.top('lyapunov')
    conform(I, a[0].rows, a[0].cols)
    conform(I, q[0].rows, q[0].cols)
    conform(I, I.N(a[0]).rows, I.N(q[0]).rows)
    may_fail(I, 'LinAlgError', ('lyap', I.N(a[0]), I.N(q[0])))
    # X = A X A' + Q
    A = I.N(a[0])
    return I.alloc(Arr('array', 2, mfn('lyap', A.rows, A.rows, A, I.N(q[0]))))


def X_args(X):
    for a in walk_atoms(X):
        if a[0] == 'fn' and len(a) == 6 and a[3] == 'lyap':
            return a[4], a[5]


@ext('slycot.sb03md')
def _sb03md(I, args, kw):
    names = ['n', 'C', 'A', 'U', 'dico']
    a = dict(zip(names, args))
    a.update(kw)
    A, C = mat_like(I, a['A']), mat_like(I, a['C'])
    if A is None or C is None:
        return I.top('sb03md')
    if I.handled('ValueError') and I.decide(('fails', ('sb03md', A[0], C[0]))):
        # errors of the library carry the LAPACK code
        from .interp import PyRaise
        raise PyRaise(ExcV('ValueError', (Const('library failure'),), 'library', I.where(), {'info': Num(Sc.sym('slycot.info'))}))
    conform(I, A[0].rows, A[0].cols)
    conform(I, C[0].rows, C[0].cols)
    conform(I, I.N(A[0]).rows, I.N(C[0]).rows)
    for x, f in (('n', lambda v: [I.num(v)]), ('U', lambda v: list(mat_like(I, v)[0].shape))):
        for k in f(a[x]) if x in a else ():
            if k is not None:
                conform(I, I.N(A[0]).rows, I.N(k))
    dico = a.get('dico')
    if dico not in (Const('D'), Const('C')):
        return I.top('sb03md')
    tr = a.get('trana', Const('N'))
    m = A[0]
    if tr == Const('T'):
        # trana='T': A X A' - X = C
        X = mfn('lyap', m.rows, m.rows, m, mneg(C[0]))
    elif tr == Const('N'):
        X = mfn('lyap', m.rows, m.rows, mT(m), mneg(C[0]))
    else:
        return I.top('sb03md')
    if dico == Const('C'):      # the equation of continuous systems
        X = mfn('lyapc', m.rows, m.rows, *X_args(X))
    ref = I.alloc(Arr('array', 2, X))
    key = ('sb03md', m, C[0])
    return Tup([ref] + [Opq('sb03md', str(i), *key[1:]) for i in range(1, 5)])


@ext('numpy.prod')
def _prod(I, args, kw):
    m = mat_like(I, args[0]) if is_arr(I, args[0]) else None
    els = I.elements(args[0]) if m is None else None
    if els is not None:
        r = Num(1, 'int')
        for x in els:
            r = I.binop(ast.Mult(), r, x)
        return r
    m = m or mat_like(I, args[0])
    if m is None:
        if is_list(I, args[0]):
            return fnum('prodof', I.vkey(args[0]), k='float')
        return I.top('prod')
    m = m[0]
    k = ('qi',)
    return Num(prod_of(I, flat(I, m)), 'float')


def prod_of(I, row):
    """product of the entries of a 1 x n matrix"""
    row = row.coarsen()
    out = ONE
    for j, c in enumerate(row.cp):
        cell = Mat([ONE], [c], [[row.cells[0][j]]])
        n = c.cval()
        if n is not None and n <= 8:
            for k in range(int(n)):
                out = out * entry(cell, 0, k, I.B)
        else:
            k = fresh('k')
            e = entry(cell, ZERO, Sc.atom(k), I.B)
            if e == ONE:
                continue
            e = subst(e, {k: QI(e)})
            out = out * Sc.atom(('fn', 'prod', c, e))
    return out


@ext('numpy.sum')
def _npsum(I, args, kw):
    if is_arr(I, args[0]):
        return arr_method(I, args[0], I.obj(args[0]), 'sum', args[1:], kw)
    return _sum(I, args[:1], {})


@ext('numpy.trace')
def _nptrace(I, args, kw):
    m = mat_like(I, args[0])
    if m is None:
        return I.top('trace')
    return Num(trace(I, m[0]), 'float')


@ext('numpy.max', 'numpy.min')
def _npmax(I, args, kw):
    m = mat_like(I, args[0])
    if m is None:
        return I.top('max')
    return fnum('arr.max', m[0], k='float')


def _npmin(I, args, kw):
    m = mat_like(I, args[0])
    if m is None:
        return I.top('min')
    return fnum('arr.min', m[0], k='float')


EXT['numpy.min'] = _npmin


def shaped(head, same=True):
    def f(I, args, kw):
        ml = mat_like(I, args[0])
        if ml is None:
            return I.top(head)
        m = ml[0]
        ex = tuple(I.vkey(a) for a in args[1:]) + tuple((k, I.vkey(v)) for k, v in sorted(kw.items()))
        k = (kw.get('k') or (args[1] if len(args) > 1 else Num(ZERO, 'int'))) if head in ('tril', 'triu') else None
        if isinstance(k, Num) and k.s.cval() is not None and (ml[1] or 1) == 2:
            cl = cells(I, I.N(m))
            if cl is not None:
                k = k.s.cval()
                cl = [[v if (j - i <= k if head == 'tril' else j - i >= k) else ZERO for j, v in enumerate(row)] for i, row in enumerate(cl)]
                return I.alloc(Arr(ml[2] or 'array', 2, from_cells(I, cl)))
        return I.alloc(Arr(ml[2] or 'array', ml[1] or 1, mfn(head, m.rows, m.cols, m, *ex)))
    return f


EXT['numpy.tril'] = shaped('tril')
EXT['numpy.triu'] = shaped('triu')


@ext('numpy.vectorize')
def _vectorize(I, args, kw):
    return PartialV(ExtV('numpy.$vmap'), [args[0]], {})


def vmap(I, f, ref):
    o = I.obj(ref)
    m = I.arr_mat(ref)
    bi, bj = Sc.atom(('bi',)), Sc.atom(('bj',))
    I.st.B.low[('bi',)] = 0
    I.st.B.low[('bj',)] = 0
    from .interp import join_sc, PyRaise
    e = entry(m, bi, bj, I.B)
    outs = I.run_paths(lambda: I.call(f, [Num(e, 'mpf' if o.kind == 'mp' else 'float')], {}), 40)
    for x in outs:
        if x.kind == 'raise':
            if I.decide(('exists', 'map', tuple(x.lits))):
                raise PyRaise(x.value)
    oks = [x for x in outs if x.kind == 'ok']
    vals = []
    for x in oks:
        cur = I.st
        I.st = x.st
        try:
            s = I.num(x.value)
        finally:
            I.st = cur
        if s is None:
            return I.top('vectorized function')
        vals.append((x.lits, s))
    if not vals:
        return I.top('vectorized function')
    s = join_sc(vals)
    if s is None:
        return I.top('vectorized function')
    return I.alloc(Arr(o.kind, o.nd, lift_lam(m.rows, m.cols, s, I.B)))


@ext('numpy.$vmap')
def _vmap(I, args, kw):
    if is_arr(I, args[1]):
        return vmap(I, args[0], args[1])
    if args[1] == NONE:         # a 0-d array of objects holding None
        I.call(args[0], [NONE], {})
    return I.top('vectorized function')


@ext('numpy.linalg.norm')
def _norm(I, args, kw):
    m = mat_like(I, args[0])
    if m is None:
        return I.top('norm')
    return fnum('norm', m[0], *[I.vkey(a) for a in args[1:]], k='float')


@ext('numpy.linalg.matrix_rank')
def _rank(I, args, kw):
    m = mat_like(I, args[0])
    if m is None:
        return I.top('rank')
    return fnum('rank', m[0], k='int')


@ext('numpy.linalg.det')
def _det(I, args, kw):
    m = mat_like(I, args[0])
    if m is None:
        return I.top('det')
    return fnum('det', m[0], k='float')


@ext('numpy.linalg.eigvals')
def _eigvals(I, args, kw):
    m = mat_like(I, args[0])
    if m is None:
        return I.top('eigvals')
    may_fail(I, 'LinAlgError', ('eig', m[0]))
    return I.alloc(Arr('array', 1, mfn('eigvals', ONE, m[0].rows, m[0])))


@ext('numpy.count_nonzero')
def _cnz(I, args, kw):
    m = mat_like(I, args[0])
    if m is None:
        return I.top('count_nonzero')
    return fnum('cnz', m[0], k='int')


@ext('numpy.array_equal')
def _array_equal(I, args, kw):
    a, b = mat_like(I, args[0]), mat_like(I, args[1])
    if a is None or b is None:
        return I.top('array_equal')
    x, y = a[0], b[0]
    try:
        if mat_equal(x, y, I.B):
            return TRUE
    except Incomparable:
        pass
    if rkey(x) > rkey(y):
        x, y = y, x
    return CondV(('mateq', x, y))


@ext('numpy.delete')
def _delete(I, args, kw):
    ml = mat_like(I, args[0])
    ax = axis_of(args, kw, 2)
    i = I.num(args[1]) if not is_list(I, args[1]) else None
    if ml is None or ax is None or i is None:
        return I.top('delete')
    m = ml[0]
    i = I.N(i)
    try:
        if ax == 0:
            r = mvstack([submat(m, 0, i, 0, m.cols, I.B), submat(m, i + 1, m.rows, 0, m.cols, I.B)], I.B)
        else:
            r = mhstack([submat(m, 0, m.rows, 0, i, I.B), submat(m, 0, m.rows, i + 1, m.cols, I.B)], I.B)
    except (Incomparable, ShapeError):
        r = mfn('delete', m.rows - (1 if ax == 0 else 0), m.cols - (1 if ax == 1 else 0), m, i, sc(ax))
    return I.alloc(Arr(ml[2] or 'array', 2, r))


@ext('numpy.convolve')
def _convolve(I, args, kw):
    a, b = mat_like(I, args[0]), mat_like(I, args[1])
    if a is None or b is None or len(args) > 2 or kw:
        return I.top('convolve')
    x, y = a[0], b[0]
    if a[1] == 2 and a[2] is not None or b[1] == 2 and b[2] is not None:
        if a[2] == 'matrix' or b[2] == 'matrix' or a[1] == 2 or b[1] == 2:
            I.raise_('ValueError', Const('object too deep for desired array'), flag='ndim')
    return I.alloc(Arr('array', 1, conv(x, y)))


def conv(x, y):
    if x.cols == ONE:
        return mscale(y, entry(x, 0, 0, NBOUND))
    if y.cols == ONE:
        return mscale(x, entry(y, 0, 0, NBOUND))
    if rkey(x) > rkey(y):
        x, y = y, x
    return mfn('conv', ONE, x.cols + y.cols - 1, x, y)


NBOUND = Bounds()


@ext('numpy.polymul')
def _polymul(I, args, kw):
    a, b = mat_like(I, args[0]), mat_like(I, args[1])
    if a is None or b is None:
        return Opq('call', ExtV('numpy.polymul'), *[I.vkey(x) for x in args])
    # leading zero coefficients are dropped: the length is not the sum of the lengths
    ks = sorted([a[0], b[0]], key=rkey)
    n = Sc.atom(('fn', 'polylen', '*', ks[0], ks[1]))
    I.st.B.low[('fn', 'polylen', '*', ks[0], ks[1])] = 1
    return I.alloc(Arr('array', 1, mfn('polymul', ONE, n, ks[0], ks[1])))


@ext('numpy.polyadd', 'numpy.polysub')
def _polyadd(I, args, kw):
    a, b = mat_like(I, args[0]), mat_like(I, args[1])
    if a is None or b is None:
        return Opq('call', ExtV('numpy.polyadd'), *[I.vkey(x) for x in args])
    if a[0].cols == b[0].cols:
        return I.alloc(Arr('array', 1, aadd(I, a[0], b[0])))
    n = Sc.atom(('fn', 'max', *sorted([a[0].cols, b[0].cols], key=rkey)))
    I.st.B.low[('fn', 'max', *sorted([a[0].cols, b[0].cols], key=rkey))] = 0
    # aligned on the last coefficient
    return I.alloc(Arr('array', 1, mfn('polyadd', ONE, n, *sorted([a[0], b[0]], key=rkey))))


@ext('numpy.pad')
def _pad(I, args, kw):
    ml = mat_like(I, args[0])
    w = args[1] if len(args) > 1 else kw.get('pad_width')
    mode = args[2] if len(args) > 2 else kw.get('mode', Const('constant'))
    if ml is None or mode != Const('constant') or 'constant_values' in kw:
        return I.top('pad')
    els = I.elements(w) if (isinstance(w, Tup) or is_list(I, w)) else None
    if els is None:
        return I.top('pad')
    m = ml[0]
    if ml[1] == 1 and len(els) == 2 and all(I.num(x) is not None for x in els):
        a, b = I.N(I.num(els[0])), I.N(I.num(els[1]))
        return I.alloc(Arr('array', 1, mhstack([mzero(1, a), m, mzero(1, b)], I.B)))
    if ml[1] == 2 and len(els) == 2:
        pr = [[I.num(y) for y in (I.elements(x) or [])] for x in els]
        if all(len(p) == 2 and all(y is not None for y in p) for p in pr):
            (t, bt), (l, r) = pr
            x = mhstack([mzero(m.rows, l), m, mzero(m.rows, r)], I.B)
            x = mvstack([mzero(t, x.cols), x, mzero(bt, x.cols)], I.B)
            return I.alloc(Arr(ml[2] or 'array', 2, x))
    return I.top('pad')


@ext('numpy.kron')
def _kron(I, args, kw):
    a, b = mat_like(I, args[0]), mat_like(I, args[1])
    if a is None or b is None:
        return I.top('kron')
    ro, co = I.N(a[0].rows), I.N(a[0].cols)
    if ro.is_const() and co.is_const() and 0 < ro.cval() * co.cval() <= 16:
        # one block per entry
        x = mvstack([mhstack([mscale(b[0], entry(a[0], sc(i), sc(j), I.B)) for j in range(int(co.cval()))], I.B)
                     for i in range(int(ro.cval()))], I.B)
        return I.alloc(Arr('matrix' if 'matrix' in (a[2], b[2]) else 'array', 2, x))
    return I.alloc(Arr('matrix' if 'matrix' in (a[2], b[2]) else 'array', 2,
                       mfn('kron', a[0].rows * b[0].rows, a[0].cols * b[0].cols, a[0], b[0])))


@ext('numpy.set_printoptions')
def _spo(I, args, kw):
    I.st.glob['printoptions'] = Opq('set', *[(k, I.vkey(v)) for k, v in sorted(kw.items())])
    I.st.effects.append(('ambient', 'printoptions', None, '', I.where()))
    return NONE


@ext('numpy.get_printoptions')
def _gpo(I, args, kw):
    return Opq('printoptions')


@ext('numpy.printoptions')
def _po(I, args, kw):
    return Opq('ctx', 'printoptions')


@ext('numpy.poly')
def _poly(I, args, kw):
    ml = mat_like(I, args[0]) if len(args) == 1 else None
    if ml is not None and ml[1] == 1:
        k = ml[0].cols.cval()
        if k is None or k > 8:
            return I.alloc(Arr('array', 1, mhstack([meye(1), mfn('polyroots', ONE, ml[0].cols, ml[0])], I.B)))
        p = [ONE]
        for i in range(int(k)):
            r = entry(ml[0], ZERO, sc(i), I.B)
            p = [x - y * r for x, y in zip(p + [ZERO], [ZERO] + p)]
        return I.alloc(Arr('array', 1, mhstack([mscalar(x) for x in p], I.B)))
    if ml is None or ml[1] != 2 or (ml[0].rows - ml[0].cols).t:
        return I.top('poly')
    return I.alloc(Arr('array', 1, poly_of(I, ml[0])))


def poly_of(I, A):
    """coefficients of det(xI - A), highest power first"""
    return mhstack([meye(1), mfn('poly', ONE, A.rows, A)], I.B)


@ext('scipy.signal.tf2ss')
def _tf2ss(I, args, kw):
    from .interp import norm_sign
    nu, de = [mat_like(I, a) for a in args[:2]] if len(args) == 2 and not kw else (None, None)
    if nu is not None and de is not None and nu[0].rows == ONE and de[0].rows == ONE:
        num, den = nu[0], de[0]
        K, M = den.cols, num.cols
        if not I.decide(('lt0', K - M)):
            # normalised by the leading coefficient (assumed not null), numerator aligned on the lowest power
            if I.decide(('eq0', norm_sign(entry(den, ZERO, ZERO, I.B)))):
                I.raise_('ValueError', Const('Denominator must have at least on nonzero element.'), flag='external')
            k = entry(den, ZERO, ZERO, I.B).inv()
            num, den = mscale(num, k), mscale(den, k)
            if (K - M).t:
                num = mhstack([mzero(1, K - M), num], I.B)
            d0 = entry(num, ZERO, ZERO, I.B)
            a = submat(den, ZERO, ONE, ONE, K, I.B)
            n = K - 1
            if I.decide(('eq0', norm_sign(n))):
                ms = [mzero(1, 1), mzero(1, 1), mzero(1, 1), mscalar(d0)]
            else:
                ms = [mvstack([mneg(a), mhstack([meye(n - 1), mzero(n - 1, 1)], I.B)], I.B),
                      mvstack([meye(1), mzero(n - 1, 1)], I.B),
                      madd(submat(num, ZERO, ONE, ONE, K, I.B), mscale(a, d0), I.B, -ONE), mscalar(d0)]
            return Tup([I.alloc(Arr('array', 2, m)) for m in ms])
        I.raise_('ValueError', Const('Improper transfer function. `num` is longer than `den`.'), flag='external')
    k = tuple(I.vkey(a) for a in args)
    out = []
    for i, nm in enumerate('ABCD'):
        a = Opq('tf2ss', nm, *k)
        I.st.B.low[('fn', 'rows', a)] = 0
        I.st.B.low[('fn', 'cols', a)] = 0
        out.append(I.alloc(Arr('array', 2, mfn('asmat', Sc.atom(('fn', 'rows', a)), Sc.atom(('fn', 'cols', a)), a))))
    return Tup(out)


@ext('scipy.signal.ss2tf')
def _ss2tf(I, args, kw):
    ms = [mat_like(I, a) for a in args] if len(args) == 4 and not kw else [None]
    if all(m is not None for m in ms):
        A, B, C, D = [m[0] for m in ms]
        for x, y in ((A.rows, A.cols), (B.rows, A.rows), (C.cols, A.rows), (D.rows, C.rows), (D.cols, B.cols)):
            conform(I, x, y)
        A, B, C, D = [I.N(x) for x in (A, B, C, D)]
        one = lambda x: not (x - ONE).t
        if one(D.rows) and one(D.cols) and one(B.cols) and one(C.rows):
            den = poly_of(I, A)
            num = madd(poly_of(I, madd(A, mmul(B, C, I.B), I.B, -ONE)),
                       mscale(den, entry(D, ZERO, ZERO, I.B) - ONE), I.B)
            return Tup([I.alloc(Arr('array', 2, num)), I.alloc(Arr('array', 1, den))])
        return Tup([I.alloc(Arr('array', 2, mfn('ss2tf', D.rows, A.rows + 1, A, B, C, D))), I.alloc(Arr('array', 1, poly_of(I, A)))])
    k = tuple(I.vkey(a) for a in args)
    return Tup([Opq('ss2tf', 'num', *k), Opq('ss2tf', 'den', *k)])


# ------------------------------------------------------------------ mpmath
@ext('mpmath.zeros', 'mpmath.ones')
def _mpz(I, args, kw):
    raise NotImplementedError


def mp_fill(val):
    def f(I, args, kw):
        ns = []
        if len(args) == 1 and isinstance(args[0], Tup):
            args = list(args[0].items)
        for a in list(args) + [kw[k] for k in ('m', 'n') if k in kw]:
            s = I.num(a)
            if s is None or isinstance(a, Opq):
                return I.top('matrix of unknown size')
            ns.append(I.N(s))
        r, c = ns[0], ns[-1]
        return I.alloc(Arr('mp', 2, mzero(r, c) if val == 0 else mones(r, c)))
    return f


EXT['mpmath.zeros'] = mp_fill(0)
EXT['mpmath.ones'] = mp_fill(1)


@ext('mpmath.eye')
def _mpeye(I, args, kw):
    s = I.num(args[0])
    if s is None:
        return I.top('eye')
    s = I.N(s)
    return I.alloc(Arr('mp', 2, meye(s) if s.t else mzero(0, 0)))


@ext('mpmath.matrix')
def _mpmatrix(I, args, kw):
    if len(args) == 2:
        return mp_fill(0)(I, args, kw)
    a = args[0] if args else NONE
    if isinstance(a, Num):
        return mp_fill(0)(I, [a, a], kw)
    if is_arr(I, a):
        m = I.arr_mat(a)
        o = I.obj(a)
        if o.nd == 1:
            m = mT(m)
        return I.alloc(Arr('mp', 2, m))    # entries are converted losslessly
    ml = mat_like(I, a)
    if ml is None:
        if isinstance(a, Opq) and not a.is_top():
            I.st.B.low[('fn', 'rows', a)] = 0
            I.st.B.low[('fn', 'cols', a)] = 0
            return I.alloc(Arr('mp', 2, mfn('asmat', Sc.atom(('fn', 'rows', a)), Sc.atom(('fn', 'cols', a)), a)))
        return I.top('mpmath matrix')
    m = ml[0]
    if ml[1] == 1:
        m = mT(m)
    return I.alloc(Arr('mp', 2, m))


def is_const_mat(m):
    return all(k.is_const() for r in m.cells for c in r for k in c.d.values()) and all(not w for r in m.cells for c in r for w in c.d)


@ext('mpmath.mpmathify', 'mpmath.convert')
def _mpconvert(I, args, kw):
    r0 = I.rounding
    I.rounding = False      # lossless for numbers
    try:
        return _mpf(I, args, kw)
    finally:
        I.rounding = r0


@ext('mpmath.mpf')
def _mpf(I, args, kw):
    if not args:
        return Num(0, 'mpf')
    a = args[0]
    if is_arr(I, a) or is_list(I, a) or isinstance(a, Const) and a.v is None:
        I.raise_('TypeError', Const('cannot create mpf'), flag='operand')
    if isinstance(a, Const) and isinstance(a.v, str):
        try:
            return Num(Fraction(a.v), 'mpf')
        except (ValueError, ZeroDivisionError):
            return Opq('mpf', a)
    if isinstance(a, Tup):
        ss = [I.num(x) for x in a.items]
        if len(ss) == 2 and all(s is not None for s in ss):
            return Num(I.rnd(I.N(ss[0]) * I.N(num_op(I, ast.Pow(), sc(2), ss[1], 'int', 'int').s), 'mpf'), 'mpf')
        return Opq('mpf', I.vkey(a))
    s = I.num(a)
    if s is None:
        if isinstance(a, StrV):
            return fnum('mpf', a, k='mpf')
        return fnum('mpf', I.vkey(a), k='mpf')
    if I.rounding and 'prec' in kw:
        return Num(Sc.atom(('fn', 'rndp', I.N(s), I.vkey(kw['prec']))), 'mpf')
    return Num(I.rnd(I.N(s), 'mpf'), 'mpf')


@ext('mpmath.mpc')
def _mpc(I, args, kw):
    return Opq('mpc', *[I.vkey(a) for a in args])


def mpop(op):
    def f(I, args, kw):
        a, b = args[0], args[1]
        for v in (a, b):
            if is_arr(I, v) or is_list(I, v) or isinstance(v, Const) and not isinstance(v.v, bool):
                I.raise_('TypeError', Const('mpmath scalar operation on a non-number'), flag='operand')
        x, y = I.num(a), I.num(b)
        if x is None or y is None:
            return I.top('mpmath operation')
        ex = kw.get('exact')
        r0 = I.rounding
        if ex is not None and isinstance(ex, Const) and ex.v is True:
            if op is ast.Div:
                I.raise_('ValueError', Const('division is not an exact operation'), flag='exact-div')
            I.rounding = False
        elif 'prec' in kw or 'dps' in kw or 'rounding' in kw:
            p = kw.get('prec', kw.get('dps'))
            if isinstance(p, Opq) and p.k[0] == 'const' or isinstance(p, Const) and p.v in ('inf',):
                I.rounding = False
        try:
            r = num_op(I, op(), x, y, 'mpf', 'mpf')
            if I.mround and 'prec' in kw and not I.rounding and I.num(kw['prec']) is not None:
                r = Num(Sc.atom(('fn', 'mround', I.N(r.s), I.vkey(kw['prec']), I.vkey(kw.get('rounding', Const('n'))))), 'mpf')
            return r
        finally:
            I.rounding = r0
    return f


EXT['mpmath.fadd'] = mpop(ast.Add)
EXT['mpmath.fsub'] = mpop(ast.Sub)
EXT['mpmath.fmul'] = mpop(ast.Mult)
EXT['mpmath.fdiv'] = mpop(ast.Div)


@ext('mpmath.fneg')
def _fneg(I, args, kw):
    s = I.num(args[0])
    if s is None:
        return I.top('fneg')
    ex = kw.get('exact') == TRUE
    return Num(-I.N(s) if ex else I.rnd(-I.N(s), 'mpf'), 'mpf')


@ext('mpmath.fsum')
def _fsum(I, args, kw):
    r0 = I.rounding
    I.rounding = False
    try:
        r = _sum(I, args[:1], {})
    finally:
        I.rounding = r0
    if isinstance(r, Num):
        return Num(I.rnd(r.s, 'mpf'), 'mpf')
    return r


@ext('mpmath.fdot')
def _fdot(I, args, kw):
    r0 = I.rounding
    I.rounding = False
    try:
        if len(args) == 2:
            a, b = mat_like(I, args[0]), mat_like(I, args[1])
            if a is None or b is None:
                return I.top('fdot')
            k = fresh('s')
            ma, mb = [mT(x[0]) if x[0].cols == ONE and x[0].rows != ONE else x[0] for x in (a, b)]
            with_idx(I, k, ma.cols)
            s = mk_sum(k, ma.cols, entry(ma, ZERO, Sc.atom(k), I.B) * entry(mb, ZERO, Sc.atom(k), I.B))
        else:
            ps = I.elements(args[0])
            if ps is None:
                return I.top('fdot')
            s = ZERO
            for p in ps:
                e = I.elements(p)
                if e is None or len(e) != 2:
                    return I.top('fdot')
                x, y = I.num(e[0]), I.num(e[1])
                if x is None or y is None:
                    return I.top('fdot')
                s = s + I.N(x) * I.N(y)
    finally:
        I.rounding = r0
    return Num(I.rnd(s, 'mpf'), 'mpf')


@ext('mpmath.nsum')
def _nsum(I, args, kw):
    f, b = args[0], args[1]
    els = I.elements(b)
    if els is None or len(els) != 2:
        return I.top('nsum')
    lo, hi = I.num(els[0]), I.num(els[1])
    if lo is None or hi is None:
        return I.top('nsum')
    lo, hi = I.N(lo), I.N(hi)
    k = fresh('s')
    N = hi - lo + 1
    with_idx(I, k, N)
    v = I.call(f, [Num(lo + Sc.atom(k), 'int')], {})
    s = I.num(v)
    if s is None:
        return I.top('nsum')
    return Num(I.rnd(mk_sum(k, N, s), 'mpf'), 'mpf')


@ext('mpmath.inverse')
def _mpinv(I, args, kw):
    ml = mat_like(I, args[0])
    if ml is None:
        return I.top('inverse')
    conform(I, ml[0].rows, ml[0].cols)
    may_fail(I, 'ZeroDivisionError', ('inv', I.N(ml[0])))
    return I.alloc(Arr('mp', 2, I.rnd_mat(minv(I.N(ml[0])), 'mp')))


EXT['mpmath.workprec'] = lambda I, args, kw: Opq('ctx', 'prec', I.vkey(args[0]))
EXT['mpmath.extraprec'] = lambda I, args, kw: Opq('ctx', 'prec', I.vkey(I.binop(ast.Add(), cur_prec(I), args[0])))
EXT['mpmath.workdps'] = lambda I, args, kw: Opq('ctx', 'prec', Opq('fromdps', I.vkey(args[0])))
EXT['builtins.open'] = lambda I, args, kw: Opq('file', *[I.vkey(a) for a in args])
EXT['builtins.id'] = lambda I, args, kw: Opq('id', I.vkey(args[0]))
EXT['builtins.NotImplemented'] = None
del EXT['builtins.NotImplemented']
EXT['builtins.object'] = lambda I, args, kw: Opq('object')
EXT['builtins.object.__init__'] = lambda I, args, kw: NONE
EXT['warnings.warn'] = lambda I, args, kw: NONE
EXT['sys.exit'] = None
del EXT['sys.exit']


@ext('sys.exit', 'builtins.exit')
def _exit(I, args, kw):
    I.raise_('SystemExit', *args)


@ext('os.chdir')
def _chdir(I, args, kw):
    I.st.glob['cwd'] = I.vkey(args[0])
    I.st.effects.append(('ambient', 'cwd', None, '', I.where()))
    return NONE


# ================================================================== Sollya (optional): numbers of arbitrary precision
@ext('sollya.SollyaObject')
def _sollya(I, args, kw):
    s = I.num(args[0]) if args else None
    if s is None:
        return Opq('call', ExtV('sollya.SollyaObject'), *[I.vkey(a) for a in args])
    return Num(I.N(s))


@ext('sollya.round')
def _sollya_round(I, args, kw):
    s = I.num(args[0]) if args else None
    if s is None or len(args) != 3:
        return Opq('call', ExtV('sollya.round'), *[I.vkey(a) for a in args])
    return Num(Sc.atom(('fn', 'sround', I.N(s), I.vkey(args[1]), I.vkey(args[2]))))
