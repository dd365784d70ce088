#!/usr/bin/env python3
"""mutate.py CHECK[,CHECK] FILE[:func,func] ... : mutants of the named functions, which of them the checks report.
Development aid only (not registered in MANIFEST)."""
import ast
import warnings
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

warnings.simplefilter("ignore")
REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = [set('ABCD'), set('JKLMNPQRS'), {'n', 'p', 'q', 'l'}, {'_n', '_p', '_q', '_l'}, {'AZ', 'BZ', 'CZ', 'DZ'},
        {'_A', '_B', '_C', '_D'}, {'rows', 'cols'}, {'_M1', '_M2'}, {'_N1', '_N2'}, {'num', 'den'}, {'_num', '_den'},
        {'Wo', 'Wc'}, {'n1', 'n2'}, {'p1', 'p2'}, {'q1', 'q2'}, {'i', 'j', 'k'}, {'min', 'max'}, {'floor', 'ceil'}, {'append', 'insert'}]


def mutants(src, funcs):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    b = src.encode()
    for l in src.encode().split(b'\n'):
        offs.append(offs[-1] + len(l) + 1)

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = pos(n)
        return b[s:e]
    out = []

    def rep(n, new, what):
        s, e = pos(n)
        if isinstance(new, str):
            new = new.encode()
        if b[s:e] != new:
            out.append((b[:s] + new + b[e:], '%s:%d %s -> %s' % (what, n.lineno, b[s:e].decode()[:70], new.decode()[:70])))

    def visit(f):
        for n in ast.walk(f):
            if isinstance(n, ast.BinOp):
                ops = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.Mod: None, ast.Pow: '*', ast.FloorDiv: '+'}
                o = ops.get(type(n.op))
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                if o:
                    rep(n, b'(' + seg(n.left) + b')' + o.encode() + b'(' + seg(n.right) + b')', 'op')
                if isinstance(n.op, (ast.Mult, ast.Sub, ast.Div)):
                    sym = {ast.Mult: b'*', ast.Sub: b'-', ast.Div: b'/'}[type(n.op)]
                    rep(n, b'(' + seg(n.right) + b')' + sym + b'(' + seg(n.left) + b')', 'swap')
                rep(n, seg(n.left), 'left')
            elif isinstance(n, ast.UnaryOp):
                rep(n, b'(' + seg(n.operand) + b')', 'unary')
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                alt = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is',
                       ast.In: 'not in', ast.NotIn: 'in'}
                o = alt[type(n.ops[0])]
                rep(n, seg(n.left) + b' ' + o.encode() + b' ' + seg(n.comparators[0]), 'cmp')
            elif isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    rep(n, str(not n.value), 'bool')
                elif isinstance(n.value, int):
                    rep(n, str(n.value + 1), 'const')
                    if n.value > 0:
                        rep(n, str(n.value - 1), 'const')
            elif isinstance(n, ast.Attribute):
                for g in SWAP:
                    if n.attr in g:
                        for x in sorted(g - {n.attr}):
                            rep(n, seg(n.value) + b'.' + x.encode(), 'attr')
                if n.attr in ('T', 'transpose'):
                    rep(n, seg(n.value), 'noT')
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for g in SWAP:
                    if n.id in g:
                        for x in sorted(g - {n.id}):
                            rep(n, x, 'name')
            elif isinstance(n, ast.Call):
                if len(n.args) >= 2:
                    a, c = n.args[0], n.args[1]
                    s, e = pos(a)[0], pos(c)[1]
                    out.append((b[:s] + seg(c) + b', ' + seg(a) + b[e:], 'args:%d %s' % (n.lineno, seg(n).decode()[:80])))
                if isinstance(n.func, ast.Attribute) and n.func.attr == 'transpose' and not n.args:
                    rep(n, seg(n.func.value), 'noT')
                if isinstance(n.func, ast.Name) and n.func.id in ('copy', 'deepcopy', 'list', 'abs', 'matrix', 'mat') and len(n.args) == 1:
                    rep(n, seg(n.args[0]), 'nocall')
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
                a, c = n.slice.elts
                s, e = pos(a)[0], pos(c)[1]
                out.append((b[:s] + seg(c) + b', ' + seg(a) + b[e:], 'idx:%d %s' % (n.lineno, seg(n).decode()[:80])))
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    continue
                rep(n, 'pass', 'del')
                if isinstance(n, ast.AugAssign):
                    rep(n, seg(n.target) + b' = ' + seg(n.value), 'aug')
            elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
                rep(n.test, b'not (' + seg(n.test) + b')', 'neg')
            elif isinstance(n, ast.BoolOp):
                sym = b' or ' if isinstance(n.op, ast.And) else b' and '
                rep(n, b'(' + sym.join(b'(' + seg(v) + b')' for v in n.values) + b')', 'bool')
                for v in n.values:
                    rep(n, b'(' + seg(v) + b')', 'boolpart')
            elif isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) >= 2 and isinstance(n.ctx, ast.Load):
                a, c = n.elts[0], n.elts[1]
                if seg(a) != seg(c):
                    s, e = pos(a)[0], pos(c)[1]
                    out.append((b[:s] + seg(c) + b', ' + seg(a) + b[e:], 'elts:%d %s' % (n.lineno, seg(n).decode()[:80])))
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and (not funcs or n.name in funcs):
            visit(n)
    seen, res = set(), []
    for s, w in out:
        if s in seen:
            continue
        seen.add(s)
        try:
            ast.parse(s)
        except SyntaxError:
            continue
        res.append((s, w))
    return res


def main():
    checks = sys.argv[1].split(',')
    step = int(os.environ.get('STEP', '1'))
    jobs = []
    for spec in sys.argv[2:]:
        f, _, fn = spec.partition(':')
        src = open(os.path.join(REPO, f)).read()
        for s, w in mutants(src, set(fn.split(',')) if fn else None)[::step]:
            jobs.append((f, s, w))
    print(len(jobs), 'mutants')
    nw = 8
    dirs = []
    base = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    for i in range(nw):
        d = os.path.join(base, str(i))
        os.makedirs(d)
        shutil.copytree(os.path.join(REPO, 'fixif'), os.path.join(d, 'fixif'))
        dirs.append(d)
    import queue
    q = queue.Queue()
    for d in dirs:
        q.put(d)

    def one(j):
        f, s, w = j
        d = q.get()
        p = os.path.join(d, f)
        old = open(p, 'rb').read()
        try:
            open(p, 'wb').write(s)
            res = []
            for c in checks:
                r = subprocess.run(['/opt/venv/bin/python', os.path.join(VERIF, 'run.py'), c], capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_JOBS='1', FIXIF_REPO=d, VERIF_EVIDENCE=os.path.join(d, 'ev')))
                res.append((c, r.returncode, r.stdout.strip().split('\n')[-1][:160] if r.returncode not in (0, 1) else ''))
            return w, f, res
        finally:
            open(p, 'wb').write(old)
            q.put(d)
    caught = 0
    with ThreadPoolExecutor(nw) as ex:
        for w, f, res in ex.map(one, jobs):
            if any(r[1] == 1 for r in res):
                caught += 1
                if os.environ.get('ALL'):
                    print('caught  ', os.path.basename(f), w, [r[0] for r in res if r[1] == 1])
            else:
                print('SURVIVED', os.path.basename(f), w, [r for r in res if r[1] != 0] or '')
    print('%d of %d caught' % (caught, len(jobs)))
    shutil.rmtree(base)


main()
