"""C16: generated files, their templates and their callers agree"""
import ast
import inspect
import os
import re
from ..spec import *
from ..values import *
from ..dom import *
from ..program import ext_object
from .c15 import Real, instrument, the_filter, REF, pieces
from .c20 import sollya, tag, is_tag, mode, seq, explicit

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of the code that opens resources, fills templates and calls foreign functions: the paths are evaluated to constants and looked up '
               'in the tree, the values given to each template are compared with its placeholders, the parameters given to the compiled function with the signature '
               'generated for the same realization, and the lists exchanged with Sollya are compared element by element; sites not reached by an entry are listed')
I_ = 'fixif.SIF.Realization_implementation'
F_ = 'fixif.SIF.Realization_FxP'
OPENERS = ('open', 'execute', 'FileSystemLoader', 'CDLL', 'LoadLibrary', 'get_template')
SRC = '''
class File:
	def __init__(self, path, mode):
		self.path = path
		self.mode = mode
	def __enter__(self):
		return self
	def __exit__(self, a, b, c):
		pass
	def read(self):
		return content(self.path)
	def write(self, text):
		wrote(self.path, text)
	def writelines(self, ts):
		for t in ts:
			wrote(self.path, t)
	def close(self):
		pass

class Line:
	def decode(self, *a):
		return ''
	def __bool__(self):
		return False

class Pipe:
	def readline(self):
		return Line()
	def read(self):
		return Line()
	def __iter__(self):
		return iter([])
	def close(self):
		pass

class Process:
	def __init__(self):
		self.stderr = Pipe()
		self.stdout = Pipe()
		self.returncode = 0
	def wait(self, *a, **kw):
		return 0
	def poll(self):
		return 0
	def communicate(self, *a, **kw):
		return Line(), Line()

class CFun:
	def __init__(self, name):
		self.fname = name
		self.restype = 'int'
		self.argtypes = None
	def __call__(self, *args):
		return called(self, args)

class Library:
	def __init__(self, path):
		self.path = path
	def __getattr__(self, name):
		return function(name)
	def __getitem__(self, name):
		return function(name)

class Unique:
	def __init__(self):
		self.hex = unique()
	def __str__(self):
		return '%s' % self.hex

class Template:
	def __init__(self, text):
		self.text = text
	def substitute(self, *a, **kw):
		for d in a:
			kw.update(d)
		return filled(self.text, kw)
	safe_substitute = substitute

def unique():
	return ''
def content(p):
	return ''
def wrote(p, t):
	pass
def called(f, args):
	return None
def function(n):
	return None
def filled(t, kw):
	return ''
'''


def check(R):
    R.rule('resources', 'every resource is found at the path the code computes, from any working directory')
    R.rule('placeholders', 'every placeholder of a template is supplied, every value supplied is used')
    R.rule('signature', 'the compiled function is declared and called with the types, the number and the order of its parameters')
    R.rule('samples', 'each sample is given to and taken from the compiled function once, in order, with the states kept')
    R.rule('exchange', 'matrices are exchanged with external tools row by row')
    R.rule('procedure', 'Sollya procedures are called with the parameters they declare')
    R.rule('data', 'AMPL data are those of the model, with its names and indices')
    R.case('gabarit.sol', lambda c: script(c, 'gabarit'))
    R.case('wcpg.sol', lambda c: script(c, 'wcpg'))
    for size in ((0, 1, 1, 1), (1, 2, 1, 1), (0, 2, 2, 1), (1, 2, 1, 2), (2, 1, 2, 2), (1, 1, 1, 3), (1, 1, 3, 1)):
        for fn in ('implementCdouble', 'algorithmLaTeX'):
            R.case('%s %s' % (fn, size), lambda c: templates(c, size, fn))
        R.case('make %s' % (size,), lambda c: make(c, size))
        for N in (1, 2, 3):
            R.case('run %s on %d samples' % (size, N), lambda c: run(c, size, N))
    for sh in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)):
        R.case('to Sollya %s' % (sh,), lambda c: to_sollya(c, sh))
        R.case('from Sollya %s' % (sh,), lambda c: from_sollya(c, sh))
        R.case('printed %s' % (sh,), lambda c: printed(c, sh))
        for fmt in ('%f', '%d', None):
            R.case('AMPL parameter %s %s' % (sh, fmt), lambda c: param(c, sh, fmt))
    for sh in ((12, 2), (2, 12), (12, 1), (1, 12), (11, 11)):
        R.case('AMPL parameter %s' % (sh,), lambda c: param(c, sh, '%f'))
        R.case('to Sollya %s' % (sh,), lambda c: to_sollya(c, sh))
        R.case('from Sollya %s' % (sh,), lambda c: from_sollya(c, sh))
    R.case('AMPL integer', integer)
    for l, n, p in ((0, 1, 1), (1, 1, 1), (1, 2, 1), (0, 1, 2), (1, 2, 2), (0, 2, 3)):
        R.case('AMPL data l=%d n=%d p=%d' % (l, n, p), lambda c: ampl(c, l, n, p))
    R.join()
    sites(R)


# ------------------------------------------------------------------ resources
def paths(c, opened):
    """files and paths as constants"""
    h = c.I.hooks

    def const(f):
        def g(I, a, kw):
            if all(isinstance(x, Const) and isinstance(x.v, str) for x in a):
                return Const(f(*[x.v for x in a]))
        return g
    for lib in ('os.path', 'posixpath'):
        for nm in ('join', 'dirname', 'abspath', 'normpath', 'basename', 'realpath'):
            if nm in ('abspath', 'realpath'):
                # a relative path would be made absolute from the working directory: it stays relative here
                h[('ext', '%s.%s' % (lib, nm))] = const(os.path.normpath)
            else:
                h[('ext', '%s.%s' % (lib, nm))] = const(getattr(os.path, nm))

    def getfile(I, a, kw):
        if isinstance(a[0], ClassV):
            return Const(os.path.abspath(a[0].c.mod.path))
        if isinstance(a[0], ModV):
            return Const(os.path.abspath(c.P.modules[a[0].name].path))
        if isinstance(a[0], FuncV):
            return Const(os.path.abspath(a[0].mod.path))
    h[('ext', 'inspect.getfile')] = getfile

    def resource(I, a, kw):
        if len(a) == 2 and all(isinstance(x, Const) for x in a):
            d = os.path.join(c.P.root, *a[0].v.split('.'))
            if not os.path.isdir(d):
                I.raise_('ModuleNotFoundError', Const(a[0].v), flag='missing')
            return Const(os.path.join(d, a[1].v))
    h[('ext', 'pkg_resources.resource_filename')] = resource
    K = {n: c.ref(SRC, n) for n in ('File', 'Process', 'CFun', 'Library', 'Template', 'Unique')}

    def record(kind, pos=0, ret=None):
        def g(I, a, kw):
            opened.append((kind, a[pos] if len(a) > pos else None, I.where(), [x for x in a], dict(kw)))
            I.st.effects.append(('opened', kind, len(opened) - 1))
            return ret(I, a, kw) if ret else Const(None)
        return g
    h[('ext', 'builtins.open')] = record('open', 0, lambda I, a, kw: I.call(K['File'], [a[0], a[1] if len(a) > 1 else kw.get('mode', Const('r'))], {}))
    h[('ext', 'sollya.execute')] = record('execute')
    loader = record('loader', 0, lambda I, a, kw: tag('loader', a[0]))
    for x in ('jinja2.FileSystemLoader', 'jinja2.loaders.FileSystemLoader'):
        h[('ext', x)] = loader
    for x in ('subprocess.Popen', 'subprocess.run', 'subprocess.call', 'subprocess.check_call', 'os.system'):
        h[('ext', x)] = record('command', 0, lambda I, a, kw: I.call(K['Process'], [], {}))
    for x in ('ctypes.CDLL', 'ctypes.cdll.LoadLibrary'):
        h[('ext', x)] = record('library', 0, lambda I, a, kw: I.call(K['Library'], [a[0]], {}))
    for x in ('os.remove', 'os.unlink'):
        h[('ext', x)] = record('remove')
    h[('ext', 'string.Template')] = lambda I, a, kw: I.call(K['Template'], a, kw)
    for x in ('uuid.uuid4', 'uuid.uuid1'):
        h[('ext', x)] = lambda I, a, kw: I.call(K['Unique'], [], {})
    h[('ext', 'ctypes.POINTER')] = lambda I, a, kw: tag('POINTER', *a)
    h[('ext', 'ctypes.c_double')] = lambda I, a, kw: tag('double', *a)
    mod = K['File'].c.mod.name
    h[(mod, 'unique')] = lambda I, a, kw: Opq('unique', 'uuid')
    h[(mod, 'content')] = lambda I, a, kw: tag('content', a[0])
    h[(mod, 'wrote')] = lambda I, a, kw: (I.st.effects.append(('wrote', a[0], a[1])), Const(None))[1]
    h[(mod, 'function')] = lambda I, a, kw: I.call(K['CFun'], [a[0]], {})
    return mod


def text_of(v):
    """the constant parts of a text, values replaced by a mark"""
    if isinstance(v, Const) and isinstance(v.v, str):
        return v.v
    if isinstance(v, StrV):
        return ''.join(x if isinstance(x, str) else '\x03' for x in v.parts)
    return None


def exists(c, o, con, kind, v, folder=False, what=None):
    """the path is absolute and names a file of the tree"""
    t = text_of(v)
    what = what or '%s: resource' % kind
    if t is None or '\x03' in (os.path.dirname(t) if folder == 'in' else t):
        return c.holds(o, None, 'resources', con, what, 'path not resolved: %s' % short(v))
    root = os.path.abspath(c.P.root)
    if not os.path.isabs(t):
        return c.holds(o, False, 'resources', con, what, 'the path %r depends on the working directory' % t)
    p = os.path.normpath(t if folder != 'in' else os.path.dirname(t))
    if not p.startswith(root + os.sep):
        return c.holds(o, False, 'resources', con, what, 'the path %r is outside the package' % t)
    ok = os.path.isdir(p) if folder else os.path.isfile(p)
    return c.holds(o, ok, 'resources', con, what, 'there is no %s %s' % ('folder' if folder else 'file', os.path.relpath(p, root)))


def done(c, opened, o, con):
    """the resources opened on this path"""
    return [opened[e[2]] for e in o.st.effects if e[0] == 'opened']


def reached(c, rec):
    c.R.extra.setdefault('sites', [])
    w = rec[2]
    if w:
        c.R.extra['sites:%s:%s' % (rel(w[0]), w[2])] = True


# ------------------------------------------------------------------ Sollya scripts
def declared(c, path, name):
    """parameters of a procedure of a Sollya script"""
    s = open(path).read()
    s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
    m = re.findall(r'procedure\s+%s\s*\(([^)]*)\)' % re.escape(name), s)
    return [[x.strip() for x in y.split(',') if x.strip()] for y in m]


def script(c, which):
    opened = []
    sollya(c)
    paths(c, opened)

    def parse(I, a, kw):
        I.st.effects.append(('parse', a[0]))
        return ExtV('!proc.%s' % a[0].v) if isinstance(a[0], Const) else None
    c.I.hooks[('ext', 'sollya.parse')] = parse
    for nm in ('wcpg', 'checkModulusFilterInSpecification', 'presentResults'):
        c.I.hooks[('ext', '!proc.' + nm)] = lambda I, a, kw, nm=nm: (I.st.effects.append(('proc', nm, tuple(a), dict(kw))),
                                                                  I.alloc(DictO({Const('okay'): Num(Sc.sym('okay'))})))[1]
    if which == 'gabarit':
        from .c20 import new_gabarit
        con = 'Gabarit.check_dTF'
        c.I.hooks[('dTF', 'to_Sollya')] = lambda I, a, kw: Tup([tag('b'), tag('a')])
        c.I.hooks[('Band', 'sollyaConstraint')] = lambda I, a, kw: tag('constraint', *a)

        def prog():
            tf = c.I.alloc(InstO(c.cls('fixif.LTI.dTF', 'dTF'), {}))
            return c.meth(new_gabarit(c, [True, False]), 'check_dTF', tf, margin=c.scalar('margin'), prec=c.scalar('prec'))
    else:
        con = 'dSSmp.WCPG_mp'
        K = c.cls('fixif.LTI.dSSmp', 'dSSmp')
        names = [f for f in K.methods if 'wcpg' in f.lower()]
        c.I.hooks[('fixif.func_aux.mpf_matrix_to_sollya', 'mpf_matrix_to_sollya')] = lambda I, a, kw: Tup([tag('list', a[0]), tag('rows', a[0]), tag('cols', a[0])])
        n, p, q = c.dims_('n p q')

        def prog():
            d = {'_A': c.I.arr('mp', mnamed('A', n, n), 2), '_B': c.I.arr('mp', mnamed('B', n, q), 2), '_C': c.I.arr('mp', mnamed('C', p, n), 2),
                 '_D': c.I.arr('mp', mnamed('D', p, q), 2), '_n': Num(n, 'int'), '_p': Num(p, 'int'), '_q': Num(q, 'int')}
            s = c.I.alloc(InstO(K, d))
            return c.meth(s, names[0], c.scalar('delta'))
    for o in c.exceptions(c.run(prog), 'resources', con, 'runs'):
        recs = done(c, opened, o, con)
        ex = [r for r in recs if r[0] == 'execute']
        if not c.holds(o, len(ex) >= 1, 'resources', con, 'a script is loaded', 'none'):
            continue
        for r in ex:
            reached(c, r)
            exists(c, o, con, 'script', r[1])
        files = [text_of(r[1]) for r in ex if text_of(r[1]) and os.path.isfile(text_of(r[1]))]
        procs = [e for e in o.st.effects if e[0] == 'proc']
        c.holds(o, len(procs) >= 1 or None, 'procedure', con, 'a procedure is called', 'none')
        for _, nm, a, kw in procs:
            ds = [d for f in files for d in declared(c, f, nm)]
            if not c.holds(o, len(ds) == 1 if files else None, 'procedure', con, 'procedure %s is declared by the script' % nm, '%d declarations' % len(ds)):
                continue
            if not c.holds(o, len(ds[0]) == len(a) and not kw, 'procedure', con, 'parameters of %s' % nm, '%d given, %d declared: %s' % (len(a), len(ds[0]), ds[0])):
                continue
            if nm == 'checkModulusFilterInSpecification':
                want = {'b': 'b', 'a': 'a'}
                for k, x in zip(ds[0], a):
                    if k in want:
                        c.holds(o, is_tag(x, want[k]), 'procedure', con, '%s: %s' % (nm, k), short(x))
                    elif k in ('specifications',):
                        c.holds(o, isinstance(x, (Ref, Tup)) and not is_tag(x, 'a') and not is_tag(x, 'b'), 'procedure', con, '%s: %s' % (nm, k), short(x))
                    else:
                        c.equal(o, x, Sc.sym('prec'), 'procedure', con, '%s: %s' % (nm, k))
            elif nm == 'wcpg':
                for k, x in zip(ds[0], a):
                    if k in ('n', 'p', 'q'):
                        c.equal(o, x, Sc.sym(k), 'procedure', con, '%s: %s' % (nm, k))
                    elif k in ('Amat', 'Bmat', 'Cmat', 'Dmat'):
                        if c.holds(o, is_tag(x, 'list'), 'procedure', con, '%s: %s is a list' % (nm, k), short(x)):
                            s = dict(A=(n, n), B=(n, q), C=(p, n), D=(p, q))[k[0]]
                            c.equal(o, x.items[1], mnamed(k[0], *s), 'procedure', con, '%s: %s' % (nm, k))
                    else:
                        c.equal(o, x, Sc.sym('delta'), 'procedure', con, '%s: %s' % (nm, k))


# ------------------------------------------------------------------ jinja2 templates
def placeholders(path, latex):
    from jinja2 import Environment, meta
    kw = dict(variable_start_string='\\VAR{', variable_end_string='}', block_start_string='\\BLOCK{', block_end_string='}',
              comment_start_string='\\#{', comment_end_string='}') if latex else {}
    return meta.find_undeclared_variables(Environment(**kw).parse(open(path).read()))


def templates(c, size, fn):
    opened, rendered, got = [], [], []
    paths(c, opened)
    instrument(c, rendered)
    ENV = c.ref(REF, 'Environment')
    for x in ('jinja2.Environment', 'latex.jinja2.make_env', 'jinja2.environment.Environment'):
        c.I.hooks[('ext', x)] = lambda I, a, kw, x=x: (I.st.effects.append(('env', x, kw.get('loader', a[0] if a else None))), I.call(ENV, [], {}))[1]
    r = Real(c, size, 'full' if size[1] > 1 else 'upper')
    con = 'Realization.' + fn

    def th():
        the_filter(c)
        a = [Const('step')] if fn == 'implementCdouble' else []
        return c.meth(r.build(), fn, *a)
    for o in c.exceptions(c.run(th), 'resources', con, 'runs'):
        v = o.value
        if not (isinstance(v, Tup) and len(v.items) == 2 and v.items[0] == Const('rendered')):
            c.holds(o, None, 'placeholders', con, 'the text is the one of the template', short(v))
            continue
        name, d = rendered[v.items[1].v]
        envs_ = [e for e in o.st.effects if e[0] == 'env']
        for rec in done(c, opened, o, con):
            reached(c, rec)
            if rec[0] == 'loader':
                exists(c, o, con, 'folder of the templates', rec[1], folder=True)
        ld = envs_[-1][2] if envs_ else None
        if name is None or not is_tag(ld, 'loader') or text_of(ld.items[1]) is None:
            c.holds(o, None, 'resources', con, 'template', 'not resolved: %s %s' % (name, short(ld)))
            continue
        p = os.path.join(text_of(ld.items[1]), name)
        if exists(c, o, con, 'template', Const(p)) is not True:
            continue
        want = placeholders(p, 'latex' in envs_[-1][1])
        for w in sorted(want):
            # the text returned exists only for a single output: without it the placeholder is empty
            if w in d or w == 'return' and size[2] > 1:
                c.holds(o, True, 'placeholders', con, 'placeholder %s' % w)
            else:
                c.holds(o, False, 'placeholders', con, 'placeholder %s' % w, 'not supplied for l=%d n=%d p=%d q=%d' % size)
        for w in sorted(set(d) - want):
            c.holds(o, False, 'placeholders', con, 'value %s' % w, 'supplied but not used by %s' % name)


# ------------------------------------------------------------------ the compiled function
def ctype(v):
    if isinstance(v, ExtV) and v.name == 'ctypes.c_double':
        return 'double'
    if is_tag(v, 'POINTER'):
        x = ctype(v.items[1])
        return x + '*' if x else None
    if isinstance(v, Const) and v.v is None:
        return 'void'
    return None


def signature(d):
    """(type returned, types of the parameters) generated for the realization"""
    ret, par = text_of(d.get('OutVar')), text_of(d.get('InVar'))
    if ret is None or par is None or '\x03' in ret + par:
        return None
    out = []
    for a in par.split(','):
        k = re.fullmatch(r'\s*(?:const\s+)?double\s*(\*?)\s*(\w+)\s*', a)
        if not k:
            return None
        out.append(('double' + k.group(1), k.group(2)))
    return ret.strip(), out


def prepare(c, size, opened, rendered):
    mod = paths(c, opened)
    instrument(c, rendered)
    r = Real(c, size, 'full' if size[1] > 1 else 'upper')
    h = c.I.hooks

    def attr(I, b):
        return tag('ctypes', b)
    h[('attr', 'ctypes')] = attr
    return mod, r


def data_as(c):
    """array.ctypes.data_as(type)"""
    SRC2 = '''
class View:
	def __init__(self, a):
		self.array = a
	def data_as(self, t):
		return view(self.array, t)
def view(a, t):
	return None
'''
    V_ = c.ref(SRC2, 'View')
    c.I.hooks[('attr', 'ctypes')] = lambda I, b: I.call(V_, [b], {})
    c.I.hooks[(V_.c.mod.name, 'view')] = lambda I, a, kw: tag('view', a[0], a[1])


def library(c, o, con, size, opened, rendered, fun):
    """the declaration of the function of the library, against the code generated"""
    recs = done(c, opened, o, con)
    src = lib = cmd = None
    for rec in recs:
        reached(c, rec)
        t = text_of(rec[1])
        if rec[0] == 'open':
            src = t
            exists(c, o, con, 'folder of the generated code', rec[1], folder='in', what='source: folder')
        elif rec[0] == 'library':
            lib = t
            exists(c, o, con, 'library', rec[1], folder='in', what='library: folder')
        elif rec[0] == 'command':
            cmd = rec
    if cmd is not None:
        t = text_of(cmd[1])
        if t is None and isinstance(cmd[1], Ref):
            xs = seq(c, o, cmd[1])
            t = ' '.join(text_of(x) or '\x04' for x in xs) if xs else None
        if t is None or '\x04' in t or src is None or lib is None:
            c.holds(o, None, 'resources', con, 'compilation', 'command not resolved: %s' % short(cmd[1]))
        else:
            m = re.match(r'\s*cd\s+(\S+?)\s*&&\s*(.*)$', t, re.S)
            cwd = m.group(1) if m else text_of(cmd[4].get('cwd', NONE)) or ''
            words = (m.group(2) if m else t).split()
            outs = [words[i + 1] for i, w in enumerate(words[:-1]) if w == '-o']
            ins = [w for w in words if w.endswith('.c')]
            j = lambda x: os.path.normpath(os.path.join(cwd, x))
            c.holds(o, len(outs) == 1 and j(outs[0]) == os.path.normpath(lib), 'resources', con, 'the library loaded is the one compiled', '%s, %s' % (t, lib))
            c.holds(o, len(ins) == 1 and j(ins[0]) == os.path.normpath(src), 'resources', con, 'the source compiled is the one written', '%s, %s' % (t, src))
            c.holds(o, '-shared' in words and '-fPIC' in words, 'resources', con, 'a shared library', t)
            c.holds(o, '\x03' in os.path.basename(lib), 'resources', con, 'a library already loaded is not loaded again', 'the library is always named %s' % lib)
    ds = [d for nm, d in rendered if nm and nm.endswith('.c')]
    sg = signature(ds[-1]) if ds else None
    if sg is None:
        c.holds(o, None, 'signature', con, 'signature generated', 'not resolved')
        return None
    f = c.at(o, lambda: c.I.obj(fun) if isinstance(fun, Ref) else None)
    if not isinstance(f, InstO):
        c.holds(o, None, 'signature', con, 'function', 'not resolved: %s' % short(fun))
        return None
    nm = text_of(f.attrs.get('fname'))
    want = text_of(ds[-1].get('funcName'))
    c.holds(o, nm == want if nm and want else None, 'signature', con, 'name of the function', '%s is generated, %s is loaded' % (want, nm))
    rt = f.attrs.get('restype')
    rt = 'int' if isinstance(rt, Const) and rt.v == 'int' else ctype(rt)
    c.holds(o, rt == sg[0] if rt else None, 'signature', con, 'type returned', '%s is declared, %s is generated' % (rt, sg[0]))
    at = f.attrs.get('argtypes')
    xs = seq(c, o, at)
    ts = [ctype(x) for x in xs] if xs is not None else None
    if isinstance(at, Const) and at.v is None:
        c.holds(o, True, 'signature', con, 'types of the parameters')
    else:
        c.holds(o, None if ts is None or None in ts else ts == [t for t, _ in sg[1]], 'signature', con, 'types of the parameters',
                '%s are declared, %s are generated' % (ts, [t for t, _ in sg[1]]))
    return sg


def make(c, size):
    opened, rendered = [], []
    mod, r = prepare(c, size, opened, rendered)
    con = 'Realization.makeCdouble'
    what = 'l=%d n=%d p=%d q=%d' % size

    def th():
        the_filter(c)
        R_ = r.build()
        c.meth(R_, 'makeCdouble')
        return Tup([R_, c.get(R_, '_Cdouble')])
    for o in c.exceptions(c.run(th), 'signature', con, 'runs'):
        library(c, o, con, size, opened, rendered, o.value.items[1])
        w = [e for e in o.st.effects if e[0] == 'wrote']
        c.holds(o, len(w) == 1 and isinstance(w[0][2], Tup) and w[0][2].items[0] == Const('rendered') or (None if w else False), 'resources', con,
                'the source written is the one generated', short(w))


def run(c, size, N):
    opened, rendered = [], []
    mod, r = prepare(c, size, opened, rendered)
    data_as(c)
    l, n, p, q = size
    con = 'Realization.runCdouble'
    U = [[Sc.sym('u%d_%d' % (i, k)) for k in range(N)] for i in range(q)]
    YS = lambda i, k: Sc.sym('y%d_%d' % (i, k))
    XS = lambda i, k: Sc.sym('x%d_%d' % (i, k))

    def called(I, a, kw):
        k = len([e for e in I.st.effects if e[0] == 'ccall'])
        args, ptr = [], []
        for x in seq_now(I, a[1]):
            if is_tag(x, 'view'):
                m = I.arr_mat(x.items[1])
                args.append(('view', x.items[1], I.N(m), x.items[2]))
            elif is_tag(x, 'double'):
                args.append(('double', x.items[1] if len(x.items) > 1 else None))
            else:
                args.append(('other', x))
        I.st.effects.append(('ccall', args))
        ds = [d for nm, d in rendered if nm and nm.endswith('.c')]
        sg = signature(ds[-1]) if ds else None
        if sg is None or len(sg[1]) != len(args):
            return Const(None)
        for (t, nm), x in zip(sg[1], args):
            if x[0] == 'view' and nm in ('y', 'xk'):
                s = YS if nm == 'y' else XS
                m = x[2]
                cnt = (m.rows * m.cols).cval()
                if cnt is None:
                    continue
                cells_ = [mscalar(s(i, k)) for i in range(int(cnt))]
                if m.cols.cval() == 1 and cnt > 1:
                    new = mvstack(cells_, I.B)
                else:
                    new = mhstack(cells_, I.B) if len(cells_) > 1 else cells_[0]
                write_array(I, x[1], new)
        return Num(YS(0, k), 'float') if sg[0] == 'double' else Const(None)
    c.I.hooks[(mod, 'called')] = called

    def th():
        the_filter(c)
        R_ = r.build()
        rows = [mhstack([mscalar(v) for v in row], c.I.B) if N > 1 else mscalar(row[0]) for row in U]
        u = c.I.arr('array', mvstack(rows, c.I.B) if q > 1 else rows[0], 2)
        y = c.meth(R_, 'runCdouble', u)
        return Tup([R_, c.get(R_, '_Cdouble'), y, u])
    for o in c.exceptions(c.run(th), 'samples', con, 'runs'):
        sg = library(c, o, con, size, opened, rendered, o.value.items[1])
        if sg is None:
            continue
        calls = [e[1] for e in o.st.effects if e[0] == 'ccall']
        if not c.holds(o, len(calls) == N, 'samples', con, 'one call per sample', '%d calls for %d samples' % (len(calls), N)):
            continue
        xs = set()
        for k, a in enumerate(calls):
            if not c.holds(o, len(a) == len(sg[1]), 'signature', con, 'number of parameters', '%d given, %d generated' % (len(a), len(sg[1]))):
                break
            for (t, nm), x in zip(sg[1], a):
                kind = {'view': 'double*', 'double': 'double'}.get(x[0])
                if kind is None and isinstance(x[1], Num):
                    kind = 'double'
                if not c.holds(o, None if kind is None else kind == t, 'signature', con, 'parameter %s' % nm, '%s is given, %s is generated' % (kind, t)):
                    continue
                if nm == 'u' and t == 'double':
                    c.equal(o, x[1], U[0][k], 'samples', con, 'the input given is the one of the sample')
                elif nm in ('u', 'xk', 'y'):
                    cnt = int((x[2].rows * x[2].cols).cval() or 0)
                    need = dict(u=q, xk=n, y=p)[nm]
                    if not c.holds(o, cnt == need, 'signature', con, 'size of the array %s' % nm, '%d instead of %d' % (cnt, need)):
                        continue
                    cell_ = lambda i: entry(x[2], ZERO, sc(i), o.st.B) if x[2].rows.cval() == 1 else entry(x[2], sc(i), ZERO, o.st.B)
                    if nm == 'u':
                        for i in range(q):
                            c.equal(o, cell_(i), U[i][k], 'samples', con, 'the inputs given are those of the sample')
                    elif nm == 'xk':
                        for i in range(n):
                            c.equal(o, cell_(i), XS(i, k - 1) if k else ZERO, 'samples', con, 'the states are null, then those of the last call')
                        xs.add(x[1].a)
        c.holds(o, len(xs) <= 1, 'samples', con, 'one array of states', short(xs))
        y = c.matof(o, o.value.items[2])
        if y is None:
            c.holds(o, None, 'samples', con, 'outputs', 'not resolved: %s' % short(o.value.items[2]))
            continue
        c.holds(o, (y.rows.cval(), y.cols.cval()) == (p, N), 'samples', con, 'one output per sample', '%r x %r' % (y.rows, y.cols))
        if (y.rows.cval(), y.cols.cval()) == (p, N):
            for i in range(p):
                for k in range(N):
                    c.equal(o, c.at(o, lambda: entry(y, sc(i), sc(k), o.st.B)), YS(i, k), 'samples', con, 'the outputs are those of the samples')
        c.equal(o, o.value.items[3], mvstack([mhstack([mscalar(v) for v in row], o.st.B) if N > 1 else mscalar(row[0]) for row in U], o.st.B) if q > 1 else
                (mhstack([mscalar(v) for v in U[0]], o.st.B) if N > 1 else mscalar(U[0][0])), 'samples', con, 'the inputs are unchanged')


def seq_now(I, v):
    if isinstance(v, Tup):
        return v.items
    ob = I.obj(v)
    return [s[1] for s in ob.segs] if isinstance(ob, ListO) else []


def write_array(I, ref, m):
    o = I.obj(ref)
    I.mutate(ref, o.with_(mat=m, writes=()), 'foreign')


# ------------------------------------------------------------------ lists exchanged with Sollya
def grid(c, nm, sh):
    rows = []
    for i in range(sh[0]):
        cs = [mscalar(Sc.sym('%s%d%d' % (nm, i, j))) for j in range(sh[1])]
        rows.append(mhstack(cs, c.I.B) if len(cs) > 1 else cs[0])
    return mvstack(rows, c.I.B) if len(rows) > 1 else rows[0]


def to_sollya(c, sh):
    sollya(c)
    m, n = sh
    con = 'mpf_matrix_to_sollya'
    c.I.hooks[('fixif.func_aux.mpf_matrix_get_representation', 'mpf_matrix_get_representation')] = \
        lambda I, a, kw: Tup([I.arr('matrix', grid(c, 'y', sh), 2), I.arr('matrix', grid(c, 'e', sh), 2)])
    outs = c.run(lambda: c.call(c.func('fixif.func_aux.mpf_matrix_to_sollya', con), c.I.arr('mp', grid(c, 'a', sh), 2)))
    for o in c.exceptions(outs, 'exchange', con, 'a real matrix', allowed=('ValueError',)):
        v = o.value
        if not c.holds(o, isinstance(v, Tup) and len(v.items) == 3, 'exchange', con, 'list and sizes', short(v)):
            continue
        c.equal(o, v.items[1], sc(m), 'exchange', con, 'number of rows')
        c.equal(o, v.items[2], sc(n), 'exchange', con, 'number of columns')
        xs = seq(c, o, v.items[0])
        if c.holds(o, None if xs is None else len(xs) == m * n, 'exchange', con, 'as many numbers as coefficients', short(v.items[0])):
            for i in range(m):
                for j in range(n):
                    w = c.at(o, lambda: c.call(c.ref('def f(y, e):\n\treturn y * 2 ** e\n', 'f'), c.scalar('y%d%d' % (i, j)), c.scalar('e%d%d' % (i, j))))
                    c.equal(o, xs[i * n + j], w, 'exchange', con, 'row by row')


def from_sollya(c, sh):
    sollya(c)
    m, n = sh
    con = 'sollya_matrix_to_numpy'
    c.I.hooks[('ext', 'sollya.round')] = lambda I, a, kw: a[0]
    c.I.hooks[('ext', 'builtins.float')] = lambda I, a, kw: a[0]
    outs = c.run(lambda: c.call(c.func('fixif.func_aux.sollya_matrix_to_numpy', con), c.lst(*[Num(Sc.sym('s%d' % k)) for k in range(m * n)]), Num(sc(m), 'int'), Num(sc(n), 'int')))
    for o in c.exceptions(outs, 'exchange', con, 'a list'):
        g = c.matof(o, o.value)
        if c.holds(o, None if g is None else (g.rows.cval(), g.cols.cval()) == sh, 'exchange', con, 'size', short(g)):
            for i in range(m):
                for j in range(n):
                    c.equal(o, c.at(o, lambda: entry(g, sc(i), sc(j), o.st.B)), Sc.sym('s%d' % (i * n + j)), 'exchange', con, 'row by row')


def printed(c, sh):
    m, n = sh
    con = 'sollya_matrix_print'
    outs = c.run(lambda: c.call(c.func('fixif.func_aux.sollya_matrix_print', con), c.lst(*[Const('item%d' % k) for k in range(m * n)]), Num(sc(m), 'int'), Num(sc(n), 'int')))
    for o in c.exceptions(outs, 'exchange', con, 'a list'):
        t = ' '.join(str(e) for e in o.st.effects if e[0] == 'print')
        got = [int(x) for x in re.findall(r'item(\d+)', t)]
        c.holds(o, got == list(range(m * n)), 'exchange', con, 'row by row', 'displays %s' % got)


# ------------------------------------------------------------------ AMPL
def num_lib(c):
    def nditer(I, a, kw):
        m = I.N(I.arr_mat(a[0]))
        r, k = m.rows.cval(), m.cols.cval()
        if r is None or k is None:
            return None
        return I.alloc(ListO([('item', Num(entry(m, sc(i), sc(j), I.B))) for i in range(int(r)) for j in range(int(k))]))

    def ndenum(I, a, kw):
        o = I.obj(a[0])
        m = I.N(I.arr_mat(a[0]))
        r, k = m.rows.cval(), m.cols.cval()
        if r is None or k is None:
            return None
        one = getattr(o, 'ndim', 2) == 1
        return I.alloc(ListO([('item', Tup([Tup([Num(sc(j), 'int')] if one else [Num(sc(i), 'int'), Num(sc(j), 'int')]), Num(entry(m, sc(i), sc(j), I.B))]))
                              for i in range(int(r)) for j in range(int(k))]))
    c.I.hooks[('ext', 'numpy.nditer')] = nditer
    c.I.hooks[('ext', 'numpy.ndenumerate')] = ndenum


def words(v):
    """the words of a text: constants and formatted values"""
    out, cur = [], []
    if not isinstance(v, (Const, StrV)):
        return None
    for p in pieces(v):
        if isinstance(p, str):
            bits = re.split(r'(\s+|;)', p)
            for b in bits:
                if b == '' or b.isspace():
                    if b and cur:
                        out.append(tuple(cur))
                        cur = []
                elif b == ';':
                    if cur:
                        out.append(tuple(cur))
                        cur = []
                    out.append((';',))
                else:
                    cur.append(b)
        else:
            cur.append(p)
    if cur:
        out.append(tuple(cur))
    return out


def wkey(w):
    return tuple(x if isinstance(x, str) else ('v',) + tuple(x.k) for x in w)


def expected(c, name, m, fmt, two):
    """the words of an AMPL parameter: one or two indices from 1"""
    r, k = int(m.rows.cval()), int(m.cols.cval())
    f = lambda i, j: c.I.call(c.ref('def f(x):\n\treturn %r %% x\n' % fmt, 'f'), [Num(entry(m, sc(i), sc(j), c.I.B))], {})
    if not two:
        out = [('param',), (name,), (':=',)]
        t = 0
        for i in range(r):
            for j in range(k):
                t += 1
                out += [(str(t),)] + words(f(i, j))
        return out + [(';',)]
    out = [('param',), (name,), (':',)] + [(str(j + 1),) for j in range(k)] + [(':=',)]
    for i in range(r):
        out.append((str(i + 1),))
        for j in range(k):
            out += words(f(i, j))
    return out + [(';',)]


def indices(c):
    """number of indices of each parameter of the model"""
    p = os.path.join(c.P.root, 'fixif', 'SIF', 'templates', 'w_optimal.mod')
    s = re.sub(r'#[^\n]*', ' ', open(p).read())
    out = {}
    for m in re.finditer(r'\bparam\s+(\w+)\s*(\{([^}]*)\})?([^;]*);', s):
        out[m.group(1)] = (0 if not m.group(2) else len(m.group(3).split(',')), 'default' in m.group(4) or ':=' in m.group(4))
    return out


def param(c, sh, fmt):
    num_lib(c)
    con = 'generateAMPLParam'
    m = grid(c, 'v', sh)
    f = fmt or '%f'
    a = [Const('E'), c.I.arr('matrix', m, 2)] + ([Const(fmt)] if fmt else [])
    outs = c.run(lambda: c.call(c.func(F_, con), *a))
    for o in c.exceptions(outs, 'data', con, 'a matrix'):
        got = words(o.value)
        if got is None:
            c.holds(o, None, 'data', con, '%d x %d' % sh, 'not resolved: %s' % short(o.value))
            continue
        ok = [[wkey(w) for w in c.at(o, lambda: expected(c, 'E', m, f, two))] for two in (True, False) if two or sh[1] == 1]
        c.holds(o, [wkey(w) for w in got] in ok, 'data', con, 'one index for a column, two for the other matrices' if sh[1] != 1 else 'a column', '%d x %d: %s' % (sh + (short(o.value),)))


def integer(c):
    outs = c.run(lambda: c.call(c.func(F_, 'generateAMPLParam'), Const('p'), Num(sc(3), 'int')))
    for o in c.exceptions(outs, 'data', 'generateAMPLParam', 'an integer'):
        w = words(o.value)
        c.holds(o, None if w is None else w == [('param',), ('p',), (':=',), ('3',), (';',)], 'data', 'generateAMPLParam', 'an integer', short(o.value))


def ampl(c, l, n, p):
    """the data file holds the parameters of the model, each with its indices"""
    opened = []
    mod = paths(c, opened)
    num_lib(c)
    con = 'Realization.optimalWL'
    k = l + n + p
    filled = []

    def fill(I, a, kw):
        filled.append((a[0], {x.v: v for x, v in I.obj(a[1]).items.items() if isinstance(x, Const)}))
        I.st.effects.append(('filled', len(filled) - 1))
        return tag('filled', Num(sc(len(filled) - 1)))
    c.I.hooks[(mod, 'filled')] = fill
    given = []

    def gen(I, a, kw):
        given.append((a[0], a[1]))
        return tag('param', Num(sc(len(given) - 1)))
    c.I.hooks[(F_, 'generateAMPLParam')] = gen
    c.I.hooks[('R_FxP', 'computeNaiveMSB')] = lambda I, a, kw: I.alloc(ListO([('item', Num(Sc.sym('m%d' % i), 'int')) for i in range(k)]))
    c.I.hooks[('R_FxP', '_w_tilde')] = lambda I, a, kw: I.alloc(ListO([('item', Num(Sc.sym('t%d' % i), 'int')) for i in range(k)]))
    c.I.hooks[('dSS', 'WCPG')] = lambda I, a, kw: I.arr('matrix', grid(c, 'w', (p, k)), 2)
    r = Real(c, (l, n, p, 1), 'full' if n > 1 else 'upper')

    def th():
        the_filter(c)
        return c.meth(r.build(), 'optimalWL', c.I.arr('matrix', mscalar(Sc.sym('ub')), 2), c.I.arr('matrix', grid(c, 'eps', (p, 1)), 2),
                      Const('data.dat'), Const('/somewhere'))
    idx = indices(c)
    for o in c.exceptions(c.run(th), 'data', con, 'runs'):
        recs = done(c, opened, o, con)
        for rec in recs:
            reached(c, rec)
        rd = [rec for rec in recs if rec[0] == 'open' and not any(isinstance(x, Const) and x.v == 'w' for x in list(rec[3][1:]) + list(rec[4].values()))]
        wr = [rec for rec in recs if rec[0] == 'open' and rec not in rd]
        if not c.holds(o, len(rd) == 1 and len(wr) == 1, 'resources', con, 'one template, one data file', short([x[1] for x in recs])):
            continue
        if exists(c, o, con, 'template', rd[0][1]) is not True:
            continue
        c.holds(o, text_of(wr[0][1]) == '/somewhere/data.dat', 'resources', con, 'the data file is where it is asked', short(wr[0][1]))
        fs = [filled[e[1]] for e in o.st.effects if e[0] == 'filled']
        ws = [e for e in o.st.effects if e[0] == 'wrote']
        if not c.holds(o, len(fs) == 1 and len(ws) == 1 and is_tag(ws[0][2], 'filled'), 'data', con, 'the template is filled and written', short(ws)):
            continue
        c.holds(o, is_tag(fs[0][0], 'content') and text_of(fs[0][0].items[1]) == text_of(rd[0][1]), 'data', con, 'the template filled is the one read', short(fs[0][0]))
        txt = open(text_of(rd[0][1])).read()
        want = set(re.findall(r'\$\{(\w+)\}|\$(\w+)', txt))
        want = {a or b for a, b in want}
        d = fs[0][1]
        for w in sorted(want):
            c.holds(o, w in d, 'placeholders', con, 'placeholder %s' % w, 'not supplied')
        for w in sorted(set(d) - want):
            c.holds(o, False, 'placeholders', con, 'value %s' % w, 'supplied but not used')
        names = []
        for w in sorted(d):
            v = d[w]
            if not is_tag(v, 'param'):
                c.holds(o, None, 'data', con, 'value %s' % w, 'not resolved: %s' % short(v))
                continue
            nm, val = given[int(v.items[1].s.cval())]
            nm = text_of(nm)
            names.append(nm)
            if not c.holds(o, nm in idx, 'data', con, 'parameter %s of the model' % nm, 'the model has no parameter %s' % nm):
                continue
            m = c.matof(o, val) if not (isinstance(val, Num)) else None
            if m is None:
                c.holds(o, idx[nm][0] == 0 if isinstance(val, Num) else None, 'data', con, 'indices of %s' % nm, short(val))
                if isinstance(val, Num):
                    c.equal(o, val, sc({'p': p, 'np': k}.get(nm, 0)), 'data', con, 'value of %s' % nm)
                continue
            sh = (int(m.rows.cval() or 0), int(m.cols.cval() or 0))
            need = {'u': (k, 1), 'wtilde': (k, 1), 'E': (p, k), 'eps': (p, 1)}.get(nm)
            c.holds(o, sh == need, 'data', con, 'sizes of %s' % nm, '%s instead of %s' % (sh, need))
        miss = sorted(x for x, (n_, df) in idx.items() if not df and x not in names)
        c.holds(o, not miss, 'data', con, 'every parameter of the model without a value of its own is given', 'missing: %s' % miss)
        # a parameter with two indices is written with two indices, whatever its sizes
        c.holds(o, len(names) == len(set(names)), 'data', con, 'each parameter is given once', str(names))


# ------------------------------------------------------------------ the sites
def sites(R):
    """calls that open something, and whether an entry reached them"""
    hit = {k[6:] for k in list(R.extra) if k.startswith('sites:')}
    for k in list(R.extra):
        if k.startswith('sites'):
            del R.extra[k]
    found, missed = [], []
    for m in R.P.modules.values():
        if '/test' in m.path or os.path.basename(m.path).startswith('test'):
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call):
                f = x.func
                nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                if nm in OPENERS:
                    k = '%s:%d' % (rel(m.path), x.lineno)
                    found.append(k)
                    if k not in hit and nm != 'get_template':
                        missed.append(k)
    R.extra['opening_sites'] = sorted(set(found))
    for k in sorted(set(missed)):
        R.und('resources', k, 'opening site', 'not reached by the entries analysed')
