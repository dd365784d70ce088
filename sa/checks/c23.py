"""C23: imported block diagrams keep every block equation"""
import itertools
import posixpath
import random
from ..interp import exc_isa
from .common import *

LEVEL = 'other'
EXPLANATION = ('abstract interpretation of the whole import over enumerated diagrams (blocks and lines given, gains symbolic); the blocks handed to the realization are '
               'eliminated symbolically and compared, as polynomials in the gains, with the equations of the diagram, up to the order of the states')
SOURCES = ('Structures.Simulink',)
F = 'fixif/Structures/Simulink/'
MOD = 'fixif.Structures.Simulink.Simulink'
TREE = '''
class El:
	def __init__(self, tag, attrib, text, children):
		self.tag = tag
		self.attrib = attrib
		self.text = text
		self.children = children
	def get(self, name, default=None):
		return self.attrib.get(name, default)
	def keys(self):
		return list(self.attrib.keys())
	def items(self):
		return list(self.attrib.items())
	def set(self, name, value):
		self.attrib[name] = value
	def __iter__(self):
		return iter(list(self.children))
	def __len__(self):
		return len(self.children)
	def getchildren(self):
		return list(self.children)
	def append(self, e):
		self.children.append(e)
	def findall(self, path):
		r = [self]
		for tag in path.split('/'):
			if tag != '.':
				r = [c for e in r for c in e.children if tag == '*' or c.tag == tag]
		return r
	def find(self, path):
		for c in self.findall(path):
			return c
		return None
	def iterfind(self, path):
		return self.findall(path)
	def findtext(self, path, default=None):
		for c in self.findall(path):
			return c.text
		return default
	def iter(self, *tags):
		r = []
		if len(tags) == 0 or self.tag in tags:
			r.append(self)
		for c in self.children:
			r.extend(c.iter(*tags))
		return r
	def iterchildren(self, *tags):
		return [c for c in self.children if len(tags) == 0 or c.tag in tags]
	def getroot(self):
		return self
	def xpath(self, path):
		if path.startswith('/'):
			names = path.split('/')[1:]
			r = [self] if self.tag == names[0] else []
			names = names[1:]
		else:
			r = [self]
			names = path.split('/')
		for tag in names:
			if tag != '.':
				r = [c for e in r for c in e.children if tag == '*' or c.tag == tag]
		return r
	def getpath(self, e):
		return ''

def copied(e):
	return El(e.tag, dict(e.attrib), e.text, [copied(c) for c in e.children])

class Archive:
	def __init__(self, names):
		self.names = names
	def namelist(self):
		return list(self.names)
	def read(self, name):
		if name not in self.names:
			raise KeyError(name)
		return name
	def close(self):
		pass
	def __enter__(self):
		return self
	def __exit__(self, *a):
		return False
'''


# ---- diagrams: blocks are (type, sid, parameters, inner system or None), lines are (source, destination)
class Sys:
    def __init__(self, blocks, lines, stray=()):
        self.blocks, self.lines, self.stray = blocks, lines, stray


def el(tag, attrs, text=None, children=()):
    return 'El(%r, %r, %r, [%s])' % (tag, attrs, text, ', '.join(children))


def params(d):
    return [el('P', {'Name': k}, v) for k, v in d.items()]


def xml(s, branch=True):
    ch = [el('P', {'Name': 'Open'}, 'on')]
    for t, sid, p, inner in s.blocks:
        ch.append(el('Block', {'BlockType': t, 'Name': 'b' + sid, 'SID': sid}, None,
                     [el('P', {'Name': 'ZOrder'}, '1')] + params(p) + ([xml(inner, branch)] if inner is not None else [])))
    by = {}
    for a, b in s.lines:
        by.setdefault(a, []).append(b)
    for b in s.stray:
        ch.append(el('Line', {}, None, [el('P', {'Name': 'Dst'}, b)]))
    for a, bs in by.items():
        head = [el('P', {'Name': 'ZOrder'}, '2'), el('P', {'Name': 'Src'}, a)]
        if len(bs) == 1:
            ch.append(el('Line', {}, None, head + [el('P', {'Name': 'Dst'}, bs[0])]))
        else:
            last = el('Branch', {}, None, [el('P', {'Name': 'Dst'}, bs[-1])])
            for b in reversed(bs[:-1]):         # nested branches, as Simulink writes them
                nest = [last] if branch == 'flat' else [last]
                last = el('Branch', {}, None, [el('Branch', {}, None, [el('P', {'Name': 'Dst'}, b)])] + nest)
            ch.append(el('Line', {}, None, head + [last]))
        # a line that goes nowhere, as Simulink keeps them
    return el('System', {}, None, ch)


DEFAULTS = {'Delay': {'DelayLength': '2'}, 'Sum': {'Inputs': '++'}, 'Gain': {'Gain': '1'}, 'Inport': {'Port': '1'}, 'Outport': {'Port': '1'}}


def model(s, defaults=DEFAULTS):
    d = el('BlockParameterDefaults', {}, None, [el('Block', {'BlockType': t}, None, params(p)) for t, p in defaults.items()])
    return el('ModelInformation', {'Version': '1.0'}, None, [el('Model', {'Name': 'm'}, None, [d, xml(s)])])


class Loop(Exception):
    pass


class Meaning:
    """the equations the blocks denote: next states and outputs as linear forms of the states and of the inputs"""

    def __init__(self, s, gain, defaults=DEFAULTS):
        self.gain, self.defaults = gain, defaults
        self.blocks, self.parent, self.src = {}, {}, {}
        self.walk(s, None)
        self.order = [k for k, (t, p) in self.blocks.items() if t == 'Delay']
        self.ins = self.ports('Inport')
        self.outs = self.ports('Outport')
        self.states = [(k, i) for k in self.order for i in range(int(self.param(k, 'DelayLength', '1')))]
        self.memo = {}

    def walk(self, s, up):
        for t, sid, p, inner in s.blocks:
            self.blocks[sid], self.parent[sid] = (t, p), up
            if inner is not None:
                self.walk(inner, sid)
        for a, b in s.lines:
            self.src[tuple(b.split('#in:'))] = tuple(a.split('#out:'))

    def param(self, k, n, d=None):
        t, p = self.blocks[k]
        return p[n] if n in p else self.defaults.get(t, {}).get(n, d)

    def ports(self, t, up=None):
        return sorted([k for k in self.blocks if self.blocks[k][0] == t and self.parent[k] == up], key=lambda k: int(self.param(k, 'Port', '1')))

    def into(self, k, port='1'):
        key = (k, port)
        if key in self.memo:
            if self.memo[key] is None:
                raise Loop(k)
            return self.memo[key]
        self.memo[key] = None
        v = {}
        if key in self.src:
            v = self.out(*self.src[key])
        self.memo[key] = v
        return v

    def out(self, k, port):
        t, p = self.blocks[k]
        if t == 'Inport':
            return {('u', self.ins.index(k)): ONE} if self.parent[k] is None else self.into(self.parent[k], self.param(k, 'Port', '1'))
        if t == 'Delay':
            return {('x', (k, int(self.param(k, 'DelayLength', '1')) - 1)): ONE}
        if t == 'Gain':
            g = self.gain(self.param(k, 'Gain', '1'))
            return {v: g * a for v, a in self.into(k).items()}
        if t == 'Sum':
            r = {}
            for i, sg in enumerate(x for x in self.param(k, 'Inputs', '++') if x in '+-'):
                for v, a in self.into(k, str(i + 1)).items():
                    r[v] = r.get(v, ZERO) + (a if sg == '+' else -a)
            return r
        if t == 'SubSystem':
            for o in self.ports('Outport', k):
                if self.param(o, 'Port', '1') == port:
                    return self.into(o)
        raise AssertionError(k)

    def equations(self):
        X = [self.into(k) if i == 0 else {('x', (k, i - 1)): ONE} for k, i in self.states]
        Y = [self.into(o) for o in self.outs]
        return X, Y


# ---- the families of diagrams
def G(sid, g):
    return ('Gain', sid, {} if g is None else {'Gain': g}, None)


def S(sid, signs, shape='|', **p):
    return ('Sum', sid, dict({'Ports': '[%d, 1]' % sum(x in '+-' for x in signs), 'Inputs': shape + signs}, **p), None)


def D(sid, n='1'):
    return ('Delay', sid, {} if n is None else {'DelayLength': n}, None)


def I(sid, port=None):
    return ('Inport', sid, {} if port is None else {'Port': port}, None)


def O(sid, port=None):
    return ('Outport', sid, {} if port is None else {'Port': port}, None)


def U(sid, ni, no, inner):
    return ('SubSystem', sid, {'Ports': '[%d, %d]' % (ni, no)}, inner)


def lines(*xs):
    """'a>b.2' : output 1 of a to input 2 of b; 'a.2>b' : output 2 of a to input 1 of b"""
    out = []
    for x in xs:
        for w in x.split():
            a, b = w.split('>')
            a, b = a.split('.'), b.split('.')
            out.append(('%s#out:%s' % (a[0], (a + ['1'])[1]), '%s#in:%s' % (b[0], (b + ['1'])[1])))
    return out


def diagrams():
    base = [I('1'), O('9')]
    yield 'first order', Sys(base + [S('2', '+-'), D('3'), G('4', 'a')], lines('1>2 4>2.2 2>3 3>4 2>9'))
    yield 'output after the delay', Sys(base + [S('2', '++'), D('3'), G('4', 'a')], lines('1>2 4>2.2 2>3 3>4 3>9'))
    yield 'output of a gain', Sys(base + [S('2', '++'), D('3'), G('4', 'a'), G('5', 'b')], lines('1>2 4>2.2 2>3 3>4 3>5 5>9'))
    yield 'output of a gain that is also used', Sys(base + [S('2', '++'), D('3'), G('4', 'a')], lines('1>2 4>2.2 2>3 3>4 4>9'))
    yield 'output of an input', Sys(base + [O('8', '2'), D('3')], lines('1>3 1>9 3>8'))
    yield 'repeated connection', Sys(base + [S('2', '++'), D('3'), S('5', '-+-'), G('4', 'a')], lines('1>2 1>2.2 2>3 3>5 3>5.2 4>5.3 1>4 5>9'))
    yield 'cancelled connection', Sys(base + [S('2', '+-+'), D('3'), S('5', '+-')], lines('1>2 1>2.2 3>2.3 2>3 3>5 3>5.2 5>9'))
    yield 'two gains of the same source', Sys(base + [S('2', '+-+'), D('3'), G('4', 'a'), G('5', 'b')], lines('1>2 3>4 3>5 4>2.2 5>2.3 2>3 2>9'))
    yield 'gain and direct', Sys(base + [S('2', '-+-'), D('3'), G('4', 'a')], lines('1>2 3>4 3>2.3 4>2.2 2>3 2>9'))
    yield 'chained gains', Sys(base + [S('2', '+-'), D('3'), G('4', 'a'), G('5', 'b'), G('6', 'c')], lines('1>2 3>4 4>5 5>6 6>2.2 2>3 5>9'))
    yield 'chained gains in reverse', Sys([G('6', 'c'), G('5', 'b'), G('4', 'a')] + base + [D('3'), S('2', '+-')], lines('1>2 3>4 4>5 5>6 6>2.2 2>3 6>9'))
    yield 'gain before a delay', Sys(base + [G('4', 'a'), D('3'), G('5', 'b')], lines('1>4 4>3 3>5 5>9'))
    yield 'literal gains', Sys(base + [S('2', '+--'), D('3'), G('4', '-2.5'), G('5', '0.125'), G('6', None)], lines('1>6 6>2 3>4 3>5 4>2.2 5>2.3 2>3 2>9'))
    yield 'merged sums', Sys(base + [S('2', '+-'), S('5', '-+'), S('6', '--'), D('3'), G('4', 'a')], lines('1>2 3>2.2 2>5 4>5.2 3>4 5>6 3>6.2 6>3 6>9'))
    yield 'merged sums with common terms', Sys(base + [S('2', '+-'), S('5', '-+'), D('3'), D('7'), G('4', 'a')], lines('1>2 3>2.2 2>5 3>5.2 5>3 1>7 7>4 4>9'))
    yield 'merged sums in reverse', Sys([S('6', '--'), S('5', '-+'), S('2', '+-')] + base + [D('3'), G('4', 'a')], lines('1>2 3>2.2 2>5 4>5.2 3>4 5>6 3>6.2 6>3 6>9'))
    yield 'cascade of five sums', Sys(base + [S(str(k), '+-') for k in range(10, 15)] + [D('3'), G('4', 'a')],
                                      lines('1>10 3>10.2 10>11 4>11.2 11>12 3>12.2 12>13 4>13.2 13>14 1>14.2 3>4 14>3 14>9'))
    yield 'sum used twice', Sys(base + [S('2', '+-'), S('5', '-+'), D('3'), D('7')], lines('1>2 7>2.2 2>5 3>5.2 5>3 2>7 5>9'))
    yield 'sum used twice by a sum', Sys(base + [S('2', '+-'), S('5', '+-'), D('3'), G('4', 'a')], lines('1>2 3>2.2 2>5 2>4 4>5.2 5>3 5>9'))
    yield 'output sum used again', Sys(base + [S('2', '+-'), S('5', '-+'), D('3'), D('7'), G('4', 'a')], lines('1>2 3>2.2 2>9 2>4 4>5 7>5.2 2>3 5>7'))
    yield 'intermediate sums against the order of the file', Sys(base + [S('6', '+-'), S('5', '++'), S('2', '+-'), D('3'), G('4', 'a'), G('7', 'b'), G('8', 'c')],
                                                                 lines('1>2 3>2.2 2>4 4>5 3>5.2 5>7 7>6 2>8 8>6.2 6>3 5>9'))
    yield 'two inputs and two outputs', Sys([O('9', '2'), I('1', '2'), I('2'), S('3', '+-'), S('4', '-+'), D('5'), D('6'), G('7', 'a'), O('8')],
                                            lines('1>3 5>3.2 3>5 2>4 6>4.2 4>6 5>7 7>9 4>8'))
    yield 'three inputs and three outputs', Sys([I('1', '3'), I('2', '1'), I('3', '2'), O('4', '2'), O('5', '3'), O('6', '1'), S('7', '++-'), D('8'), G('10', 'a'), G('11', 'b'), G('12', 'c')],
                                                lines('1>10 10>7 2>11 11>7.2 8>7.3 7>8 7>4 3>5 8>12 12>6'))
    yield 'twelve inputs', Sys([I(str(20 + k), str(k)) for k in (12, 2, 10, 1, 11, 3, 9, 4, 8, 5, 7, 6)] + [O('9'), D('3'), S('2', '+' * 13)] +
                               [G(str(40 + k), 'a%d' % k) for k in range(1, 13)],
                               lines(*['%d>%d %d>2.%d' % (20 + k, 40 + k, 40 + k, k) for k in range(1, 13)], '3>2.13 2>3 2>9'))
    yield 'two outputs on the same block', Sys(base + [O('8', '2'), S('2', '+-'), D('3'), G('4', 'a')], lines('1>2 4>2.2 2>3 3>4 2>9 2>8'))
    yield 'delay of three samples', Sys(base + [S('2', '+-'), D('3', '3'), G('4', 'a')], lines('1>2 4>2.2 2>3 3>4 2>9'))
    yield 'default delay', Sys(base + [S('2', '+-'), D('3', None), G('4', 'a')], lines('1>2 4>2.2 2>3 3>4 2>9'))
    yield 'delay of two samples used twice', Sys(base + [O('8', '2'), S('2', '+-'), D('3', '2'), D('5', '2'), G('4', 'a')], lines('1>2 4>2.2 2>3 3>4 3>5 3>9 5>8'))
    yield 'chained delays', Sys(base + [S('2', '+--'), D('3'), D('5'), D('6'), G('4', 'a'), G('7', 'b')], lines('1>2 4>2.2 7>2.3 2>3 3>5 5>6 3>4 6>7 5>9'))
    yield 'default sum', Sys(base + [('Sum', '2', {'Ports': '[2, 1]'}, None), D('3'), G('4', 'a')], lines('1>2 4>2.2 2>3 3>4 2>9'))
    yield 'shapes of the signs', Sys(base + [S('2', '+|-', ''), S('5', '-+|', ''), D('3'), G('4', 'a')], [('1#out:1', '2#in:1')] + lines('3>2.2 2>4 4>5 3>5.2 5>3 5>9'))
    yield 'unconnected sum input', Sys(base + [S('2', '+-+'), D('3')], lines('1>2 3>2.3 2>3 2>9'))
    yield 'line without source', Sys(base + [S('2', '+-+'), D('3')], lines('1>2 3>2.3 2>3 2>9'), ('2#in:2',))
    yield 'only delays', Sys(base + [D('3'), D('2')], lines('1>3 3>2 2>9'))
    inner = Sys([I('21'), O('22'), S('23', '+-'), D('24'), G('25', 'b')], lines('21>23 25>23.2 23>24 24>25 24>22'))
    yield 'subsystem', Sys(base + [U('2', 1, 1, inner), S('3', '+-'), G('4', 'a')], lines('1>3 4>3.2 3>2 2>4 2>9'))
    inner = Sys([O('26', '1'), I('21', '2'), O('22', '2'), I('27', '1'), S('23', '+-'), D('24'), G('25', 'b')], lines('21>23 27>23.2 23>24 24>25 25>26 23>22'))
    yield 'subsystem with two inputs and two outputs', Sys(base + [O('8', '2'), U('2', 2, 2, inner), S('3', '+-'), G('4', 'a'), D('5')], lines('1>3 5>3.2 3>2 5>2.2 2.2>5 2>4 4>9 2.2>8'))
    inner = Sys([I('21'), O('22'), O('23', '2'), G('24', 'b')], lines('21>22 21>24 24>23'))
    yield 'subsystem with a direct path', Sys(base + [U('2', 1, 2, inner), S('3', '+-'), D('4')], lines('1>3 4>3.2 3>2 2>4 2.2>9'))
    deep = Sys([I('31'), O('32'), D('33'), G('34', 'c')], lines('31>34 34>33 33>32'))
    inner = Sys([I('21'), O('22'), S('23', '+-'), U('30', 1, 1, deep)], lines('21>23 30>23.2 23>30 23>22'))
    yield 'nested subsystems', Sys(base + [U('2', 1, 1, inner), S('3', '+-'), D('4')], lines('1>3 4>3.2 3>2 2>4 2>9'))
    yield 'nested subsystems in reverse', Sys([U('2', 1, 1, Sys([U('30', 1, 1, deep), S('23', '+-'), O('22'), I('21')], lines('30>22 30>23.2 23>30 21>23')))] + base, lines('1>2 2>9'))
    inner = Sys([I('21'), I('22', '2'), O('23'), S('24', '+-'), D('25')], lines('21>24 22>24.2 24>25 25>23'))
    yield 'subsystem looped on itself', Sys(base + [U('2', 2, 1, inner), G('4', 'a')], lines('1>2 2>2.2 2>4 4>9'))
    one = Sys([I('21'), O('22'), G('23', 'a')], lines('21>23 23>22'))
    two = Sys([I('31'), O('32'), D('33')], lines('31>33 33>32'))
    yield 'two subsystems', Sys(base + [U('2', 1, 1, one), U('3', 1, 1, two), S('4', '+-')], lines('1>4 2>4.2 4>3 3>2 3>9'))
    yield 'subsystem output used several times', Sys(base + [O('8', '2'), U('2', 1, 1, two), S('4', '++'), G('5', 'a')], lines('1>4 2>5 5>4.2 4>2 2>9 2>8'))


def drawn(seed):
    """a diagram drawn once and for all for each seed"""
    rng = random.Random(seed)
    sid = itertools.count(1)
    gains = itertools.count(1)

    def system(ni, no, depth):
        B, L, src = [], [], []
        ins = [(str(next(sid)), p) for p in range(1, ni + 1)]
        src += [s for s, p in ins]
        dl = []
        for _ in range(rng.randint(0 if depth else 1, 2 - depth)):
            s = str(next(sid))
            dl.append(s)
            B.append(D(s, rng.choice(['1', '1', '1', '2'])))
            src.append(s)
        for _ in range(rng.randint(1, 5 - depth)):
            s = str(next(sid))
            r = rng.random()
            if r < .35:
                B.append(G(s, 'g%d' % next(gains)))
                L.append((rng.choice(src), s))
                src.append(s)
            elif r < .85 or depth > 1:
                n = rng.randint(2, 3)
                B.append(S(s, ''.join(rng.choice('+-') for _ in range(n))))
                L += [(rng.choice(src), '%s.%d' % (s, i + 1)) for i in range(n)]
                src.append(s)
            else:
                a, b = rng.randint(1, 2), rng.randint(1, 2)
                B.append(U(s, a, b, system(a, b, depth + 1)))
                L += [(rng.choice(src), '%s.%d' % (s, i + 1)) for i in range(a)]
                src += ['%s.%d' % (s, i + 1) for i in range(b)]
        L += [(rng.choice(src), s) for s in dl]
        B += [I(s, str(p)) for s, p in ins]
        for p in range(1, no + 1):
            s = str(next(sid))
            B.append(O(s, str(p)))
            L.append((rng.choice(src[-4:]), s))
        rng.shuffle(B)
        rng.shuffle(L)
        return Sys(B, lines(*['%s>%s' % x for x in L]))
    return system(rng.randint(1, 2), rng.randint(1, 2), 0)


def refusals():
    base = [I('1'), O('9')]
    yield 'unknown block', Sys(base + [('Product', '2', {}, None), D('3')], lines('1>2 2>3 3>9'))
    yield 'sum looped on itself', Sys(base + [S('2', '+-'), D('3')], lines('1>2 2>2.2 2>3 3>9'))
    yield 'sum looped on itself by a gain', Sys(base + [S('2', '+-'), G('4', 'a'), D('3')], lines('1>2 2>4 4>2.2 2>3 3>9'))
    yield 'two sums in a loop', Sys(base + [S('2', '+-'), S('4', '+-'), D('3')], lines('1>2 4>2.2 2>4 3>4.2 4>3 2>9'))
    yield 'three sums in a loop by gains', Sys(base + [S('2', '+-'), S('4', '+-'), S('5', '+-'), G('6', 'a'), G('7', 'b'), D('3')],
                                              lines('1>2 5>2.2 2>6 6>4 3>4.2 4>7 7>5 3>5.2 5>3 5>9'))
    yield 'gains in a loop', Sys(base + [S('2', '++'), G('4', 'a'), G('5', 'b'), D('3')], lines('4>5 5>4 4>2 1>2.2 2>3 3>9'))
    yield 'gain looped on itself', Sys(base + [S('2', '++'), G('4', 'a'), D('3')], lines('4>4 4>2 1>2.2 2>3 3>9'))
    yield 'delay of no sample', Sys(base + [S('2', '+-'), D('3', '0')], lines('1>2 3>2.2 2>3 2>9'))
    yield 'constant that is not given', Sys(base + [G('4', 'unknown'), D('3')], lines('1>4 4>3 3>9'))
    yield 'more signs than ports', Sys(base + [('Sum', '2', {'Ports': '[2, 1]', 'Inputs': '|++-'}, None), D('3')], lines('1>2 3>2.2 2>3 2>9'))
    inner = Sys([I('21'), I('22', '2'), O('23'), S('24', '+-'), D('25')], lines('21>24 22>24.2 24>25 25>23'))
    yield 'subsystem input not connected', Sys(base + [U('2', 2, 1, inner)], lines('1>2.2 2>9'))
    yield 'second subsystem input not connected', Sys(base + [U('2', 2, 1, inner)], lines('1>2 2>9'))
    yield 'subsystem output not connected inside', Sys(base + [U('2', 1, 1, Sys([I('21'), O('23'), D('25')], lines('21>25')))], lines('1>2 2>9'))


def check(R):
    R.rule('equations', 'the realization computes the outputs and the next states the diagram denotes, inputs and outputs in the order of their ports')
    R.rule('schedule', 'the intermediate variables are in an order where each one only depends on previous ones (J unit lower triangular)')
    R.rule('accepts', 'every diagram of the supported blocks without algebraic loop is imported')
    R.rule('refuses', 'a diagram that cannot be imported is refused (unknown block, algebraic loop, missing parameter or connection, not a model)')
    for name, s in diagrams():
        R.case(name, lambda c: imported(R, c, name, s))
    for k in range(60 if not R.thorough else 400):
        s = drawn(k)
        R.case('drawn %d' % k, lambda c: imported(R, c, 'drawn diagram %d' % k, s))
    for name, s in refusals():
        R.case('refused ' + name, lambda c: bad(R, c, name, s))
    for name in ('not an archive', 'no model', 'two models'):
        R.case('archive ' + name, lambda c: archive(R, c, name))


def gains(s):
    for t, sid, p, inner in s.blocks:
        if t == 'Gain' and 'Gain' in p:
            yield p['Gain']
        if inner is not None:
            yield from gains(inner)


def is_literal(g):
    try:
        float(g)
        return True
    except ValueError:
        return False


def instrument(c, s, names=('a/b.txt', 'simulink/blockdiagram.xml'), zipped=True):
    src = TREE + '\ndef root():\n\treturn ' + model(s) + '\n'
    h = c.I.hooks
    root, arc, cp = c.ref(src, 'root'), c.ref(src, 'Archive'), c.ref(src, 'copied')
    h[('ext', 'zipfile.is_zipfile')] = lambda I, a, kw: Const(zipped)
    h[('ext', 'zipfile.ZipFile')] = lambda I, a, kw: I.call(arc, [I.alloc(ListO([('item', Const(n)) for n in names]))], {})
    read = lambda I, a, kw: I.call(root, [], {})
    for n in ('lxml.etree.fromstring', 'lxml.etree.XML', 'xml.etree.ElementTree.fromstring', 'xml.etree.ElementTree.XML'):
        h[('ext', n)] = read

    def copy_(I, a, kw):
        o = I.st.heap.get(getattr(a[0], 'a', None))
        return I.call(cp, [a[0]], {}) if getattr(getattr(o, 'cls', None), 'name', '') == 'El' else None
    h[('ext', 'copy.copy')] = h[('ext', 'copy.deepcopy')] = copy_

    def path(f):
        def g(I, a, kw):
            if all(isinstance(x, Const) and isinstance(x.v, str) for x in a):
                r = f(*[x.v for x in a])
                return Tup([Const(x) for x in r]) if isinstance(r, tuple) else Const(r)
        return g
    for lib in ('os.path', 'posixpath'):
        for n in ('split', 'basename', 'dirname', 'join', 'splitext'):
            h[('ext', '%s.%s' % (lib, n))] = path(getattr(posixpath, n))

    def built(I, a, kw):
        d = dict(zip(('filt', 'JtoS', 'dJtodS', 'structureName', 'surnameVarX', 'structure', 'modele'), a), **kw)
        I.st.effects.append(('realization', d['JtoS']))
        return Const('the realization')
    h[('class', 'Realization')] = built
    c.I.recursion, c.I.MAXDEPTH = 64, 128
    return {g: c.scalar('gain_' + g) for g in gains(s) if not is_literal(g) and g != 'unknown'}


def launch(c, s, **kw):
    consts = instrument(c, s, **kw)
    f = c.func(MOD, 'importSimulink')
    return c.run(lambda: c.call(f, Const('model.slx'), c.I.alloc(DictO({Const(k): v for k, v in consts.items()})))), consts


def imported(R, c, name, s):
    con = F + 'Simulink.py::importSimulink'
    outs, consts = launch(c, s)
    for o in c.exceptions(outs, 'accepts', con, name):
        made = [e[1] for e in o.st.effects if e[0] == 'realization']
        if not c.holds(o, len(made) == 1 and o.value == Const('the realization'), 'accepts', con, name, 'the realization of the diagram is not returned'):
            continue
        blocks = [c.matof(o, v) for v in made[0].items]
        if any(b is None for b in blocks) or len(blocks) != 9:
            R.und('equations', con, name, 'blocks not read: %s' % short(made[0]))
            continue
        compare(R, c, o, name, s, blocks, lambda g: sc(Fraction(g)) if is_literal(g) else consts[g].s)


def compare(R, c, o, name, s, blocks, gain):
    con = F + 'Simulink.py::importSimulink'
    B = o.st.B
    J, K, L, M, N, P, Q, Rm, Sm = blocks
    want = Meaning(s, gain)
    X, Y = want.equations()
    n, m, p = len(X), len(want.ins), len(Y)
    size = lambda A: tuple(int(x.cval()) if x.is_const() else x for x in (sc(A.rows), sc(A.cols)))
    l = size(J)[0]
    shapes = dict(zip('JKLMNPQRS', [(l, l), (n, l), (p, l), (l, n), (l, m), (n, n), (n, m), (p, n), (p, m)]))
    for k, A in zip('JKLMNPQRS', blocks):
        if not c.holds(o, size(A) == shapes[k], 'equations', con, name + ': size of ' + k, '%s instead of %s' % (size(A), shapes[k])):
            return
    e = lambda A, i, j: entry(A, sc(i), sc(j), B)
    l = int(l)
    up = [(i, j) for i in range(l) for j in range(i, l) if not zero(e(J, i, j) - sc(1 if i == j else 0))]
    if not c.holds(o, not up, 'schedule', con, name, up and 'J%s is %s' % (list(up[0]), e(J, *up[0]))) or up:
        return

    def row(i, *As):
        """linear form of a row of blocks (on t, on x, on u)"""
        r = {}
        for A, vs in zip(As, ([('t', j) for j in range(l)], [('x', j) for j in range(n)], [('u', j) for j in range(m)])):
            for j, v in enumerate(vs):
                a = e(A, i, j)
                if not zero(a):
                    r[v] = a
        return r

    def explicit(r):
        out = {}
        for v, a in r.items():
            for w, b in (T[v[1]] if v[0] == 't' else {v: ONE}).items():
                out[w] = out.get(w, ZERO) + a * b
        return out
    T = []
    for i in range(l):
        r = row(i, J, M, N)
        r = {v: (-a if v[0] == 't' else a) for v, a in r.items() if v != ('t', i)}
        T.append(explicit(r))
    gx = [explicit(row(i, K, P, Q)) for i in range(n)]
    gy = [explicit(row(i, L, Rm, Sm)) for i in range(p)]
    same = lambda a, b: all(zero(a.get(v, ZERO) - b.get(v, ZERO)) for v in set(a) | set(b))
    best, miss = None, 0
    for perm in itertools.permutations(range(n)):        # state perm[i] of the realization is state i of the diagram
        name_ = {('x', j): ('x', want.states[i]) for i, j in enumerate(perm)}
        r = lambda f: {name_.get(v, v): a for v, a in f.items()}
        diff = [('state %s(k+1)' % (want.states[i],), r(gx[perm[i]]), X[i]) for i in range(n) if not same(r(gx[perm[i]]), X[i])]
        diff += [('output %d' % (i + 1), r(gy[i]), Y[i]) for i in range(p) if not same(r(gy[i]), Y[i])]
        if best is None or len(diff) < len(best):
            best = diff
        if not best:
            break
    c.holds(o, not best, 'equations', con, name, best and '%s is %s instead of %s' % (best[0][0], short(form(best[0][1]), 200), short(form(best[0][2]), 200)))


def form(f):
    return ' + '.join('(%r) %s' % (a, v) for v, a in sorted(f.items(), key=str) if not zero(a)) or '0'


def zero(a):
    a = sc(a)
    return a.is_const() and a.cval() == 0


def bad(R, c, name, s):
    con = F + 'Simulink.py::importSimulink'
    outs, _ = launch(c, s)
    turned(R, c, outs, con, name)


def turned(R, c, outs, con, name):
    for o in outs:
        if o.kind == 'raise' and o.value.flag == 'limit':
            R.und('refuses', con, name, 'limit of the analysis: %s' % o.value)
        else:
            c.holds(o, o.kind == 'raise', 'refuses', con, name, 'imported: %s' % short([e for e in o.st.effects if e[0] == 'realization']))


def archive(R, c, name):
    con = F + 'Simulink.py::importSimulink'
    s = Sys([I('1'), O('9'), D('3')], lines('1>3 3>9'))
    kw = {'not an archive': {'zipped': False}, 'no model': {'names': ('a.xml', 'blockdiagram.xml.bak')}, 'two models': {'names': ('a/blockdiagram.xml', 'b/blockdiagram.xml')}}
    outs, _ = launch(c, s, **kw[name])
    turned(R, c, outs, con, name)
