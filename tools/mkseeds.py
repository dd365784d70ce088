#!/usr/bin/env python3
"""mkseeds.py [ID ...]: (re)build /verif/seeded/<id> from the descriptions in tools/seeds/*.py, and confirm each one:
builds, passes the stable tests, demo 0 on the unchanged tree and nonzero with the patch, and which check reports it.
Development aid only (not registered in MANIFEST)."""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
STUB = '''"""stand-ins for the external libraries that are not part of the repository"""
import sys, types, os, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True


def mod(n, **k):
	m = types.ModuleType(n)
	m.__dict__.update(k)
	sys.modules[n] = m
	return m


def _wcpg_abcd(A, B, C, D, output_info=None):
	import numpy as np
	A, B, C, D = [np.matrix(x) for x in (A, B, C, D)]
	W = abs(D)
	X = B
	for _ in range(5000):
		W = W + abs(C * X)
		X = A * X
	return W


def _wcpg_tf(num, den):
	return None


mod('fixif.WCPG', WCPG_ABCD=_wcpg_abcd, WCPG_TF=_wcpg_tf)
class FPF(object):
	def __init__(self, wl=None, msb=None, lsb=None, signed=True):
		if lsb is None:
			lsb = msb - wl + 1
		if msb is None:
			msb = lsb + wl - 1
		self.wl, self.msb, self.lsb, self.signed = msb - lsb + 1, msb, lsb, signed


class Constant(object):
	def __init__(self, value, wl=None, signed=True, fpf=None):
		from math import floor, log, ldexp
		self.value = value
		msb = int(floor(log(abs(value), 2))) + 1 if value else 0
		self.FPF = fpf or FPF(wl=wl, msb=msb)
		self.mantissa = int(floor(value / 2.0**self.FPF.lsb + 0.5))
		self.approx = ldexp(self.mantissa, self.FPF.lsb)


fx = mod('fixif.FxP', Constant=Constant, FPF=FPF)
fx.__path__ = []
mod('fixif.FxP.Constant', Constant=Constant, FPF=FPF)
mod('fixif.FxP.FPF', FPF=FPF)
'''
SH = '#!/bin/sh\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd=None, env=None, timeout=600):
	e = dict(os.environ)
	e.update(env or {})
	return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)


def copy_repo():
	d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
	r = os.path.join(d, 'repo')
	shutil.copytree('/repo', r, symlinks=True)
	return d, r


def stable():
	b = json.load(open('/opt/vp/BASELINE.json'))
	return b


def one(sid, s):
	d, r = copy_repo()
	try:
		dst = os.path.join(VERIF, 'seeded', sid)
		edits = s['edits'] if 'edits' in s else [(s['file'], s['old'], s['new'])] + [(s['file'],) + m for m in s.get('more', [])]
		for f, old, new in edits:
			p = os.path.join(r, f)
			t = open(p).read()
			if t.count(old) != 1:
				return sid, 'OLD TEXT FOUND %d TIMES in %s' % (t.count(old), f)
			open(p, 'w').write(t.replace(old, new))
		diff = run(['git', 'diff'], cwd=r).stdout
		for l in diff.split('\n'):
			if l.startswith('-') and not l.startswith('---'):
				base = run(['git', 'grep', '-F', '-e', l[1:], '2b2efea', '--'] , cwd=r)
				if base.returncode and l[1:].strip():
					return sid, 'CHANGES A LINE NOT IN THE ORIGINAL: ' + l
		os.makedirs(dst, exist_ok=True)
		open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
		open(os.path.join(dst, 'demo.sh'), 'w').write(SH)
		os.chmod(os.path.join(dst, 'demo.sh'), 0o755)
		open(os.path.join(dst, 'stub.py'), 'w').write(STUB)
		open(os.path.join(dst, 'demo.py'), 'w').write('import stub\n' + s['demo'].strip() + '\n')
		json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
		          open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
		a = run(['sh', os.path.join(dst, 'demo.sh')], cwd='/repo', timeout=300)
		b = run(['sh', os.path.join(dst, 'demo.sh')], cwd=r, timeout=300)
		msg = []
		if a.returncode != 0:
			msg.append('DEMO FAILS ON CLEAN TREE: ' + a.stdout[-1500:])
		if b.returncode == 0:
			msg.append('DEMO PASSES WITH PATCH: ' + b.stdout[-300:])
		t = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'fixif/func_aux/test/test_MPFmatrix.py'], cwd=r)
		if '8 passed' not in t.stdout:
			msg.append('TESTS: ' + t.stdout[-300:])
		for f, _, _ in edits:
			c = run([PY, '-m', 'py_compile', f], cwd=r)
			if c.returncode:
				msg.append('COMPILE ' + c.stdout)
		ev = os.path.join(d, 'ev')
		caught = []
		for pid in [s['property']] + s.get('also', []):
			if os.path.exists(os.path.join(VERIF, 'sa', 'checks', pid.lower() + '.py')):
				k = run([PY, os.path.join(VERIF, 'run.py'), pid], env={'FIXIF_REPO': r, 'VERIF_EVIDENCE': ev, 'VERIF_JOBS': '4'}, timeout=900)
				caught.append('%s:%s' % (pid, 'caught' if 'VIOLATION' in k.stdout and k.returncode == 1 else 'MISSED'))
			else:
				caught.append(pid + ':no check')
		return sid, ' '.join(caught) + ('  ' + ' | '.join(msg) if msg else '') + (('   [demo: %s]' % (b.stdout.strip().split('\n') or [''])[-1][:110]) if b.returncode else '')
	finally:
		shutil.rmtree(d)


def main():
	seeds = {}
	for f in sorted(glob.glob(os.path.join(HERE, 'seeds', '*.py'))):
		g = {}
		exec(open(f).read(), g)
		seeds.update(g['SEEDS'])
	ids = [i for i in seeds if not sys.argv[1:] or any(i.startswith(a) for a in sys.argv[1:])]
	with ThreadPoolExecutor(3) as ex:
		for sid, m in ex.map(lambda i: one(i, seeds[i]), ids):
			print(sid, m, flush=True)


main()
