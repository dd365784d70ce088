"""C13: process-wide numeric state is restored on every exit"""
from ..ambient import Analysis, is_generator, nested

LEVEL = 'other'
EXPLANATION = ('typestate analysis of every function of the library: settings changed and not restored on each normal, exceptional and suspended exit, '
               'helpers summarised and followed through their callers')


def setter(f, r):
    return f.name.lstrip('_').startswith('set') and r in f.restores


def check(R):
    R.rule('normal', 'on every normal return each setting is what it was on entry')
    R.rule('raising', 'on every exception each setting is what it was on entry')
    R.rule('suspended', 'no setting is changed while a generator is suspended (it may be abandoned there)')
    R.rule('seeding', 'the generator of random numbers is seeded only with a seed the caller gave')
    A = Analysis(R.P)
    sites = 0
    for f in A.fns:
        R.functions.add((f.mod.name, f.qual))
        sites += f.sites
        if f.cls is None and f.qual == '<module>' and not f.sites:
            continue
        seeds = {r for r in set(f.sets) | set(f.raises) if r.endswith('seed')}
        for rule, found in (('normal', f.sets), ('raising', f.raises), ('suspended', f.yields)):
            bad = False
            for r, site in sorted(found.items()):
                if r in seeds and rule != 'suspended':
                    continue
                if setter(f, r) or A.propagates(f) and rule != 'suspended':
                    continue
                if rule == 'raising' and r in f.sets:
                    continue
                line = site[0] if isinstance(site, tuple) else site
                bad = True
                R.viol(rule, f.where, '%s changed' % r, {
                    'normal': 'set at line %s, not restored when the function returns' % line,
                    'raising': 'set at line %s, not restored when a later statement raises' % line,
                    'suspended': 'changed at line %s and still changed at the yield of line %s' % (line, site[1] if isinstance(site, tuple) else '?')}[rule], line)
            if not bad and (rule != 'suspended' or is_generator(f.node)):
                R.ok(rule, f.where, 'settings restored')
        for r in seeds:
            if A.propagates(f):
                continue
            R.viol('seeding', f.where, r, 'seeded at line %s with something else than a seed given by the caller' % f.sets.get(r, f.raises.get(r)), f.sets.get(r, f.raises.get(r)))
        for r in f.seed_param:
            if r not in seeds:
                R.ok('seeding', f.where, r)
    R.calls = sites
    R.extra['statements'] = A.statements
    R.extra['sites that change or restore a setting'] = sites
    if not sites:
        R.und('normal', 'library', 'no place that changes a setting was found')
