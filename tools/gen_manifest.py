#!/usr/bin/env python3
"""writes MANIFEST.json from the property list and the table below"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = ('The source of /repo is interpreted abstractly (matrices of symbolic sizes, closed-form loop summaries, all paths); an obligation is discharged by '
        'equality of normal forms and refuted only with a separating instance of the two extracted formulas; anything else is left undecided and listed. ')
TRUST = 'Trusted: the analyser in sa/, its models of numpy/mpmath/builtins, finite coefficient values. '
AI = 'abstract interpretation over a symbolic matrix domain'
CLAIMS = json.load(open(os.path.join(HERE, 'tools', 'claims.json')))
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        if p in CLAIMS:
            c = CLAIMS[p]
            checks.append(dict(property=p, quick_cmd='%s run.py %s' % (PY, p), thorough_cmd='%s run.py %s thorough' % (PY, p),
                               evidence_file='evidence/%s.json' % p, technique=c['technique'], level='other',
                               level_note=(BASE if c.get('base', True) else '') + c['note'] + ' ' + TRUST))
        else:
            na.append(dict(property=p, reason=NA.get(p, 'no check has been built yet')))
    doc = dict(version=1, setup_cmd='%s -c "import ast"' % PY, checks=checks, not_applicable=na,
               notes='every check only reads /repo (FIXIF_REPO overrides the path during development); no code of /repo is run')
    json.dump(doc, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
