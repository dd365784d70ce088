"""rewrite the table of planted changes of DESIGN.md from seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
	m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
	rows.append('| %s | %s | %s |' % (d, m['needs'].replace('|', '/'), m['property']))
t = open(V + '/DESIGN.md').read()
i = t.index('### Which check catches')
j = t.index('\n## 5. Limits')
open(V + '/DESIGN.md', 'w').write(t[:i] + '### Which check catches which planted change\n\nEach is caught by the check of its property.\n\n' + '\n'.join(rows) + '\n' + t[j:])
