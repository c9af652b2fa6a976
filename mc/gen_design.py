#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: design_src.md with the per-property section filled
in from properties.jsonl, config.py and the texts below."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from config import CHECKS
from design_how import HOW
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
known = [l.strip() for l in open(V + '/KNOWN_FINDINGS') if l.startswith(('fixed:', 'known:'))]
out = []
for p in props:
    c = CHECKS[p['id']]; h = HOW[p['id']]
    out.append('### %s - %s' % (p['id'], p['title']))
    out.append('**Enumerated.** ' + h['what'])
    out.append('**Oracle.** ' + h['oracle'])
    out.append('**Bounds (quick).** ' + c['bounds'] + '. **Thorough:** ' + c.get('bounds_thorough', 'as quick') + '.')
    out.append('**One case; what counts as a state.** ' + c['rule'] + '.')
    out.append('**Assumptions / left unspecified.** ' + ('; '.join(c.get('assumptions', [])) or 'none') + '.')
    out.append('**Beyond the tests.** ' + h['why'])
    out.append('**Cost (quick).** about %s.' % h['cost'])
    f = [k.split(' ', 2)[2] for k in known if ('property=%s ' % p['id']) in k and k.startswith('fixed')]
    if f: out.append('**Defects found and repaired.** ' + '; '.join(f) + '.')
    out.append('')
s = open(HERE + '/design_src.md').read().replace('@PROPERTIES@', '\n\n'.join(out))
rows = [l.rstrip('\n').split('\t') for l in open(HERE + '/catches.tsv') if l.strip()]
s = s.replace('@CATCH@', '| planted | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n' + '\n'.join('| ' + ' | '.join(x.replace('|', '/') for x in r) + ' |' for r in rows))
open(V + '/DESIGN.md', 'w').write(s)
