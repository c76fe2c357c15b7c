#!/usr/bin/env python3
"""Rewrites the generated section of DESIGN.md from props.py, the evidence of the last runs and seeded/: design.py [EVIDENCE_DIR]"""
import json, os, sys, textwrap
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = sys.argv[1] if len(sys.argv) > 1 else os.path.join(VERIF, 'evidence')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
PROPS = []


def P(*a):
    PROPS.append(a)


def N(*a):
    PROPS.append(a)


exec(open(os.path.join(VERIF, 'tools', 'props.py')).read())
seeds = {}
for s in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
    m = json.load(open(os.path.join(VERIF, 'seeded', s, 'meta.json')))
    seeds.setdefault(m['property'], []).append((s, m.get('caught', True), m['what_it_breaks']))


def wrap(s, ind=''):
    return textwrap.fill(' '.join(s.split()), 110, initial_indent=ind, subsequent_indent=' ' * len(ind), break_on_hyphens=False)


out = []
for p in PROPS:
    na = len(p) == 9
    out.append('### %s %s' % (p[0], p[1]))
    out.append(wrap(p[2]) + '\n')
    if na:
        out.append(wrap('*Not decided:* ' + p[8]) + '\n')
        continue
    out.append(wrap('*Method:* %s. %s' % (p[8], p[9])))
    out.append(wrap('*Why this reaches what tests cannot:* %s.' % p[5].rstrip('.')))
    f = os.path.join(EV, p[0] + '.json')
    if os.path.exists(f):
        d = json.load(open(f))
        c = d['coverage']
        out.append('*Rules* (the oracle each obligation is compared with):')
        for k, v in c['rules'].items():
            out.append(wrap(v, '- %s: ' % k))
        out.append(wrap('*Covered on the current tree:* %d obligations; %d functions explored as roots, %d path classes; %.0f s after the extraction.'
                        % (c['obligations'], len(c['functions_explored']), c['path_classes'], d['wall_s'])))
        if d['assumptions']:
            out.append('*Assumptions:*')
            for a in d['assumptions']:
                out.append(wrap(a, '- '))
    if seeds.get(p[0]):
        out.append('*Planted bugs* (seeded/):')
        for s, caught, what in seeds[p[0]]:
            out.append(wrap('%s%s' % (what, '' if caught else ' **(missed)**'), '- `%s`: ' % s))
    out.append('')
f = os.path.join(VERIF, 'DESIGN.md')
t = open(f).read()
a, b = '<!-- generated: tools/design.py -->\n', '<!-- end generated -->\n'
i, j = t.index(a) + len(a), t.index(b)
open(f, 'w').write(t[:i] + '\n'.join(out) + '\n' + t[j:])
