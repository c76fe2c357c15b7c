#!/usr/bin/env python3
"""Runs each planted bug's own check (and -a: all checks) against a scratch copy with the bug: seedcheck.py [-k substr] [-a]"""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = sys.argv[sys.argv.index('-k') + 1] if '-k' in sys.argv else ''
every = '-a' in sys.argv
W = '/tmp/seedcheck'
ids = [p['property'] for p in json.load(open(VERIF + '/MANIFEST.json'))['checks']]


def sh(c, env=None):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)


def one(arg):
    s, w = arg
    d = VERIF + '/seeded/' + s
    m = json.load(open(d + '/meta.json'))
    R = '%s/%d' % (W, w)
    sh('mkdir -p %s/repo && rsync -a --delete --exclude target /repo/ %s/repo/ && cd %s/repo && git apply %s/patch.diff' % (R, R, R, d))
    env = dict(os.environ, PAPYRI_REPO=R + '/repo', PAPYRI_CACHE=R + '/cache', PAPYRI_EVIDENCE=R + '/ev')
    os.makedirs(R + '/ev', exist_ok=True)
    out = []
    for p in (ids if every else [m['property']]):
        r = sh('python3 %s/analysis/check.py %s quick' % (VERIF, p), env)
        if r.returncode or p == m['property']:
            ls = [x for x in r.stdout.strip().split('\n') if 'VIOLATION' not in x]
            out.append('%s %s rc=%d %s' % ('CAUGHT' if r.returncode == 1 and p == m['property'] else 'also' if p != m['property'] else 'MISSED', p, r.returncode, ls[0][:150] if ls else ''))
    return s, out


todo = [s for s in sorted(os.listdir(VERIF + '/seeded')) if k in s]
N = 4
lanes = [todo[i::N] for i in range(N)]


def lane(w):
    for s in lanes[w]:
        s, out = one((s, w))
        print('%-30s %s' % (s, '\n'.ljust(32).join(out)))
        sys.stdout.flush()


with ThreadPoolExecutor(N) as ex:
    list(ex.map(lane, range(N)))
