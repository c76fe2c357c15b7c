#!/usr/bin/env python3
"""Development harness: apply small edits to a scratch copy of /repo and run checks on it.
mut.py [-k substring] [-b] [-t] casefile...    (casefile: tools/cases/*.py defining CASES)
A case: (name, [(file, old, new)...], {property: expected exit}); expected 0 = refactoring, 1 = bug.  -t also builds and runs the tests."""
import os, subprocess, sys, shutil, json
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('MUTDIR', '/tmp/mut')
REPO = W + '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def fresh():
    os.makedirs(W, exist_ok=True)
    sh('mkdir -p %s && rsync -a --delete --exclude target --exclude .git /repo/ %s/' % (REPO, REPO)) if shutil.which('rsync') else \
        sh('mkdir -p %s && rm -rf %s/src && cp -a /repo/src /repo/Cargo.toml /repo/Cargo.lock /repo/tests %s/' % (REPO, REPO, REPO))


def apply(edits):
    for f, old, new in edits:
        p = os.path.join(REPO, f)
        s = open(p).read()
        if s.count(old) < 1:
            return 'edit does not apply: %s: %r' % (f, old[:80])
        s = s.replace(old, new, 1)
        open(p, 'w').write(s)
    return None


def main():
    a = sys.argv[1:]
    k = None
    tests = False
    onlyprops, cross = None, False
    while a and a[0].startswith('-'):
        if a[0] == '-k':
            k = a[1]; a = a[2:]
        elif a[0] == '-p':
            onlyprops = a[1].split(','); a = a[2:]
        elif a[0] == '-t':
            tests = True; a = a[1:]
        elif a[0] == '-x':
            # every refactoring against every check
            cross = True; a = a[1:]
    if 'MUTDIR' not in os.environ:
        # eight workers, each with a scratch copy of its own
        W_ = int(os.environ.get('MUTWORKERS', '8'))
        ps = [subprocess.Popen([sys.executable] + sys.argv, env=dict(os.environ, MUTDIR=os.environ.get('MUTBASE', '/tmp/mut') + '%d' % i, MUTSHARD='%d/%d' % (i, W_)), text=True, stdout=subprocess.PIPE) for i in range(W_)]
        n = 0
        for q in ps:
            o = q.communicate()[0]
            for line in o.splitlines():
                if line.startswith('unexpected: '):
                    n += int(line.split()[1])
                else:
                    print(line)
        print('unexpected: %d' % n)
        return
    me, of = map(int, os.environ.get('MUTSHARD', '0/1').split('/'))
    num = -1
    bad = 0
    env = dict(os.environ, PAPYRI_REPO=REPO, PAPYRI_CACHE=W + '/cache', PAPYRI_EVIDENCE=W + '/evidence')
    os.makedirs(W + '/evidence', exist_ok=True)
    for cf in a:
        g = {}
        exec(open(cf).read(), g)
        for name, edits, want in g['CASES']:
            if k and k not in name:
                continue
            if cross:
                if any(want.values()):
                    continue
                want = dict.fromkeys((c['property'] for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']), 0)
            num += 1
            if cross and num % int(os.environ.get('MUTSAMPLE', '1')):
                continue
            if num // (int(os.environ.get('MUTSAMPLE', '1')) if cross else 1) % of != me:
                continue
            fresh()
            e = apply(edits)
            if e:
                print('%-40s %s' % (name, e)); bad += 1
                continue
            if tests:
                r = sh('cd %s && CARGO_TARGET_DIR=%s/ttarget cargo test --offline 2>&1 | grep -E "^test result|FAILED|failed|^error" | head -5' % (REPO, W))
                print(name, r.stdout.strip().replace('\n', ' | ')[:300])
            from concurrent.futures import ThreadPoolExecutor
            todo = [(p, w) for p, w in want.items() if not onlyprops or p in onlyprops]
            if not todo:
                continue
            run1 = lambda pw: sh('python3 %s/analysis/check.py %s quick' % (VERIF, pw[0]), env=env)
            with ThreadPoolExecutor(1 if cross else 8) as ex:
                rs = [run1(todo[0])] + list(ex.map(run1, todo[1:]))
            good = []
            for (pid, w), r in zip(todo, rs):
                ok = r.returncode == w
                bad += not ok
                lines = [x for x in r.stdout.strip().split('\n') if 'VIOLATION' not in x]
                if ok and w == 0:
                    good.append(pid)
                    continue
                print('%-34s %s %s rc=%d want=%d %s' % (name, 'ok ' if ok else 'BAD', pid, r.returncode, w, ' / '.join(lines[-3:] if r.returncode == 2 else lines[:2])[:200]))
            if good:
                print('%-34s quiet: %s' % (name, ' '.join(good)))
            sys.stdout.flush()
    print('unexpected: %d' % bad)


main()
