#!/usr/bin/env python3
"""Generates and validates /verif/seeded/<id>/ from tools/seeds.py.
seed.py [-k substring] [-f]     (-f: regenerate and revalidate existing ones; -n: also report which checks raise an alarm)"""
import json, os, subprocess, sys, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('SEEDDIR', '/tmp/seed')
REPO = W + '/repo'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTFLAGS='-A dependency_on_unit_never_type_fallback', RUST_BACKTRACE='0',
           CARGO_TARGET_DIR=REPO + '/target')
LIB = r'''import os, subprocess, sys, tempfile
REPO = os.getcwd()
BIN = os.path.join(REPO, 'target', 'debug', 'papyri')


def compile(src, *opts, stdout=subprocess.PIPE):
    """compile a source given on standard input -> (exit status, output, diagnostics)"""
    r = subprocess.run([BIN, '--stdin', *opts], input=src.encode(), stdout=stdout, stderr=subprocess.PIPE, timeout=100)
    return r.returncode, (r.stdout or b'').decode(), r.stderr.decode()


def project(files, *opts, cwd='.'):
    """write files into a scratch directory and run the command line there -> (status, stdout, stderr, {path: text})"""
    with tempfile.TemporaryDirectory() as d:
        for p, s in files.items():
            q = os.path.join(d, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'w') as f:
                f.write(s)
        r = subprocess.run([BIN, *opts], cwd=os.path.join(d, cwd), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        out = {}
        for b, _, fs in os.walk(d):
            for f in fs:
                q = os.path.join(b, f)
                out[os.path.relpath(q, d)] = open(q, errors='replace').read()
        return r.returncode, r.stdout.decode(), r.stderr.decode(), out


def rust(main, *args, env=None):
    """build a small program against the library that was just built and run it in a scratch directory -> (status, stdout, stderr)"""
    deps = os.path.join(REPO, 'target', 'debug', 'deps')
    rlib = max((os.path.join(deps, f) for f in os.listdir(deps) if f.startswith('libpapyri_lang-') and f.endswith('.rlib')), key=os.path.getmtime)
    with tempfile.TemporaryDirectory() as d:
        with open(d + '/demo.rs', 'w') as f:
            f.write(main)
        e = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
        e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
        b = subprocess.run(['rustc', '--edition', '2021', '-L', 'dependency=' + deps, '--extern', 'papyri_lang=' + rlib, '-A', 'warnings',
                            '-o', d + '/demo', d + '/demo.rs'], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if b.returncode:
            print(b.stdout.decode()[-2000:])
            sys.exit(99)
        os.mkdir(d + '/w')
        r = subprocess.run([d + '/demo', *args], cwd=d + '/w', stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        return r.returncode, r.stdout.decode(), r.stderr.decode()


def expect(got, want):
    if got != want:
        print('got %r, wanted %r' % (got, want))
        sys.exit(1)


def check(cond, msg):
    if not cond:
        print(msg)
        sys.exit(1)

'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)


def restore():
    os.makedirs(W, exist_ok=True)
    sh('rsync -a --delete --exclude target /repo/ %s/' % REPO)


def main():
    a = sys.argv[1:]
    k, force, alarms = None, False, False
    while a:
        if a[0] == '-k':
            k = a[1]; a = a[2:]
        elif a[0] == '-f':
            force = True; a = a[1:]
        elif a[0] == '-n':
            alarms = True; a = a[1:]
    g = {}
    exec(open(os.path.join(VERIF, 'tools', 'seeds.py')).read(), g)
    if not os.path.isdir(REPO):
        os.makedirs(W, exist_ok=True)
        sh('cp -a /repo %s' % REPO)
    base = sh('git -C /repo diff --name-only $(git -C /repo rev-list --max-parents=0 HEAD) HEAD').stdout.split()
    for s in g['SEEDS']:
        d = os.path.join(VERIF, 'seeded', s['id'])
        if k and k not in s['id'] or (os.path.exists(d + '/patch.diff') and not force):
            continue
        restore()
        bad = None
        for f, old, new in s['edits']:
            p = os.path.join(REPO, f)
            t = open(p).read()
            if t.count(old) < 1:
                bad = 'edit does not apply: %s %r' % (f, old[:60])
                break
            open(p, 'w').write(t.replace(old, new, 1))
        if bad:
            print('%-28s %s' % (s['id'], bad))
            continue
        diff = sh('git -C %s diff' % REPO).stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(LIB + s['demo'].strip('\n') + '\n')
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        b = sh('cd %s && cargo test --workspace --no-run --locked --offline' % REPO)
        t = sh('cd %s && cargo test --workspace --no-fail-fast --locked --offline 2>&1 | grep -E "^test .*FAILED|^error" | head' % REPO)
        dm = sh('cd %s && bash %s/demo.sh' % (REPO, d))
        cl = sh('cd /repo && bash %s/demo.sh' % d)
        ok = b.returncode == 0 and not t.stdout.strip() and dm.returncode not in (0, 99) and cl.returncode == 0
        print('%-28s %s%s' % (s['id'], 'ok   ' if ok else 'BAD  ', ' | '.join(x for x in (
            '' if b.returncode == 0 else 'build: ' + b.stdout[-600:], 'tests: ' + t.stdout.strip()[:300] if t.stdout.strip() else '',
            'patched demo rc=%d %s' % (dm.returncode, dm.stdout.strip()[-160:]), '' if cl.returncode == 0 else 'clean demo rc=%d %s' % (cl.returncode, cl.stdout[-300:])) if x)))
        if ok:
            open(d + '/patch.diff', 'w').write(diff)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        else:
            for f in ('demo.py', 'demo.sh', 'patch.diff', 'meta.json'):
                if os.path.exists(d + '/' + f):
                    os.unlink(d + '/' + f)
            os.rmdir(d)
        sys.stdout.flush()
    restore()


main()
