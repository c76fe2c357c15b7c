"""Extraction of the program facts (type-checked MIR, layouts, constants) from /repo's
current working tree, by a rustc_private driver run under `cargo +nightly check`."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PAPYRI_REPO', '/repo')
CACHE = os.environ.get('PAPYRI_CACHE', os.path.join(VERIF, '.cache'))
DRIVER_SRC = os.path.join(VERIF, 'driver', 'driver.rs')


class ExtractError(Exception):
    pass


def _inputs():
    out = []
    for top in ('src', 'resources'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            out += [os.path.join(d, f) for f in sorted(fs)]
    for f in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    out.append(DRIVER_SRC)
    return out


def tree_key():
    h = hashlib.sha256()
    for p in _inputs():
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def _env():
    e = dict(os.environ)
    e.update(HOME='/root', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTFLAGS='',
             RUSTC_WRAPPER='', CARGO_INCREMENTAL='0', RUSTUP_TOOLCHAIN='nightly')
    e['PATH'] = '/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:' + e.get('PATH', '')
    e.pop('RUSTC_WORKSPACE_WRAPPER', None)
    return e


def build_driver():
    env = _env()
    key = hashlib.sha256(open(DRIVER_SRC, 'rb').read()).hexdigest()[:16]
    out = os.path.join(CACHE, 'driver-' + key)
    sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], env=env, text=True).strip()
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run(['rustc', '+nightly', '--edition', '2021', '-O', DRIVER_SRC, '-o', tmp,
                            '-C', 'link-arg=-Wl,-rpath,%s/lib' % sysroot], env=env, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise ExtractError('the driver does not build:\n' + r.stdout[-4000:])
        os.rename(tmp, out)
    return out, sysroot


def extract():
    """-> directory with papyri_lang.lib.json and papyri.bin.json for the current tree."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_key()
        d = os.path.join(CACHE, 'facts-' + key)
        if os.path.exists(os.path.join(d, 'ok')):
            os.utime(d)
            return d
        # keep only a few old trees
        old = sorted((os.path.join(CACHE, x) for x in os.listdir(CACHE) if x.startswith('facts-')),
                     key=os.path.getmtime)
        for x in old[:-5]:
            shutil.rmtree(x, ignore_errors=True)
        drv, sysroot = build_driver()
        target = os.path.join(CACHE, 'target')
        # forget earlier builds of the package itself (both layouts cargo uses), so that the driver always runs
        for base in (os.path.join(target, 'debug', '.fingerprint'), os.path.join(target, 'debug', 'build')):
            if os.path.isdir(base):
                for x in os.listdir(base):
                    if x.startswith(('papyri-lang', 'papyri_lang')):
                        shutil.rmtree(os.path.join(base, x), ignore_errors=True)
        tmp = d + '.tmp%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        env = _env()
        env.update(CARGO_TARGET_DIR=target, PAPYRI_FACTS_DIR=tmp, RUSTC_WORKSPACE_WRAPPER=drv,
                   LD_LIBRARY_PATH=sysroot + '/lib')
        r = subprocess.run(['cargo', '+nightly', 'check', '--locked', '--offline', '--lib', '--bins'],
                           cwd=REPO, env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise ExtractError('cargo check under the driver failed:\n' + r.stdout[-6000:])
        for f in ('papyri_lang.lib.json', 'papyri.bin.json'):
            if not os.path.exists(os.path.join(tmp, f)):
                raise ExtractError('no facts written for ' + f)
        open(os.path.join(tmp, 'ok'), 'w').close()
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
        return d


def load():
    d = extract()
    out = {}
    for f in ('papyri_lang.lib', 'papyri.bin'):
        with open(os.path.join(d, f + '.json')) as fh:
            out[f.split('.')[0]] = json.load(fh)
    return out


if __name__ == '__main__':
    t = time.time()
    print(extract(), round(time.time() - t, 1), 's')
