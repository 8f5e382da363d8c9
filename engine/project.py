"""Builds the resolved program (MIR dumps) of /repo and of the reference crate and compares value graphs."""
import os, subprocess, sys, fcntl, time, json, hashlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
REPO = os.environ.get('FORUST_REPO', '/repo')
BUILD = os.environ.get('FORUST_BUILD') or os.path.join(ROOT, '.build')
OUT = os.path.join(BUILD, 'out')


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None):
    e = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTUP_TOOLCHAIN'): e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0: raise BuildError('%s failed in %s:\n%s' % (' '.join(cmd), cwd, p.stdout[-4000:]))
    return p.stdout


def sysroot():
    return run(['rustc', '+nightly', '--print', 'sysroot'], ROOT).strip()


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            h.update(d.encode()); h.update(open(d, 'rb').read()); continue
        for base, ds, fs in sorted(os.walk(d)):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', '__pycache__', 'node_modules', '.build'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml', '.lock')):
                    p = os.path.join(base, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()


def prune(prefixes):
    fp = os.path.join(BUILD, 'target', 'debug', '.fingerprint')
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if any(n.startswith(p) for p in prefixes):
                subprocess.run(['rm', '-rf', os.path.join(fp, n)])
    for p in prefixes:          # newer cargo: target/debug/build/<package>/<hash>/
        subprocess.run(['rm', '-rf', os.path.join(BUILD, 'target', 'debug', 'build', p.rstrip('-'))])


def dump(only_core=False):
    """(re)build the driver and dump both crates; reuses a dump only if every source byte is the same"""
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = tree_hash([os.path.join(ROOT, 'driver', 'src'), os.path.join(ROOT, 'driver', 'Cargo.toml')])
        exe = os.path.join(BUILD, 'driver', 'debug', 'mirdump')
        stamp = os.path.join(BUILD, 'driver.stamp')
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == drv):
            run(['cargo', '+nightly', 'build', '--offline', '--target-dir', os.path.join(BUILD, 'driver')], os.path.join(ROOT, 'driver'))
            open(stamp, 'w').write(drv)
        env0 = {'LD_LIBRARY_PATH': sysroot() + '/lib', 'RUSTC_WRAPPER': exe, 'MIRDUMP_OUT': OUT,
                'CARGO_TARGET_DIR': os.path.join(BUILD, 'target'), 'CARGO_NET_OFFLINE': 'true'}
        if os.path.exists('/opt/pyenv/bin/python'): env0['PYO3_PYTHON'] = '/opt/pyenv/bin/python'
        jobs = [('spec', ['spec', 'specpy'], ['spec-', 'specpy-'], os.path.join(ROOT, 'spec_py'), ['check', '--offline', '--lib'],
                 [os.path.join(ROOT, 'spec'), os.path.join(ROOT, 'spec_py')]),
                ('repo', ['forust_ml', 'forust'], ['forust-ml-', 'py-forust-'], os.path.join(REPO, 'py-forust'), ['check', '--offline', '--lib'],
                 [os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'), os.path.join(REPO, 'py-forust', 'src'), os.path.join(REPO, 'py-forust', 'Cargo.toml'), os.path.join(REPO, 'py-forust', 'Cargo.lock')])]
        if only_core:
            jobs[1] = ('core', ['forust_ml'], ['forust-ml-'], REPO, ['check', '--offline', '--lib', '-p', 'forust-ml'], [os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml')])
        for name, crates, pfx, cwd, args, srcs in jobs:
            h = drv + tree_hash(srcs)
            stamp = os.path.join(OUT, name + '.stamp')
            if os.path.exists(stamp) and open(stamp).read() == h and all(os.path.exists(os.path.join(OUT, c + '.json')) for c in crates):
                continue
            for c in crates:
                p = os.path.join(OUT, c + '.json')
                if os.path.exists(p): os.remove(p)
            prune(pfx)
            lock = os.path.join(cwd, 'Cargo.lock')
            saved = open(lock, 'rb').read() if os.path.exists(lock) else None
            try:
                run(['cargo', '+nightly'] + args, cwd, dict(env0, MIRDUMP_CRATES=','.join(crates)))
            finally:
                if saved is not None and os.path.exists(lock) and open(lock, 'rb').read() != saved:
                    open(lock, 'wb').write(saved)
            for c in crates:
                if not os.path.exists(os.path.join(OUT, c + '.json')): raise BuildError('no dump for crate ' + c)
            open(stamp, 'w').write(h)


def load():
    """repository core, reference core, repository bindings, reference bindings"""
    from mir import Program
    from align import align
    raw = [json.load(open(os.path.join(OUT, c + '.json'))) for c in ('forust_ml', 'spec', 'forust', 'specpy')]
    raw[0], raw[2] = align(raw[0], raw[1], raw[2])
    return tuple(Program(d) for d in raw)
