"""Builds the MIR facts of /repo's current working tree (see DESIGN.md, "Facts")."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))

def tree_hash():
    h = hashlib.sha256()
    files = []
    for root, ds, fs in os.walk(os.path.join(REPO, 'crates')):
        ds[:] = sorted(d for d in ds if d not in ('target', 'tests', '.git', 'benches', 'snapshots'))
        for f in sorted(fs):
            if f.endswith('.rs') or f.endswith('.toml'): files.append(os.path.join(root, f))
    for f in ('Cargo.toml', 'Cargo.lock'):
        p = os.path.join(REPO, f)
        if os.path.exists(p): files.append(p)
    for f in files:
        h.update(f.encode()); h.update(b'\0'); h.update(open(f, 'rb').read()); h.update(b'\0')
    for f in glob.glob(os.path.join(VERIF, 'driver', 'src', '*.rs')): h.update(open(f, 'rb').read())
    return h.hexdigest(), len(files)

def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise SystemExit('build step failed: ' + ' '.join(cmd))
    return p.stdout

def ensure_facts():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    h, n = tree_hash()
    facts = os.path.join(BUILD, 'facts')
    stamp = os.path.join(BUILD, 'stamp')
    if os.path.exists(stamp) and open(stamp).read() == h and len(glob.glob(os.path.join(facts, '*.json'))) >= 5:
        return facts, h, n
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET'): env.pop(k, None)
    denv = dict(env); denv['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'driver')
    sh(['cargo', '+nightly', 'build', '--offline', '--manifest-path', os.path.join(VERIF, 'driver', 'Cargo.toml')], env=denv, cwd=os.path.join(VERIF, 'driver'))
    sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'], env=env).strip()
    if os.path.exists(stamp): os.remove(stamp)
    shutil.rmtree(facts, ignore_errors=True)
    os.makedirs(facts)
    tgt = os.path.join(BUILD, 'target')
    for g in glob.glob(tgt + '/debug/.fingerprint/wat_*') + glob.glob(tgt + '/debug/deps/*wat_*') + glob.glob(tgt + '/debug/incremental/wat_*') + glob.glob(tgt + '/debug/build/wat_*'):
        shutil.rmtree(g, ignore_errors=True) if os.path.isdir(g) else os.remove(g)
    env['LD_LIBRARY_PATH'] = sysroot + '/lib'
    env['RUSTC_WORKSPACE_WRAPPER'] = os.path.join(BUILD, 'driver', 'debug', 'mirdump')
    env['MIRDUMP_OUT'] = facts
    env['CARGO_TARGET_DIR'] = tgt
    env['CARGO_INCREMENTAL'] = '0'
    cmd = ['cargo', '+nightly', 'check', '--offline', '--locked', '-p', 'wat_server']
    sh(cmd, env=env, cwd=REPO)
    if len(glob.glob(os.path.join(facts, '*.json'))) < 5:
        # cargo considered the crates fresh and did not run the driver
        shutil.rmtree(tgt, ignore_errors=True)
        sh(cmd, env=env, cwd=REPO)
    if len(glob.glob(os.path.join(facts, '*.json'))) < 5: raise SystemExit('the driver produced no facts')
    if tree_hash()[0] != h: raise SystemExit('source changed while it was analysed')
    open(stamp, 'w').write(h)
    return facts, h, n

if __name__ == '__main__':
    print(ensure_facts())
