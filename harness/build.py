"""Builds what the checks need, outside /repo, from its current working tree."""
import fcntl, glob, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TURTLS_REPO', '/repo')          # only overridden while developing the checks
BUILD = os.environ.get('TURTLS_BUILD', VERIF + '/build')
TLA = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'

class ToolError(Exception): pass

def sh(cmd, env=None, cwd=None, timeout=800):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode: raise ToolError('%s failed:\n%s' % (' '.join(cmd), p.stdout.decode('utf8', 'replace')[-4000:]))
    return p.stdout

class lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(BUILD + '/lock', 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def cargo_env(target):
    e = dict(os.environ)
    e['PATH'] = e.get('PATH', '') + ':/root/.cargo/bin:/usr/local/bin'
    e.update(RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             CARGO_TARGET_DIR=target, CARGO_INCREMENTAL='0', RUSTC_WRAPPER='',
             CARGO_PROFILE_DEV_OPT_LEVEL='2', CARGO_PROFILE_DEV_DEBUG='line-tables-only',
             CARGO_PROFILE_DEV_DEBUG_ASSERTIONS='true', CARGO_PROFILE_DEV_OVERFLOW_CHECKS='true')
    for k in ('LD_PRELOAD', 'RUSTFLAGS'): e.pop(k, None)
    return e

def fresh(target, names, profile='debug'):
    # cargo judges freshness by mtime only; hand the project's own crates to rustc every time
    for n in names:
        for d in glob.glob('%s/%s/.fingerprint/%s-*' % (target, profile, n)): shutil.rmtree(d)

def newer(src, dst): return not os.path.exists(dst) or any(os.path.getmtime(s) > os.path.getmtime(dst) for s in src)

def shim():
    so = BUILD + '/rngshim.so'
    src = VERIF + '/harness/rngshim.c'
    if newer([src], so):
        sh(['gcc', '-O1', '-fno-builtin', '-shared', '-fPIC', '-o', so + '.tmp', src, '-lpthread']); os.rename(so + '.tmp', so)
    return so

def lib():
    t = BUILD + '/lib'
    fresh(t, ['turtls', 'crylib'])
    sh(['cargo', 'build', '--offline', '--locked', '--manifest-path', REPO + '/Cargo.toml', '-p', 'turtls'], env=cargo_env(t))
    return t + '/debug/libturtls.so'

def java():
    out = BUILD + '/java'
    src = sorted(glob.glob(VERIF + '/java/**/*.java', recursive=True))
    stamp = out + '/stamp'
    if newer(src, stamp):
        os.makedirs(out, exist_ok=True)
        sh(['javac', '-nowarn', '-cp', TLA + ':' + CM, '-d', out] + src)
        open(stamp, 'w').close()
    return out

def all_conn():
    with lock(): return lib(), shim(), java()

if __name__ == '__main__':
    with lock():
        shim(); java(); lib()
        try:
            import build_cry; build_cry.build_bin()
            import ctcheck; ctcheck.build_bins()
        except ImportError: pass
    print('built')
