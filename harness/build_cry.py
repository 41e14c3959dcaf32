"""Builds the harness crate against crylib in the current working tree."""
import os, shutil
import build
def build_bin():
    src = build.VERIF + '/cryharness'
    if build.REPO != '/repo':          # development only
        alt = build.BUILD + '/cryharness-src'
        shutil.rmtree(alt, ignore_errors=True); shutil.copytree(src, alt)
        f = alt + '/Cargo.toml'; s = open(f).read().replace('/repo/crylib', build.REPO + '/crylib'); open(f, 'w').write(s)
        src = alt
    t = build.BUILD + '/cry'
    build.fresh(t, ['crylib', 'cryharness'])
    build.sh(['cargo', 'build', '--offline', '--locked', '--manifest-path', src + '/Cargo.toml'], env=build.cargo_env(t))
    return t + '/debug/cryharness'
def all_cry():
    with build.lock(): return build_bin(), build.java()
