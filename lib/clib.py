"""Builds the C library from /repo in both kinds, and the C programs and shims that use it."""
import os, re, shutil, tempfile
import common
from common import BUILD, REPO, VERIF, build_many, env

C = os.path.join(VERIF, 'c')
NIGHTLY = 'nightly-2023-03-15'

def libraries():
    """{kind: path} of freshly built shared libraries."""
    std, nostd = os.path.join(BUILD, 'c-std'), os.path.join(BUILD, 'c-nostd')
    manifest = os.path.join(REPO, 'Cargo.toml')
    base = ['build', '--release', '--offline', '--locked', '--manifest-path', manifest, '-p', 'shogi_core_c']
    build_many([
        (['cargo'] + base + ['--target-dir', std], VERIF, env()),
        (['cargo', '+' + NIGHTLY] + base + ['--no-default-features', '--features', 'alloc', '--target-dir', nostd], VERIF, env()),
    ], 'the C library')
    return {'std': os.path.join(std, 'release', 'libshogi_core_c.so'), 'nostd': os.path.join(nostd, 'release', 'libshogi_core_c.so')}

def c20():
    """A directory with everything C20 loads."""
    libs = libraries()
    d = os.path.join(BUILD, 'c20')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    inc = ['-I' + os.path.join(REPO, 'include')]
    with open(os.path.join(REPO, 'include', 'shogi_core.h')) as f:
        body = re.search(r'typedef struct PartialPosition \{(.*?)\} PartialPosition;', f.read(), re.S)
    # The fields of positions that the header shows.
    fields = ['-DHAS_' + x for x in re.findall(r'(\w+)(?:\[\w+\])?;', body.group(1))] if body else []
    cmds = []
    for k, so in libs.items():
        shutil.copy(so, os.path.join(d, k + '.so'))
        os.makedirs(os.path.join(d, k))
        shutil.copy(so, os.path.join(d, k, 'libshogi_core_c.so'))
    for name, cc in (('gcc-O0', ['gcc', '-O0']), ('gcc-O2', ['gcc', '-O2']), ('clang-O2', ['clang', '-O2'])):
        cmds.append((cc + ['-std=gnu11', '-w', '-fPIC', '-shared', '-fno-semantic-interposition'] + fields + inc + [os.path.join(C, 'shim.c'), '-o', os.path.join(d, 'shim-%s.so' % name)], d, env()))
    for k in libs:
        cmds.append((['gcc', '-std=gnu11', '-O1', '-w'] + inc + [os.path.join(C, 'program.c'), '-L' + os.path.join(d, k), '-lshogi_core_c', '-Wl,-rpath,' + os.path.join(d, k), '-o', os.path.join(d, 'program-' + k)], d, env()))
    # The header alone, in every combination of its switches, as C99, C11 and C17.
    for i, macros in enumerate(([], ['-DDEFINE_ALLOC'], ['-DDEFINE_EXPERIMENTAL'], ['-DDEFINE_ALLOC', '-DDEFINE_EXPERIMENTAL'])):
        for std in ('c99', 'c11', 'c17'):
            cmds.append((['gcc', '-std=' + std, '-w', '-fsyntax-only'] + macros + inc + ['-include', 'shogi_core.h', '-x', 'c', '/dev/null'], d, env()))
    build_many(cmds, 'the C programs')
    return d

def c22():
    """A directory with the no_std library in every published profile."""
    d = os.path.join(BUILD, 'c22')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    manifest = os.path.join(REPO, 'Cargo.toml')
    cmds = []
    for profile in ('dev', 'release', 'release-speed'):
        cmds.append((['cargo', '+' + NIGHTLY, 'build', '--profile', profile, '--offline', '--locked', '--manifest-path', manifest, '-p', 'shogi_core_c',
                      '--no-default-features', '--features', 'alloc', '--target-dir', os.path.join(BUILD, 'c-nostd-' + profile)], VERIF, env()))
    build_many(cmds, 'the no_std C library')
    for profile in ('debug', 'release', 'release-speed'):
        shutil.copy(os.path.join(BUILD, 'c-nostd-' + profile.replace('debug', 'dev'), profile, 'libshogi_core_c.so'), os.path.join(d, profile + '.so'))
    return d
