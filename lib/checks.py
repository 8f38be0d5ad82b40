"""The registered checks."""
import common

CHECKS = {}
REPLAY = {}

MODEL = 'the reference model (mc/src/model.rs) states the rules correctly'
BOUNDS = 'behaviour outside the enumerated values, depths and positions is not covered'
NOTE = ('Every execution inside the stated bounds was run on the code itself, once with debug assertions and overflow checks and once '
        'without. Trusted: the reference model and the enumeration. Not covered: values, depths and positions outside the bounds.')
PROFILES = ('checked', 'release')

def rust(pid, binary=None, level='model_checking', assumptions=(MODEL, BOUNDS), coverage=None, limit=420, profiles=PROFILES,
         technique='explicit-state enumeration of the real code in lockstep with a reference model', note=''):
    binary = binary or pid.lower()
    def go(pid_, tier):
        PREPARE.get(binary, lambda: None)()
        exes = common.cargo_bins([binary], profiles)
        results = {}
        for p in profiles:
            results[p] = common.run_rust(pid, binary, exes[(binary, p)], p, tier, limit if tier == 'quick' else 3600)
        return (coverage or common.rust_coverage)(results)
    CHECKS[pid] = {'run': go, 'level': level, 'assumptions': list(assumptions), 'technique': technique, 'note': note or NOTE}

def faults(results):
    first = next(iter(results.values()))
    cov = common.rust_coverage(results)
    total = lambda key: sum(s['outcomes'].get(key, 0) for r in results.values() for s in r['sections'])
    return {
        'evaluations': cov['transitions'], 'distinct_nontrivial': sum(s['outcomes'].get('reported failures', 0) for s in first['sections']),
        'rule': 'every text output of every enumerated value into a sink with every fault: each byte capacity (whole and partial last piece), '
                'each call refused from there on, each single call refused with and without its bytes; non-trivial: a distinct '
                '(value, form, fault) where the sink really refused something and the failure was reported; counted in one build',
        'samples': cov['samples'], 'exhaustive': True, 'reported_failures': total('reported failures'), 'successes': total('successes'),
        'builds': cov['builds'], 'sections': cov['sections'],
    }

LOCKSTEP = 'explicit-state enumeration of the real code in lockstep with a reference model'
VALUES = 'exhaustive enumeration of values and short operation sequences on the real code against a reference model'
for i in ('C01', 'C02', 'C03', 'C05', 'C06', 'C17', 'C18'):
    rust(i)
rust('C04', technique='exhaustive enumeration of states, construction paths and value tuples on the real code; order laws checked on all of them')
rust('C08', level='fault_enumeration', coverage=faults, technique='exhaustive enumeration of sink faults on the real code',
     assumptions=('a sink that refuses keeps what it took before', BOUNDS))
for i in ('C07', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C23'):
    rust(i, technique=VALUES)
rust('C19', technique='exhaustive enumeration of environment answers (the legality checker) on the real provided methods against a reference model',
     assumptions=(MODEL, 'a checker answers legal only for moves that can be made', BOUNDS))

SEQUENCES = 'exhaustive enumeration of operation sequences on the real code'
rust('C25', technique=SEQUENCES + ': games from every root, invariants checked in every state and on every transition',
     assumptions=(BOUNDS,))
rust('C27', technique='exhaustive enumeration of interleavings of the real code under a controlled scheduler: every order of operations on '
     'several threads, and a preemption at every machine instruction of every operation (single-stepped)',
     assumptions=('hidden shared state shows itself at a preemption between two machine instructions; reorderings of weak memory models '
                  'are not explored', BOUNDS))
rust('C28', technique=SEQUENCES + ' under an allocator that checks every block', assumptions=(BOUNDS,))

def c20_prepare():
    import clib, os
    os.environ['VERIF_C20_DIR'] = clib.c20()
def c22_prepare():
    import clib, os
    os.environ['VERIF_C22_DIR'] = clib.c22()
PREPARE = {'c20': c20_prepare, 'c22': c22_prepare}
rust('C20', profiles=('checked',), technique='explicit-state enumeration of the real C library (both kinds, through the published header and '
     'two C compilers) in lockstep with a reference model')
rust('C22', profiles=('checked',), technique='exhaustive enumeration of calls of the compiled primitives (three build profiles) between '
     'inaccessible pages, against their C contracts', assumptions=(BOUNDS,))

def alloc_bins(profiles):
    """The explorations of the allocator: {(binary, profile): (path, environment)}. The programs are not relocated, so that
    the symbol table says where the allocator's static objects are."""
    import os, re
    target = os.path.join(common.BUILD, 'target-alloc')
    e = common.env(CARGO_TARGET_DIR=target, RUSTFLAGS='--cfg shogi_verif -C relocation-model=static')
    manifest = os.path.join(common.VERIF, 'alloc_mc', 'Cargo.toml')
    common.build_many([(['cargo', 'build', '--offline', '--locked', '--manifest-path', manifest, '--profile', p], common.VERIF, e) for p in profiles],
                      'the explorations of the allocator')
    out = {}
    for p in profiles:
        for b in ('c21', 'c21s'):
            exe = os.path.join(target, p, b)
            nm = common.run_child(['nm', '-S', exe], 60).out
            found = re.findall(r'^([0-9a-f]+) ([0-9a-f]+) [bBdD] .*no_std', nm, re.M)
            if not found: raise common.NoVerdict('no static objects of the allocator in ' + exe)
            out[(b, p)] = (exe, dict(e, VERIF_STATICS=','.join('%s:%s' % f for f in found)))
    return out

def sharded(pid, binary, exe, profile, tier, limit, **more):
    """Eight processes, each with an eighth of the units; their counts together."""
    import concurrent.futures as cf
    n = 8
    one = lambda i: common.run_rust(pid, binary, exe, profile, tier, limit, args=['--threads', '1', '--shard', '%d/%d' % (i, n)], **more)
    with cf.ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(one, range(n)))
    out = {'sections': [], 'seconds': max(r['seconds'] for r in rs)}
    for k, s in enumerate(rs[0]['sections']):
        t = dict(s)
        for r in rs[1:]:
            o = r['sections'][k]
            for f in ('states', 'transitions', 'traces'): t[f] += o[f]
            t['seconds'] = max(t['seconds'], o['seconds'])
            t['outcomes'] = {x: t['outcomes'].get(x, 0) + o['outcomes'].get(x, 0) for x in set(t['outcomes']) | set(o['outcomes'])}
            t['samples'] = t['samples'] + o['samples']
        out['sections'].append(t)
    return out

def c21(pid, tier):
    exes = alloc_bins(PROFILES)
    results = {}
    for p in PROFILES:
        rs = [sharded(pid, b, exes[(b, p)][0], p, tier, 420 if tier == 'quick' else 3600, environ=exes[(b, p)][1], kind='alloc') for b in ('c21', 'c21s')]
        results[p] = {'sections': rs[0]['sections'] + rs[1]['sections'], 'seconds': rs[0]['seconds'] + rs[1]['seconds']}
    cov = common.rust_coverage(results)
    if any('stopped at a limit' in s['outcomes'] for r in results.values() for s in r['sections']): cov['exhaustive'] = False
    return cov
CHECKS['C21'] = {'run': c21, 'level': 'model_checking', 'technique':
    'stateful exploration of all interleavings of the allocator itself: its atomics are replaced by ones under a controlled scheduler; '
    'plus preemption at machine instructions of the unmodified one, and enumeration of all operation sequences',
    'assumptions': ['atomics are sequentially consistent (the code asks for that)', 'the compiler does not turn the allocator into something else '
                    'in the C library than here', BOUNDS],
    'note': 'Every interleaving of atomic steps of up to three threads (four in the thorough tier) with the stated programs, and every sequence of operations to the '
            'stated depth, was run on the file itself, built twice. Trusted: the scheduler and the state hashing. Not covered: longer programs, more threads.'}

def asan(binary):
    """The binary with an address sanitizer, without assertions that would stop it before the access."""
    import os
    target = os.path.join(common.BUILD, 'target-asan')
    triple = 'x86_64-unknown-linux-gnu'
    e = common.env(CARGO_TARGET_DIR=target, RUSTFLAGS='-Zsanitizer=address', RUSTUP_TOOLCHAIN='nightly', ASAN_OPTIONS='detect_leaks=0:abort_on_error=1')
    common.build_many([(['cargo', 'build', '--offline', '--locked', '--manifest-path', os.path.join(common.VERIF, 'mc', 'Cargo.toml'), '--profile', 'release',
                         '--target', triple, '--bin', binary], common.VERIF, e)], 'the harness with the address sanitizer')
    return os.path.join(target, triple, 'release', binary), e
def miri(binary):
    """The binary in the interpreter."""
    import os
    e = common.env(CARGO_TARGET_DIR=os.path.join(common.BUILD, 'target-miri'), RUSTUP_TOOLCHAIN='nightly', XDG_CACHE_HOME=os.path.join(common.BUILD, 'cache'),
                   MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks')
    manifest = os.path.join(common.VERIF, 'mc', 'Cargo.toml')
    common.build_many([(['cargo', 'miri', 'setup', '--manifest-path', manifest], common.VERIF, e)], 'the interpreter\'s standard library')
    cmd = ['cargo', 'miri', 'run', '--quiet', '--offline', '--locked', '--manifest-path', manifest, '--bin', binary, '--']
    common.build_many([(cmd + ['--list'], common.VERIF, e)], 'the harness for the interpreter')
    return cmd, e

def c24(pid, tier):
    import concurrent.futures as cf
    limit = 420 if tier == 'quick' else 3600
    with cf.ThreadPoolExecutor(3) as ex:
        native, a, m = ex.submit(common.cargo_bins, ['c24'], PROFILES), ex.submit(asan, 'c24'), ex.submit(miri, 'c24')
        native, (a, ae), (m, me) = native.result(), a.result(), m.result()
    results = {p: common.run_rust(pid, 'c24', native[('c24', p)], p, tier, limit) for p in PROFILES}
    results['address sanitizer'] = common.run_rust(pid, 'c24', a, 'release', 'quick', limit, environ=ae, kind='asan', mem=None)
    skipped = None
    try:
        results['interpreter'] = sharded(pid, 'c24', m, 'dev', tier, 420 if tier == 'quick' else 900, unit_limit=420, environ=me, kind='miri', mem=None)
    except common.Unsupported as e:
        skipped = str(e)
    cov = common.rust_coverage(results)
    cov['interpreter'] = skipped or {k: results['interpreter'][k] for k in ('seconds', 'sections')}
    return cov
CHECKS['C24'] = {'run': c24, 'level': 'model_checking', 'technique':
    'exhaustive enumeration of calls and operation sequences on the real code under monitors: overflow and precondition checks, an address '
    'sanitizer, and an interpreter that detects undefined behaviour (Miri)',
    'assumptions': ['Miri and the sanitizer report what they claim to', BOUNDS],
    'note': 'Every call and sequence inside the stated bounds ran natively with checks, natively without, and under the address sanitizer; a smaller space, listed '
            'under interpreter, in Miri. Undefined behaviour that shows itself only outside that smaller space and in none of the native builds is missed.'}

import cfgs
CHECKS['C26'] = {'run': cfgs.run, 'level': 'model_checking', 'technique':
    'exhaustive enumeration of build configurations, each running the same exhaustive exploration of the real code; all answers compared',
    'assumptions': ['two answers with the same 64-bit digest are the same', BOUNDS],
    'note': 'All 24 feature combinations in each build profile compile and give equal answers on every value and sequence of the workload. Trusted: the '
            'digests. Not covered: other compilers and targets, inputs outside the workload.'}
REPLAY['config'] = cfgs.replay

import targets
CHECKS['C29'] = {'run': targets.run, 'level': 'model_checking', 'technique':
    'exhaustive enumeration of one workload of values and operation sequences of the real code, natively and interpreted for targets of '
    'other word sizes and byte orders; all answers compared',
    'assumptions': ['the interpreter (Miri) executes the code as such targets do', 'two answers with the same 64-bit digest are the same', BOUNDS],
    'note': 'Every unit of the workload ran natively and on each target; the native answers are judged by the other checks. Trusted: the interpreter, the '
            'digests. Not covered: code for which the real compilers of those targets behave differently; inputs outside the workload, which is smaller than '
            'those of the other checks.'}
REPLAY['target'] = targets.replay
