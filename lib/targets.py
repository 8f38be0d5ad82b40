"""C29: one exhaustive workload natively and, in an interpreter, on targets of other word sizes and byte orders."""
import concurrent.futures as cf, os, re, time
import common
from common import BUILD, VERIF, NoVerdict, Violation, env, run_child

MANIFEST = os.path.join(VERIF, 'target_mc', 'Cargo.toml')
NATIVE = 'x86_64-unknown-linux-gnu'
TARGETS = {'i686-unknown-linux-gnu': '32 bits, little-endian', 's390x-unknown-linux-gnu': '64 bits, big-endian', 'powerpc-unknown-linux-gnu': '32 bits, big-endian'}
SHARDS = 32

def native():
    e = env(CARGO_TARGET_DIR=os.path.join(BUILD, 'target-targets'))
    common.build_many([(['cargo', 'build', '--offline', '--locked', '--manifest-path', MANIFEST, '--release'], VERIF, e)], 'the workload')
    return [os.path.join(BUILD, 'target-targets', 'release', 'target_mc')], e

def foreign(target):
    """(command, environment) of the workload in the interpreter, or the compiler's complaint."""
    flags = '-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-validation'
    e = env(CARGO_TARGET_DIR=os.path.join(BUILD, 'target-' + target), RUSTUP_TOOLCHAIN='nightly',
            XDG_CACHE_HOME=os.path.join(BUILD, 'cache-' + target), MIRIFLAGS=flags)
    common.build_many([(['cargo', 'miri', 'setup', '--target', target, '--manifest-path', MANIFEST], VERIF, e)], 'the standard library for ' + target)
    cmd = ['cargo', 'miri', 'run', '--quiet', '--offline', '--locked', '--manifest-path', MANIFEST, '--target', target, '--']
    r = run_child(cmd + ['--only', 'nothing', '0'], 600, mem=None, cwd=VERIF, environ=e)
    if r.rc != 0:
        lines = r.out.splitlines()
        at = [i for i, l in enumerate(lines) if l.startswith('error')]
        return None, e, '\n'.join(lines[at[0]:at[0] + 30] if at else lines[-30:])
    return cmd, e, None

def units(out):
    """{(section, unit): (digest, answers, states)} and the unit in which the output ends."""
    done, last = {}, None
    for l in out.splitlines():
        f = l.split('\t')
        if len(f) == 5 and f[1].isdigit() and f[3].isdigit(): done[(f[0], int(f[1]))] = (f[2], int(f[3]), int(f[4]))
        elif len(f) >= 2 and f[1].isdigit(): last = (f[0], int(f[1]))
    return done, last

def more(tier): return ['--thorough'] if tier != 'quick' else []

def different(target, unit, prog, base, tier):
    """A Violation that shows the first answer of the unit that differs."""
    (cmd, e), (ncmd, ne) = prog, base
    args = ['--dump', unit[0], str(unit[1])] + more(tier)
    d = run_child(cmd + args, 600, mem=None, cwd=VERIF, environ=e)
    n = run_child(ncmd + args, 120, environ=ne)
    la, lb = [[l for l in x.out.splitlines() if re.match(r'\d+ [a-zA-Z]|a panic', l)] for x in (d, n)]
    i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
    line = lambda l: l[i] if i < len(l) else 'nothing'
    msg = '%s (%s) and %s give different answers in section %s unit %d: %s / %s (after: %s)' % (
        target, TARGETS[target], NATIVE, unit[0], unit[1], line(la), line(lb), lb[i - 1] if i else '')
    if 'error: Undefined Behavior' in d.out: msg += '\n' + d.out[d.out.index('error: Undefined Behavior'):][:1500]
    return Violation(msg, {'kind': 'target', 'target': target, 'section': unit[0], 'unit': unit[1], 'tier': tier})

def alone(target, unit, prog, base, tier, limit):
    """The unit once more, alone: raises a Violation if it shows another digest, or none. Returns whether it did not finish."""
    (cmd, e), (ncmd, ne) = prog, base
    args = ['--only', unit[0], str(unit[1])] + more(tier)
    d = run_child(cmd + args, limit, mem=None, cwd=VERIF, environ=e)
    n = run_child(ncmd + args, 60, environ=ne)
    if n.timed_out or n.rc != 0: raise NoVerdict('the native workload %s in section %s unit %d' % (common.why_died(n), *unit))
    if 'unsupported operation' in d.out: raise common.Unsupported(d.out[d.out.index('unsupported operation'):][:300])
    if not d.timed_out and units(d.out)[0].get(unit) != units(n.out)[0].get(unit): raise different(target, unit, prog, base, tier)
    return d.timed_out

def explore(targets, tier):
    t0 = time.time()
    with cf.ThreadPoolExecutor(1 + len(targets)) as ex:
        n = ex.submit(native)
        fs = {t: ex.submit(foreign, t) for t in targets}
        base = n.result()
        built = {t: f.result() for t, f in fs.items()}
    for t, (cmd, e, complaint) in built.items():
        if cmd is None:
            raise Violation('does not compile for %s (%s), but for %s:\n%s' % (t, TARGETS[t], NATIVE, complaint), {'kind': 'target', 'target': t, 'tier': tier})
    d = run_child(base[0] + more(tier), 120, environ=base[1])
    expected, last = units(d.out)
    if d.timed_out or d.rc != 0: raise NoVerdict('the native workload %s in %s' % (common.why_died(d), last))
    limit, each = (330, 100) if tier == 'quick' else (2400, 600)
    end = time.time() + limit
    def shard(job):
        t, i = job
        cmd, e, _ = built[t]
        return run_child(cmd + ['--shard', str(i), str(SHARDS)] + more(tier), max(1, end - time.time()), mem=None, cwd=VERIF, environ=e)
    jobs = [(t, i) for i in range(SHARDS) for t in targets]
    with cf.ThreadPoolExecutor(8) as ex:
        results = list(ex.map(shard, jobs))
    cov, skipped, looked = {t: {} for t in targets}, {}, 0
    for (t, i), r in zip(jobs, results):
        prog = built[t][:2]
        done, last = units(r.out)
        for u in sorted(done):
            if done[u] != expected[u]:
                alone(t, u, prog, base, tier, 600)
                raise different(t, u, prog, base, tier)
        cov[t].update(done)
        if r.timed_out and t in skipped and looked > 2: continue
        if r.timed_out or r.rc != 0:
            looked += 1
            try:
                slow = last and alone(t, last, prog, base, tier, each)
                if not r.timed_out and not slow:
                    raise NoVerdict('%s %s in %s; not reproducible alone\n%s' % (t, common.why_died(r), last, r.out[-1500:]))
                if slow:
                    raise Violation('section %s unit %d does not end on %s (%s)' % (*last, t, TARGETS[t]),
                                    {'kind': 'target', 'target': t, 'section': last[0], 'unit': last[1], 'tier': tier})
                skipped[t] = 'not all units finished in time'
            except common.Unsupported as x:
                skipped[t] = str(x)
    if all(not c for c in cov.values()): raise NoVerdict('nothing finished on any target: %s' % skipped)
    return expected, cov, skipped, time.time() - t0

def run(pid, tier):
    targets = [t for t in TARGETS if tier != 'quick' or not t.startswith('powerpc')]
    expected, cov, skipped, seconds = explore(targets, tier)
    sections = {}
    for (s, u), v in expected.items():
        x = sections.setdefault(s, {'name': s, 'units': 0, 'answers': 0, 'states': 0})
        x['units'] += 1; x['answers'] += v[1]; x['states'] += v[2]
    us = sorted(expected)
    return {
        'states': sum(v[2] for v in expected.values()),
        'transitions': sum(v[1] for v in expected.values()) + sum(v[1] for c in cov.values() for v in c.values()),
        'traces_validated_against_impl': sum(len(c) for c in cov.values()),
        'samples': ['%s unit %d: %d answers, digest %s, on %d targets' % (u[0], u[1], expected[u][1], expected[u][0], 1 + sum(u in c for c in cov.values()))
                    for u in us[::max(1, len(us) // 10)]],
        'exhaustive': not skipped,
        'targets': {t: {'kind': TARGETS[t], 'units': len(c), 'answers': sum(v[1] for v in c.values()), 'skipped': skipped.get(t, 'nothing')} for t, c in cov.items()},
        'sections': list(sections.values()),
        'seconds': round(seconds, 1),
    }

def replay(d):
    base, (cmd, e, complaint) = native(), foreign(d['target'])
    if cmd is None: raise Violation(complaint, d)
    if 'section' in d and alone(d['target'], (d['section'], d['unit']), (cmd, e), base, d['tier'], 600): raise Violation('does not end', d)
