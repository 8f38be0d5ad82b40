"""C26: one exhaustive workload in every build configuration; all answers must agree."""
import concurrent.futures as cf, os, queue, shutil, time
import common
from common import BUILD, VERIF, NoVerdict, Violation, env, run_child

MANIFEST = os.path.join(VERIF, 'cfg_mc', 'Cargo.toml')
DIR = os.path.join(BUILD, 'cfg')
FEATURES = [tuple(x for x in (a, h, o, e) if x) for a in ('', 'alloc', 'std') for h in ('', 'hash') for o in ('', 'ord') for e in ('', 'experimental')]

def name(config):
    return '%s (%s)' % (','.join(config[0]) or 'no features', config[1])

def build_one(config, slot):
    features, profile = config
    target = os.path.join(BUILD, 'target-cfg-%d' % slot)
    r = run_child(['cargo', 'build', '--offline', '--locked', '--manifest-path', MANIFEST, '--profile', profile, '--features', ','.join(features)],
                  600, mem=None, cwd=VERIF, environ=env(CARGO_TARGET_DIR=target))
    if r.rc != 0:
        lines = r.out.splitlines()
        at = [i for i, l in enumerate(lines) if l.startswith('error')]
        return None, '\n'.join(lines[at[0]:at[0] + 30] if at else lines[-30:])
    exe = os.path.join(DIR, '-'.join(features + (profile,)) or profile)
    shutil.copy(os.path.join(target, 'debug' if profile == 'dev' else profile, 'cfg_mc'), exe)
    return exe, None

def build(configs):
    os.makedirs(DIR, exist_ok=True)
    slots = queue.Queue()
    for i in range(8): slots.put(i)
    def go(c):
        s = slots.get()
        try: return build_one(c, s)
        finally: slots.put(s)
    with cf.ThreadPoolExecutor(8) as ex:
        return dict(zip(configs, ex.map(go, configs)))

def outcome(exe, tier):
    """{(section, unit): (digest, answers, states)}; a unit in which the process ends is the answer of that unit."""
    d = run_child([exe, '--tier', tier], 60 if tier == 'quick' else 240)
    out, last = {}, None
    for l in d.out.splitlines():
        f = l.split('\t')
        if len(f) == 5: out[(f[0], int(f[1]))] = (f[2], int(f[3]), int(f[4]))
        elif len(f) >= 2 and f[1].isdigit(): last = (f[0], int(f[1]))
    if d.timed_out or d.rc != 0:
        out[last or ('the start', 0)] = ('the process: ' + common.why_died(d), 0, 0)
        return out, last or ('the start', 0)
    return out, None

def dump(exe, unit):
    return run_child([exe, '--dump', unit[0], str(unit[1])], 120).out.splitlines()

def compare(a, b, ra, rb, ea, eb, spec):
    """Raises a Violation if the two disagree about a unit that both have."""
    (oa, da), (ob, db) = ra, rb
    both = set(oa) & set(ob)
    for unit in sorted(both):
        if oa[unit] == ob[unit]: continue
        la, lb = dump(ea, unit), dump(eb, unit)
        n = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
        line = lambda l: l[n] if n < len(l) else 'nothing'
        raise Violation('%s and %s give different answers in section %s unit %d: %s / %s (after: %s)' %
                        (name(a), name(b), unit[0], unit[1], line(la), line(lb), la[n - 1] if n else ''), spec)
    for r, c in ((ra, a), (rb, b)):
        if r[1]: raise Violation('%s: the workload ends at %s' % (name(c), r[1]), spec)

def check(configs, tier):
    built = build(configs)
    bad = [c for c in configs if built[c][0] is None]
    if len(bad) == len(configs):
        raise NoVerdict('no configuration compiles: ' + built[bad[0]][1])
    if bad:
        good = next(c for c in configs if built[c][0])
        raise Violation('%s does not compile, %s does:\n%s' % (name(bad[0]), name(good), built[bad[0]][1]),
                        {'kind': 'config', 'configs': [[list(f), p] for f, p in (bad[0], good)], 'tier': tier})
    with cf.ThreadPoolExecutor(8) as ex:
        results = dict(zip(configs, ex.map(lambda c: outcome(built[c][0], tier), configs)))
    # A configuration with everything against each other one: it has every section, so agreement with it is agreement of all.
    ref = max(configs, key=lambda c: len(results[c][0]))
    for c in configs:
        compare(ref, c, results[ref], results[c], built[ref][0], built[c][0], {'kind': 'config', 'configs': [[list(f), p] for f, p in (ref, c)], 'tier': tier})
    return ref, results

def run(pid, tier):
    profiles = ('dev', 'release') if tier == 'quick' else ('dev', 'release', 'release-speed')
    configs = [(f, p) for f in FEATURES for p in profiles]
    t0 = time.time()
    try:
        ref, results = check(configs, tier)
    finally:
        shutil.rmtree(DIR, ignore_errors=True)
    missing = [u for r in results.values() for u in r[0] if u not in results[ref][0]]
    if missing: raise NoVerdict('units without a counterpart: %s' % missing[:3])
    full = results[ref][0]
    units = sorted(full)
    return {
        'states': sum(full[u][2] for u in units),
        'transitions': sum(v[1] for r in results.values() for v in r[0].values()),
        'traces_validated_against_impl': sum(len(r[0]) for r in results.values()),
        'samples': ['%s unit %d: %d answers, digest %s, in %d configurations' % (u[0], u[1], full[u][1], full[u][0], sum(u in r[0] for r in results.values()))
                    for u in units[::max(1, len(units) // 10)]],
        'exhaustive': True,
        'configurations': {name(c): {'units': len(r[0]), 'answers': sum(v[1] for v in r[0].values())} for c, r in results.items()},
        'reference': name(ref),
        'seconds': round(time.time() - t0, 1),
    }

def replay(d):
    try:
        check([(tuple(f), p) for f, p in d['configs']], d['tier'])
    finally:
        shutil.rmtree(DIR, ignore_errors=True)
