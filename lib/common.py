"""What all checks share: building, running children with limits, confirming violations, evidence."""
import hashlib, importlib, json, os, resource, signal, struct, subprocess, sys, tempfile, time, shutil, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
TARGET = os.path.join(BUILD, 'target')
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
MEMORY = 14 << 30
# Binaries that map one page at many addresses: the limit, which is on addresses, would be wrong.
ALIASING = ('c22',)

class NoVerdict(Exception):
    """The check could not be carried out. Never a verdict."""

class Unsupported(NoVerdict):
    """One of several monitors cannot run this code."""

class Violation(Exception):
    def __init__(self, message, replay):
        super().__init__(message)
        self.message, self.replay = message, replay

def env(**extra):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_PROFILE') or k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'RUSTDOCFLAGS'):
            del e[k]
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    e['RUSTUP_TOOLCHAIN'] = 'stable'
    e['CARGO_TARGET_DIR'] = TARGET
    e.update(extra)
    return e

def _limits(mem):
    def f():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f

class Done:
    def __init__(self, rc, out, timed_out): self.rc, self.out, self.timed_out = rc, out, timed_out

def run_child(cmd, timeout, mem=MEMORY, cwd=None, environ=None, stdin=None, stuck=None):
    """Runs a command in its own session; stdout and stderr together. Ended early when stuck() says so."""
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=stdin or subprocess.DEVNULL, cwd=cwd,
                             env=environ or env(), preexec_fn=_limits(mem))
        timed_out = False
        try:
            end = time.time() + timeout
            while True:
                try:
                    p.wait(max(0.1, min(3, end - time.time())) if stuck else timeout)
                    break
                except subprocess.TimeoutExpired:
                    if not stuck or stuck() or time.time() >= end: raise
        except subprocess.TimeoutExpired:
            timed_out = True
        finally:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait()
        f.seek(0)
        return Done(p.returncode, f.read().decode('utf-8', 'replace'), timed_out)

def freshen():
    """cargo goes by times of modification; a tree may change without a newer time. If the contents of /repo are not those of
    the last build, nothing that was built counts."""
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(REPO)):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p): continue
            with open(p, 'rb') as x: h.update(('%s %s\n' % (p, hashlib.sha256(x.read()).hexdigest())).encode())
    mark = os.path.join(BUILD, 'repo.sha256')
    try:
        with open(mark) as f: same = f.read() == h.hexdigest()
    except OSError: same = False
    if same: return
    for d, ds, _ in os.walk(BUILD):
        if '.fingerprint' in ds:
            shutil.rmtree(os.path.join(d, '.fingerprint'), ignore_errors=True)
            ds[:] = []
    with open(mark, 'w') as f: f.write(h.hexdigest())

def build_many(cmds, what):
    """cmds: list of (cmd, cwd, env). All run at once."""
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda c: run_child(c[0], 800, mem=None, cwd=c[1], environ=c[2]), cmds))
    for c, r in zip(cmds, rs):
        if r.rc != 0:
            tail = [l for l in r.out.splitlines() if l.strip()]
            err = [i for i, l in enumerate(tail) if l.startswith('error')]
            show = tail[err[0]:err[0] + 40] if err else tail[-40:]
            raise NoVerdict('building %s failed (%s):\n%s' % (what, ' '.join(c[0]), '\n'.join(show)))
    return rs

def cargo_bins(bins, profiles):
    """Builds the binaries of /verif/mc from the current /repo."""
    cmds = []
    for p in profiles:
        cmd = ['cargo', 'build', '--offline', '--locked', '--manifest-path', os.path.join(VERIF, 'mc', 'Cargo.toml'), '--profile', p]
        for b in bins: cmd += ['--bin', b]
        cmds.append((cmd, VERIF, env()))
    build_many(cmds, 'the harness')
    return {(b, p): os.path.join(TARGET, p, b) for b in bins for p in profiles}

def save_replay(pid, data):
    os.makedirs(REPLAYS, exist_ok=True)
    n = 1
    while os.path.exists(os.path.join(REPLAYS, '%s-%d.json' % (pid, n))): n += 1
    f = os.path.join(REPLAYS, '%s-%d.json' % (pid, n))
    data = dict(data, property=pid)
    with open(f, 'w') as o: json.dump(data, o, indent=1, ensure_ascii=False)
    return f

def read_crumbs(f):
    out = []
    try:
        d = open(f, 'rb').read()
        for i in range(0, len(d) - 15, 16):
            s, u = struct.unpack('<QQ', d[i:i + 16])
            if s: out.append((s - 1, u))
    except OSError: pass
    return sorted(out)

def stuck_on(f, seconds):
    """Says whether one of the threads has been in the same unit for so long."""
    since = {}
    def stuck():
        now, at = time.time(), set(read_crumbs(f))
        for x in [x for x in since if x not in at]: del since[x]
        for x in at: since.setdefault(x, now)
        return any(now - t > seconds for t in since.values())
    return stuck

def why_died(d):
    if d.timed_out: return 'does not terminate'
    if d.rc < 0:
        try: n = signal.Signals(-d.rc).name
        except ValueError: n = str(-d.rc)
        return 'ends the process with ' + n
    return 'ends the process with status %d' % d.rc

def crashed(d):
    """Ended by a fault, not by the system, by a limit or for want of memory."""
    return (not d.timed_out and d.rc in [-n for n in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP)]
            and 'memory allocation of' not in d.out)

def run_rust(pid, binary, exe, profile, tier, limit, unit_limit=90, args=(), environ=None, kind='rust', mem=MEMORY, patient=False):
    """Runs a harness binary. Returns its result, or raises Violation (confirmed by a replay) or NoVerdict."""
    if binary in ALIASING: mem = None
    tmp = tempfile.mkdtemp(prefix='mc-', dir=BUILD)
    try:
        out, crumbs = os.path.join(tmp, 'out.json'), os.path.join(tmp, 'crumbs')
        args = list(args)
        base = (exe if isinstance(exe, list) else [exe]) + ['--tier', tier]
        stuck = None if patient or kind == 'miri' or tier != 'quick' else stuck_on(crumbs, 150)
        t0 = time.time()
        d = run_child(base + ['--out', out, '--crumbs', crumbs] + args, limit, environ=environ, mem=mem, stuck=stuck)
        spec = {'kind': kind, 'args': args, 'binary': binary, 'profile': profile, 'tier': tier}
        if not d.timed_out and d.rc in (0, 1) and os.path.exists(out):
            r = json.load(open(out))
            v = r['violation']
            if v is None:
                if d.rc != 0: raise NoVerdict('%s: exit %d without a violation\n%s' % (binary, d.rc, d.out[-2000:]))
                return r
            spec.update(section=v['section'], unit=v['unit'], message=v['message'])
            # Once more, alone; then in its section, in order; then everything.
            e = run_child(base + ['--only', v['section'], str(v['unit'])] + args, max(unit_limit, 120), environ=environ, mem=mem)
            if e.timed_out or e.rc != 0:
                m = re.search(r'VIOLATED in section .*', e.out, re.S)
                raise Violation(v['message'] if m else v['message'] + ' (replay: %s)' % why_died(e), spec)
            for extra, how in ((['--section', v['section'], '--threads', '1'], 'section'), ([], 'whole')):
                e = run_child(base + ['--out', out, '--crumbs', crumbs] + extra + args, limit, environ=environ, mem=mem)
                if not e.timed_out and e.rc == 1 and os.path.exists(out):
                    w = json.load(open(out))['violation']
                    if w:
                        spec.update(how=how, message=w['message'])
                        raise Violation(w['message'] + ' (depends on earlier calls on other objects)', spec)
            raise NoVerdict('a violation was not reproducible: %s' % v['message'])
        if kind == 'miri' and (d.timed_out or 'unsupported operation' in d.out):
            raise Unsupported('not finished in the interpreter: ' + ('too slow' if d.timed_out else d.out[d.out.index('unsupported operation'):][:300]))
        # The process died or hung. Find the unit.
        at = read_crumbs(crumbs)
        names = None
        listing = run_child(base + ['--list'], 120, environ=environ, mem=mem)
        if listing.rc == 0:
            names = [l.split('\t')[0] for l in listing.out.splitlines()]
        if not names:
            spec.update(section='preparation', unit=0, message='the process %s before anything is explored' % why_died(listing))
            if listing.timed_out or listing.rc < 0: raise Violation(spec['message'], spec)
        for s, u in at:
            e = run_child(base + ['--only', names[s], str(u)] + args, unit_limit, environ=environ, mem=mem)
            if e.timed_out or e.rc < 0 or e.rc == 1:
                msg = 'a call in section %s unit %d %s' % (names[s], u, why_died(e))
                if e.rc == 1:
                    u0 = e.out.find('error: Undefined Behavior')
                    msg = e.out[u0:u0 + 2500] if u0 >= 0 else e.out.strip()[-3000:]
                spec.update(section=names[s], unit=u, message=msg)
                raise Violation(msg, spec)
        if kind == 'miri' and 'error: Undefined Behavior' in d.out:
            # Deterministic: the same arguments show it again.
            s, u = at[-1] if at else (0, 0)
            spec.update(section=names[s] if names else '', unit=u, how='whole', message=d.out[d.out.index('error: Undefined Behavior'):][:2500])
            raise Violation(spec['message'], spec)
        if crashed(d) and kind != 'miri':
            # Memory can be damaged in one unit and break another. Each section in order, then everything.
            todo = [(['--section', names[s], '--threads', '1'], 'section', s) for s in sorted({s for s, _ in at})] if names else []
            for extra, how, s in todo + [([], 'whole', at[-1][0] if at else 0)]:
                e = run_child(base + ['--out', out, '--crumbs', crumbs] + extra + args, limit, environ=environ, mem=mem)
                if crashed(e):
                    msg = 'the process %s; the damage is done by calls in section %s or before it\n%s' % (why_died(e), names[s] if names else '', e.out.strip()[-1500:])
                    spec.update(section=names[s] if names else '', unit=0, how=how, message=msg)
                    raise Violation(msg, spec)
        if d.timed_out and stuck and time.time() - t0 < limit:
            return run_rust(pid, binary, exe, profile, tier, limit, unit_limit, args, environ, kind, mem, patient=True)
        raise NoVerdict('%s (%s) %s; not reproducible alone; active units %s\n%s' % (binary, profile, why_died(d), at, d.out[-1500:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def rust_coverage(results):
    """results: {profile: result}. States are those of one profile, operations those of all."""
    first = next(iter(results.values()))
    cov = {
        'states': sum(s['states'] for s in first['sections']),
        'transitions': sum(s['transitions'] for r in results.values() for s in r['sections']),
        'traces_validated_against_impl': sum(s['traces'] for r in results.values() for s in r['sections']),
        'samples': [x for s in first['sections'] for x in s['samples'][:1]][:12],
        'exhaustive': True,
        'builds': {p: {'seconds': r['seconds'], 'transitions': sum(s['transitions'] for s in r['sections'])} for p, r in results.items()},
        'sections': [{k: s[k] for k in ('name', 'about', 'units', 'states', 'transitions', 'traces', 'outcomes', 'seconds')} for s in first['sections']],
    }
    if not cov['samples']: cov['samples'] = ['section %s, unit 0' % first['sections'][0]['name']]
    return cov

def known_findings(pid):
    out = []
    for l in open(os.path.join(VERIF, 'known-findings.txt')):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
        if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def write_evidence(pid, tier, level, coverage, wall, assumptions, violations):
    os.makedirs(EVIDENCE, exist_ok=True)
    e = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED') or 0), 'level': level, 'coverage': coverage,
         'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': violations}
    f = os.path.join(EVIDENCE, pid + '.json')
    with open(f + '.tmp', 'w') as o: json.dump(e, o, indent=1, ensure_ascii=False)
    os.replace(f + '.tmp', f)

def run(pid, tier):
    import checks
    t0 = time.time()
    if pid not in checks.CHECKS:
        print('unknown check', pid)
        return 2
    c = checks.CHECKS[pid]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    freshen()
    try: os.remove(os.path.join(EVIDENCE, pid + '.json'))
    except FileNotFoundError: pass
    for key, what in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    try:
        cov = c['run'](pid, tier)
    except Violation as v:
        f = save_replay(pid, dict(v.replay, message=v.message))
        write_evidence(pid, tier, c['level'], {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                       'evaluations': 0, 'distinct_nontrivial': 0, 'rule': 'stopped at the first violation',
                       'samples': [v.message[:2000]]}, time.time() - t0, c['assumptions'], 1)
        print(v.message[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, f))
        return 1
    except NoVerdict as e:
        print('NO VERDICT for %s: %s' % (pid, e))
        return 2
    write_evidence(pid, tier, c['level'], cov, time.time() - t0, c['assumptions'], 0)
    shown = ', '.join('%s=%s' % (k, cov[k]) for k in ('states', 'transitions', 'traces_validated_against_impl', 'evaluations', 'distinct_nontrivial') if k in cov)
    print('%s holds (%s): %s, %.1f s' % (pid, tier, shown, time.time() - t0))
    return 0

def replay(path):
    import checks
    d = json.load(open(path))
    os.makedirs(BUILD, exist_ok=True)
    freshen()
    if d['kind'] in ('rust', 'alloc', 'asan', 'miri'):
        environ, mem = None, None if d['binary'] in ALIASING else MEMORY
        if d['kind'] == 'rust':
            checks.PREPARE.get(d['binary'], lambda: None)()
            exe = cargo_bins([d['binary']], [d['profile']])[(d['binary'], d['profile'])]
        elif d['kind'] == 'alloc':
            exe, environ = checks.alloc_bins([d['profile']])[(d['binary'], d['profile'])]
        else:
            exe, environ = (checks.asan if d['kind'] == 'asan' else checks.miri)(d['binary'])
            mem = None
        base = (exe if isinstance(exe, list) else [exe]) + ['--tier', d['tier']]
        how = d.get('how')
        cmd = base + (['--section', d['section'], '--threads', '1'] if how == 'section' else [] if how == 'whole' else ['--only', d['section'], str(d['unit'])])
        e = run_child(cmd + d.get('args', []), 600, environ=environ, mem=mem)
        print(e.out[-3000:])
        if e.timed_out or e.rc != 0:
            print('REPRODUCED: the unit %s' % why_died(e))
            return 1
        print('not reproduced')
        return 0
    try:
        checks.REPLAY[d['kind']](d)
    except Violation as v:
        print(v.message)
        print('REPRODUCED')
        return 1
    print('not reproduced')
    return 0
