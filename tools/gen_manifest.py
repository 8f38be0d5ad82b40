#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^verif hook'], capture_output=True, text=True).stdout.split()
NA = {}
m = {
    'version': 1,
    'setup_cmd': 'python3 setup.py',
    'hooks': {
        'guard': 'cfg(shogi_verif)',
        'enable': 'RUSTFLAGS="--cfg shogi_verif" for the harness crate /verif/alloc_mc, which includes /repo/shogi_core_c/src/no_std.rs as a module and supplies crate::verif_sync; no other check needs the hook',
        'source_commits': hook,
    },
    'checks': [],
    'not_applicable': [],
    'notes': 'Every check builds what it needs from /repo into /verif/build. python3 run.py --replay FILE repeats a violation. See DESIGN.md.',
}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid', len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
except ImportError:
    print('written')
