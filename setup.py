#!/usr/bin/env python3
"""Builds the framework from the committed files. Each check builds what it needs again, from /repo as it is then."""
import glob, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import checks, common
os.makedirs(common.BUILD, exist_ok=True)
common.freshen()
bins = [os.path.basename(f)[:-3] for f in glob.glob(os.path.join(common.VERIF, 'mc/src/bin/*.rs'))]
try:
    common.cargo_bins(sorted(bins), ('checked', 'release'))
    checks.alloc_bins(('checked', 'release'))
except common.NoVerdict as e:
    print(e)
    sys.exit(2)
print('built', len(bins), 'harness binaries')
