#!/usr/bin/env python3
"""One-time preparation: checks that the tools are there and that every
specification parses; the drivers are built by each check from /repo."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core
bad = 0
for d in (core.WORK, core.BUILD):
    os.makedirs(d, exist_ok=True)
for f in sorted(glob.glob(os.path.join(core.SPEC, '*.tla'))):
    r = core.sh(['java', '-cp', core.JAR, 'tla2sany.SANY', os.path.basename(f)], cwd=core.SPEC)
    if r.returncode:
        print('does not parse: %s\n%s' % (f, r.stdout[-1500:]))
        bad = 1
print('setup: %s' % ('failed' if bad else 'ok'))
sys.exit(bad)
