#!/usr/bin/env python3
"""setup_cmd: nothing is compiled; checks that the interpreters the checks use are there."""
import subprocess, sys
for py, mods in (('/opt/venv/bin/python', 'numpy, scipy'), ('/opt/veriftools/pyvenv/bin/python', 'z3, numpy')):
    if subprocess.call([py, '-c', 'import ' + mods]):
        sys.exit('missing: %s with %s' % (py, mods))
print('ok')
