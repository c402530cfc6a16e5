#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current working tree. See DESIGN.md."""
import os, sys, json, time
PY = '/opt/veriftools/pyvenv/bin/python3'
os.environ['PYTHONOPTIMIZE'] = '1'; os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
if not os.environ.get('VERIF_PY') and os.path.exists(PY):
    os.environ['VERIF_PY'] = '1'; os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, 'lib'))
if sys.argv[1] == '--setup':
    import z3, shutil
    print('python', sys.version.split()[0], 'z3', z3.get_version_string(), shutil.which('g++')); sys.exit(0)
import plan
sys.exit(plan.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
