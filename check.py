#!/usr/bin/env python3-vt
"""check.py [--thorough] PROPERTY: runs the check of one property.  See DESIGN.md."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
if '--thorough' in sys.argv:
    sys.argv.remove('--thorough')
    os.environ['VERIF_TIER'] = 'thorough'
import runner
runner.main(sys.argv[1:])

