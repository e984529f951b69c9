#!/usr/bin/env python3-vt
"""run.py <property id> [--replay FILE] [--only SUBCHECK ...]"""
import importlib
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
	os.environ['PYTHONHASHSEED'] = '0'
	os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from wlv import env  # noqa: E402

env.setup()

from wlv import core  # noqa: E402


def main(argv):
	prop_id = argv[0]
	try:
		module = importlib.import_module('checks.%s' % prop_id.lower())
	except Exception as e:
		# The code under test cannot even be imported: that is for the build to report, not a property violation.
		import traceback
		traceback.print_exc()
		print('ERROR cannot load the check for %s: %s' % (prop_id, e))
		return 2
	if '--replay' in argv:
		return core.replay(module.PROPERTY, argv[argv.index('--replay') + 1])
	only = argv[argv.index('--only') + 1:] if '--only' in argv else None
	return core.run(module.PROPERTY, only)


if __name__ == '__main__':
	sys.exit(main(sys.argv[1:]))
