"""Locates the code under test and imports it from the repository's working tree, never from stale bytecode."""
import os
import sys

REPO = os.environ.get('WLV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# pytz, requests and mysql.connector come from the repository's own environment; they are pure Python.
_SITE = '/opt/venv-pypy/lib/pypy3.9/site-packages'


def setup():
	sys.dont_write_bytecode = True
	sys.pycache_prefix = '/nonexistent-wlv-pycache'  # never read bytecode that may lie in the repository
	os.environ['TZ'] = os.environ.get('WLV_TZ', 'UTC')  # wlv/remote.py sets another one
	import time
	time.tzset()
	if REPO not in sys.path:
		sys.path.insert(0, REPO)
	if _SITE not in sys.path:
		sys.path.append(_SITE)
