"""
Judges cases in another Python process, which runs under other settings of the computer: interpreter, time zone, hash seed,
optimization, encodings, directory. Processes are started once per worker and kept; they end when their input ends.
"""
import importlib
import os
import select
import struct
import subprocess
import sys

from wlv import core, env

PYPY = '/opt/venv-pypy/bin/python'  # the interpreter of the repository's own environment
DEADLINE = 300  # seconds of waiting for one answer; the child itself limits each case

_children = {}


def _exactly(fd, count, deadline=None):
	data = b''
	while len(data) < count:
		if deadline and not select.select([fd], [], [], deadline)[0]:
			raise core.HarnessError('the other process does not answer')
		chunk = os.read(fd, count - len(data))
		if not chunk:
			return None
		data += chunk
	return data


def _send(fd, text):
	data = text.encode('utf8', 'surrogatepass')
	data = struct.pack('>I', len(data)) + data
	while data:
		data = data[os.write(fd, data):]


def _receive(fd, deadline=None):
	head = _exactly(fd, 4, deadline)
	data = None if head is None else _exactly(fd, struct.unpack('>I', head)[0], deadline)
	return None if data is None else data.decode('utf8', 'surrogatepass')


def subcheck(prop_id, name):
	prop = importlib.import_module('checks.%s' % prop_id.lower()).PROPERTY
	return [s for s in prop.subs if s.name == name][0]


def judge(prop_id, name, case):
	"""None, or the message of the violation."""
	sub = subcheck(prop_id, name)
	try:
		core.run_case(sub, case, None)
	except core.Violation as v:
		return str(v)
	return None


def elsewhere(settings, prop_id, name, case):
	"""As judge(), in a process with the settings (interpreter, flags, variables, directory)."""
	key = (os.getpid(), repr(settings))
	if key not in _children:
		interpreter, flags, variables, directory = settings
		environment = {k: v for k, v in os.environ.items() if k not in ('PYTHONHASHSEED', 'LC_ALL', 'LANG', 'PYTHONUTF8', 'PYTHONIOENCODING')}
		environment.update(variables, WLV_REPO=env.REPO,
			PYTHONPATH=env.VERIF if interpreter == sys.executable else os.path.join(env.VERIF, 'wlv', 'pypy') + os.pathsep + env.VERIF)
		_children[key] = subprocess.Popen([interpreter, '-B', '-X', 'pycache_prefix=/nonexistent-wlv-pycache'] + list(flags) + ['-m', 'wlv.remote'], stdin=subprocess.PIPE,
			stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=environment, cwd=directory, bufsize=0)
	child = _children[key]
	try:
		_send(child.stdin.fileno(), repr((prop_id, name, repr(case))))
		answer = _receive(child.stdout.fileno(), DEADLINE)
	except OSError:
		answer = None
	if answer is None:
		child.kill()
		child.wait()
		del _children[key]
		raise core.HarnessError('the process with %r ended' % (settings, ))
	kind, message = eval(answer, core.EVAL_NAMESPACE)
	if kind == 'error':
		raise core.HarnessError('with %r: %s' % (settings, message))
	return message


def main():
	answers = os.dup(1)
	os.dup2(2, 1)
	env.setup()
	while True:
		request = _receive(0)
		if request is None:
			return
		try:
			prop_id, name, case = eval(request, core.EVAL_NAMESPACE)
			answer = ('verdict', judge(prop_id, name, eval(case, core.EVAL_NAMESPACE)))
		except core.HarnessError as e:
			answer = ('error', str(e))
		except Exception as e:
			answer = ('error', '%s: %s' % (type(e).__name__, e))
		_send(answers, repr(answer))


if __name__ == '__main__':
	main()
