"""
The engine that runs a property's sub-checks.

A sub-check is (strategy or finite case list) + check(case, t). Cases are plain values whose repr() can be evaluated
again (numbers, strings, bytes, tuples, lists, dicts, Decimal, datetime), so a shrunk failing case is written to a replay
file that is re-run without Hypothesis. Every random choice comes from Hypothesis, seeded from VERIF_SEED.
"""
import collections
import contextlib
import datetime
import decimal
import fractions
import hashlib
import io
import json
import os
import pickle
import signal
import struct
import sys
import time
import traceback
import zlib

from wlv import env


class Violation(Exception):
	def __init__(self, message, key=None):
		super(Violation, self).__init__(message)
		self.key = key


class HarnessError(BaseException):
	"""The harness cannot judge (unsupported call, internal error). Never reported as a violation."""


class NonTermination(BaseException):
	pass


SHRINK_LIMIT = 60  # seconds; the smallest case so far is reported then
FAST = bool(os.environ.get('WLV_FAST'))  # for tools/mutate.py: a third of the cases, no shrinking, end at the first violation

CPU_LIMIT_PER_CASE = 60.0  # The longest case takes about one second


class Stop(BaseException):
	"""Ends a sub-check with its recorded violation at once: shrinking a case that does not end would not end either."""


EVAL_NAMESPACE = {
	'Decimal': decimal.Decimal, 'datetime': datetime, 'date': datetime.date, 'Fraction': fractions.Fraction,
	'__builtins__': {'True': True, 'False': False, 'None': None, 'frozenset': frozenset, 'set': set, 'bytearray': bytearray,
		'float': float, 'range': range},
	'nan': float('nan'), 'inf': float('inf'),
}


class T(object):
	"""What a check function gets besides its case: labels, non-triviality, and comparison helpers."""

	def __init__(self):
		self.labels = set()
		self._nontrivial = False

	def label(self, *names):
		self.labels.update(names)

	def nontrivial(self, condition=True):
		if condition:
			self._nontrivial = True

	def fail(self, message, key=None):
		raise Violation(message, key)

	def check(self, condition, message, *args):
		if not condition:
			raise Violation(message % args if args else message)

	def eq(self, actual, expected, what):
		if not same(actual, expected):
			raise Violation('%s: expected %s, got %s' % (what, show(expected), show(actual)))

	def one_of(self, actual, allowed, what):
		for a in allowed:
			if same(actual, a):
				return
		raise Violation('%s: expected one of %s, got %s' % (what, show(list(allowed)), show(actual)))

	def close(self, actual, expected, tolerance, what):
		"""Both None, or both numbers that differ by at most tolerance."""
		if expected is None or actual is None:
			if expected is actual:
				return
			raise Violation('%s: expected %s, got %s' % (what, show(expected), show(actual)))
		a = number(actual)
		if a is None or abs(a - number(expected)) > number(tolerance):
			raise Violation('%s: expected %s (within %s), got %s' % (what, show(expected), tolerance, show(actual)))

	@contextlib.contextmanager
	def sut(self, what):
		"""Anything the code under test raises here breaks the property."""
		try:
			yield
		except Violation:
			raise
		except Exception as e:
			raise Violation('%s raised %s: %s [%s]' % (what, type(e).__name__, e, where(e)))

	def raises(self, what, types, function, *args, **kwargs):
		"""The call must raise one of `types`; returns the exception."""
		try:
			r = function(*args, **kwargs)
		except types as e:
			return e
		except Violation:
			raise
		except Exception as e:
			raise Violation('%s raised %s (%s), expected %s' % (what, type(e).__name__, e, types))
		raise Violation('%s did not raise but returned %s' % (what, show(r)))


def where(e):
	frames = [f for f in traceback.extract_tb(e.__traceback__) if '/weatherlink/' in f.filename]
	if not frames:
		return 'no library frame'
	return '%s:%s in %s' % (os.path.basename(frames[-1].filename), frames[-1].lineno, frames[-1].name)


def show(value):
	r = repr(value)
	return r if len(r) < 400 else r[:400] + '...'


def number(value):
	if isinstance(value, bool) or value is None:
		return None
	if isinstance(value, decimal.Decimal):
		return fractions.Fraction(value) if value.is_finite() else None
	if isinstance(value, (int, fractions.Fraction)):
		return fractions.Fraction(value)
	if isinstance(value, float):
		return fractions.Fraction(value) if value == value and abs(value) != float('inf') else None
	return None


def same(a, b):
	"""Equality of observable values: numbers by value (True is not 1), everything else by ==."""
	if a is None or b is None:
		return a is b
	na, nb = number(a), number(b)
	if na is not None or nb is not None:
		return na is not None and nb is not None and na == nb
	try:
		return type(a) is type(b) and bool(a == b) or (
			not isinstance(a, bool) and not isinstance(b, bool) and bool(a == b))
	except Exception:
		return False


class Sub(object):
	def __init__(self, name, check, strategy=None, cases=None, quick=200, thorough=None, examples=(), rule=None, shards=None,
			thorough_cases=None):
		self.name = name
		self.check = check
		self.strategy = strategy  # a callable returning a Hypothesis strategy
		self.cases = cases  # a callable returning a list of cases: the finite space is enumerated
		self.thorough_cases = thorough_cases
		self.quick = quick
		self.thorough = thorough if thorough is not None else quick * 25
		self.examples = list(examples)
		self.rule = rule
		self.shards = shards


class Prop(object):
	def __init__(self, id, rule, subs, assumptions=()):
		self.id = id
		self.rule = rule
		self.subs = subs
		self.assumptions = list(assumptions)


class Stats(object):
	def __init__(self):
		self.evaluations = 0
		self.nontrivial = set()
		self.labels = collections.Counter()
		self.samples = []
		self.violation = None  # (case, message)
		self.known = []
		self.error = None
		self.exhaustive = False


def _alarm(*_):
	raise NonTermination()


def run_case(sub, case, stats):
	t = T()
	if stats is not None:
		stats.evaluations += 1
	out = io.StringIO()
	signal.signal(signal.SIGVTALRM, _alarm)
	signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT_PER_CASE)
	try:
		try:
			with contextlib.redirect_stdout(out):
				sub.check(case, t)
		finally:
			signal.setitimer(signal.ITIMER_VIRTUAL, 0)
	except Violation:
		raise
	except NonTermination:
		v = Violation('the operation had not ended after %d s of CPU time' % CPU_LIMIT_PER_CASE)
		v.stop = True
		raise v
	except HarnessError:
		raise
	except Exception as e:
		if where(e) != 'no library frame':
			raise Violation('unexpected %s: %s [%s]' % (type(e).__name__, e, where(e)))
		if isinstance(e, (TypeError, AttributeError, LookupError, ValueError, ArithmeticError, struct.error)):
			# What the code under test produced does not have the form that the check reads it in.
			frame = traceback.extract_tb(e.__traceback__)[-1]
			raise Violation('the result does not have the expected form: %s: %s [%s:%s]' % (
				type(e).__name__, e, os.path.basename(frame.filename), frame.lineno))
		raise HarnessError('%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()))
	if stats is not None:
		for l in t.labels:
			stats.labels[l] += 1
		if t._nontrivial:
			r = repr(case)
			stats.nontrivial.add(hashlib.blake2b(r.encode('utf8', 'backslashreplace'), digest_size=8).digest())
			if len(stats.samples) < 3:
				stats.samples.append(r if len(r) < 1200 else r[:1200] + '...')


def _subseed(seed, prop, name, shard):
	return zlib.crc32(('%s/%s/%s/%s' % (seed, prop, name, shard)).encode()) + 1


def run_shard(prop, sub, seed, tier, shard, shards, known_keys):
	stats = Stats()
	started = None  # of shrinking

	def attempt(case):
		nonlocal started
		try:
			run_case(sub, case, stats)
		except Violation as v:
			if v.key and v.key in known_keys:
				stats.known.append((v.key, repr(case)))
				return
			stats.violation = (repr(case), str(v))
			started = started or time.time()
			if getattr(v, 'stop', False) or time.time() - started > SHRINK_LIMIT:
				raise Stop()
			raise

	try:
		if sub.cases is not None:
			cases = sub.cases() if tier == 'quick' or not sub.thorough_cases else sub.thorough_cases()
			for i, case in enumerate(cases):
				if i % shards == shard:
					attempt(case)
			stats.exhaustive = True
		if shard == 0:
			for case in sub.examples:
				attempt(case)
		if sub.strategy is not None:
			import hypothesis
			from hypothesis import HealthCheck, Phase, settings
			total = sub.quick if tier == 'quick' else sub.thorough
			if FAST:
				total = -(-total // 3)
			count = total // shards + (1 if shard < total % shards else 0)
			if count:
				def body(case):
					attempt(case)
				body = hypothesis.given(sub.strategy())(body)
				body = settings(
					max_examples=count, database=None, deadline=None, derandomize=False, print_blob=False,
					report_multiple_bugs=False, verbosity=hypothesis.Verbosity.quiet,
					suppress_health_check=list(HealthCheck),
					phases=(Phase.generate, ) if FAST else (Phase.generate, Phase.shrink),
				)(body)
				body = hypothesis.seed(_subseed(seed, prop.id, sub.name, shard))(body)
				with contextlib.redirect_stdout(io.StringIO()):
					body()
	except (Violation, Stop):
		pass
	except HarnessError as e:
		stats.error = str(e)
	except Exception as e:
		# Includes Hypothesis errors (flaky, unsatisfiable). A recorded violation that reproduces still counts.
		# So does one that a shrunk case did not show every time: the check functions themselves are deterministic.
		confirmed = bool(stats.violation) and type(e).__name__ in ('Flaky', 'FlakyFailure', 'FlakyStrategyDefinition')
		if stats.violation and not confirmed:
			case = eval(stats.violation[0], EVAL_NAMESPACE)
			try:
				run_case(sub, case, None)
			except Violation:
				confirmed = True
			except BaseException:
				pass
		if not confirmed:
			stats.violation = None
			stats.error = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())
	return stats


def load_known(prop_id):
	"""known_findings.txt: lines 'KNOWN property=<id> key=<key> <what fails>' and 'fixed: property=<id> <commit> <what>'."""
	known = {}
	path = os.path.join(env.VERIF, 'known_findings.txt')
	if os.path.exists(path):
		with open(path) as f:
			for line in f:
				if line.startswith('KNOWN property=%s ' % prop_id):
					_, _, key, what = line.rstrip('\n').split(' ', 3)
					known[key[len('key='):]] = what
	return known


def _fork(job):
	r, w = os.pipe()
	pid = os.fork()
	if pid == 0:
		os.close(r)
		code = 0
		try:
			sys.stdout = io.StringIO()
			data = pickle.dumps(job())
			with os.fdopen(w, 'wb') as f:
				f.write(data)
		except BaseException:
			traceback.print_exc()
			code = 1
		os._exit(code)
	os.close(w)
	return pid, r


def run_jobs(jobs, workers):
	"""Runs each job in a forked process of its own; returns results in job order."""
	import selectors
	results = [None] * len(jobs)
	pending = list(range(len(jobs)))
	sel = selectors.DefaultSelector()
	running = {}
	while pending or running:
		while pending and len(running) < workers:
			i = pending.pop(0)
			pid, r = _fork(jobs[i])
			running[r] = (i, pid, [])
			sel.register(r, selectors.EVENT_READ)
		for key, _ in sel.select():
			r = key.fd
			chunk = os.read(r, 1 << 20)
			if chunk:
				running[r][2].append(chunk)
				continue
			sel.unregister(r)
			os.close(r)
			i, pid, chunks = running.pop(r)
			os.waitpid(pid, 0)
			try:
				results[i] = pickle.loads(b''.join(chunks))
			except Exception:
				s = Stats()
				s.error = 'worker died without a result'
				results[i] = s
			if FAST and results[i].violation:
				pending = []
	return [r or Stats() for r in results]


def replay(prop, path):
	with open(path) as f:
		data = json.load(f)
	sub = [s for s in prop.subs if s.name == data['subcheck']][0]
	case = eval(data['case'], EVAL_NAMESPACE)
	try:
		run_case(sub, case, None)
	except Violation as v:
		print('replayed %s/%s: %s' % (prop.id, sub.name, v))
		print('VIOLATION property=%s replay=%s' % (prop.id, path))
		return 1
	except HarnessError as e:
		print('ERROR %s' % e)
		return 2
	print('replayed %s/%s: the property holds on this case' % (prop.id, sub.name))
	return 0


def run(prop, only=None):
	started = time.time()
	seed = int(os.environ.get('VERIF_SEED', '1') or '1')
	tier = os.environ.get('VERIF_TIER', 'quick')
	if tier not in ('quick', 'thorough'):
		tier = 'quick'
	workers = int(os.environ.get('WLV_WORKERS', '0') or 0) or min(8, os.cpu_count() or 1)
	known = load_known(prop.id)

	jobs, owners = [], []
	for sub in prop.subs:
		if only and sub.name not in only:
			continue
		shards = sub.shards or 8  # the same cases however many workers there are
		if tier == 'quick' and sub.shards is None and sub.strategy is not None and sub.cases is None:
			shards = max(1, min(shards, sub.quick // 25 or 1))
		for k in range(shards):
			owners.append((sub, k))
			jobs.append(lambda sub=sub, k=k, shards=shards: run_shard(prop, sub, seed, tier, k, shards, set(known)))
	results = run_jobs(jobs, workers)

	total, labels, nontrivial, samples, per_sub = 0, collections.Counter(), set(), [], {}
	violations, errors, known_hit, exhaustive = [], [], {}, []
	for (sub, k), s in zip(owners, results):
		total += s.evaluations
		for n, c in s.labels.items():
			labels['%s: %s' % (sub.name, n)] += c
		nontrivial |= {sub.name.encode() + h for h in s.nontrivial}
		p = per_sub.setdefault(sub.name, {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'set': set()})
		p['evaluations'] += s.evaluations
		p['set'] |= s.nontrivial
		if len(p['samples']) < 2:
			p['samples'].extend(s.samples[:2 - len(p['samples'])])
		if s.exhaustive and sub.strategy is None and sub.name not in exhaustive:
			exhaustive.append(sub.name)
		if s.violation:
			violations.append((sub, s.violation))
		if s.error:
			errors.append((sub, s.error))
		for key, case in s.known:
			known_hit.setdefault(key, case)
	for p in per_sub.values():
		p['distinct_nontrivial'] = len(p.pop('set'))
	for name, p in sorted(per_sub.items()):
		samples.extend({'subcheck': name, 'case': c} for c in p.pop('samples'))

	violations.sort(key=lambda v: (v[0].name, len(v[1][0]), v[1][0]))
	evidence = {
		'property': prop.id,
		'tier': tier,
		'seed': seed,
		'level': 'exploration',
		'coverage': {
			'evaluations': total,
			'distinct_nontrivial': len(nontrivial),
			'rule': prop.rule,
			'samples': samples,
			'per_subcheck': per_sub,
			'labels': dict(sorted(labels.items())),
			'finite_spaces_enumerated_completely': exhaustive,
		},
		'assumptions': prop.assumptions,
		'wall_s': round(time.time() - started, 2),
		'violations': len(violations),
	}
	if only is None:
		os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
		path = os.path.join(env.VERIF, 'evidence', '%s.json' % prop.id)
		with open(path + '.tmp', 'w') as f:
			json.dump(evidence, f, indent=1, sort_keys=True)
		os.replace(path + '.tmp', path)

	print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' % (
		prop.id, tier, seed, total, len(nontrivial), time.time() - started))
	for key in sorted(known_hit):
		print('KNOWN-FINDING: property=%s %s' % (prop.id, known[key]))

	if violations:
		replays = os.path.join(env.VERIF, 'evidence', 'replay')
		os.makedirs(replays, exist_ok=True)
		seen = set()
		for sub, (case, message) in violations:
			if sub.name in seen:
				continue
			seen.add(sub.name)
			path = os.path.join(replays, '%s-%s.json' % (prop.id, sub.name.replace(' ', '-').replace(',', '')))
			with open(path, 'w') as f:
				json.dump({'property': prop.id, 'subcheck': sub.name, 'case': case, 'message': message, 'seed': seed}, f, indent=1)
			print('%s/%s: %s' % (prop.id, sub.name, message))
			print('  minimal case: %s' % (case if len(case) < 2000 else case[:2000] + '...'))
			print('VIOLATION property=%s replay=%s' % (prop.id, path))
		for sub, e in errors:
			print('ERROR in %s/%s: %s' % (prop.id, sub.name, e))
		return 1
	if errors:
		for message in dict.fromkeys('ERROR in %s/%s: %s' % (prop.id, sub.name, e) for sub, e in errors):
			print(message)
		return 2
	return 0
