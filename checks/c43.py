"""The same cases under other settings of the computer."""
import datetime
import os
import sys

from hypothesis import strategies as st

from checks import c38, c42
from wlv import remote, summaries
from wlv.core import Prop, Sub

# Daylight saving by rule, so that no zone database is needed: (TZ, where its clock changes: (month, weekday Monday 0, which, hour))
ZONES = {
	'Chicago': ('XST6XDT,M3.2.0/2,M11.1.0/2', ((3, 6, 2, 2), (11, 6, 1, 1))),
	'Berlin': ('XST-1XDT,M3.5.0/2,M10.5.0/3', ((3, 6, 5, 2), (10, 6, 5, 2))),
	'midnight': ('XST3XDT,M10.3.0/0,M2.3.0/0', ((10, 6, 3, 0), (2, 6, 3, 23))),
	'half': ('XST-10:30XDT-11,M10.1.0/2,M4.1.0/2', ((10, 6, 1, 2), (4, 6, 1, 1))),
	'ahead': ('XST-14', ()),
	'behind': ('XST11:30', ()),
}


def change(year, month, weekday, which, hour):
	days = [d for d in (datetime.datetime(year, month, 1) + datetime.timedelta(days=k) for k in range(31)) if d.month == month and d.weekday() == weekday]
	return days[min(which, len(days)) - 1] + datetime.timedelta(hours=hour)


def settings_of(kind, value):
	"""(interpreter, flags, environment variables, directory) of a process"""
	base = {'PYTHONHASHSEED': '0'}
	if kind == 'interpreter':
		return value, (), base, '/'
	if kind == 'zone':
		return sys.executable, (), dict(base, WLV_TZ=ZONES[value][0]), '/'
	if kind == 'optimized':
		return sys.executable, (value, ), base, '/'
	if kind == 'hash seed':
		return sys.executable, (), {'PYTHONHASHSEED': value}, '/'
	return sys.executable, (), dict(base, **dict(value)), '/tmp'


ENCODINGS = [
	(('LC_ALL', 'C'), ('PYTHONCOERCECLOCALE', '0'), ('PYTHONUTF8', '0'), ('PYTHONIOENCODING', 'ascii')),
	(('LC_ALL', 'C.UTF-8'), ('PYTHONUTF8', '1'), ('LANG', 'tr_TR.UTF-8')),
]

# Sub-checks of the other properties that judge whole behaviours: (property, sub-check, weight)
JUDGES = [
	('C01', 'contents', 2), ('C01', 'structure', 1), ('C02', 'records', 1), ('C03', 'summaries', 1), ('C04', 'records', 1), ('C05', 'sessions', 3), ('C05', 'rejected', 4), ('C05', 'lost', 1),
	('C06', 'packets', 1), ('C06', 'damaged', 1), ('C07', 'truncated', 2), ('C07', 'markers', 3), ('C07', 'codes', 2), ('C07', 'files', 2), ('C07', 'names', 2), ('C08', 'round-trip', 3), ('C08', 'order', 2),
	('C09', 'reference', 1), ('C10', 'invalid', 1), ('C11', 'invalid', 1), ('C18', 'records', 1), ('C19', 'record', 1), ('C20', 'rows', 3), ('C20', 'custom', 2), ('C20', 'duplicates', 1), ('C21', 'mysql', 3),
	('C21', 'wunderground', 3), ('C22', 'archive', 2), ('C23', 'near', 2), ('C24', 'near', 1), ('C26', 'history', 2), ('C27', 'batches', 1), ('C28', 'faults', 2), ('C28', 'arguments', 1),
	('C29', 'histories', 3), ('C29', 'silent', 1), ('C30', 'history', 2), ('C30', 'damaged', 3), ('C30', 'mismatch', 2), ('C31', 'histories', 2), ('C32', 'polls', 1), ('C32', 'cut', 1), ('C32', 'types', 1),
	('C33', 'histories', 1), ('C34', 'simple', 2), ('C34', 'rapid', 2), ('C35', 'histories', 1), ('C36', 'histories', 3), ('C36', 'statuses', 2), ('C37', 'operations', 2), ('C37', 'loaded', 1), ('C38', 'parity', 3),
	('C38', 'derivable', 1), ('C39', 'newest', 2), ('C40', 'turns', 2), ('C42', 'pipeline', 2),
]

_lists = {}


def case_of(prop_id, name):
	sub = remote.subcheck(prop_id, name)
	if sub.strategy is not None:
		return sub.strategy()
	if (prop_id, name) not in _lists:
		_lists[prop_id, name] = sub.cases()
	return st.sampled_from(_lists[prop_id, name])


def anything():
	weighted = [(p, n) for p, n, w in JUDGES for _ in range(w)]
	return st.sampled_from(weighted).flatmap(lambda j: st.tuples(st.just(j[0]), st.just(j[1]), case_of(*j)))


def check(case, t):
	kind, value, (prop_id, name, inner) = case
	if remote.judge(prop_id, name, inner) is not None:
		t.label('fails whatever the settings')  # for that property's own check to report
		return
	message = remote.elsewhere(settings_of(kind, value), prop_id, name, inner)
	t.check(message is None, 'with another %s (%s), but not otherwise: %s/%s: %s', kind, value, prop_id, name, message)
	t.label(prop_id)
	t.nontrivial()


def near_changes(zone):
	"""Cases whose dates lie around the changes of a zone's clock."""
	changes = ZONES[zone][1] or ((3, 6, 2, 2), (12, 0, 9, 20))
	moment = st.tuples(st.integers(2004, 2034), st.sampled_from(changes), st.one_of(st.integers(-10, 70), st.integers(-300, 300))).map(
		lambda x: change(x[0], *x[1]) + datetime.timedelta(minutes=x[2]))
	minute_pair = st.tuples(moment, st.sampled_from([1, 5, 30, 60, 61])).map(lambda x: (x[0], x[0] + datetime.timedelta(minutes=x[1])))
	measured = st.tuples(c38.measurement(), moment).map(lambda x: [dict(x[0], date=x[1])])
	days = st.tuples(st.integers(2004, 2034), st.sampled_from(changes)).map(lambda x: change(x[0], *x[1]).date())
	near = summaries.archives(spread=2, maximum=6, bases=days.map(lambda d: d - datetime.timedelta(days=1)))
	pipeline = st.tuples(c42.strategy(), moment, st.integers(0, 40)).map(lambda x: ((x[1] - datetime.timedelta(minutes=x[1].minute % 30 + 30 * (x[2] % 4)), ) + x[0][1:]))
	return st.one_of(
		st.tuples(st.just('C08'), st.just('round-trip'), st.tuples(moment, st.sampled_from([0, 59]), st.just(0))),
		st.tuples(st.just('C08'), st.just('order'), minute_pair),
		st.tuples(st.just('C38'), st.just('parity'), measured),
		st.tuples(st.just('C21'), st.just('mysql'), case_of('C21', 'mysql')),
		st.tuples(st.just('C21'), st.just('wunderground'), case_of('C21', 'wunderground')),
		st.tuples(st.just('C22'), st.just('archive'), st.tuples(near, st.integers(0, 23), st.booleans())),
		st.tuples(st.just('C42'), st.just('pipeline'), pipeline),
	)


def zones():
	names = sorted(ZONES)
	return st.sampled_from(names + names[1:3]).flatmap(lambda z: st.tuples(st.just('zone'), st.just(z), st.one_of(near_changes(z), anything())))


PROPERTY = Prop(
	'C43',
	'Cases of 55 sub-checks of the other properties (files, sessions, packets, damaged data, exports, summaries, rain, settings, polling, '
	'updates), each judged once as always and once in another process: in time zones with and without changes of the clock (many of the dates around '
	'the changes), with optimization (-O, -OO), other hash seeds, other locales and encodings, or PyPy. The same verdict is due. '
	'Non-trivial: the case passes under the usual settings.',
	[
		Sub('time zones', check, zones, quick=500),
		Sub('optimized', check, lambda: st.tuples(st.just('optimized'), st.sampled_from(['-O', '-O', '-OO']), anything()), quick=500),
		Sub('hash seeds', check, lambda: st.tuples(st.just('hash seed'), st.sampled_from(['1', '2', '3']), anything()), quick=300),
		Sub('encodings', check, lambda: st.tuples(st.just('encoding'), st.sampled_from(ENCODINGS), anything()), quick=300),
		Sub('interpreters', check, lambda: st.tuples(st.just('interpreter'), st.just(remote.PYPY if os.path.exists(remote.PYPY) else sys.executable), anything()), quick=400),
	],
	['The settings are those of the process that uses the library; Python is CPython 3.12, or PyPy 3.9 where it is called so.'],
)
