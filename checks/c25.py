"""Recalculating summaries again, in another order, piece by piece, or after an interruption."""
import datetime

from hypothesis import strategies as st

from checks.c21 import FIELDS
from checks.c22 import dates_of
from wlv import archive, fakedb, summaries
from wlv.core import Prop, Sub, Violation
from wlv.summaries import ARCHIVE, SCHEMA, SUMMARY

from weatherlink.exporter.mysql import MySQLExporter


def state(server, masked=()):
	out = {}
	for row in server.rows(SUMMARY):
		key = summaries.key_of(row)
		if key in out:
			raise Violation('there are two summaries for %r' % (key, ))
		out[key] = {k: v for k, v in row.items() if k != 'summary_id' and k not in masked}
	return out


def difference(a, b):
	if set(a) != set(b):
		return 'summaries %s' % sorted(set(a) ^ set(b))
	for key in sorted(a):
		for column in a[key]:
			if a[key][column] != b[key][column]:
				return '%s: %s is %r, expected %r' % (key, column, a[key][column], b[key][column])
	return None


def recalculate(server, dates):
	with summaries.using(server) as e:
		e.recalculate_summaries_for_dates(dates)


def fill(server, rows):
	for row in rows:
		server.insert(ARCHIVE, row)


def shuffled(items, order):
	items = list(items)
	out = []
	for i in order:
		if items:
			out.append(items.pop(i % len(items)))
	return out + items


# Which of several equally frequent directions or equally high averages is stored is open
OPEN = ('wind_direction_prevailing', 'wind_speed_high_direction', 'wind_speed_high_10_minute_average_direction',
	'wind_speed_high_10_minute_average_start', 'wind_speed_high_10_minute_average_end')


def check_again(case, t):
	archive_case, hour, order, lasting = case
	rows = summaries.rows_of(archive_case)
	dates = dates_of(rows, hour)
	server = fakedb.FakeServer(SCHEMA, lasting)
	fill(server, rows)
	with t.sut('recalculate_summaries_for_dates'):
		recalculate(server, dates)
		first = state(server)
		recalculate(server, dates)
		second = state(server)
		recalculate(server, shuffled(dates, order))
		third = state(server)
	t.check(first == second, 'recalculating again changed a summary: %s', difference(second, first))
	t.check(first == third, 'recalculating in another order changed a summary: %s', difference(third, first))
	t.nontrivial(len(first) >= 5)


def check_order(case, t):
	"""From scratch in two orders of arrival and of dates."""
	archive_case, hour, order = case
	rows = summaries.rows_of(archive_case)
	dates = dates_of(rows, hour)
	states = []
	for r, d in ((rows, dates), (shuffled(rows, order), shuffled(dates, order[::-1]))):
		server = fakedb.FakeServer(SCHEMA)
		fill(server, r)
		with t.sut('recalculate_summaries_for_dates'):
			recalculate(server, d)
		states.append(state(server, OPEN))
	t.check(states[0] == states[1], 'another order gives another summary: %s', difference(states[1], states[0]))
	t.nontrivial(len(states[0]) >= 5)


def check_pieces(case, t):
	"""Records arrive in batches; after each, the summaries of its dates are recalculated."""
	archive_case, hour, cuts, one_by_one, lasting = case
	rows = summaries.rows_of(archive_case)
	masked = OPEN
	whole = fakedb.FakeServer(SCHEMA)
	fill(whole, rows)
	with t.sut('recalculate_summaries_for_dates'):
		recalculate(whole, dates_of(rows, hour))
	pieces = fakedb.FakeServer(SCHEMA, lasting)
	edges = sorted({c % (len(rows) + 1) for c in cuts} | {0, len(rows)})
	for a, b in zip(edges, edges[1:]):
		fill(pieces, rows[a:b])
		with t.sut('recalculate_summaries_for_dates'):
			if one_by_one:
				for d in dates_of(rows[a:b], hour):
					recalculate(pieces, [d])
			else:
				recalculate(pieces, dates_of(rows[a:b], hour))
	expected, got = state(whole, masked), state(pieces, masked)
	t.check(expected == got, 'recalculating as records arrive differs from recalculating everything: %s', difference(got, expected))
	t.label('%d batches' % (len(edges) - 1))
	t.nontrivial(len(edges) > 2)


def check_interrupted(case, t):
	archive_case, hour, fault, kind, known, lasting = case
	rows = summaries.rows_of(archive_case)
	dates = dates_of(rows, hour)
	known = rows[:known % len(rows)]
	server = fakedb.FakeServer(SCHEMA, lasting)
	fill(server, known)
	if known:
		recalculate(server, dates_of(known, hour))
	before = state(server)
	fill(server, rows[len(known):])
	probe = fakedb.FakeServer(SCHEMA)
	fill(probe, rows)
	with t.sut('recalculate_summaries_for_dates'):
		recalculate(probe, dates)
	server.fault = fakedb.FaultPlan(1 + fault % probe.fault.count, kind)
	error = None
	try:
		recalculate(server, dates)
	except Exception as e:
		error = e
	fired = server.fault.fired
	server.fault = fakedb.FaultPlan()
	middle = state(server)
	with t.sut('recalculate_summaries_for_dates after an interruption'):
		recalculate(server, dates)
	masked = OPEN
	got, expected = state(server, masked), state(probe, masked)
	t.check(got == expected, 'after an interruption (%s) and a repetition the summaries differ: %s', error, difference(got, expected))
	final = state(server)
	for key, row in middle.items():
		if row == before.get(key) or row == final.get(key):
			continue
		mixed = [k for k in row if k not in masked and row[k] != final[key][k]]
		if mixed and not (before.get(key) and all(row[k] == before[key][k] for k in row if k not in masked)):
			t.fail('after an interruption (%s) the summary %s is neither as before nor complete: %s is %r' % (error, key, mixed[0], row[mixed[0]]))
	if fired:
		t.label(kind)
	t.nontrivial(fired and bool(middle))


FAR = datetime.datetime(2001, 3, 7, 10, 5)  # outside of all generated periods


def check_continued(case, t):
	"""After a failure the exporter stays connected and is used for something else, which commits."""
	archive_case, hour, fault, kind, known, other = case
	rows = summaries.rows_of(archive_case)
	dates = dates_of(rows, hour)
	known = rows[:known % len(rows)]
	server, probe = fakedb.FakeServer(SCHEMA), fakedb.FakeServer(SCHEMA)
	fill(probe, rows)
	fill(server, known)
	if known:
		recalculate(server, dates_of(known, hour))
	before = state(server)
	fill(server, rows[len(known):])
	with t.sut('recalculate_summaries_for_dates'):
		recalculate(probe, dates)
	final = state(probe, OPEN)
	error = None
	with fakedb.patched(server):
		e = MySQLExporter('user', 'secret', 'weather')
		e.connect()
		server.fault = fakedb.FaultPlan(1 + fault % probe.fault.count, kind)
		try:
			e.recalculate_summaries_for_dates(dates)
		except Exception as x:
			error = x
		t.check(error is None or server.fault.fired, 'recalculate_summaries_for_dates raised %r', error)
		operation = server.fault.log[server.fault.at - 1] if server.fault.fired else ''
		server.fault = fakedb.FaultPlan()
		try:
			if other == 'record':
				e.export_record(archive.build(dict(FIELDS, date=FAR)))
			elif other == 'rain':
				server.insert(ARCHIVE, archive.minimal_row(FAR, rain_total='0.1', rain_rate_high='0.2'))
				e.find_new_rain_events()
			else:
				e.recalculate_summaries_for_dates([FAR])
			done = True
		except Exception:
			done = False  # (the connection may be out of order)
		e.disconnect()
	for key, row in state(server, OPEN).items():
		if key[1] == FAR.year:
			continue
		old = before.get(key) and {k: v for k, v in before[key].items() if k in row}
		if row != old and row != final[key]:
			mixed = [k for k in row if row[k] != final[key][k]]
			t.fail('after a failure (%s) and another use (%s) of the same connection the summary %s is neither as before nor complete: %s is %r'
				% (error, other, key, mixed[0], row[mixed[0]]))
	if error is not None:
		t.label(kind, other, 'failed to %s' % operation.split(' ')[0])
	t.nontrivial(error is not None and done)


def corrected_rows(archive_case, changes):
	"""The rows after corrections of their values, and those that changed."""
	base, covered, names, _ = archive_case
	rows = summaries.rows_of(archive_case)
	out, changed = list(rows), set()
	for index, what, other, values in changes:
		i, j = index % len(rows), other % len(rows)
		if out[i] is None:
			continue
		changed.add(i)
		if what == 'removed':
			out[i] = None
			continue
		row = dict(out[i])
		for k, name in enumerate(names):
			if what == 'unknown':
				row[name] = None
			elif what == 'as another':
				row[name] = rows[j][name]
			elif what == 'zero' and row[name] is not None:
				row[name] = summaries.value_of(name, 0)
			elif what == 'values':
				row[name] = summaries.value_of(name, values[k % len(values)])
		out[i] = row
	return rows, [r for r in out if r is not None], [rows[i] for i in sorted(changed)]


def check_corrected(case, t):
	"""Recalculating after records were corrected or removed: nothing of the old values remains."""
	archive_case, hour, changes, only_those, lasting = case
	rows, corrected, changed = corrected_rows(archive_case, changes)
	dates = dates_of(rows, hour)
	server, fresh = fakedb.FakeServer(SCHEMA, lasting), fakedb.FakeServer(SCHEMA)
	fill(server, rows)
	fill(fresh, corrected)
	with t.sut('recalculate_summaries_for_dates'):
		recalculate(fresh, dates)
		recalculate(server, dates)
		server.db.execute('DELETE FROM `%s`' % ARCHIVE)
		fill(server, corrected)
		recalculate(server, dates_of(changed, hour) if only_those else dates)
	expected, got = state(fresh, OPEN), state(server, OPEN)
	t.check(expected == got, 'recalculating after a correction differs from recalculating everything: %s', difference(got, expected))
	for _, what, _, _ in changes:
		t.label(what)
	t.nontrivial(sorted(map(repr, rows)) != sorted(map(repr, corrected)))


def turn_of_year(maximum=7):
	"""Winds of the days whose weeks belong to another year."""
	return summaries.archives(maximum=maximum, minimum=2, bases=st.integers(2004, 2032).map(lambda y: datetime.date(y, 1, 1)),
		offsets=st.sampled_from([-3, -2, -1, 0, 0, 1, 2, 3, 355, 361]), names=st.just(['wind_run_distance_total', 'wind_speed', 'wind_speed_high', 'temperature_outside']))


def returning():
	"""A day whose week belongs to another year, then days of that year, then the same week again."""
	names = ['wind_run_distance_total', 'wind_speed', 'wind_speed_high', 'temperature_outside']
	values = st.lists(st.integers(1, 300), min_size=8, max_size=8)

	def build(x):
		year, others, minute, rows = x
		base = datetime.date(year, 1, 1)
		first = base.weekday() >= 4  # January 1 belongs to the year before, or December 31 to this one
		offsets = ([0] + [-o for o in others] + [1]) if first else ([-1] + list(others) + [-2])
		return base, 10, names, [(o, minute + k, v) for k, (o, v) in enumerate(zip(offsets, rows))]
	years = st.sampled_from([y for y in range(2004, 2040) if datetime.date(y, 1, 1).weekday() in (1, 2, 4, 5)])
	return st.tuples(years, st.lists(st.integers(8, 300), min_size=1, max_size=2, unique=True), st.integers(0, 1400), st.lists(values, min_size=4, max_size=4)).map(build)


ORDER = st.lists(st.integers(0, 20), max_size=12)


CHANGES = st.lists(st.tuples(st.integers(0, 20), st.sampled_from(['removed', 'unknown', 'as another', 'zero', 'values']), st.integers(0, 20),
	st.lists(summaries.VALUE, min_size=1, max_size=4)), min_size=1, max_size=4)


PROPERTY = Prop(
	'C25',
	'Generated archives around period boundaries; the summaries after recalculating twice, in two orders, batch by batch as records '
	'arrive, and after a failure injected at a random database operation (lost connection, failed statement, other exception), are '
	'compared with one recalculation of everything. The repetitions use new exporters, the same one connected again, or one that stays connected. Non-trivial: several summaries; several batches; the failure occurred.',
	[
		Sub('again', check_again, lambda: st.tuples(summaries.archives(spread=9, maximum=10), st.integers(0, 23), ORDER, summaries.LASTING), quick=120),
		Sub('order', check_order, lambda: st.tuples(summaries.archives(spread=9, maximum=10, minimum=2), st.integers(0, 23), ORDER), quick=150),
		Sub('pieces', check_pieces, lambda: st.tuples(summaries.archives(spread=9, maximum=9, minimum=2), st.integers(0, 23),
			st.lists(st.integers(0, 20), min_size=1, max_size=3), st.booleans(), summaries.LASTING), quick=150),
		Sub('corrected', check_corrected, lambda: st.tuples(summaries.archives(spread=9, maximum=8), st.integers(0, 23), CHANGES, st.booleans(), summaries.LASTING), quick=300),
		Sub('turn of the year', check_pieces, lambda: st.tuples(turn_of_year(), st.integers(0, 23),
			st.lists(st.integers(0, 20), min_size=1, max_size=3), st.booleans(), summaries.LASTING), quick=150),
		Sub('turn, returning', check_pieces, lambda: st.tuples(returning(), st.integers(0, 23), st.just([1, 2, 3]), st.booleans(), summaries.LASTING), quick=60),
		Sub('turn, interrupted', check_interrupted, lambda: st.tuples(turn_of_year(5), st.integers(0, 23),
			st.integers(0, 10 ** 6), st.sampled_from(['lost', 'statement', 'error']), st.integers(0, 5), summaries.LASTING), quick=100),
		Sub('interrupted', check_interrupted, lambda: st.tuples(summaries.archives(spread=6, maximum=6), st.integers(0, 23),
			st.integers(0, 10 ** 6), st.sampled_from(['lost', 'statement', 'error']), st.integers(0, 5), summaries.LASTING), quick=250),
		Sub('continued', check_continued, lambda: st.tuples(summaries.archives(spread=6, maximum=5), st.integers(0, 23), st.integers(0, 10 ** 6),
			st.sampled_from(['statement', 'error']), st.integers(0, 5), st.sampled_from(['record', 'rain', 'dates'])), quick=250),
	],
	['The database double stands for MySQL with transactions. Which of several tied directions or averages is stored is left open.'],
)
