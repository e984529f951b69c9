"""Finding rain events as records arrive, and after interruptions."""
from hypothesis import strategies as st

from checks.c26 import RAIN, RATE, SCHEMA, compare, find, records, reference, rows_of
from wlv import fakedb, summaries
from wlv.core import Prop, Sub


def events_of(server):
	return {r['timestamp_start']: {k: v for k, v in r.items() if k != 'event_id'} for r in server.rows('weather_rain_event')}


def check_batches(case, t):
	history, cuts, lasting = case
	rows = rows_of(history)
	server = fakedb.FakeServer(SCHEMA, lasting)
	edges = sorted({c % (len(rows) + 1) for c in cuts} | {0, len(rows)})
	previous = []
	for a, b in zip(edges, edges[1:]):
		for row in rows[a:b]:
			server.insert('weather_archive_record', row)
		with t.sut('find_new_rain_events'):
			result = find(server)
		events = reference(rows[:b])
		compare(t, server, events, 'after %d records' % b)
		ended = sum(e['end'] is not None for e in events)
		ended_before = sum(e['end'] is not None for e in previous)
		t.eq(tuple(result), (ended - ended_before, len(events) - ended), 'numbers of newly ended and ongoing events after %d records' % b)
		if previous and previous[-1]['end'] is None and len(events) >= len(previous):
			t.label('an ongoing event continued' if events[len(previous) - 1]['records'] != previous[-1]['records'] else 'an ongoing event ended')
			t.nontrivial()
		previous = events


def check_interrupted(case, t):
	history, known, fault, kind, lasting = case
	rows = rows_of(history)
	known = known % (len(rows) + 1)
	server = fakedb.FakeServer(SCHEMA, lasting)
	for row in rows[:known]:
		server.insert('weather_archive_record', row)
	if known:
		find(server)
	before = events_of(server)
	for row in rows[known:]:
		server.insert('weather_archive_record', row)
	probe = fakedb.FakeServer(SCHEMA)
	for row in rows:
		probe.insert('weather_archive_record', row)
	with t.sut('find_new_rain_events'):
		find(probe)
	final = events_of(probe)
	server.fault = fakedb.FaultPlan(1 + fault % probe.fault.count, kind)
	try:
		find(server)
	except Exception:
		pass
	fired = server.fault.fired
	server.fault = fakedb.FaultPlan()
	for start, event in events_of(server).items():
		t.check(event in (before.get(start), final.get(start)), 'after an interruption the event that starts at %s is neither as before nor complete: %r',
			start, event)
	with t.sut('find_new_rain_events after an interruption'):
		find(server)
	compare(t, server, reference(rows), 'after an interruption and a repetition')
	t.label(kind)
	t.nontrivial(fired and bool(final))


def check_long(case, t):
	"""Many records: an event may be longer than any batch the library reads."""
	count, pattern, tail, cuts, lasting = case
	check_batches(([(1, ) + tuple(pattern[(k * k + k // 5) % len(pattern)]) for k in range(count)] + list(tail), cuts, lasting), t)


def check_many(case, t):
	"""Many events in a batch."""
	count, pattern, cuts, lasting = case
	check_batches(([pattern[k % len(pattern)] for k in range(count)], cuts, lasting), t)


PROPERTY = Prop(
	'C27',
	'Generated rain histories that arrive in up to five batches with a search after each, and searches with a failure injected at a '
	'random database operation; after every search the events equal the reference segmentation of the records so far (searched by new exporters, the same one connected again, or one that stays connected). Non-trivial: '
	'an ongoing event continued or ended; the failure occurred and there are events.',
	[
		Sub('batches', check_batches, lambda: st.tuples(records(20, 2), st.lists(st.integers(0, 30), min_size=1, max_size=4), summaries.LASTING), quick=900),
		Sub('long', check_long, lambda: st.tuples(st.integers(1430, 1800), st.lists(st.tuples(RAIN, RATE), min_size=1, max_size=5), records(6),
			st.lists(st.one_of(st.integers(1400, 1800), st.integers(0, 1800)), min_size=1, max_size=3), summaries.LASTING), quick=16, thorough=300, shards=8),
		Sub('many events', check_many, lambda: st.tuples(st.integers(20, 260), st.lists(st.tuples(st.integers(60, 400), RAIN, RATE), min_size=1, max_size=5),
			st.lists(st.integers(0, 260), max_size=3), summaries.LASTING), quick=48, thorough=240, shards=8),
		Sub('interrupted', check_interrupted, lambda: st.tuples(records(12, 1), st.integers(0, 20), st.integers(0, 10 ** 6),
			st.sampled_from(['lost', 'statement', 'error']), summaries.LASTING), quick=500),
	],
	['The database double stands for MySQL with transactions. Records arrive in order of time.'],
)
