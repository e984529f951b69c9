"""Wind gust and average direction of rapid updates over the history of updates."""
import datetime
import math

from hypothesis import strategies as st

from checks.c21 import FIELDS, RAPID
from checks.c34 import send, value
from wlv import archive
from wlv.core import Prop, Sub
from wlv.fakehttp import Server

from weatherlink.exporter.wunderground import WundergroundExporter
from weatherlink.models import LoopRecord

START = datetime.datetime(2016, 5, 1, 12)
GUST_WINDOWS = (24, 25)  # one minute of packets, with or without the newest
DIRECTION_WINDOWS = (48, 49)  # two minutes


def mean_direction(directions):
	"""(mean in degrees, length of the resultant)"""
	if not directions:
		return None, 0
	x = math.fsum(math.cos(math.radians(d)) for d in directions)
	y = math.fsum(math.sin(math.radians(d)) for d in directions)
	return math.degrees(math.atan2(y, x)) % 360, math.hypot(x, y)


def gust(t, p, history, what):
	speed, direction = p.get('windgustmph'), p.get('windgustdir')
	allowed = []
	for n in GUST_WINDOWS:
		window = [h for h in history[-n:] if h[0] is not None]
		if not window:
			allowed.append((None, None))
			continue
		top = max(h[0] for h in window)
		allowed.extend((top, h[1]) for h in window if h[0] == top)
	got = (None if speed is None else value(t, speed, 'windgustmph'), None if direction is None else value(t, direction, 'windgustdir'))
	t.check(got in allowed, '%s: gust and its direction are %s, the highest wind of the last minute is %s', what, got, sorted(set(allowed), key=str))
	return allowed[0][0]


def average(t, p, history, what):
	text = p.get('winddir_avg2m')
	messages = []
	for n in DIRECTION_WINDOWS:
		directions = [h[1] for h in history[-n:] if h[1] is not None]
		mean, length = mean_direction(directions)
		if mean is None:
			if text is None:
				return
			messages.append('nothing')
		elif length < 1e-3:
			return
		else:
			if text is not None:
				got = float(value(t, text, 'winddir_avg2m'))
				off = abs((got - mean + 180) % 360 - 180)
				if off <= 0.5 + 1e-6 and 0 <= got <= 360:
					return
			messages.append('%.3f' % mean)
	t.fail('%s: the average direction sent is %s, expected %s' % (what, text, ' or '.join(messages)))


REFUSALS = (
	(500, {'Content-Type': 'text/html'}, b'overloaded'),
	(200, {'Content-Type': 'text/html'}, b'INVALIDPASSWORDID|Password or key and/or id are incorrect'),
	(404, {}, b'success'),
)


def refused(record, exporter, answer):
	"""An update that does not reach Weather Underground; its measurements were made all the same."""
	with Server(lambda exchange: answer):
		try:
			exporter.send_rapid_update(record)
		except Exception:
			return True
	return False


def run(t, steps, judged=None, start=START, spacing=25, failing=()):
	exporter = WundergroundExporter('STATION1', 'secret')
	exporter.station_time_zone = 'UTC'
	history, since_simple = [], 25
	when = start
	for k, (speed, direction, simple) in enumerate(steps):
		when += datetime.timedelta(seconds=2 + k % 2)
		if simple and since_simple >= spacing:
			since_simple = 0
			send(t, exporter, False, archive.build(dict(FIELDS, date=when.replace(second=0), wind_speed=200, wind_speed_high=240)), 'simple update %d' % k)
			t.label('simple update among rapid ones')
		since_simple += 1
		record = LoopRecord(**{a: None for a in RAPID})
		record.update(date=when, wind_speed=speed, wind_direction_degrees=direction)
		history.append((speed, direction))
		what = 'rapid update %d of %d' % (k + 1, len(steps))
		if k in failing:
			t.check(refused(record, exporter, REFUSALS[k % 3]), '%s: refused, but nothing is raised', what)
			t.label('an update was refused')
			continue
		p = send(t, exporter, True, record, what).parameters
		if judged is None or k in judged:
			top = gust(t, p, history, what)
			if spacing >= 25:
				average(t, p, history, what)
			earlier = [h[0] for h in history[:-25] if h[0] is not None]
			t.nontrivial(bool(earlier) and (top is None or max(earlier) > top))
			if earlier and (top is None or max(earlier) > top):
				t.label('an older wind is higher than the gust')
	t.label('%d updates' % (len(history) // 25 * 25))


def check(case, t):
	seed_steps, repeats, start = case
	steps = []
	for k, (speed, direction, simple) in enumerate(seed_steps):
		steps.extend([(speed, direction, simple)] * repeats[k % len(repeats)])
	run(t, steps[:160], start=start)


def check_long(case, t):
	"""Hours of updates, with a wind that changes all the time."""
	count, a, b, c = case
	steps = [(None if k % 97 == c else (k * a) % 43, None if k % 89 == c else 1 + (k * b + k // 50 * 40) % 360, k % 400 == 399) for k in range(count)]
	run(t, steps)


SPEED = st.one_of(st.none(), st.integers(0, 20), st.integers(0, 120), st.just(0))
DIRECTION = st.one_of(st.none(), st.integers(1, 360), st.sampled_from([1, 359, 360, 2, 358, 180, 90, 270]))
STEP = st.tuples(SPEED, DIRECTION, st.booleans())
NORTH = st.tuples(st.integers(0, 30), st.one_of(st.integers(340, 360), st.integers(1, 20)), st.booleans())


def strategy():
	return st.tuples(
		st.one_of(st.lists(STEP, min_size=1, max_size=12), st.lists(NORTH, min_size=1, max_size=12), st.lists(STEP, min_size=20, max_size=100)),
		st.lists(st.sampled_from([1, 1, 2, 3, 22, 23, 24, 25, 46, 47, 48, 49]), min_size=1, max_size=4),
		# somewhere in the two minutes before a full hour, which may end a day, a month or a year
		st.tuples(st.sampled_from([(2016, 5, 1, 12), (2016, 5, 1, 0), (2016, 3, 1, 0), (2017, 1, 1, 0), (2016, 3, 13, 2), (2016, 11, 6, 2)]), st.integers(0, 150)).map(
			lambda x: datetime.datetime(*x[0]) - datetime.timedelta(seconds=x[1])),
	)


def edges():
	"""One outstanding record, followed by every number of quiet ones up to 60."""
	out = []
	for k in range(0, 61):
		out.append((0, [(40, 90, False)] + [(5, 180, False)] * k))
		out.append((1, [(5, 180, False)] * 30 + [(40, 90, False)] + [(None, 180, False)] * k))
		out.append((2, [(3, None, False)] * 3 + [(40, 45, False)] + [(2, None, False)] * k))
	return out


def check_edges(case, t):
	run(t, case[1])


def check_refused(case, t):
	seed_steps, repeats, failing = case
	steps = [s for k, s in enumerate(seed_steps) for _ in range(repeats[k % len(repeats)])][:120]
	run(t, steps, failing={f % len(steps) for f in failing})


def check_among(case, t):
	"""The gust among many simple updates, up to one after each rapid one."""
	steps, spacing, repeats = case
	run(t, [s for k, s in enumerate(steps) for _ in range(repeats[k % len(repeats)])][:90], spacing=spacing)


PROPERTY = Prop(
	'C35',
	'Histories of up to 160 rapid updates, some across a full hour or the end of a day or year, in runs of generated lengths (around the one and two minute windows), with missing speeds and '
	'directions, directions around north, and a simple update now and then; after each update the gust, its direction and the average '
	'direction sent are compared with the history (updates that were refused belong to it); and of up to 1500 (an hour). Non-trivial: an older record, outside the window, has more wind than the gust.',
	[
		Sub('histories', check, strategy, quick=240),
		Sub('edges', check_edges, cases=edges),
		Sub('some refused', check_refused, lambda: st.tuples(st.lists(STEP, min_size=2, max_size=30), st.lists(st.sampled_from([1, 1, 2, 5, 23, 25]), min_size=1, max_size=4),
			st.lists(st.integers(0, 119), min_size=1, max_size=10)), quick=120),
		Sub('among simple updates', check_among, lambda: st.tuples(st.lists(st.tuples(SPEED, DIRECTION, st.sampled_from([True, True, False])), min_size=2, max_size=30),
			st.integers(1, 8), st.lists(st.sampled_from([1, 1, 2, 11, 23, 25]), min_size=1, max_size=4)), quick=120),
		Sub('long', check_long, lambda: st.tuples(st.sampled_from([300, 500, 600, 1100, 1500]), st.integers(1, 42), st.integers(1, 20), st.integers(0, 88)), quick=24, thorough=200, shards=8),
	],
	['Packets are taken as 2.5 seconds apart, as the protocol documents; whether the packet exactly one or two minutes old counts is left open.',
		'Among equally high winds the direction of any is accepted; when directions cancel each other out the average is not judged.',
		'For the average direction, at most two simple updates among 50 rapid ones (they share the 50-entry history).'],
)
