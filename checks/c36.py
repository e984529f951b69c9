"""Which answers of Weather Underground count as success."""
import datetime

import requests
from hypothesis import strategies as st

from checks.c21 import FIELDS, RAPID
from wlv import archive
from wlv.core import Prop, Sub
from wlv.fakehttp import Server

from weatherlink.exporter.wunderground import WundergroundExporter
from weatherlink.models import LoopRecord

WHEN = datetime.datetime(2016, 5, 1, 12)
BODIES = ['success', 'success', 'success', '', 'Success', 'SUCCESS', 'INVALIDPASSWORDID|Password or key and/or id are incorrect', 'unsuccess', 'successful',
	'no success', 'failure', 'ok', '<html>success</html>', 'sucess', 'success|failure', 'error: success not reached', 'success\n', ' success', 'success ', 'success\r\n', '\nsuccess', 'success\0', '"success"', 'success.',
	'success\ninvalid']
STATUS = st.one_of(st.sampled_from([200, 200, 200, 201, 204, 299, 199, 300, 304, 400, 401, 403, 404, 429, 500, 502, 503]), st.integers(200, 599))
ERRORS = {
	'connection': lambda: requests.exceptions.ConnectionError('refused'),
	'timeout': lambda: requests.exceptions.ReadTimeout('timed out'),
	'tls': lambda: requests.exceptions.SSLError('bad'),
}


def check(case, t):
	exporter = WundergroundExporter('STATION1', 'secret')
	failures = successes = 0
	for k, (rapid, status, body, error, html, later) in enumerate(case):
		if status in (204, 304):  # These have no body
			body = ''
		what = 'update %d of %d answered with %s %r' % (k + 1, len(case), status, body)
		seen = []

		def handler(exchange):
			seen.append(exchange)
			if later and len(seen) > 1:  # what an answer to a second request would be; it was not asked for
				return 200, {}, b'success'
			if error:
				return ERRORS[error]()
			return status, {'Content-Type': html} if html else {}, body.encode('utf8')
		when = WHEN + datetime.timedelta(seconds=k * 60)
		if rapid:
			record = LoopRecord(**{a: None for a in RAPID})
			record.update(date=when, wind_speed=3, wind_direction_degrees=45)
		else:
			record = archive.build(dict(FIELDS, date=when))
		send = exporter.send_rapid_update if rapid else exporter.send_simple_update
		good = error is None and 200 <= status < 300 and body == 'success'
		with Server(handler):
			if good:
				with t.sut(what):
					send(record)
				successes += 1
			elif error:
				t.raises('%s (%s error)' % (what, error), Exception, send, record)
				failures += 1
			else:
				t.raises(what, Exception, send, record)
				failures += 1
		t.eq(len(seen), 1, '%s: number of requests' % what)
		t.label('accepted' if good else 'transport error' if error else 'bad status' if not 200 <= status < 300 else 'bad body')
	t.nontrivial(failures > 0)
	if successes and failures:
		t.label('both outcomes in one history')


def strategy():
	body = st.one_of(st.just('success'), st.just('success'), st.sampled_from(BODIES), st.text(st.characters(min_codepoint=33, max_codepoint=126), max_size=12))
	step = st.tuples(st.booleans(), STATUS, body, st.one_of(st.none(), st.none(), st.none(), st.none(), st.sampled_from(sorted(ERRORS))),
		st.sampled_from(['text/html', 'text/plain; charset=utf-8', '']), st.booleans())
	return st.lists(step, min_size=1, max_size=5)


def check_redirected(case, t):
	"""The answer to a request that was redirected is the final one."""
	rapid, status, final, body = case
	exporter = WundergroundExporter('STATION1', 'secret')
	record = archive.build(dict(FIELDS, date=WHEN))
	if rapid:
		record = LoopRecord(**{a: None for a in RAPID})
		record.update(date=WHEN, wind_speed=3, wind_direction_degrees=45)

	def handler(exchange):
		if exchange.path == '/elsewhere':
			return final, {}, body.encode('utf8')
		return status, {'Location': 'http://other.example/elsewhere'}, b''
	with Server(handler):
		t.raises('an update redirected with %d to an answer of %d %r' % (status, final, body), Exception,
			exporter.send_rapid_update if rapid else exporter.send_simple_update, record)
	t.nontrivial()


def statuses():
	return [[(rapid, s, body, None, 'text/html', True)] for rapid in (False, True) for s in range(200, 600) for body in ('success', 'failure')]


def bodies():
	"""Each listed body, and each that differs from the good one by one character."""
	word = 'success'
	near = {word[:k] + c + word[k:] for k in range(8) for c in 'sS\0\t|.!'} | {word[:k] + c + word[k + 1:] for k in range(7) for c in ('', 'x', word[k].upper())}
	return [[(rapid, status, body, None, html, True)] for rapid in (False, True) for status in (200, 201) for html in ('text/html', 'text/plain; charset=utf-8')
		for body in sorted(near | set(BODIES))]


PROPERTY = Prop(
	'C36',
	'Histories of up to five updates answered with generated status codes, bodies and transport errors; every status from 200 to '
	'599 with a good and a bad body; every body one character from the good one. An update returns exactly when the status is 2xx and the body is "success". Non-trivial: some '
	'update must fail.',
	[
		Sub('histories', check, strategy, quick=600),
		Sub('bodies', check, cases=bodies),
		Sub('statuses', check, cases=statuses),
		Sub('redirected', check_redirected, cases=lambda: [(r, s, f, b) for r in (False, True) for s in (301, 302, 303, 307, 308)
			for f, b in ((200, 'failure'), (404, 'success'), (500, 'success'), (200, ''), (200, 'INVALIDPASSWORDID'))]),
	],
	['Answers that differ from "success" by white space only are not generated.', 'Redirections that end in success are not judged.'],
)
