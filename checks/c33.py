"""Background polling: histories of sessions on one poller."""
import contextlib
import os
import subprocess
import sys
import threading
import time

from hypothesis import strategies as st

from checks.c06 import compare
from checks.c32 import pattern
from wlv import codec, core
from wlv.core import Prop, Sub
from wlv.fakesock import Console, Network

import weatherlink
from weatherlink.poller import IPPoller

LIMIT = 60.0
ENDINGS = ['complete', 'complete', 'stop', 'stop', 'stop-in-callback', 'stop-at-once', 'eof', 'nak', 'callback-raises', 'garbage']


class CallbackError(Exception):
	pass


RAISED = [CallbackError, ValueError, IOError, AssertionError, SystemExit, KeyError, StopIteration, AttributeError, MemoryError]


class Session(object):
	def __init__(self, t, network, poller, name):
		self.t, self.network, self.poller, self.name = t, network, poller, name
		self.got = []
		self.hook = None
		self.threads = []

	@property
	def console(self):
		return self.network.console

	def callback(self, record):
		self.got.append(record)
		if self.hook:
			self.hook(len(self.got))

	def start(self, n):
		before = set(threading.enumerate())
		self.poller.start_background_polling(n, self.callback)
		self.threads = [x for x in threading.enumerate() if x not in before]

	def settle(self):
		"""Waits until the polling thread waits for data (False) or has ended (True)."""
		deadline = time.monotonic() + LIMIT
		console = self.console
		with console.condition:
			while True:
				if not any(x.is_alive() for x in self.threads):
					return True
				if console.waiting and not console.outgoing and not console.eof:
					return False
				if time.monotonic() > deadline:
					self.t.fail('%s: polling neither ends nor waits for data' % self.name)
				console.condition.wait(0.002)


@contextlib.contextmanager
def captured(consoles):
	saved, errors = threading.excepthook, []
	threading.excepthook = lambda args: errors.append((args.exc_type, args.exc_value))
	before = set(threading.enumerate())
	try:
		yield errors
	finally:
		# A failed case leaves no thread behind that could disturb the next one.
		deadline = time.monotonic() + LIMIT
		while time.monotonic() < deadline and any(x not in before and x.is_alive() for x in threading.enumerate()):
			for c in consoles:
				c.close()
			time.sleep(0.002)
		threading.excepthook = saved


def not_running(t, poller, what):
	t.raises('%s: stopping when polling does not run' % what, ValueError, poller.stop_background_polling)


def check(case, t):
	seed, fragments, sessions = case
	counter, consoles = [seed], []

	def packets(count):
		r = []
		for _ in range(count):
			counter[0] += 1
			r.append(dict(pattern(counter[0] % 50, seed), crc_error=0x8001 if counter[0] % 4 == 0 else 0))
		return r

	def console():
		c = Console(fragments=fragments)
		c.threaded, c.auto = True, False
		consoles.append(c)
		return c

	def same_records(got, raws, what):
		t.eq(len(got), len(raws), '%s: number of callbacks' % what)
		for k, raw in enumerate(raws):
			compare(t, got[k], raw, '%s: callback %d' % (what, k))

	with Network(console()) as network, captured(consoles) as errors:
		network.delays = ([], [2.5, 0], [9, 0, 0.5])[seed % 3]
		poller = IPPoller('console.example')
		not_running(t, poller, 'before connecting')
		t.raises('starting without a connection', Exception, poller.start_background_polling, 1, lambda _: None)
		poller.connect()
		not_running(t, poller, 'after connecting')
		for index, (n, k, ending, options) in enumerate(sessions):
			what = 'session %d of %d (%s)' % (index + 1, len(sessions), ending)
			k = min(k, n - 1)
			s = Session(t, network, poller, what)
			c = network.console
			del c.received[:], c.outgoing[:], errors[:]
			t.label(ending)
			if ending == 'nak':
				c.acks = [0x21]
				t.raises('%s: starting, answered with 0x21' % what, Exception, s.start, n)
				t.check(not any(x.is_alive() for x in s.threads), '%s: a thread polls although starting failed', what)
				c.acks = []
				del c.outgoing[:]
				not_running(t, poller, what)
				t.nontrivial(index > 0)
				continue

			def second_start():
				sent = bytes(c.received)
				t.raises('%s: starting while polling runs' % what, ValueError, s.poller.start_background_polling, 3, lambda _: None)
				t.eq(bytes(c.received), sent, '%s: sent by a start that is refused' % what)

			raws = packets(n)
			if ending == 'stop-at-once':  # before it gets to reading anything
				network.hold = threading.Event()
			with t.sut('%s: start' % what):
				s.start(n)
			t.check(s.threads, '%s: polling does not run in the background', what)
			t.eq(bytes(c.received), b'LPS 2 %d\n' % n, '%s: sent to the console' % what)
			if ending == 'stop-at-once':
				with t.sut('%s: stop' % what):
					poller.stop_background_polling()
				if options & 2:
					second_start()
				network.hold.set()
				network.hold = None
			else:
				t.check(not s.settle(), '%s: polling ended before any packet', what)

			def feed(raw):
				data = codec.encode_loop2(raw)
				if options & 1:
					c.send(data[:40])
					t.check(not s.settle(), '%s: polling ended in the middle of a packet', what)
					c.send(data[40:])
				else:
					c.send(data)
				return s.settle()

			def tail(fed, expected_more):
				"""Polling was told to stop after `fed` packets."""
				extra = 0
				ended = s.settle()
				while not ended and extra < expected_more:
					ended = feed(raws[fed + extra])
					extra += 1
				t.check(ended, '%s: polling goes on %d packets after it was stopped', what, extra)
				t.check(len(s.got) <= fed + extra, '%s: more callbacks than packets', what)
				same_records(s.got, raws[:len(s.got)], what)
				if fed + extra < n:
					t.eq(bytes(c.received), b'LPS 2 %d\n\r' % n, '%s: sent to the console in all' % what)
				else:
					t.one_of(bytes(c.received), [b'LPS 2 %d\n' % n, b'LPS 2 %d\n\r' % n], '%s: sent to the console in all' % what)
				t.eq(errors, [], '%s: errors' % what)

			if options & 2 and ending != 'stop-at-once':
				second_start()
			if ending == 'stop-at-once':
				tail(0, 1)
			elif ending == 'stop-in-callback':
				def hook(count):
					if count == k + 1:
						poller.stop_background_polling()
				s.hook = hook
				for raw in raws[:k + 1]:
					feed(raw)
				t.check(len(s.got) >= k + 1, '%s: %d callbacks for %d packets', what, len(s.got), k + 1)
				tail(k + 1, min(1, n - k - 1))
			elif ending == 'callback-raises':
				def hook(count):
					if count == k + 1:
						raise RAISED[options % len(RAISED)]('raised by the callback')
				s.hook = hook
				for raw in raws[:k]:
					t.check(not feed(raw), '%s: polling ended early', what)
				ended = feed(raws[k])
				same_records(s.got, raws[:k + 1], what)
				s.hook = None
			else:
				fed = n if ending == 'complete' else k
				for i, raw in enumerate(raws[:fed]):
					ended = feed(raw)
					same_records(s.got, raws[:i + 1], what)
					t.check(ended or i + 1 < n, '%s: polling goes on after the last packet', what)
					t.check(not ended or i + 1 == n, '%s: polling ended after %d of %d packets', what, i + 1, n)
				if options & 4 and ending != 'complete':
					second_start()
				if ending == 'complete':
					t.eq(bytes(c.received), b'LPS 2 %d\n' % n, '%s: sent to the console in all' % what)
					t.eq(errors, [], '%s: errors' % what)
				elif ending == 'stop':
					with t.sut('%s: stop' % what):
						poller.stop_background_polling()
					if options & 4:
						second_start()  # it still waits for a packet
					tail(k, 1)
				elif ending == 'eof':
					c.send(codec.encode_loop2(raws[k])[:min(98, options * 7)])
					s.settle()
					c.close()
					ended = s.settle()
					same_records(s.got, raws[:k], what)
				elif ending == 'garbage':
					data = bytearray(codec.encode_loop2(raws[k]))
					data[options % 3] ^= 0x5A
					c.send(bytes(data))
					ended = s.settle()
					same_records(s.got, raws[:k], what)

			if not s.settle():
				c.close()
				t.check(s.settle(), '%s: polling goes on after the end of the connection', what)
			t.check(all(h.closed for h in network.handles), '%s: a file handle is still open afterwards', what)
			not_running(t, poller, what)
			if c.eof:
				poller.disconnect()
				network.console = console()
				poller.connect()
			elif options & 8:
				c.auto, c.packets = True, []
				del c.outgoing[:]
				raws = packets(2)
				c.packets = [codec.encode_loop2(r) for r in raws]
				with t.sut('%s: polling in the foreground afterwards' % what):
					records = poller.poll(2)
				c.auto = False
				t.eq(len(records), 2, '%s: records polled in the foreground afterwards' % what)
				for record, raw in zip(records, raws):
					compare(t, record, raw, '%s: foreground poll' % what)
				t.label('foreground poll after background polling')
			t.nontrivial(index > 0)
		poller.disconnect()
		t.eq(len(network.open_sockets()), 0, 'open sockets at the end')


def case():
	session = st.tuples(st.integers(1, 5), st.integers(0, 4), st.sampled_from(ENDINGS), st.integers(0, 15))
	return st.tuples(st.integers(0, 49), st.sampled_from([[], [], [], [50], [99], [1, 98], [33]]), st.lists(session, min_size=1, max_size=5))


PROGRAM = """
import sys, threading
sys.path[:0] = [%r, %r]
from wlv import codec
from wlv.fakesock import Console, Network
from weatherlink.poller import IPPoller
from checks.c32 import pattern
n = int(sys.argv[1])
console = Console(packets=[codec.encode_loop2(pattern(k %% 50, 3)) for k in range(n)])
network = Network(console)
network.__enter__()
network.hold = threading.Event()
poller = IPPoller('console.example')
poller.connect()
def callback(record):
	sys.stdout.write('packet\\n')
	sys.stdout.flush()
def release():
	network.hold.set()
def later():
	import time
	time.sleep(0.4)
	release()
thread = threading.Thread(target=later)
thread.daemon = True
poller.start_background_polling(n, callback)
thread.start()
"""


def check_main_ends(n, t):
	"""The program has nothing else to do after it started polling."""
	program = PROGRAM % (os.path.dirname(os.path.dirname(os.path.abspath(weatherlink.__file__))), os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
	r = subprocess.run([sys.executable, '-c', program, str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
		env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
	if b'packet' not in r.stdout and b'Error' in r.stderr and b'weatherlink' not in r.stderr:
		raise core.HarnessError(r.stderr.decode('utf8', 'replace')[-400:])
	t.eq(r.stdout.count(b'packet'), n, 'callbacks in a program whose main thread ends after starting to poll')
	t.nontrivial()


PROPERTY = Prop(
	'C33',
	'Histories of one to five background polling sessions on one poller, each ended in a generated way: by count, by a stop from outside '
	'or from the callback, before it reads anything, by a refused start, by an exception in the callback, by a corrupt packet, or by the end of the connection. '
	'Packets (some with a wrong checksum) are fed one at a time (whole or in halves), and the harness waits until the polling thread waits again or has ended, so '
	'every stop happens at a known point. Starting twice (also after a stop, before polling ended), stopping when nothing runs, and foreground polls are interspersed. '
	'Non-trivial: a session that follows another.',
	[Sub('histories', check, case, quick=1500), Sub('main thread ends', check_main_ends, cases=lambda: [1, 3, 40])],
	['Disconnecting while polling runs and stopping twice before polling has ended are not judged.',
		'Packets are fed only while the polling thread waits, so races between a stop and an arriving packet are decided by the order the harness chooses.'],
)
