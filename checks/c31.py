"""Connecting to and disconnecting from the console."""
import socket

from hypothesis import strategies as st

from checks.c29 import PACKET
from wlv.core import Prop, Sub
from wlv.fakesock import Console, Network

from weatherlink.poller import IPPoller
from weatherlink.serial import SerialIPCommunicator

ERRORS = {
	'refused': lambda: ConnectionRefusedError(111, 'Connection refused'),
	'timeout': lambda: socket.timeout('timed out'),
	'unreachable': lambda: OSError(113, 'No route to host'),
	'name': lambda: socket.gaierror(-2, 'Name or service not known'),
	'interrupt': lambda: KeyboardInterrupt(),
}


class FromBody(Exception):
	pass


BODIES = [FromBody, ValueError, IOError, socket.timeout, AttributeError, KeyboardInterrupt, AssertionError, SystemExit]


def outcome(function):
	try:
		return None, function()
	except BaseException as e:
		if type(e).__name__ in ('NonTermination', 'HarnessError', 'WaitsForever'):
			raise
		return e, None


def check(case, t):
	host, port, steps = case
	console = Console(packets=[PACKET, PACKET])
	with Network(console) as network:
		poller = IPPoller(host) if port is None else IPPoller(host, port)
		address = (host, 22222 if port is None else port)
		t.eq(len(network.sockets), 0, 'connections before connect')
		connected = False
		for step in steps:
			kind, name, close_fails = step
			injected = None
			if kind in ('connect', 'with') and name:
				injected = ERRORS[name]()
				network.connect_errors = [injected]
			else:
				network.connect_errors = []
			network.close_errors = [OSError(5, 'closing failed')] if close_fails else []
			attempts = len(network.connect_calls)
			if kind == 'connect':
				error, _ = outcome(poller.connect)
				if connected:
					t.check(isinstance(error, ValueError), 'connecting when connected: %r', error)
					t.eq(len(network.connect_calls), attempts, 'connection attempts when already connected')
				elif injected:
					t.check(error is injected, 'connecting failed with %r, but the caller sees %r', injected, error)
				else:
					t.check(error is None, 'connecting raised %r', error)
					connected = True
				if not isinstance(error, ValueError):
					t.eq(network.connect_calls[attempts:], [address], 'addresses connected to')
			elif kind == 'disconnect':
				error, _ = outcome(poller.disconnect)
				if not connected:
					t.check(isinstance(error, ValueError), 'disconnecting when not connected: %r', error)
				elif not close_fails:
					t.check(error is None, 'disconnecting raised %r', error)
				else:
					t.check(error is None or isinstance(error, OSError), 'disconnecting raised %r', error)
				connected = False
			elif kind in ('with', 'with error'):
				entered = []
				raised = BODIES[(len(host) + attempts + 3 * len(steps)) % len(BODIES)]('raised in the with block')

				def block():
					with poller:
						entered.append(len(network.open_sockets()))
						if kind == 'with error':
							raise raised
				was_connected = connected
				error, _ = outcome(block)
				if was_connected:
					t.check(isinstance(error, ValueError) and not entered, 'entering when connected: %r', error)
				elif kind == 'with' and injected:
					t.check(error is injected and not entered, 'connecting failed with %r, but the caller sees %r', injected, error)
				else:
					t.eq(entered, [1], 'open connections in the with block')
					if kind == 'with error':
						t.check(error is raised, 'the error of the with block was replaced by %r', error)
					elif close_fails:
						t.check(isinstance(error, OSError), 'closing failed at the end of a with block, and the caller sees %r', error)
					else:
						t.check(error is None, 'the with block raised %r', error)
			elif connected:
				console.outgoing.clear()
				with t.sut('an operation while connected'):
					if kind == 'poll':
						t.eq(len(poller.poll(2)), 2, 'packets')
					else:
						t.eq(poller.read_config_setting('10', '02'), b'\0\0', 'setting')
				t.check(all(h.closed for h in network.handles), 'a file handle is still open after an operation')
			t.eq(len(network.open_sockets()), 1 if connected else 0, 'open connections after %s (%s)' % (kind, [s[0] for s in steps]))
			if injected or close_fails:
				t.label('a failure')
				t.nontrivial()
	t.label('%d steps' % len(steps))


def steps():
	one = st.tuples(st.sampled_from(['connect', 'connect', 'disconnect', 'with', 'with error', 'poll', 'read']),
		st.one_of(st.none(), st.none(), st.sampled_from(sorted(ERRORS))), st.sampled_from([False, False, True]))
	return st.lists(one, min_size=1, max_size=8)


def check_default(_, t):
	t.eq(SerialIPCommunicator.DEFAULT_PORT_NUMBER, 22222, 'default port')
	t.nontrivial()


PROPERTY = Prop(
	'C31',
	'Generated histories of connecting, disconnecting, with blocks (also failing ones, with errors of several types) and operations, with connection attempts and '
	'closing failing in several ways, against a two-state model that counts open connections. Non-trivial: something failed.',
	[
		Sub('histories', check, lambda: st.tuples(st.sampled_from(['console.example', '10.1.2.3']), st.sampled_from([None, None, 22222, 5000]), steps()), quick=1200),
		Sub('default-port', check_default, cases=lambda: [0]),
	],
)
