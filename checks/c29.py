"""Acknowledgements from the console."""
from hypothesis import strategies as st

from wlv import codec
from wlv.core import Prop, Sub
from wlv.fakesock import Console, Network

from weatherlink.poller import IPPoller
from weatherlink.serial import AcknowledgmentError, InvalidAcknowledgementError, NotAcknowledgedError

ACK = 0x06
PACKET = codec.encode_loop2(dict({f[0]: 7 for f in codec.LOOP2_FIELDS}, barometric_trend=20, junk=3))
OPERATIONS = ('poll', 'read', 'write', 'background', 'setup', 'confirm')


def expected_error(byte):
	if byte == ACK:
		return None
	return NotAcknowledgedError if byte in (0x15, 0x21) else InvalidAcknowledgementError


def run(poller, operation, got):
	if operation == 'poll':
		return len(poller.poll(1))
	if operation == 'read':
		return poller.read_config_setting('10', '04')
	if operation == 'write':
		return poller.write_config_setting('20', '02', b'\xA5\x5A')
	if operation == 'setup':
		return poller.read_setup_bit(0xFF)
	if operation == 'background':
		return poller.start_background_polling(1, got.append)
	return poller.confirm_ack()


COMMANDS = {'poll': ('LPS', '2', '1'), 'background': ('LPS', '2', '1'), 'read': ('EEBRD', '10', '04'), 'write': ('EEBWR', '20', '02'),
	'setup': ('EEBRD', '2B', '01')}


def join():
	import threading
	for thread in threading.enumerate():
		if thread is not threading.current_thread():
			thread.join(60)


def check(case, t):
	fragments, steps = case
	eeprom = bytes((k * 37 + 11) % 256 for k in range(4096))
	model = bytearray(eeprom)
	console = Console(eeprom=eeprom, fragments=fragments, packets=[PACKET])
	with Network(console) as network:
		poller = IPPoller('console.example')
		poller.connect()
		for operation, byte in steps:
			if operation == 'background' and byte != ACK:
				pass
			console.acks = [byte]
			del console.received[:]
			del console.commands[:]
			if operation == 'confirm':
				console.send(bytes([byte]))
			error, got, result = expected_error(byte), [], None
			what = '%s with acknowledgement 0x%02X' % (operation, byte)
			if error:
				raised = t.raises(what, AcknowledgmentError, run, poller, operation, got)
				t.check(isinstance(raised, error), '%s raised %s, expected %s', what, type(raised).__name__, error.__name__)
				t.check(isinstance(raised, IOError), '%s raised %s, which is not an IOError', what, type(raised).__name__)
			else:
				with t.sut(what):
					result = run(poller, operation, got)
			if operation == 'background':
				join()
				t.eq(len(got), 0 if error else 1, 'packets of background polling')
			if operation != 'confirm':
				t.eq(console.commands[:1], [COMMANDS[operation]], 'command of %s' % what)
				sent = ' '.join(COMMANDS[operation]).encode() + b'\n'
				if error:
					t.eq(bytes(console.received), sent, 'everything sent by %s' % what)
				elif operation == 'write':
					model[0x20:0x22] = b'\xA5\x5A'
				if not error and operation in ('read', 'setup', 'poll'):
					t.eq(result, {'read': bytes(model[0x10:0x14]), 'setup': model[0x2B], 'poll': 1}[operation], 'result of %s' % what)
			t.eq(bytes(console.eeprom), bytes(model), 'console memory after %s' % what)
			t.check(not console.errors, 'the console got %s', console.errors)
			t.eq(len(console.outgoing), 0, 'bytes left unread after %s' % what)
			t.eq(len(network.open_sockets()), 1, 'open connections after %s' % what)
			t.label('%s, %s' % (operation, error.__name__ if error else 'acknowledged'))
			t.nontrivial(bool(error))
		with t.sut('disconnect'):
			poller.disconnect()


def check_silent(operation, t):
	"""The connection ends instead of an acknowledgement."""
	console = Console(packets=[PACKET])
	console.eof = True
	console._command = lambda line: None
	with Network(console):
		poller = IPPoller('console.example')
		poller.connect()
		got = []
		t.raises('%s without an acknowledgement' % operation, Exception, run, poller, operation, got)
		join()
		t.eq(got, [], 'packets')
		t.check(bytes(console.received).count(b'\n') == (0 if operation == 'confirm' else 1), 'more was sent: %r', bytes(console.received))
		poller.disconnect()
	t.nontrivial()


FRAGMENTS = st.lists(st.integers(1, 40), max_size=4)
BYTE = st.one_of(st.just(ACK), st.sampled_from([0x15, 0x21]), st.integers(0, 255), st.sampled_from([0x16, 0x20, 0x86, 0, 0x0A, 0x0D, 0x18]))

PROPERTY = Prop(
	'C29',
	'Every possible acknowledgement byte for every operation that awaits one, generated histories of up to six operations with their '
	'acknowledgements on one connection, and connections that end. The oracle is the protocol: 0x06 goes on, 0x15 and 0x21 are a '
	'refusal, anything else is invalid; nothing is sent after either. Non-trivial: an operation was not acknowledged.',
	[
		Sub('every-byte', check, cases=lambda: [([], [(o, b)]) for o in OPERATIONS for b in range(256)]),
		Sub('histories', check, lambda: st.tuples(FRAGMENTS, st.lists(st.tuples(st.sampled_from(OPERATIONS), BYTE), min_size=2, max_size=6)), quick=500),
		Sub('silent', check_silent, cases=lambda: list(OPERATIONS)),
	],
)
