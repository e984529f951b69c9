"""Configuration settings in the console's memory."""
from hypothesis import strategies as st

from wlv import codec
from wlv.core import Prop, Sub
from wlv.fakesock import Console, Network

from weatherlink.models import RainCollectorTypeSerial
from weatherlink.poller import IPPoller
from weatherlink.serial import CRCValidationError

FRAGMENTS = st.lists(st.integers(1, 60), max_size=4)


def memory(seed):
	return bytes((k * k * 31 + k * 7 + seed * 13 + (seed >> 3)) % 256 for k in range(4096))


def crc_bytes(data):
	value = codec.crc(data)
	return bytes([value >> 8, value & 0xFF])


def check_history(case, t):
	"""Reads and writes against a model of the memory."""
	seed, fragments, steps = case
	model = bytearray(memory(seed))
	console = Console(eeprom=bytes(model), fragments=fragments)
	with Network(console):
		poller = IPPoller('console.example')
		poller.connect()
		written = False
		for step in steps:
			kind, address, data, options = step
			length = len(data)
			a, n = '%02X' % address, '%02X' % length
			if options['lower']:
				a, n = a.lower(), n.lower()
			del console.commands[:]
			if kind == 'console':  # somebody changes a setting at the console itself
				model[address:address + length] = data
				console.eeprom[address:address + length] = data
				written = True
				t.label('changed at the console')
				continue
			if kind == 'write':
				with t.sut('write_config_setting'):
					poller.write_config_setting(a, n, data)
				model[address:address + length] = data
				t.eq(console.commands, [('EEBWR', a, n)], 'commands')
				written = True
			else:
				with t.sut('read_config_setting'):
					arguments = {}
					if options['confirm'] is not None:
						arguments['confirm_crc'] = options['confirm']
					if options['crc'] is not None:
						arguments['return_crc'] = options['crc']
					result = poller.read_config_setting(a, n, **arguments)
				expected = bytes(model[address:address + length])
				if options['crc']:
					expected += crc_bytes(expected)
				t.eq(result, expected, 'setting of %d bytes at %s' % (length, a))
				t.eq(console.commands, [('EEBRD', a, n)], 'commands')
				t.nontrivial(written)
			t.check(not console.errors, 'the console got %s', console.errors)
			t.eq(bytes(console.eeprom), bytes(model), 'memory')
			t.eq(len(console.outgoing), 0, 'bytes left unread')
		poller.disconnect()


@st.composite
def history(draw):
	places = []

	def step():
		length = draw(st.one_of(st.integers(1, 8), st.integers(1, 255), st.sampled_from([1, 2, 9, 10, 15, 16, 17, 255, 256, 257, 1000, 4096])))
		address = min(draw(st.one_of(st.integers(0, 64), st.integers(0, 4096 - length))), 4096 - length)
		if places and draw(st.booleans()):  # the same place again
			address, length = draw(st.sampled_from(places))
		places.append((address, length))
		data = draw(st.binary(min_size=length, max_size=length)) if length < 256 else memory(draw(st.integers(100, 999)))[:length]
		return (draw(st.sampled_from(['read', 'read', 'write', 'write', 'console'])), address, data, {
			'lower': draw(st.booleans()), 'confirm': draw(st.sampled_from([None, True, False])), 'crc': draw(st.sampled_from([None, True, False]))})
	return draw(st.integers(0, 99)), draw(FRAGMENTS), [step() for _ in range(draw(st.integers(1, 5)))]


def check_damaged(case, t):
	"""A damaged or cut answer."""
	seed, fragments, address, length, damage, cut, confirm, with_crc = case
	data = memory(seed)[address:address + length]
	console = Console(eeprom=memory(seed), fragments=fragments, corrupt=damage, cut=cut)
	answer = bytearray(data + crc_bytes(data))
	for index, xor in damage:
		if index < len(answer):
			answer[index] ^= xor
	whole = len(answer)
	answer = bytes(answer if cut is None else answer[:cut])
	good = len(answer) == whole and codec.crc(answer) == 0
	with Network(console):
		poller = IPPoller('console.example')
		poller.connect()
		call = (poller.read_config_setting, '%X' % address, '%X' % length)
		arguments = {'return_crc': with_crc}
		if confirm is not None:  # confirming is the default
			arguments['confirm_crc'] = confirm
		if confirm is not False and not good:
			t.raises('reading %r, which is damaged' % answer, CRCValidationError, *call, **arguments)
			t.label('rejected, cut' if len(answer) != whole else 'rejected, damaged')
			t.nontrivial()
		elif len(answer) == whole:
			with t.sut('read_config_setting'):
				result = poller.read_config_setting(call[1], call[2], **arguments)
			t.eq(result, answer if with_crc else answer[:-2], 'setting')
			t.label('accepted without confirmation' if not good else 'good')
		if cut is None:
			console.corrupt = None
			with t.sut('read_config_setting after damage'):
				t.eq(poller.read_config_setting('0', '3'), memory(seed)[:3], 'setting read after a damaged one')
		poller.disconnect()


def damaged():
	damage = st.lists(st.tuples(st.integers(0, 30), st.integers(1, 255)), max_size=3)
	return st.tuples(st.integers(0, 99), FRAGMENTS, st.integers(0, 200), st.integers(1, 20), damage,
		st.one_of(st.none(), st.none(), st.integers(0, 24)), st.sampled_from([None, True, False]), st.booleans())


def every_damage():
	"""Every single-bit error and every cut of a short answer."""
	out = []
	for length in (1, 2, 5):
		for index in range(length + 2):
			for bit in range(8):
				out.append((5, [], 40, length, [(index, 1 << bit)], None, True, False))
		for cut in range(length + 2):
			out.append((5, [], 40, length, [], cut, None, False))
			out.append((0, [1], 0, length, [], cut, True, True))
	return out


def check_mismatch(case, t):
	address, length, data = case
	console = Console()
	with Network(console):
		poller = IPPoller('console.example')
		poller.connect()
		t.raises('writing %d bytes as a setting of %d' % (len(data), length), ValueError, poller.write_config_setting, '%X' % address, '%X' % length, data)
		t.eq(bytes(console.received), b'', 'sent to the console')
		poller.disconnect()
	t.nontrivial()


def mismatches():
	out = []
	for length in (0, 1, 2, 9, 10, 16, 17, 32, 100, 255, 256, 257, 512):
		for off in (-512, -256, -100, -16, -6, -2, -1, 1, 2, 3, 6, 8, 16, 100, 256, 512, 4096):
			if length + off >= 0:
				out.append((length % 200, length, memory(off % 50)[:2048 if length + off > 4096 else length + off]))
	return out


def check_setup(value, t):
	eeprom = bytearray(memory(3))
	eeprom[0x2B] = value
	console = Console(eeprom=bytes(eeprom))
	with Network(console):
		poller = IPPoller('console.example')
		poller.connect()

		def read(value, what):
			for mask in [1 << k for k in range(8)] + [0xFF, 0x30, 0x0F, 0]:
				with t.sut('read_setup_bit'):
					t.eq(poller.read_setup_bit(mask), value & mask, 'setup bits 0x%02X%s with mask 0x%02X' % (value, what, mask))
		if value % 2:
			other = (value * 7 + 101) % 256
			console.eeprom[0x2B] = other
			read(other, '')
			if value % 4 == 1:
				with t.sut('write_config_setting'):
					poller.write_config_setting('2B', '01', bytes([value]))
			else:
				console.eeprom[0x2B] = value
			read(value, ', which were 0x%02X before' % other)
		else:
			read(value, '')
		with t.sut('read_rain_collector_type'):
			collector = poller.read_rain_collector_type()
		t.eq(getattr(collector, 'value', collector), value & 0x30, 'rain collector type of setup bits 0x%02X' % value)
		if value & 0x30 != 0x30:
			name = {0: 'inches_0_01', 0x10: 'millimeters_0_2', 0x20: 'millimeters_0_1'}[value & 0x30]
			with t.sut('RainCollectorTypeSerial'):
				t.eq(RainCollectorTypeSerial(collector).name, name, 'rain collector')
		poller.disconnect()
	t.nontrivial(value & 0x30)


NOTABLE = (0, 6, 10, 13, 0x15, 0x21, 0xFF)


def check_checksums(high, t):
	"""Settings of two bytes that have a certain checksum, and the bytes of which are the checksum themselves."""
	wanted = {(high << 8) | low for low in range(256)} if high in NOTABLE else {(high << 8) | low for low in NOTABLE}
	# the checksum is linear, so the value that has it is found bit by bit
	basis = {1 << k: codec.crc(bytes([(1 << k) >> 8, (1 << k) & 0xFF])) for k in range(16)}
	table = {0: 0}
	for value, checksum in basis.items():
		table.update({c ^ checksum: v ^ value for c, v in list(table.items())})
	console = Console(eeprom=memory(high))
	with Network(console):
		poller = IPPoller('console.example')
		poller.connect()
		for checksum in sorted(wanted):
			data = bytes([table[checksum] >> 8, table[checksum] & 0xFF])
			for setting in (data, bytes([checksum >> 8, checksum & 0xFF])):
				with t.sut('writing and reading %r' % setting):
					poller.write_config_setting('2A', '02', setting)
					t.eq(bytes(console.eeprom[0x2A:0x2C]), setting, 'memory after writing %r' % setting)
					t.eq(poller.read_config_setting('2A', '02', return_crc=True), setting + crc_bytes(setting), 'setting %r read back' % setting)
		t.check(not console.errors, 'the console got %s', console.errors)
		poller.disconnect()
	t.nontrivial()


PROPERTY = Prop(
	'C30',
	'Generated histories of settings written, read and changed at the console itself (any address, length, bytes, fragmentation) against a model of the console\'s '
	'memory; answers damaged by every single-bit error, by generated errors or cut short; lengths that do not match; settings with every byte in the checksum, beside notable ones; all setup bits. '
	'Non-trivial: something was read after a write; a damaged answer had to be rejected.',
	[
		Sub('history', check_history, history, quick=600),
		Sub('damaged', check_damaged, damaged, quick=800),
		Sub('every-damage', check_damaged, cases=every_damage),
		Sub('mismatch', check_mismatch, lambda: st.tuples(st.integers(0, 255), st.integers(0, 40), st.binary(max_size=40)).filter(lambda x: x[1] != len(x[2])), quick=200),
		Sub('mismatches', check_mismatch, cases=mismatches),
		Sub('checksums', check_checksums, cases=lambda: list(range(256))),
		Sub('setup', check_setup, cases=lambda: list(range(256))),
	],
	['A cut answer is only judged when the CRC is to be confirmed.'],
)
