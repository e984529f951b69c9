"""CRC of the serial protocol."""
from hypothesis import strategies as st

from wlv import codec
from wlv.core import Prop, Sub

from weatherlink.models import calculate_weatherlink_crc as sut


def check_reference(case, t):
	kind, data = case
	argument = {'bytes': bytes, 'bytearray': bytearray}[kind](data)
	with t.sut('calculate_weatherlink_crc'):
		value = sut(argument)
	expected = codec.crc(data)
	t.eq(value, expected, 'CRC of %r' % (data, ))
	with t.sut('calculate_weatherlink_crc'):
		again = sut(data + bytes([expected >> 8, expected & 255]))
	t.eq(again, 0, 'CRC of data followed by its CRC')
	t.nontrivial(len(data) >= 2)


def check_burst(case, t):
	data, position, length, pattern = case
	expected = codec.crc(data)
	message = data + bytes([expected >> 8, expected & 255])
	bits = len(message) * 8
	length = min(length, bits)
	position = position % (bits - length + 1)
	# a burst: its first and last bits are wrong
	burst = (1 << (length - 1)) | 1 | (pattern & ((1 << length) - 1))
	damaged = (int.from_bytes(message, 'big') ^ (burst << position)).to_bytes(len(message), 'big')
	with t.sut('calculate_weatherlink_crc'):
		value = sut(damaged)
	t.check(value != 0, 'a burst of %d wrong bits is not detected', length)
	t.nontrivial(length > 1)


def small():
	out = [('bytes', bytes([a])) for a in range(256)]
	out += [('bytes', bytes([a, b])) for a in range(256) for b in range(0, 256, 5)]
	return out


PROPERTY = Prop(
	'C09',
	'Byte strings up to 200 bytes (and some up to 70,000) against a bit-by-bit division by x^16+x^12+x^5+1, every one-byte and every fifth two-byte string, '
	'and messages with a generated burst of up to 16 wrong bits. Non-trivial: two or more bytes; a burst longer than one bit.',
	[
		Sub('reference', check_reference, lambda: st.tuples(st.sampled_from(['bytes', 'bytearray']), st.binary(max_size=200)), quick=1500),
		Sub('long', check_reference, lambda: st.tuples(st.sampled_from(['bytes', 'bytearray']), st.integers(120, 5000), st.binary(min_size=1, max_size=40)).map(
			lambda x: (x[0], (x[2] * (x[1] // len(x[2]) + 1))[:x[1]])), quick=250),
		Sub('very long', check_reference, cases=lambda: [('bytes', bytes((k * k >> 3) & 255 for k in range(n))) for n in (32768, 65535, 65536, 65537, 70000)]),
		Sub('small', check_reference, cases=small,
			thorough_cases=lambda: [('bytes', bytes([a, b])) for a in range(256) for b in range(256)] + [('bytes', b'')]),
		Sub('bursts', check_burst, lambda: st.tuples(st.binary(max_size=100), st.integers(0, 10 ** 6), st.integers(1, 16), st.integers(0, 65535)), quick=1500),
	],
)
