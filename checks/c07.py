"""Damaged or foreign data is rejected, not decoded."""
import io
import os
import shutil
import tempfile

from hypothesis import strategies as st

from checks.c01 import build, plain_record, plain_summary
from wlv import codec, gen
from wlv.core import Prop, Sub

from weatherlink.importer import Importer
from weatherlink.models import ArchiveIntervalRecord, DailySummary, Header, LoopRecord

LOADERS = {
	'wlk': lambda h: ArchiveIntervalRecord.load_from_wlk(h, 2015, 6, 14),
	'summary': lambda h: DailySummary.load_from_wlk(h, 2015, 6, 14),
	'download': lambda h: ArchiveIntervalRecord.load_from_download(h, 5),
	'loop2': lambda h: LoopRecord.load_loop_2_from_connection(h),
	'header': Header.load_from_wlk,
}


def encoded():
	return st.one_of(
		st.tuples(st.just('wlk'), gen.wlk_record().map(codec.encode_wlk_record)),
		st.tuples(st.just('summary'), gen.summary().map(codec.encode_summary)),
		st.tuples(st.just('download'), gen.download_record().map(codec.encode_download_record)),
		st.tuples(st.just('loop2'), gen.loop2_record().map(codec.encode_loop2)),
		st.tuples(st.just('header'), st.integers(0, 99).map(lambda k: codec.encode_header(b'WDAT5.3', k, [(k, k)] * 32))),
	)


def rejects(t, kind, data, what):
	t.raises('%s: %s' % (kind, what), Exception, LOADERS[kind], io.BytesIO(data))


def check_truncated(case, t):
	(kind, data), part = case
	length = part % len(data)
	rejects(t, kind, data[:length], 'only %d of %d bytes' % (length, len(data)))
	t.label(kind)
	t.nontrivial(length > 0)


def put(data, offset, value):
	data = bytearray(data)
	data[offset] = value
	return bytes(data)


def check_marker(case, t):
	kind, data, offset, value = case
	if data[offset] == value:
		return
	rejects(t, kind, put(data, offset, value), 'byte %d is 0x%02x instead of 0x%02x' % (offset, value, data[offset]))
	t.label('%s byte %d' % (kind, offset))
	t.nontrivial()


MARKERS = {
	'wlk': [0],
	'summary': [0, 88],
	'download': [42],
	'loop2': sorted(o + k for o, d in codec.LOOP2_CONSTANTS.items() for k in range(len(d))),
}


def _sample(kind):
	if kind == 'wlk':
		return codec.encode_wlk_record(plain_record(5, 10, 1))
	if kind == 'summary':
		return codec.encode_summary(plain_summary(5, 1))
	if kind == 'download':
		from checks.c05 import tagged
		import datetime
		return codec.encode_download_record(tagged(5, datetime.datetime(2015, 6, 14, 12, 30)))
	raw = {f[0]: 50 for f in codec.LOOP2_FIELDS}
	raw.update(barometric_trend=0, junk=4)
	return codec.encode_loop2(raw)


def marker_cases():
	return [(kind, _sample(kind), offset, value) for kind in sorted(MARKERS) for offset in MARKERS[kind] for value in range(256)]


def code_cases():
	out = []
	for code in range(16):
		if code << 12 not in codec.RAIN_DATABASE:
			for low in (0, 1, 0xFFF):
				word = (code << 12) | low
				out.append(('wlk', put(put(_sample('wlk'), 20, word & 255), 21, word >> 8), 'rain collector code %d' % code))
	for value in range(16, 255):
		for kind, offsets in (('wlk', (28, 29)), ('download', (26, 27)), ('summary', (52, 53))):
			for offset in offsets:
				out.append((kind, put(_sample(kind), offset, value), 'wind direction code %d at byte %d' % (value, offset)))
	return out


def check_code(case, t):
	kind, data, what = case
	rejects(t, kind, data, what)
	t.nontrivial()


# --- whole files
@st.composite
def files(draw):
	counts = draw(st.lists(st.integers(0, 3), min_size=1, max_size=4))
	return {'counts': counts, 'damage': draw(st.sampled_from(['cut', 'type', 'missing header'])), 'where': draw(st.integers(0, 10 ** 6)),
		'value': draw(st.integers(0, 255))}


def check_file(case, t):
	days, tag = {}, 1
	for day, count in enumerate(case['counts'], 1):
		days[day] = (plain_summary(day, 1), [plain_record(tag + k, k + 1, 1) for k in range(count)])
		tag += count
	data, _ = build(2015, 6, days, b'WDAT5.3', 10, (0, 0), 1)
	body = len(data) - 212
	if case['damage'] == 'cut':
		data = data[:212 + case['where'] % body]
	elif case['damage'] == 'missing header':
		data = data[:case['where'] % 212]
	else:
		block = case['where'] % (body // 88)
		offset = 212 + 88 * block
		if data[offset] == case['value']:
			return
		data = put(data, offset, case['value'])
	t.label(case['damage'])
	t.nontrivial()
	folder = tempfile.mkdtemp(prefix='wlv')
	try:
		path = os.path.join(folder, '2015-06.wlk')
		with open(path, 'wb') as f:
			f.write(data)
		t.raises('import of a damaged file (%s)' % case['damage'], Exception, Importer(path).import_data)
	finally:
		shutil.rmtree(folder)


def check_name(case, t):
	t.raises('Importer(%r)' % (case, ), ValueError, Importer, case)
	t.nontrivial()


def names():
	bad_end = st.sampled_from(['', '.txt', '.wl', '.WLK', '.wlk~', '.wlkx', '.wlk.bak', 'wlk', '_wlk'])
	month = st.sampled_from(['2015-06', '2016-12'])
	return st.one_of(
		st.tuples(st.sampled_from(['', '/data/', 'a-b']), month, bad_end).map(''.join),
		st.sampled_from(['', None]),
		# not YYYY-MM before the extension
		st.tuples(st.sampled_from(['/data/', '']), st.sampled_from(['2015_06', '201506', '2015-xx', 'abcd-06', 'June', '15-6', '2015--6', '20-15-6', '-------']),
			st.just('.wlk')).map(''.join),
	)


NAMES_ALLOWED = ('15-6.wlk', )


def check_bad_name(case, t):
	if case and case.split('/')[-1] in NAMES_ALLOWED:
		return
	check_name(case, t)


def cut_cases():
	samples = {k: _sample(k) for k in sorted(MARKERS)}
	samples['header'] = codec.encode_header(b'WDAT5.3', 7, [(k, k) for k in range(32)])
	return [((kind, data), length) for kind, data in sorted(samples.items()) for length in range(len(data))]


def file_cuts():
	"""Files that end after any number of bytes."""
	return [{'counts': counts, 'damage': damage, 'where': where, 'value': 0} for counts in ([2], [1, 0, 1])
		for damage, size in (('missing header', 212), ('cut', 88 * (sum(counts) + 2 * len(counts)))) for where in range(size)]


def foreign_cases():
	"""A whole LOOP2 packet behind bytes of something else: what is read first is no packet, however sound the rest is."""
	packet = _sample('loop2')
	before = [b'\x00', b'\x06', b'\r', b'\n', b'\xff', b'O', b'LO', b'L', b'\n\r', b'\x06\x06', b'LOLO', b'TEST\n\r', b'\x15' * 5, packet[1:], packet[:50], packet[98:]]
	return [(junk, packet * more) for junk in before for more in (1, 2, 3)]


def check_foreign(case, t):
	junk, packets = case
	data = io.BytesIO(junk + packets)
	t.raises('a packet behind %r' % junk[:8], Exception, LoopRecord.load_loop_2_from_connection, data)
	t.check(data.tell() <= 99, 'reading one packet took %d bytes', data.tell())
	t.label('%d bytes of something else' % len(junk))
	t.nontrivial()


PROPERTY = Prop(
	'C07',
	'Valid encodings of each format, generated and then damaged: cut at any byte, a type/version/marker byte replaced by each '
	'other value, undefined rain collector and wind direction codes, and whole .wlk files cut or with a wrong record type; file '
	'names that are not YYYY-MM.wlk. Every case must raise. Non-trivial: the damage changed the bytes.',
	[
		Sub('truncated', check_truncated, lambda: st.tuples(encoded(), st.integers(0, 10 ** 6)), quick=800),
		Sub('each length', check_truncated, cases=cut_cases),
		Sub('markers', check_marker, cases=marker_cases),
		Sub('foreign bytes', check_foreign, cases=foreign_cases),
		Sub('codes', check_code, cases=code_cases),
		Sub('files', check_file, files, quick=300),
		Sub('each cut', check_file, cases=file_cuts),
		Sub('names', check_bad_name, names, quick=150),
	],
	['Nothing is claimed about which exception reports damaged data, except ValueError for file names.'],
)
