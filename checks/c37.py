"""Records as mappings, attribute holders, and values that can be copied and stored."""
import copy
import datetime
import io
import pickle
from decimal import Decimal

from hypothesis import strategies as st

from wlv import codec, gen
from wlv.core import Prop, Sub, same, show

from weatherlink import models

# Names of methods are taken; items of that name are reached by subscription only.
TAKEN = set(dir(models.ArchiveIntervalRecord)) | set(dir(models.LoopRecord)) | set(dir(models.DailySummary)) | set(dir(models.RecordDict))
NAMES = st.one_of(
	st.sampled_from(['temperature_outside', 'wind_gust', 'date', 'x', 'a1', '_private', 'T', 'record_count', 'some_attribute', 'if_', 'None_']),
	st.from_regex(r'\A[a-z_][a-z0-9_]{0,8}\Z').filter(lambda n: n not in TAKEN and not n.startswith('__')),
)
VALUES = st.one_of(
	st.none(), st.integers(-5, 5), st.booleans(), st.text(max_size=3), st.integers(-99, 99).map(lambda n: Decimal(n).scaleb(-1)),
	st.lists(st.integers(0, 3), max_size=2), st.datetimes(datetime.datetime(2000, 1, 1), datetime.datetime(2060, 1, 1)).map(lambda d: d.replace(microsecond=0)),
)
CLASSES = ('RecordDict', 'ArchiveIntervalRecord', 'LoopRecord', 'DailySummary')


def equal(a, b):
	return dict(a) == dict(b) and all(type(a[k]) is type(b[k]) for k in a)


def agrees(t, record, model, names, what):
	t.check(len(record) == len(model) and equal(record, model), '%s: the record has %s, expected %s', what, show(dict(record)), show(model))
	t.check(record == model, '%s: the record does not equal a dict of its items', what)
	t.eq(sorted(record), sorted(model), '%s: iteration' % what)
	for name in names:
		t.eq(name in record, name in model, '%s: %s in record' % (what, name))
		t.check(hasattr(record, name) == (name in model), '%s: hasattr for %s is %s', what, name, hasattr(record, name))
		if name in model:
			t.check(record[name] is model[name] or record[name] == model[name], '%s: item %s', what, name)
			t.check(getattr(record, name) is record[name], '%s: attribute %s is %s, the item is %s', what, name, show(getattr(record, name)), show(record[name]))
		else:
			t.raises('%s: reading the missing attribute %s' % (what, name), AttributeError, getattr, record, name)
			t.raises('%s: reading the missing item %s' % (what, name), KeyError, lambda: record[name])
			t.eq(getattr(record, name, 'default'), 'default', '%s: getattr with default for %s' % (what, name))
			t.eq(record.get(name, 'default'), 'default', '%s: get with default for %s' % (what, name))


def copies(record):
	yield 'copy.copy', lambda: copy.copy(record), True
	yield 'copy.deepcopy', lambda: copy.deepcopy(record), True
	for protocol in range(pickle.HIGHEST_PROTOCOL + 1):
		yield 'pickle protocol %d' % protocol, lambda protocol=protocol: pickle.loads(pickle.dumps(record, protocol)), True
	yield 'copy()', lambda: record.copy(), False
	yield 'dict()', lambda: dict(record), False


def marked(value):
	"""Change every list (and mapping in one) inside a value; the number of changes."""
	count = 0
	if isinstance(value, list):
		for v in value:
			count += marked(v)
		value.append('mark')
		count += 1
	elif isinstance(value, dict):
		for v in list(value.values()):
			count += marked(v)
		value['mark'] = 'mark'
		count += 1
	return count


def check_independent(t, record, what):
	"""Changes of what is inside a deep copy, or a restored one, do not show in the original."""
	inside = [v for v in record.values() if isinstance(v, (list, dict))]
	before = repr(inside)
	for name, function, typed in copies(record):
		if name == 'copy.deepcopy' or name.startswith('pickle'):
			with t.sut('%s: %s' % (what, name)):
				other = function()
			if marked([v for v in other.values() if isinstance(v, (list, dict))]) > 1:
				t.eq(repr(inside), before, '%s: what is inside the original after changes inside its %s' % (what, name))
		elif name == 'copy.copy':
			with t.sut('%s: %s' % (what, name)):
				other = function()
			t.check(all(other[k] is record[k] for k in record if isinstance(record[k], (list, dict))), '%s: a shallow copy has other objects inside', what)


def check_copies(t, record, what):
	check_independent(t, record, what)
	before = dict(record)
	for name, function, typed in copies(record):
		with t.sut('%s: %s' % (what, name)):
			other = function()
		t.check(equal(other, record), '%s: %s gives %s, expected %s', what, name, show(dict(other)), show(dict(record)))
		if typed:
			t.check(type(other) is type(record), '%s: %s gives a %s', what, name, type(other).__name__)
			other.added_to_the_copy = 1
			t.eq(other['added_to_the_copy'], 1, '%s: attribute set on the copy' % what)
		else:
			other['added_to_the_copy'] = 1
		t.check('added_to_the_copy' not in record, '%s: changing the %s changed the original', what, name)
	t.check(equal(record, before), '%s: copying changed the record', what)


def check(case, t):
	kind, initial, operations = case
	names = sorted(set(initial) | {o[1] for o in operations})
	model = dict(initial)
	with t.sut(kind):
		record = getattr(models, kind)(**copy.deepcopy(initial))
		bystander = getattr(models, kind)()
	agrees(t, record, model, names, 'new record')
	for k, (operation, name, value) in enumerate(operations):
		what = 'after operation %d (%s %s)' % (k + 1, operation, name)
		with t.sut(what):
			if operation == 'setattr':
				setattr(record, name, value)
				model[name] = value
			elif operation == 'setitem':
				record[name] = value
				model[name] = value
			elif operation == 'update':
				record.update({name: value})
				model[name] = value
			elif operation == 'setdefault':
				t.check(same(record.setdefault(name, value), model.setdefault(name, value)), '%s: result of setdefault', what)
			elif operation == 'pop':
				t.check(same(record.pop(name, None), model.pop(name, None)), '%s: result of pop', what)
			elif operation == 'delitem':
				if name in model:
					del record[name]
					del model[name]
				else:
					t.raises(what, KeyError, record.__delitem__, name)
			elif operation == 'copy':
				check_copies(t, record, what)
		agrees(t, record, model, names, what)
		t.label(operation)
	t.eq(len(bystander), 0, 'items of another record')
	t.nontrivial(len(operations) >= 3 and bool(model))


def strategy():
	operation = st.tuples(st.sampled_from(['setattr', 'setattr', 'setitem', 'update', 'setdefault', 'pop', 'delitem', 'copy']), NAMES, VALUES)
	return st.tuples(st.sampled_from(CLASSES), st.dictionaries(NAMES, VALUES, max_size=4), st.lists(operation, max_size=8))


def check_loaded(case, t):
	"""Records as the loaders make them survive copying and pickling, including their enumeration members."""
	wlk, download, loop, summary = case
	records = []
	with t.sut('loading'):
		records.append(models.ArchiveIntervalRecord.load_from_wlk(io.BytesIO(codec.encode_wlk_record(wlk)), 2016, 5, 7))
		records.append(models.ArchiveIntervalRecord.load_from_download(io.BytesIO(codec.encode_download_record(download)), 5))
		records.append(models.LoopRecord.load_loop_2_from_connection(io.BytesIO(codec.encode_loop2(loop))))
		records.append(models.DailySummary.load_from_wlk(io.BytesIO(codec.encode_summary(summary)), 2016, 5, 7))
		header = models.Header.load_from_wlk(io.BytesIO(codec.encode_header(b'WDAT5.0', 7, [(k, k * 3) for k in range(32)])))
	for record in records:
		for name in record:
			if name not in TAKEN and not name.startswith('__'):
				t.check(getattr(record, name) is record[name], 'attribute and item %s of a loaded record differ', name)
		check_copies(t, record, 'a loaded %s' % type(record).__name__)
	empty = models.ArchiveIntervalRecord() if wlk['junk'] % 2 else models.LoopRecord()
	for name in sorted(set().union(*records) - TAKEN):
		if not name.startswith('__'):
			t.check(not hasattr(empty, name), 'an empty record has the attribute %s', name)
			t.raises('reading the missing attribute %s' % name, AttributeError, getattr, empty, name)
			t.raises('reading the missing item %s' % name, KeyError, lambda: empty[name])
	check_independent(t, header, 'a header')
	for name, function, typed in copies(header):
		with t.sut('%s of a header' % name):
			other = function()
		t.check(other == header and [dict(d) for d in other['day_indexes']] == [dict(d) for d in header['day_indexes']], '%s of a header differs', name)
		if typed:
			t.check(type(other) is models.Header and other is not header, '%s of a header is a %s', name, type(other).__name__)
			t.check(all(type(d) is models.DayIndex for d in other.day_indexes), '%s of a header: the day indexes are %s', name, type(other.day_indexes[0]).__name__)
			other.record_count = -1
			t.eq(header.record_count, 7, 'number of records of a header after a change of its %s' % name)
	t.nontrivial(any(r.get('wind_direction_prevailing') is not None for r in records[:2]))


PROPERTY = Prop(
	'C37',
	'Generated sequences of attribute and item operations on the four record types, compared with a dict after every step, with copies '
	'(shallow, deep, every pickle protocol) in between; and the same copies of records and headers loaded from generated bytes. '
	'Non-trivial: at least three operations and a record with items.',
	[
		Sub('operations', check, strategy, quick=1000),
		Sub('loaded', check_loaded, lambda: st.tuples(gen.wlk_record(), gen.download_record(), gen.loop2_record(), gen.summary()), quick=250),
	],
	['Names that dict itself uses (such as items) and names with two leading underscores are reached by subscription and not judged.'],
)
