"""Polling a number of packets."""
from hypothesis import strategies as st

from checks.c06 import compare
from wlv import codec, gen
from wlv.core import Prop, Sub
from wlv.fakesock import Console, Network

from weatherlink.poller import IPPoller

FRAGMENTS = st.lists(st.one_of(st.integers(1, 120), st.sampled_from([98, 99, 100, 1])), max_size=5)


def packet():
	return st.tuples(gen.loop2_record(), st.sampled_from([0, 0, 0, 0, 0x8001])).map(lambda x: dict(x[0], crc_error=x[1]))


def pattern(k, seed):
	raw = {f[0]: (k * 13 + i * 7 + seed) % 200 + 1 for i, f in enumerate(codec.LOOP2_FIELDS)}
	raw.update(barometric_trend=(-60, -20, 0, 20, 60)[k % 5], junk=k, minute_in_hour=k % 60)
	return raw


def check(case, t):
	fragments, polls = case
	console = Console(fragments=fragments)
	with Network(console) as network:
		poller = IPPoller('console.example')
		poller.connect()
		for raws in polls:
			console.packets = [codec.encode_loop2(r) for r in raws]
			del console.received[:]
			with t.sut('poll'):
				records = poller.poll(len(raws))
			t.eq(bytes(console.received), b'LPS 2 %d\n' % len(raws), 'sent to the console')
			t.eq(len(records), len(raws), 'number of packets')
			for k, raw in enumerate(raws):
				compare(t, records[k], raw, 'packet %d of %d' % (k, len(raws)))
			t.eq(len(console.outgoing), 0, 'bytes left unread')
			t.check(all(h.closed for h in network.handles), 'a file handle is still open after polling')
			t.nontrivial(len(raws) >= 2)
		t.label('%d polls' % len(polls))
		poller.disconnect()


def check_many(case, t):
	fragments, count, seed = case
	check((fragments, [[pattern(k, seed) for k in range(count)]]), t)


def check_cut(case, t):
	"""The connection ends before all packets arrived: that must not look like success."""
	fragments, count, cut, seed = case
	console = Console(fragments=fragments, packets=[codec.encode_loop2(pattern(k, seed)) for k in range(count)], cut=cut % (count * 99))
	with Network(console) as network:
		poller = IPPoller('console.example')
		poller.connect()
		t.raises('polling %d packets of which %d bytes arrive' % (count, console.cut), Exception, poller.poll, count)
		t.check(all(h.closed for h in network.handles), 'a file handle is still open after a failed poll')
		poller.disconnect()
	t.nontrivial()


def check_close_fails(case, t):
	"""Closing the file handle fails, after success or after another failure."""
	fragments, count, operation, cut, seed = case
	console = Console(fragments=fragments, packets=[codec.encode_loop2(pattern(k, seed)) for k in range(count)], cut=cut)
	failure = OSError(5, 'closing failed')
	with Network(console) as network:
		poller = IPPoller('console.example')
		poller.connect()
		network.handle_errors = [failure]
		raised = t.raises('%s while closing the file handle fails' % operation, Exception,
			*([poller.poll, count] if operation == 'poll' else [poller.read_config_setting, '10', '02']))
		used = not network.handle_errors  # otherwise no file handle is used for it
		if cut is not None and operation == 'poll':
			t.check(raised is not failure, 'the connection ended early, but the caller sees only %r', raised)
		elif cut is None and used:
			t.check(raised is failure, 'closing the file handle failed, but the caller sees %r', raised)
		t.check(all(h.closed for h in network.handles), 'a file handle is still open')
		poller.disconnect()
	t.nontrivial(used)


def check_slow(case, t):
	"""The console sends a packet every 2.5 seconds, and a network may take some seconds more."""
	delays, fragments, count, seed = case
	raws = [pattern(k, seed) for k in range(count)]
	console = Console(fragments=fragments, packets=[codec.encode_loop2(r) for r in raws])
	with Network(console) as network:
		poller = IPPoller('console.example')
		poller.connect()
		network.delays = delays
		with t.sut('polling a console that sends a packet now and then'):
			records = poller.poll(count)
		t.eq(len(records), count, 'number of packets')
		for k, raw in enumerate(raws):
			compare(t, records[k], raw, 'packet %d of %d' % (k, count))
		with t.sut('reading a setting from a slow console'):
			t.eq(poller.read_config_setting('10', '02'), b'\0\0', 'setting')
		poller.disconnect()
	t.nontrivial(any(delays))


def check_types(case, t):
	"""The instruction names the configured type; packets of another type are never taken for it."""
	kind, count, sent = case
	packets = [codec.encode_loop2(pattern(k, 5)) for k in range(count)]
	if sent != 2:
		packets = [bytes([0 if i == 4 and (sent == 1 or k % 2 == 0) else b for i, b in enumerate(p)]) for k, p in enumerate(packets)]
	console = Console(packets=packets)
	console.cut = count * 99
	with Network(console):
		poller = IPPoller('console.example')
		t.eq(poller.packet_type, poller.PACKET_TYPE_LOOP2, 'default type')
		poller.connect()
		poller.packet_type = kind
		if kind == sent == 2:
			with t.sut('poll'):
				t.eq(len(poller.poll(count)), count, 'packets')
		else:
			t.raises('polling type %d while the console sends type %d' % (kind, sent), Exception, poller.poll, count)
			t.nontrivial()
		t.eq(bytes(console.received), b'LPS %d %d\n' % (kind, count), 'sent to the console')
		poller.disconnect()


PROPERTY = Prop(
	'C32',
	'Generated LOOP2 packets in polls of up to four (many: up to 60, long: up to 4100) on one connection, delivered in fragments of generated sizes; every '
	'field of every packet is compared, as is what was sent (slow: with pauses of up to 9 seconds, which a stand-in clock counts). Connections that end early and file handles that cannot be closed must fail. Non-trivial: at least two packets '
	'in a poll; something failed.',
	[
		Sub('polls', check, lambda: st.tuples(FRAGMENTS, st.lists(st.lists(packet(), min_size=0, max_size=4), min_size=1, max_size=2)), quick=350),
		Sub('many', check_many, lambda: st.tuples(FRAGMENTS, st.integers(1, 60), st.integers(0, 100)), quick=150),
		Sub('long', check_many, cases=lambda: [(f, n, n % 97) for n in (100, 127, 128, 200, 255, 256, 257, 300, 511, 513, 1000) for f in ([], [1000, 50, 7])] + [([4096], 4100, 5)]),
		Sub('cut', check_cut, lambda: st.tuples(FRAGMENTS, st.integers(1, 5), st.integers(0, 10 ** 4), st.integers(0, 100)), quick=300),
		Sub('close-fails', check_close_fails, lambda: st.tuples(FRAGMENTS, st.integers(1, 4), st.sampled_from(['poll', 'read']),
			st.one_of(st.none(), st.integers(0, 3)), st.integers(0, 100)), quick=150),
		Sub('slow', check_slow, lambda: st.tuples(st.lists(st.sampled_from([0, 0, 0.1, 2, 2.5, 3, 6, 9]), min_size=1, max_size=5), FRAGMENTS, st.integers(1, 12),
			st.integers(0, 100)), quick=100),
		Sub('types', check_types, cases=lambda: [(k, n, s) for k, s in ((2, 2), (2, 1), (2, 3), (1, 1), (3, 3)) for n in (1, 2, 9)]),
	],
	['Only LOOP2 packets: reading LOOP1 packets is documented as not implemented.'],
)
