"""
An in-memory stand-in for TCP sockets and for a Vantage Pro2 console behind them.

The console answers LPS, EEBRD and EEBWR commands as the protocol documents them (an EEBWR write is not confirmed after
its data, because the library does not read such a confirmation). The harness decides how the answer is cut into
fragments: each recv gets at most the next fragment. A read for which the console will never send data is reported
instead of blocking.
"""
import io
import socket
import sys
import threading

from wlv import codec
from wlv.core import HarnessError, Violation

WAIT = 60.0


class WaitsForever(Violation):
	pass


class ConnectionCut(OSError):
	pass


class Console(object):
	"""The far end. `received` is everything the library sent; answers are queued in `outgoing`."""

	def __init__(self, eeprom=None, fragments=(), packets=(), acks=(), corrupt=None, cut=None, padding=b''):
		self.eeprom = bytearray(eeprom if eeprom is not None else bytes(4096))
		self.fragments = list(fragments)
		self.packets = list(packets)  # raw LOOP packets to answer LPS with
		self.acks = list(acks)  # acknowledgement bytes for the next commands (default 0x06)
		self.corrupt = corrupt  # (index, xor) applied to the EEBRD answer after its acknowledgement
		self.cut = cut  # keep only this many bytes of the data after an acknowledgement, then close
		self.padding = padding  # sent right after the acknowledgement was answered with something else
		self.received = bytearray()
		self.outgoing = bytearray()
		self.commands = []
		self.errors = []
		self.sent_total = 0
		self.read_total = 0
		self.eof = False
		self._line = bytearray()
		self._write = None  # (address, length, data so far)
		self.threaded = False
		self.condition = threading.Condition()
		self.waiting = False
		self._next_fragment = 0
		self.auto = True

	# -- from the library
	def on_data(self, data):
		with self.condition:
			self.received += data
			for byte in bytearray(data):
				self._byte(byte)
			self.condition.notify_all()

	def _byte(self, byte):
		if self._write is not None:
			self._write[2].append(byte)
			if len(self._write[2]) == self._write[1] + 2:
				address, length, got = self._write
				self._write = None
				if codec.crc(bytes(got)) == 0:
					self.eeprom[address:address + length] = got[:length]
				else:
					self.errors.append('the written data has a wrong CRC')
			return
		if byte in (0x0A, 0x0D):
			line = bytes(self._line)
			self._line = bytearray()
			if not line:
				self.commands.append(('wake', ))
				return
			self._command(line)
			return
		self._line.append(byte)

	def _command(self, line):
		parts = line.split(b' ')
		name = parts[0]
		ack = self.acks.pop(0) if self.acks else 0x06
		self.commands.append(tuple(p.decode('latin1') for p in parts))
		self.send(bytes([ack]))
		if ack != 0x06:
			self.send(self.padding)
			return
		if name == b'EEBRD':
			address, length = int(parts[1], 16), int(parts[2], 16)
			data = bytes(self.eeprom[address:address + length])
			value = codec.crc(data)
			data = bytearray(data + bytes([value >> 8, value & 0xFF]))
			if self.corrupt is not None:
				for index, xor in self.corrupt:
					if index < len(data):
						data[index] ^= xor
			self._answer(bytes(data))
		elif name == b'EEBWR':
			self._write = (int(parts[1], 16), int(parts[2], 16), bytearray())
		elif name == b'LPS':
			if self.auto:
				count = int(parts[2])
				self._answer(b''.join(self.packets[:count]))
		else:
			self.errors.append('unknown command %r' % line)

	def _answer(self, data):
		if self.cut is not None:
			self.send(data[:self.cut])
			self.eof = True
		else:
			self.send(data)

	def send(self, data):
		with self.condition:
			self.outgoing += data
			self.sent_total += len(data)
			self.condition.notify_all()

	def close(self):
		with self.condition:
			self.eof = True
			self.condition.notify_all()

	# -- to the library
	def take(self, length, owner):
		with self.condition:
			if length <= 0:
				return b''
			if not self.outgoing and not self.eof:
				if not self.threaded:
					raise WaitsForever('the library waits for data that the console never sends')
				self.waiting = True
				self.condition.notify_all()
				while not self.outgoing and not self.eof and not owner.closed:
					if not self.condition.wait(WAIT):
						raise HarnessError('no data was fed for %d s' % WAIT)
				self.waiting = False
			if not self.outgoing:
				return b''
			n = length
			if self.fragments:
				n = min(n, self.fragments[self._next_fragment % len(self.fragments)])
				self._next_fragment += 1
			data = bytes(self.outgoing[:n])
			del self.outgoing[:n]
			self.read_total += len(data)
			return data


class _Raw(io.RawIOBase):
	def __init__(self, sock):
		self._sock = sock
		sock.network.handles.append(self)

	def close(self):
		if self.closed:
			return
		super(_Raw, self).close()
		errors = self._sock.network.handle_errors
		if errors:
			raise errors.pop(0)

	def readable(self):
		return True

	def writable(self):
		return True

	def readinto(self, buffer):
		data = self._sock.recv(len(buffer))
		buffer[:len(data)] = data
		return len(data)

	def write(self, data):
		self._sock.sendall(bytes(data))
		return len(data)


class FakeSocket(object):
	network = None

	def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
		self.family, self.type = family, type
		self.closed = False
		self.peer = None
		self.network.sockets.append(self)

	def connect(self, address):
		network = self.network
		if self.closed:
			raise OSError(9, 'Bad file descriptor')
		network.connect_calls.append(tuple(address))
		error = network.connect_errors.pop(0) if network.connect_errors else None
		if error is not None:
			raise error
		self.peer = tuple(address)

	def _console(self):
		return self.network.consoles.get(self.peer[0] if self.peer else None, self.network.console)

	def _usable(self):
		if self.closed:
			raise OSError(9, 'Bad file descriptor')
		if self.peer is None:
			raise OSError(107, 'Transport endpoint is not connected')

	def sendall(self, data, flags=0):
		self._usable()
		if isinstance(data, str):
			raise TypeError("a bytes-like object is required, not 'str'")
		self._console().on_data(bytes(data))

	def send(self, data, flags=0):
		self._usable()
		if isinstance(data, str):
			raise TypeError("a bytes-like object is required, not 'str'")
		data = bytes(data)
		limit = self.network.send_limit
		data = data[:limit] if limit else data
		self._console().on_data(data)
		return len(data)

	def recv(self, length, flags=0):
		self._usable()
		network = self.network
		if network.delays:
			network.delayed += 1
			delay = network.delays[network.delayed % len(network.delays)]
			if self.gettimeout() is not None and self.gettimeout() < delay:
				raise socket.timeout('timed out')
		return self._console().take(length, self)

	def recv_into(self, buffer, nbytes=0, flags=0):
		data = self.recv(nbytes or len(buffer))
		buffer[:len(data)] = data
		return len(data)

	def makefile(self, mode='r', buffering=None, encoding=None, errors=None, newline=None):
		self._usable()
		if self.network.hold is not None and threading.current_thread() is not self.network.thread:
			self.network.hold.wait(5)
		raw = _Raw(self)
		if buffering == 0:
			if 'b' not in mode:
				raise ValueError('unbuffered streams must be binary')
			return raw
		if 'r' in mode and 'w' in mode:
			f = io.BufferedRWPair(raw, raw)
		elif 'w' in mode:
			f = io.BufferedWriter(raw)
		else:
			f = io.BufferedReader(raw, buffering if buffering and buffering > 0 else io.DEFAULT_BUFFER_SIZE)
		if 'b' in mode:
			return f
		return io.TextIOWrapper(f, encoding, errors, newline)

	def close(self):
		network = self.network
		if self.closed:
			return
		self.closed = True
		console = self._console()
		with console.condition:
			console.condition.notify_all()
		error = network.close_errors.pop(0) if network.close_errors else None
		if error is not None:
			raise error

	def shutdown(self, how):
		self._usable()

	def setsockopt(self, *args):
		pass

	def settimeout(self, value):
		self.timeout = value

	def gettimeout(self):
		return getattr(self, 'timeout', None)

	def setblocking(self, value):
		self.timeout = None if value else 0.0

	def fileno(self):
		return -1 if self.closed else 1000

	def getpeername(self):
		self._usable()
		return self.peer

	def detach(self):
		self.closed = True
		return -1

	def __enter__(self):
		return self

	def __exit__(self, *_):
		self.close()


class Network(object):
	"""Patches the socket module for the duration of a with block."""

	def __init__(self, console=None):
		self.console = console or Console()
		self.consoles = {}  # by host name, where a host has a console of its own
		self.sockets = []
		self.handles = []
		self.connect_calls = []
		self.connect_errors = []
		self.close_errors = []
		self.handle_errors = []  # raised when a file handle is closed
		self.send_limit = 3
		self.delays = []  # seconds that each read waits before data arrives; nobody really waits for them
		self.delayed = 0
		self.hold = None  # an event that threads other than this one wait for before they get a file handle
		self.thread = threading.current_thread()

	def open_sockets(self):
		return [s for s in self.sockets if not s.closed]

	def _create_connection(self, address, timeout=None, source_address=None, **kw):
		s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
		if isinstance(timeout, (int, float)):
			s.settimeout(timeout)
		try:
			s.connect(address)
		except BaseException:
			s.closed = True  # it is closed (or collected) without anyone seeing an error from that
			raise
		return s

	def __enter__(self):
		self._saved = socket.socket, socket.create_connection
		socket.socket = type('socket', (FakeSocket, ), {'network': self})
		socket.create_connection = self._create_connection
		# where these are imported by name
		self._imported = []
		for name in ('weatherlink.serial', 'weatherlink.poller'):
			module = sys.modules.get(name)
			for key, value in list(vars(module).items()) if module else ():
				for original, now in zip(self._saved, (socket.socket, socket.create_connection)):
					if value is original:
						self._imported.append((module, key, value))
						setattr(module, key, now)
		return self

	def __exit__(self, *_):
		socket.socket, socket.create_connection = self._saved
		for module, key, value in self._imported:
			setattr(module, key, value)
