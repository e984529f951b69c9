"""An in-memory stand-in for HTTP servers, below requests' session layer: URLs, parameters and headers are real."""
import io

import requests
import requests.adapters
import urllib3
from urllib.parse import parse_qsl, urlsplit


class Exchange(object):
	def __init__(self, request, stream):
		self.method = request.method
		self.url = request.url
		self.headers = request.headers
		self.stream = stream
		parts = urlsplit(request.url)
		self.scheme, self.host, self.path = parts.scheme, parts.hostname, parts.path
		self.query = parse_qsl(parts.query, keep_blank_values=True, strict_parsing=False)
		body = request.body
		if body and request.headers.get('Content-Type', '').startswith('application/x-www-form-urlencoded'):
			self.query += parse_qsl(body if isinstance(body, str) else body.decode('utf8'), keep_blank_values=True)
		self.parameters = dict(self.query)


class Server(object):
	"""handler(exchange) -> (status, headers, body bytes) or an exception to raise."""

	def __init__(self, handler):
		self.handler = handler
		self.exchanges = []

	def __enter__(self):
		server = self
		self._saved = requests.adapters.HTTPAdapter.send

		def send(adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
			exchange = Exchange(request, stream)
			server.exchanges.append(exchange)
			result = server.handler(exchange)
			if isinstance(result, Exception):
				raise result
			status, headers, body = result
			raw = urllib3.HTTPResponse(
				body=io.BytesIO(body), headers=headers, status=status, reason='', preload_content=False, decode_content=False,
			)
			return adapter.build_response(request, raw)
		requests.adapters.HTTPAdapter.send = send
		return self

	def __exit__(self, *_):
		requests.adapters.HTTPAdapter.send = self._saved
