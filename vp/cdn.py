"""Simulated HTTP servers: every request made through `requests` is answered from memory"""
import contextlib
import threading
import requests
import requests.adapters


class Raw:
    """Body of a response, cut in blocks of given sizes (cycled), optionally broken after some bytes"""

    def __init__(self, data, blocks=(), fail_after=None, error=None):
        self.data = data
        self.blocks = list(blocks)
        self.pos = 0
        self.i = 0
        self.left = 0
        self.fail_after = fail_after
        self.error = error

    def read(self, n=-1, *args, **kwargs):
        end = len(self.data) if self.fail_after is None else min(self.fail_after, len(self.data))
        if self.pos >= end:
            if self.fail_after is not None and self.error is not None:
                raise self.error
            return b""
        if self.left == 0:
            self.left = self.blocks[self.i % len(self.blocks)] if self.blocks else end - self.pos
            self.i += 1
        size = min(self.left, end - self.pos)
        if n is not None and n >= 0:
            size = min(size, n)
        out = self.data[self.pos:self.pos + size]
        self.pos += size
        self.left = max(0, self.left - size)
        return out

    def close(self):
        pass

    def release_conn(self):
        pass


class CDN:
    """routes: {url: bytes, or int status, or function(request) -> bytes or (status, bytes, headers)}

    faults: list consumed by `fault_filter(url)` requests: None (no fault), ("status", n), ("connect",), ("cut", fraction in 0..100), ("short", fraction)
    """

    def __init__(self, routes=None, blocks=()):
        self.routes = dict(routes or {})
        self.blocks = blocks
        self.log = []
        self.faults = {}       # {url: [fault, ...]} consumed in order
        self.fault_hits = 0
        self.lock = threading.Lock()

    def urls(self):
        return [u for _, u in self.log]

    def send(self, request, stream=False, **kwargs):
        url = request.url
        with self.lock:
            self.log.append((request.method, url))
            pending = self.faults.get(url)
            fault = pending.pop(0) if pending else None
            if fault is not None:
                self.fault_hits += 1
        if fault is not None and fault[0] == "connect":
            raise requests.exceptions.ConnectionError("simulated", request=request)
        body = self.routes.get(url)
        if body is None:
            body = self.routes.get(url.split("?")[0], 404)
        if callable(body):
            body = body(request)
        headers = {}
        status = 200
        if isinstance(body, tuple):
            status, body, headers = body
        elif isinstance(body, int):
            status, body = body, b"<html>error</html>"
        if fault is not None and fault[0] == "status":
            status, body = fault[1], b"" if fault[1] == 503 else b"<html>error</html>"
        r = requests.Response()
        r.status_code = status
        r.url = url
        r.request = request
        r.reason = "simulated"
        r.headers.update(headers)
        r.encoding = None
        if request.method == "HEAD":
            body = b""
        cut = error = None
        if fault is not None and fault[0] in ("cut", "short"):
            cut = len(body) * fault[1] // 100
            if fault[0] == "cut":
                error = requests.exceptions.ChunkedEncodingError("simulated", request=request)
        r.raw = Raw(body, self.blocks, cut, error)
        return r

    @contextlib.contextmanager
    def installed(self):
        """Answer all requests"""
        old = requests.adapters.HTTPAdapter.send
        requests.adapters.HTTPAdapter.send = lambda adapter, request, **kw: self.send(request, **kw)
        try:
            yield self
        finally:
            requests.adapters.HTTPAdapter.send = old
