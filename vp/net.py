"""A recording, fault-injecting stand-in for the network.

It replaces the transport below ``requests`` and refuses every real socket
connection, so whatever way the code under test asks for data is observed.
"""
import contextlib
import io
import os
import signal
import socket
import tarfile
import threading
import weakref

import requests
from urllib3.response import HTTPResponse


class Blocked(OSError):
    """A real connection was attempted."""


class FakeNet:
    """Serves {url: bytes or callable(request) -> response spec}."""

    def __init__(self, pages=None):
        self.pages = dict(pages or {})
        self.requests = []
        self.sockets = []
        self.streams = []
        self.lock = threading.Lock()
        self.default = None

    def send(self, adapter, request, **kw):
        """Stand-in of HTTPAdapter.send."""
        with self.lock:
            self.requests.append((request.method, request.url))
        spec = self.pages.get(request.url, self.default)
        if callable(spec):
            spec = spec(request)
        if isinstance(spec, BaseException):
            raise spec
        if isinstance(spec, (bytes, bytearray)):
            spec = {"body": bytes(spec)}
        if spec is None:
            spec = {"status": 404, "body": b"not found"}
        body = spec.get("body", b"")
        headers = {"content-type": "application/octet-stream"}
        if spec.get("length", True) is True:
            headers["content-length"] = str(len(body))
        elif spec.get("length"):
            headers["content-length"] = str(spec["length"])
        headers.update(spec.get("headers", {}))
        stream = Stream(body, spec.get("fail_at"), spec.get("error"), spec.get("pieces"), spec.get("die"))
        self.streams.append(weakref.ref(stream))
        raw = HTTPResponse(body=stream, headers=headers, status=spec.get("status", 200), reason="Fake",
                           preload_content=False, decode_content=False, request_method=request.method,
                           enforce_content_length=True)
        return adapter.build_response(request, raw)

    @property
    def urls(self):
        """URLs asked for."""
        return [u for _, u in self.requests]


class Stream(io.RawIOBase):
    """A body that may break off at a given byte."""

    def __init__(self, body, fail_at=None, error=None, pieces=None, die=False):
        self.body = body
        self.pos = 0
        self.fail_at = fail_at
        self.error = error
        self.pieces = pieces
        self.die = die

    def readable(self):
        """Is readable."""
        return True

    def read(self, amt=-1):
        """Read some bytes."""
        if self.fail_at is not None and self.pos >= self.fail_at:
            if self.die:
                os.kill(os.getpid(), signal.SIGKILL)
            if self.error is not None:
                raise self.error
            return b""
        end = len(self.body) if self.fail_at is None else min(self.fail_at, len(self.body))
        if amt is None or amt < 0:
            amt = end - self.pos
        if self.pieces:
            amt = min(amt, self.pieces)
        data = self.body[self.pos:min(end, self.pos + amt)]
        self.pos += len(data)
        return data

    def readinto(self, buf):
        """Read into a buffer."""
        data = self.read(len(buf))
        buf[:len(data)] = data
        return len(data)


@contextlib.contextmanager
def fake_net(pages=None, default=None):
    """Replace the network in this context."""
    net = FakeNet(pages)
    net.default = default
    orig_send = requests.adapters.HTTPAdapter.send
    orig_connect = socket.socket.connect
    orig_create = socket.create_connection
    orig_getaddr = socket.getaddrinfo

    def send(self, request, **kw):
        return net.send(self, request, **kw)

    def blocked(*args, **kw):
        net.sockets.append(repr(args[1:2] or args))
        raise Blocked(f"connection attempt to {args[1:2] or args}")

    requests.adapters.HTTPAdapter.send = send
    socket.socket.connect = blocked
    socket.create_connection = blocked
    socket.getaddrinfo = blocked
    try:
        yield net
    finally:
        requests.adapters.HTTPAdapter.send = orig_send
        socket.socket.connect = orig_connect
        socket.create_connection = orig_create
        socket.getaddrinfo = orig_getaddr


def tarball(members, gz=True):
    """Build a tar archive from [(name, bytes or TarInfo)]."""
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w:gz" if gz else "w") as tar:
        for name, content in members:
            if isinstance(content, tarfile.TarInfo):
                content.name = name
                tar.addfile(content)
                continue
            info = tarfile.TarInfo(name)
            info.size = len(content)
            info.mtime = 1700000000
            info.mode = 0o644
            tar.addfile(info, io.BytesIO(content))
    return buf.getvalue()
