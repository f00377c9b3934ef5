"""Runs the Gateway driver against a scripted HTTP server."""
import collections
import os
import socket
import struct
import subprocess
import threading
import time

import pcv
import pull


def build(asan=True):
    fl = ("-O1", "-g1") + (("-fsanitize=address",) if asan else ())
    return pcv.build("pushdrv", ["core", "push"], ["pushdrv.cc"], flags=fl, link=("-lcurl",))


class Driver(pull.Driver):
    def __init__(self, exe):
        keep = dict(os.environ)
        for k in list(os.environ):
            if k.lower().endswith("_proxy"):
                del os.environ[k]
        try:
            super().__init__(exe)
        finally:
            os.environ.clear()
            os.environ.update(keep)


class Server:
    """answers each request as planned, in the order in which they arrive:
    ("status", code, body length, keep connection) or (fault kind,)"""

    def __init__(self):
        self.lock = threading.Condition()
        self.plan = collections.deque()
        self.requests = []
        self.on_request = None      # called with a record; may return an outcome
        self.conns = set()
        self.port = 0
        self.listener = None
        self.up()

    def up(self):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(("127.0.0.1", self.port))
        s.listen(64)
        self.port = s.getsockname()[1]
        self.listener = s
        threading.Thread(target=self._accept, args=(s,), daemon=True).start()

    def hang_up(self):
        """closes all connections"""
        with self.lock:
            cs = list(self.conns)
        for c in cs:
            try:
                c.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
        end = time.time() + 5
        with self.lock:
            while self.conns and time.time() < end:
                self.lock.wait(0.2)

    def down(self):
        s, self.listener = self.listener, None
        if s:
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            s.close()
        self.hang_up()

    def _accept(self, s):
        while True:
            try:
                c, _ = s.accept()
            except OSError:
                return
            with self.lock:
                self.conns.add(c)
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()

    def _serve(self, c):
        c.settimeout(60)
        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        buf, first = b"", True
        try:
            while True:
                while b"\r\n\r\n" not in buf:
                    d = c.recv(1 << 16)
                    if not d:
                        return
                    buf += d
                head, buf = buf.split(b"\r\n\r\n", 1)
                lines = head.split(b"\r\n")
                m, target, ver = (lines[0].split(b" ") + [b"", b""])[:3]
                hs = [(k.strip().decode("latin-1"), v.strip(b" \t")) for k, _, v in (l.partition(b":") for l in lines[1:])]
                low = collections.defaultdict(list)
                for k, v in hs:
                    low[k.lower()].append(v)
                if low["expect"]:
                    c.sendall(b"HTTP/1.1 100 Continue\r\n\r\n")
                ok = True
                if low["transfer-encoding"]:
                    body = b""
                    while True:
                        while b"\r\n" not in buf:
                            buf += self._more(c)
                        n, buf = buf.split(b"\r\n", 1)
                        n = int(n, 16)
                        while len(buf) < n + 2:
                            buf += self._more(c)
                        body, buf = body + buf[:n], buf[n + 2:]
                        if n == 0:
                            break
                else:
                    n = int(low["content-length"][0]) if low["content-length"] else 0
                    ok = len(low["content-length"]) <= 1
                    parts, have = [buf], len(buf)
                    while have < n:
                        d = self._more(c)
                        parts.append(d)
                        have += len(d)
                    buf = b"".join(parts)
                    body, buf = buf[:n], buf[n:]
                r = dict(method=m.decode("latin-1"), target=target, headers=hs, low=low, body=body, ok=ok, reused=not first)
                first = False
                with self.lock:
                    out = self.plan.popleft() if self.plan else ("status", 200, 0, True)
                    r["out"] = out
                    self.requests.append(r)
                    self.lock.notify_all()
                if self.on_request:
                    self.on_request(r)
                    out = r["out"]
                if not self._answer(c, out):
                    return
        except (OSError, ValueError):
            pass
        finally:
            c.close()
            with self.lock:
                self.conns.discard(c)
                self.lock.notify_all()

    def _more(self, c):
        d = c.recv(1 << 18)
        if not d:
            raise OSError("closed")
        return d

    def _answer(self, c, out):
        """False when the connection is over"""
        k = out[0]
        if k == "status":
            _, code, n, keep = out
            h = "HTTP/1.1 %03d Some Reason\r\n" % code
            if code != 204 and code != 304:
                h += "Content-Length: %d\r\n" % n
            else:
                n = 0
            if not keep:
                h += "Connection: close\r\n"
            c.sendall(h.encode() + b"\r\n" + b"x" * n)
            return keep
        if k == "reset":
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        elif k == "partial":
            c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\nonly a part")
        elif k == "garbage":
            c.sendall(b"this is not HTTP\r\n\r\n")
        elif k == "chunked":
            c.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nabc")
        elif k == "hang":
            try:
                while c.recv(1024):
                    pass
            except OSError:
                pass
        return False        # "close" and after the others
