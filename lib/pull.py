"""Runs the Exposer driver and talks HTTP to it."""
import json
import os
import queue
import select
import socket
import subprocess
import threading
import time
import zlib

import pcv


def build(asan=True):
    fl = ("-O1", "-g1") + (("-fsanitize=address",) if asan else ())
    return pcv.build("pulldrv", ["core", "pull"], ["pulldrv.cc"], flags=fl, link=("-lcivetweb-cpp", "-lcivetweb", "-lz"))


_block = None


def filler(kind, n):
    global _block
    if kind == "a":
        return "a" * n
    if kind == "0":       # with a NUL in the middle
        return "a" * (n // 2) + "\0" + "a" * (n - n // 2 - 1) if n >= 100 else "a" * n
    if _block is None:
        x, b = 12345, []
        for _ in range(70000):
            x = (x * 1664525 + 1013904223) & 0xffffffff
            c = chr(ord("0") + (x >> 24) % 64)
            b.append("z" if c == "\\" else c)
        _block = "".join(b)
    return (_block * (n // len(_block) + 1))[:n]


def block_text(cid, j, version, kind, size):
    n = "c%d_%d" % (cid, j)
    return ("# HELP %s %s\n# TYPE %s gauge\n%s %d\n" % (n, filler(kind, size), n, n, version)).encode()


class Driver:
    def __init__(self, exe):
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, bufsize=0,
                                  env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0"))
        self.n = 0
        self.log = []                # every event in order of arrival
        self.cv = threading.Condition()
        self.eof = False
        self.err = b""
        threading.Thread(target=self._read, daemon=True).start()
        threading.Thread(target=self._err, daemon=True).start()

    def _err(self):
        self.err = self.p.stderr.read()

    def _read(self):
        buf = b""
        while True:
            d = self.p.stdout.read(65536)
            if not d:
                break
            buf += d
            *ls, buf = buf.split(b"\n")
            with self.cv:
                for l in ls:
                    try:
                        self.log.append(json.loads(l))
                    except ValueError:
                        pass
                self.cv.notify_all()
        with self.cv:
            self.eof = True
            self.cv.notify_all()

    def note(self, ev):
        with self.cv:
            self.log.append(ev)
            self.cv.notify_all()

    def start(self, actor, op, **kw):
        """begins a call; returns its number"""
        with self.cv:
            self.n += 1
            n = self.n
            self.log.append(dict(call=n, op=op, **kw))
        line = "%s %d %s %s\n" % (actor, n, op, " ".join("%s=%s" % (k, v) for k, v in kw.items()))
        try:
            self.p.stdin.write(line.encode())
        except (BrokenPipeError, OSError):
            pass
        return n

    def wait(self, pred, timeout=20.0):
        """waits until pred(log) holds; False after timeout or the end of the driver"""
        end = time.time() + timeout
        with self.cv:
            while True:
                r = pred(self.log)
                if r:
                    return r
                left = end - time.time()
                if left <= 0 or self.eof:
                    return pred(self.log)
                self.cv.wait(left)

    def returned(self, n, timeout=20.0):
        return self.wait(lambda log: next((e for e in reversed(log) if e.get("ret") == n), None), timeout)

    def call(self, op, actor="M", timeout=20.0, **kw):
        return self.returned(self.start(actor, op, **kw), timeout)

    def close(self, timeout=20.0):
        """ends the driver; returns its exit status (None: had to be killed)"""
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            return self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            return None


class Response:
    """status 0: no response; .body as sent, .text decoded; .ok: framing was right"""

    def __init__(self):
        self.status, self.headers, self.body, self.extra, self.ok, self.note = 0, [], b"", 0, False, ""

    def get(self, name):
        v = [b for a, b in self.headers if a.lower() == name]
        return v[0] if len(v) == 1 else (None if not v else "\x00dup")


class Client:
    """one connection"""

    def __init__(self, port, timeout=20.0, small=False):
        host, port = port if isinstance(port, tuple) else ("127.0.0.1", port)
        self.s = socket.socket()
        self.s.settimeout(timeout)
        if small:      # little fits on the way
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        try:
            self.s.connect((host, port))
        except OSError:
            self.s.close()
            raise
        self.buf = b""

    def send(self, uri, headers=(), method="GET", keep=False):
        req = "%s %s HTTP/1.1\r\nHost: localhost\r\n" % (method, uri)
        req += "Connection: %s\r\n" % ("keep-alive" if keep else "close")
        b = req.encode("latin-1")
        for k, v in headers:
            b += k.encode() + b": " + (v if isinstance(v, bytes) else v.encode("latin-1")) + b"\r\n"
        self.s.sendall(b + b"\r\n")

    def _fill(self):
        d = self.s.recv(1 << 16)
        self.buf += d
        return len(d)

    def read(self, keep=False):
        r = Response()
        try:
            while b"\r\n\r\n" not in self.buf:
                if not self._fill():
                    r.note = "closed in the header"
                    return r
            head, self.buf = self.buf.split(b"\r\n\r\n", 1)
            lines = head.decode("latin-1").split("\r\n")
            v = lines[0].split(" ")
            if v[0] not in ("HTTP/1.1", "HTTP/1.0"):
                r.note = "bad status line"
                return r
            r.status = int(v[1])
            for l in lines[1:]:
                k, _, x = l.partition(":")
                r.headers.append((k, x.strip()))
            cl = r.get("content-length")
            if cl is None or not cl.isdigit():
                while self._fill():
                    pass
                r.body, self.buf = self.buf, b""
                r.note = "no length"
                return r
            n = int(cl)
            parts = [self.buf]
            have = len(self.buf)
            while have < n:
                d = self.s.recv(1 << 18)
                if not d:
                    break
                parts.append(d)
                have += len(d)
            self.buf = b"".join(parts)
            r.body, self.buf = self.buf[:n], self.buf[n:]
            if len(r.body) < n:
                r.note = "body too short"
                return r
            if not keep:
                while self._fill():
                    pass
                r.extra = len(self.buf)
            else:
                # anything beyond the body shows before the next request
                rd, _, _ = select.select([self.s], [], [], 0)
                if rd and self._fill():
                    pass
                r.extra = len(self.buf)
            r.ok = True
        except (OSError, ValueError) as e:
            r.note = "%s: %s" % (type(e).__name__, e)
        return r

    def close(self):
        self.s.close()


def request(port, uri, headers=(), keep=False, client=None, method="GET", wait=None):
    """wait: the client does not read before this event"""
    try:
        c = client or Client(port, small=wait is not None)
    except OSError as e:
        r = Response()
        r.note = str(e)
        return r
    try:
        c.send(uri, headers, method, keep)
        if wait is not None:
            wait.wait()
        return c.read(keep)
    except OSError as e:
        r = Response()
        r.note = str(e)
        return r
    finally:
        if client is None:
            c.close()


def decoded(r):
    """(encoding, plain bytes or None)"""
    enc = r.get("content-encoding")
    if enc is None:
        return 0, r.body
    if enc == "gzip":
        try:
            d = zlib.decompressobj(16 + zlib.MAX_WBITS)
            t = d.decompress(r.body)
            if not d.eof or d.unused_data:
                return 1, None
            return 1, t
        except zlib.error:
            return 1, None
    return 2, None


def blocks(text):
    """splits a text body at its HELP lines"""
    out = []
    i = 0
    while i < len(text):
        if not text.startswith(b"# HELP ", i):
            return None
        j = text.find(b"\n# HELP ", i)
        j = len(text) if j < 0 else j + 1
        out.append(text[i:j])
        i = j
    return out


def self_metric(b):
    """(name, {sample line name: value}) of a self-metric block"""
    ls = b.decode("latin-1").split("\n")
    if ls[-1] != "" or not ls[0].startswith("# HELP exposer_"):
        return None
    name = ls[0].split(" ")[2]
    vals = {}
    for l in ls[2:-1]:
        k, _, v = l.rpartition(" ")
        try:
            vals[k] = float(v)
        except ValueError:
            return None
    return name, vals
